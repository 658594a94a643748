module github.com/edsrzf/mmap-go

go 1.21
