module torture

go 1.21
