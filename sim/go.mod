module verif/sim

go 1.21
