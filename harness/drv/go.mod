module verif/drv

go 1.20
