module verif.local/drv

go 1.27
