module verif.local/pdrv

go 1.27
