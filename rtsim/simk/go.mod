module verif.local/simk

go 1.27
