module verif.local/progen

go 1.27
