module verif.local/api

go 1.27
