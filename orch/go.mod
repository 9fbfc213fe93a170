module verif.local/orch

go 1.21
