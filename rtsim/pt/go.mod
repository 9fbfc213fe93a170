module verif.local/pt

go 1.27

require (
	verif.local/simk v0.0.0
	verif.local/simrt v0.0.0
)

replace (
	verif.local/simk => ../simk
	verif.local/simrt => ../simrt
)
