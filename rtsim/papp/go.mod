module verif.local/app

go 1.27

require (
	github.com/xhd2015/xgo/runtime v0.0.0
	verif.local/orig v0.0.0
	verif.local/pdrv v0.0.0
	verif.local/pt v0.0.0
	verif.local/simk v0.0.0
	verif.local/simrt v0.0.0
)

replace (
	github.com/xhd2015/xgo/runtime => ../runtime
	verif.local/app => ../app
	verif.local/orig => ../orig
	verif.local/pdrv => ../pdrv
	verif.local/pt => ../pt
	verif.local/simk => ../simk
	verif.local/simrt => ../simrt
)
