module verif.local/app

go 1.27

require (
	github.com/xhd2015/xgo/runtime v0.0.0
	verif.local/api v0.0.0
	verif.local/drv v0.0.0
	verif.local/simk v0.0.0
	verif.local/simrt v0.0.0
)

replace (
	github.com/xhd2015/xgo/runtime => ../runtime
	verif.local/api => ../api
	verif.local/app => ../app
	verif.local/drv => ../drv
	verif.local/simk => ../simk
	verif.local/simrt => ../simrt
)
