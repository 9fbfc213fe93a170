package main

import "verif.local/pdrv"

func main() {
	pdrv.Main()
}
