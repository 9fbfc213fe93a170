package main

import "verif.local/drv"

func main() {
	drv.Main()
}
