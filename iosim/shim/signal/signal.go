package signal

import "os"

func Notify(c chan<- os.Signal, s ...os.Signal) {}
func Stop(c chan<- os.Signal)                   {}
