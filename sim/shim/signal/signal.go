// Package signal replaces os/signal in a simulated program.
package signal

import "aaa.verif/sim/simos"

// P is the process.
var P *simos.Proc

func Notify(c chan<- simos.Signal, sig ...simos.Signal) { P.Notify(c) }
func Stop(c chan<- simos.Signal)                        {}
func Ignore(sig ...simos.Signal)                        {}
func Reset(sig ...simos.Signal)                         {}
