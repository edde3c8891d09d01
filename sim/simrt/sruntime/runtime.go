// Package sruntime holds the simulated parts of package runtime.
package sruntime

import "simrt"

func NumCPU() int           { return 4 }
func GOMAXPROCS(n int) int  { return 4 }
func Gosched()              { simrt.SP() }
func NumGoroutine() int     { return 1 + len(simrt.W.Live()) }
func SetFinalizer(a, b any) {}
func GC()                   {}
