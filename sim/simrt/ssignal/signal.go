// Package ssignal is the simulated os/signal: no signal arrives.
package ssignal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, s ...os.Signal) {}
func Stop(c chan<- os.Signal)                   {}
func Ignore(s ...os.Signal)                     {}
func Reset(s ...os.Signal)                      {}
func NotifyContext(p context.Context, s ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(p)
}
