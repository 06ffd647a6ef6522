// Package simsignal is os/signal on the simulated system: the only signal it
// knows is the SIGPIPE of a write to a closed pipe.
package simsignal

import (
	"context"
	"os"
	"syscall"

	"verif/simos"
)

func has(sig []os.Signal) bool {
	for _, s := range sig {
		if s == syscall.SIGPIPE {
			return true
		}
	}
	return len(sig) == 0
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if has(sig) {
		simos.PipeSignal = func() {
			select {
			case c <- syscall.SIGPIPE:
			default:
			}
		}
	}
}

func Ignore(sig ...os.Signal) {
	if has(sig) {
		simos.PipeSignal = func() {}
	}
}

func Ignored(sig os.Signal) bool { return sig == syscall.SIGPIPE && simos.PipeSignal != nil }
func Reset(sig ...os.Signal) {
	if has(sig) {
		simos.PipeSignal = nil
	}
}
func Stop(c chan<- os.Signal) { simos.PipeSignal = nil }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	if has(sig) {
		simos.PipeSignal = cancel
	}
	return ctx, cancel
}
