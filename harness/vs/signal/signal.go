// Package signal stands in for os/signal in rewritten sources: Raise delivers a signal to whoever
// asked for it, as the operating system would.
package signal

import (
	"context"
	"os"
	"sync"
)

var (
	mu   sync.Mutex
	subs = map[chan<- os.Signal]map[os.Signal]bool{} // nil: all
	off  = map[os.Signal]bool{}
)

// Reset forgets everything (a fresh process).
func ResetAll() {
	mu.Lock()
	defer mu.Unlock()
	subs = map[chan<- os.Signal]map[os.Signal]bool{}
	off = map[os.Signal]bool{}
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	mu.Lock()
	defer mu.Unlock()
	m, ok := subs[c]
	if !ok {
		m = map[os.Signal]bool{}
		subs[c] = m
	}
	if len(sig) == 0 {
		m[nil] = true
	}
	for _, s := range sig {
		m[s] = true
	}
}

func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	delete(subs, c)
}

func Ignore(sig ...os.Signal) { Reset(sig...) }

func Ignored(sig os.Signal) bool { return false }

func Reset(sig ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	for _, m := range subs {
		if len(sig) == 0 {
			clear(m)
		}
		for _, s := range sig {
			delete(m, s)
		}
	}
}

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	go func() {
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
		Stop(c)
	}()
	return ctx, cancel
}

// Raise delivers s; the result says whether anybody had asked for it (otherwise the process
// would have been killed by most signals).
func Raise(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	any := false
	for c, m := range subs {
		if m[s] || m[nil] {
			any = true
			select {
			case c <- s:
			default:
			}
		}
	}
	return any
}
