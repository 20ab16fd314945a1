// Package sdrv runs programs under the controlled scheduler, each in a bubble of its own, and
// records what they do.  Only test binaries can have bubbles.
package sdrv

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"verif/drv"
	"verif/vs"
)

// Log is the trace of one run.
type Log struct {
	mu sync.Mutex
	ev []drv.Ev
}

func (l *Log) Add(kv ...any) {
	e := drv.Ev{}
	for i := 0; i+1 < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

func (l *Log) Events() []drv.Ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]drv.Ev(nil), l.ev...)
}

// Pin restricts the process to one CPU when PIN is set, so that the code under test sees one CPU.
func Pin() {
	if os.Getenv("PIN") == "" {
		return
	}
	runtime.LockOSThread()
	var mask [128]byte
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(mask)), uintptr(unsafe.Pointer(&mask[0])))
	if e != 0 {
		return
	}
	var cpus []int
	for i := 0; i < int(n)*8; i++ {
		if mask[i/8]&(1<<(i%8)) != 0 {
			cpus = append(cpus, i)
		}
	}
	c := cpus[os.Getpid()%len(cpus)]
	mask = [128]byte{}
	mask[c/8] = 1 << (c % 8)
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, n, uintptr(unsafe.Pointer(&mask[0])))
	os.Unsetenv("PIN")
	syscall.Exec("/proc/self/exe", os.Args, os.Environ())
}

var forever = make(chan struct{})

// Bubble runs f in a bubble and leaves the bubble behind, frozen, when f is done.
func Bubble(t *testing.T, f func()) bool {
	done := make(chan bool, 1)
	go synctest.Test(t, func(*testing.T) {
		f()
		done <- true
		<-forever
	})
	select {
	case <-done:
		return true
	case <-time.After(60 * time.Second):
		return false
	}
}

// Item is one stimulus of a scheduling driver: a program and the schedules to run it under.
type Item struct {
	Prog  drv.Ev        `json:"prog"`
	Sched []vs.Strategy `json:"sched"`
	// Grid: run every schedule "thread 0 for i steps, thread 1 for j steps, then thread 0, then 1".
	Grid   int `json:"grid"`
	Stride int `json:"stride"` // try every so many positions only
	Off    int `json:"off"`
}

// Res is one distinct trace and the first schedule that led to it.
type Res struct {
	Trace []drv.Ev    `json:"trace"`
	Sched vs.Strategy `json:"sched"`
	N     int         `json:"n"`
}

// Runner executes a program under a schedule; it returns the trace and the scheduler (or nil).
type Runner func(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched)

// Drive reads items and writes results.
func Drive(t *testing.T, in, out string, run Runner) {
	data, err := os.ReadFile(in)
	if err != nil {
		drv.Die(err)
	}
	var items []Item
	if err := json.Unmarshal(data, &items); err != nil {
		drv.Die(err)
	}
	res := make([][]Res, len(items))
	for i, it := range items {
		seen := map[string]int{}
		one := func(st vs.Strategy) *vs.Sched {
			tr, s := run(t, it.Prog, st)
			k, err := json.Marshal(tr)
			if err != nil {
				drv.Die(err)
			}
			if j, ok := seen[string(k)]; ok {
				res[i][j].N++
				return s
			}
			seen[string(k)] = len(res[i])
			res[i] = append(res[i], Res{tr, st, 1})
			return s
		}
		for _, st := range it.Sched {
			one(st)
		}
		if it.Grid > 0 {
			grid(it, one)
		}
	}
	b, err := json.Marshal(res)
	if err != nil {
		drv.Die(err)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		drv.Die(err)
	}
}

// grid explores all schedules with at most two preemptions of two threads: a runs i steps, b runs
// j steps, a runs until it cannot, then b; and the same with a and b exchanged.  max bounds i and j.
func grid(it Item, one func(vs.Strategy) *vs.Sched) {
	max, str := it.Grid, it.Stride
	if str < 1 {
		str = 1
	}
	for a := 0; a < 2; a++ {
		b := 1 - a
		for i := it.Off % str; i < max; i += str {
			var s *vs.Sched
			for j := 1 + it.Off/str%str; j < max; j += str {
				s = one(vs.Strategy{Kind: "seg", Seg: [][]int{{a, i}, {b, j}, {a, -1}, {b, -1}}})
				if s == nil || s.SegN[1] < j {
					break
				}
			}
			if s == nil || s.SegN[0] < i {
				break
			}
		}
	}
}

func Atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(fmt.Sprint("bad number ", s))
	}
	return n
}

// ErrText is "" for nil.
func ErrText(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error"
}
