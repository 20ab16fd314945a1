package scheddrv

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
	vsignal "verif/vs/signal"
)

const unit = 500 * time.Millisecond

// glis is the world's side of one listener.
type glis struct {
	w   *gworld
	id  int
	q   chan *fakeConn
	cl  chan struct{}
	mu  sync.Mutex
	ncl int
}

func (l *glis) Accept() (net.Conn, error) {
	select {
	case <-l.cl:
	default:
		select {
		case c := <-l.q:
			l.w.log.Add("op", "uaccept", "i", l.w.who("accept", 0), "c", c.id)
			return c, nil
		case <-l.cl:
		}
	}
	l.w.log.Add("op", "uaccerr", "i", l.w.who("accept", 0), "res", "u:lclosed")
	return nil, errors.New("u:lclosed")
}
func (l *glis) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.ncl++
	if l.ncl == 1 {
		close(l.cl)
		l.w.log.Add("op", "ulclose", "l", l.id)
		return nil
	}
	return errors.New("u:again")
}
func (l *glis) Addr() net.Addr { return addr(fmt.Sprint("listener", l.id)) }

// gworld drives package graceful.
type gworld struct {
	*lworld
	ls   map[int]*glis
	wl   map[int]net.Listener
	mode string
	pre  bool // hand over listeners that are already wrapped
}

var sigs = map[string]os.Signal{"int": os.Interrupt, "usr2": syscall.SIGUSR2, "hup": syscall.SIGHUP}

func sigName(s os.Signal) string {
	for n, x := range sigs {
		if x == s {
			return n
		}
	}
	if s == nil {
		return ""
	}
	return s.String()
}

// do starts a step on a goroutine of its own; raise and tick are the root's business.
func (w *gworld) do(a string, c int, s string, sc *vs.Sched, thread int) {
	switch a {
	case "use", "idle", "read", "feed", "feederr", "close", "disown", "srd", "misc":
		w.begin(a, c, sc, thread)
		return
	case "raise":
		f := func() {
			w.log.Add("op", "raise", "s", s)
			vsignal.Raise(sigs[s])
		}
		if sc == nil {
			f()
		} else {
			w.thread(sc, thread, f)
		}
		return
	case "tick":
		for ; c > 0; c-- {
			w.log.Add("op", "tick")
			time.Sleep(unit)
			if sc != nil {
				sc.Run()
			}
			synctest.Wait()
		}
		return
	}
	w.mu.Lock()
	w.n++
	i := w.n
	w.mu.Unlock()
	w.thread(sc, thread, func() { w.op(i, a, c, s) })
}

// op makes one call, on this goroutine.
func (w *gworld) op(i int, a string, c int, s string) {
	w.mu.Lock()
	w.owner[vs.Goid()] = i
	w.kind[i], w.on[i] = a, 0
	l := w.ls[c]
	w.mu.Unlock()
	lc := 0 // the number in the log
	switch a {
	case "dk", "to", "wrap", "prehook", "posthook":
		lc = c
	}
	ls := ""
	if a == "addsig" {
		ls = s
	}
	if a == "wrap" && l == nil {
		l = &glis{w: w, id: c, q: make(chan *fakeConn, 8), cl: make(chan struct{})}
		w.mu.Lock()
		w.ls[c] = l
		w.mu.Unlock()
	}
	w.log.Add("op", "call", "i", i, "k", a, "c", lc, "s", ls)
	res := ""
	switch a {
	case "dk":
		graceful.DoubleKickWindow(time.Duration(c) * unit)
	case "to":
		graceful.Timeout(time.Duration(c) * unit)
	case "addsig":
		if s == "int" && i%2 == 0 {
			graceful.HandleSignals()
		} else {
			graceful.AddSignal(sigs[s])
		}
	case "resetsig":
		graceful.ResetSignals()
	case "prehook", "posthook":
		w.hook(a, c, s)
	case "wrap":
		var nl net.Listener = l
		switch w.mode {
		case "manual":
			nl = listener.Wrap(l, listener.Manual)
		case "auto":
			nl = listener.Wrap(l, listener.Automatic)
		default:
			if w.pre {
				nl = listener.Wrap(l, listener.Deadline)
			}
		}
		x := graceful.WrapListener(nl)
		w.mu.Lock()
		w.wl[c] = x
		w.mu.Unlock()
	case "shutdown":
		graceful.Shutdown()
	case "now":
		graceful.ShutdownNow()
	case "wait":
		graceful.Wait()
	case "accept":
		w.mu.Lock()
		x := w.wl[drvAtoi(s)]
		gl := w.ls[drvAtoi(s)]
		fc := &fakeConn{w: w.lworld, id: c, stubborn: w.stub(c), q: make(chan feed, 4), closed: make(chan struct{})}
		w.conns[c] = fc
		w.mu.Unlock()
		if gl == nil || x == nil {
			res = "no listener"
			break
		}
		gl.q <- fc
		nc, err := x.Accept()
		if err == nil {
			w.mu.Lock()
			for id, f := range w.conns {
				if f.LocalAddr() == nc.LocalAddr() {
					w.handed[id] = nc
				}
			}
			w.mu.Unlock()
		}
		res = sdrv.ErrText(err)
	default:
		drv.Die("unknown step ", a)
	}
	w.mu.Lock()
	delete(w.kind, i)
	delete(w.owner, vs.Goid())
	w.mu.Unlock()
	w.log.Add("op", "ret", "i", i, "res", res)
}

func drvAtoi(s string) int {
	if s == "" {
		return 1
	}
	return sdrv.Atoi(s)
}

// hook registers hook h; what it does beyond being recorded is in how.
func (w *gworld) hook(a string, h int, how string) {
	ev := map[string]string{"prehook": "pre", "posthook": "post"}[a]
	body := func(sig string) {
		w.log.Add("op", ev, "h", h, "sig", sig)
		for _, x := range how {
			switch x {
			case 'w': // takes its time
				w.log.Add("op", "hooksleep", "h", h)
				time.Sleep(unit)
				w.log.Add("op", "hookwake", "h", h)
			case 'p', 'q', 't', 'k':
				w.mu.Lock()
				w.n++
				i := w.n
				w.mu.Unlock()
				switch x {
				case 'p':
					w.op(i, "prehook", h+100, "")
				case 'q':
					w.op(i, "posthook", h+200, "")
				case 't':
					w.op(i, "to", -1, "")
				case 'k':
					w.op(i, "dk", -1, "")
				}
			case 's', 'n':
				w.mu.Lock()
				w.n++
				i := w.n
				w.mu.Unlock()
				go w.op(i, map[rune]string{'s': "shutdown", 'n': "now"}[x], 0, "")
			}
		}
		w.log.Add("op", "hookend", "h", h)
	}
	plain := h%2 == 0
	switch {
	case ev == "pre" && plain:
		graceful.PreHook(func() { body("-") })
	case ev == "pre":
		graceful.PreHookWithSignal(func(s os.Signal) { body(sigName(s)) })
	case plain:
		graceful.PostHook(func() { body("-") })
	default:
		graceful.PostHookWithSignal(func(s os.Signal) { body(sigName(s)) })
	}
}

type gstep struct {
	a string
	c int
	s string
}

func gsteps(p drv.Ev, k string) (r []gstep) {
	for _, x := range p.L(k) {
		l := x.([]any)
		r = append(r, gstep{l[0].(string), int(l[1].(float64)), l[2].(string)})
	}
	return
}

func runGraceful(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	log := &sdrv.Log{}
	var sched *vs.Sched
	ok := sdrv.Bubble(t, func() {
		lw := &lworld{log: log, conns: map[int]*fakeConn{}, handed: map[int]net.Conn{}, owner: map[uint64]int{}, kind: map[int]string{}, on: map[int]int{}}
		for _, b := range p.L("stubborn") {
			lw.stubborn = append(lw.stubborn, b.(bool))
		}
		w := &gworld{lworld: lw, ls: map[int]*glis{}, wl: map[int]net.Listener{}, mode: p.S("mode"), pre: p.B("prewrap")}
		vsignal.ResetAll()
		graceful.VerifInit()
		synctest.Wait()
		log.Add("op", "mode", "mode", p.S("mode"))
		seq := func(k string) {
			for _, x := range gsteps(p, k) {
				w.do(x.a, x.c, x.s, nil, 0)
				synctest.Wait()
				log.Add("op", "quiet")
			}
		}
		seq("pre")
		if par := gsteps(p, "par"); len(par) > 0 {
			sched = vs.New(st)
			for i, x := range par {
				w.do(x.a, x.c, x.s, sched, i)
			}
			if !sched.Run() {
				log.Add("op", "hang")
			}
			sched.Release()
			synctest.Wait()
			log.Add("op", "quiet")
		}
		seq("post")
	})
	if !ok {
		log.Add("op", "hang")
	}
	return log.Events(), sched
}
