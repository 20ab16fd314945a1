package scheddrv

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful/listener"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
)

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

type feed struct {
	data []byte
	err  error
}

// fakeConn is the world's side of a connection.
type fakeConn struct {
	w        *lworld
	id       int
	stubborn bool // a blocked read survives Close
	q        chan feed
	closed   chan struct{}
	mu       sync.Mutex
	ncl      int
	got      []byte
	dl, wdl  time.Time
	rdl      time.Time
	cerr     error
}

func (c *fakeConn) Read(b []byte) (int, error) {
	var f feed
	cl := c.closed
	if c.stubborn {
		cl = nil
	}
	select {
	case f = <-c.q:
	default:
		select {
		case f = <-c.q:
		case <-cl:
			f.err = errors.New("u:closed")
		}
	}
	n := copy(b, f.data)
	c.w.log.Add("op", "uread", "i", c.w.who("read", c.id), "n", n, "res", sdrv.ErrText(f.err))
	return n, f.err
}
func (c *fakeConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, b...)
	return len(b), nil
}
func (c *fakeConn) Close() error {
	c.mu.Lock()
	c.ncl++
	err := c.cerr
	if c.ncl == 1 {
		close(c.closed)
	} else {
		err = errors.New("u:again")
	}
	c.w.log.Add("op", "uclose", "c", c.id, "res", sdrv.ErrText(err))
	c.mu.Unlock()
	return err
}
func (c *fakeConn) LocalAddr() net.Addr  { return addr(fmt.Sprint("l", c.id)) }
func (c *fakeConn) RemoteAddr() net.Addr { return addr(fmt.Sprint("r", c.id)) }
func (c *fakeConn) SetDeadline(t time.Time) error {
	c.dl = t
	return nil
}
func (c *fakeConn) SetReadDeadline(t time.Time) error {
	var err error
	if c.id == 2 {
		err = errors.New("u:deadline")
	}
	c.w.log.Add("op", "usrd", "i", c.w.who("srd", c.id), "res", sdrv.ErrText(err))
	return err
}
func (c *fakeConn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	return nil
}

type lworld struct {
	log      *sdrv.Log
	l        *listener.T
	q        chan *fakeConn
	lcl      chan struct{}
	mu       sync.Mutex
	nclose   int
	stubborn []bool
	conns    map[int]*fakeConn
	handed   map[int]net.Conn
	n        int
	owner    map[uint64]int // goroutine -> op
	kind     map[int]string // pending ops
	on       map[int]int
}

func (w *lworld) Accept() (net.Conn, error) {
	select {
	case c := <-w.q:
		w.log.Add("op", "uaccept", "i", w.who("accept", 0), "c", c.id)
		return c, nil
	case <-w.lcl:
		w.log.Add("op", "uaccerr", "i", w.who("accept", 0), "res", "u:lclosed")
		return nil, errors.New("u:lclosed")
	}
}
func (w *lworld) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nclose++
	if w.nclose == 1 {
		close(w.lcl)
	}
	return nil
}
func (w *lworld) Addr() net.Addr { return addr("listener") }

// who is the operation of kind k on connection c which runs on this goroutine, or else any.
func (w *lworld) who(k string, c int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if i, ok := w.owner[vs.Goid()]; ok && w.kind[i] == k {
		return i
	}
	for i := 1; i <= w.n; i++ {
		if w.kind[i] == k && w.on[i] == c {
			return i
		}
	}
	return 0
}

// begin starts one operation (or answer of the world) on a goroutine of its own.
func (w *lworld) begin(a string, c int, s *vs.Sched, thread int) {
	w.mu.Lock()
	wc := w.handed[c]
	fc := w.conns[c]
	needs := map[string]bool{"read": true, "close": true, "disown": true, "use": true, "idle": true, "srd": true, "misc": true}[a]
	if needs && wc == nil || (a == "feed" || a == "feederr") && fc == nil {
		w.mu.Unlock()
		return
	}
	switch a {
	case "feed", "feederr":
		w.mu.Unlock()
		f := feed{data: []byte(fmt.Sprint("d", c, "."))}
		if a == "feederr" {
			f = feed{err: io.EOF}
			if c == 2 {
				f = feed{err: errors.New("u:timeout"), data: []byte("x")}
			}
		}
		put := func() {
			select {
			case fc.q <- f:
			default:
			}
		}
		if s == nil {
			put()
		} else {
			w.thread(s, thread, put)
		}
		return
	case "misc":
		w.mu.Unlock()
		w.misc(wc, fc)
		return
	case "foreign":
		w.mu.Unlock()
		w.foreign()
		return
	}
	w.n++
	i := w.n
	if a == "accept" && w.conns[c] == nil {
		fc = &fakeConn{w: w, id: c, stubborn: w.stub(c), q: make(chan feed, 4), closed: make(chan struct{})}
		if c%2 == 0 {
			fc.cerr = errors.New("u:close")
		}
		w.conns[c] = fc
		w.q <- fc
	}
	cc := c
	if a == "accept" {
		cc = 0
	}
	w.mu.Unlock()
	w.thread(s, thread, func() {
		w.mu.Lock()
		w.owner[vs.Goid()] = i
		w.kind[i], w.on[i] = a, cc
		w.mu.Unlock()
		w.log.Add("op", "call", "i", i, "k", a, "c", cc)
		defer func() {
			w.mu.Lock()
			delete(w.kind, i)
			delete(w.owner, vs.Goid())
			w.mu.Unlock()
			if r := recover(); r != nil {
				w.log.Add("op", "panic", "i", i, "msg", fmt.Sprint(r))
			}
		}()
		var err error
		n := 0
		switch a {
		case "accept":
			var nc net.Conn
			nc, err = w.l.Accept()
			if err == nil {
				w.mu.Lock()
				for id, f := range w.conns {
					if f.LocalAddr() == nc.LocalAddr() {
						w.handed[id] = nc
					}
				}
				w.mu.Unlock()
			}
		case "read":
			b := make([]byte, 16)
			n, err = wc.Read(b)
			if err == nil && n >= 0 && string(b[:n]) != fmt.Sprint("d", c, ".") {
				n = -1
			}
		case "close":
			err = wc.Close()
		case "disown":
			err = listener.Disown(wc)
		case "use":
			err = listener.MarkInUse(wc)
		case "idle":
			err = listener.MarkIdle(wc)
		case "srd":
			err = wc.SetReadDeadline(time.Now().Add(time.Minute))
		case "closeidle":
			err = w.l.CloseIdle()
		case "drain":
			err = w.l.Drain()
		case "drainall":
			err = w.l.DrainAll()
		case "lclose":
			err = w.l.Close()
		}
		w.log.Add("op", "ret", "i", i, "res", sdrv.ErrText(err), "n", n)
	})
}

func (w *lworld) thread(s *vs.Sched, thread int, f func()) {
	if s == nil {
		go f()
		return
	}
	ready := make(chan uint64)
	go func() {
		ready <- vs.Goid()
		vs.Yield()
		f()
	}()
	s.Thread(<-ready, thread)
}

func (w *lworld) stub(c int) bool { return w.stubborn[c%len(w.stubborn)] }

func (w *lworld) misc(wc net.Conn, fc *fakeConn) {
	now := time.Now()
	_, e1 := wc.Write([]byte("ab"))
	e2 := wc.SetDeadline(now.Add(1))
	e3 := wc.SetWriteDeadline(now.Add(2))
	_, e4 := io.Copy(wc, struct{ io.Reader }{io.LimitReader(zeros{}, 3)})
	fc.mu.Lock()
	ok := e1 == nil && e2 == nil && e3 == nil && e4 == nil && string(fc.got) == "ab000" && fc.dl.Equal(now.Add(1)) && fc.wdl.Equal(now.Add(2)) &&
		wc.LocalAddr() == fc.LocalAddr() && wc.RemoteAddr() == fc.RemoteAddr()
	fc.got = nil
	fc.mu.Unlock()
	w.log.Add("op", "misc", "c", fc.id, "ok", ok)
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = '0'
	}
	return len(b), nil
}

type wrapped struct{ net.Conn }

func (w *lworld) foreign() {
	ok := true
	fc := &fakeConn{w: w, id: 99, q: make(chan feed, 4), closed: make(chan struct{})}
	cs := []net.Conn{fc, wrapped{fc}, nil}
	for _, h := range w.handed {
		cs = append(cs, wrapped{h}, &wrapped{h})
	}
	for _, c := range cs {
		for _, f := range []func(net.Conn) error{listener.Disown, listener.MarkIdle, listener.MarkInUse} {
			if f(c) == nil {
				ok = false
			}
		}
	}
	w.log.Add("op", "foreign", "ok", ok && fc.ncl == 0)
}

func steps(p drv.Ev, k string) (r [][2]any) {
	for _, x := range p.L(k) {
		l := x.([]any)
		r = append(r, [2]any{l[0].(string), int(l[1].(float64))})
	}
	return
}

func runListener(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	log := &sdrv.Log{}
	var sched *vs.Sched
	ok := sdrv.Bubble(t, func() {
		w := &lworld{log: log, q: make(chan *fakeConn, 16), lcl: make(chan struct{}), conns: map[int]*fakeConn{},
			handed: map[int]net.Conn{}, owner: map[uint64]int{}, kind: map[int]string{}, on: map[int]int{}}
		for _, b := range p.L("stubborn") {
			w.stubborn = append(w.stubborn, b.(bool))
		}
		mode := listener.Manual
		switch p.S("mode") {
		case "auto":
			mode = listener.Automatic
		case "deadline":
			mode = listener.Deadline
		}
		log.Add("op", "mode", "mode", p.S("mode"))
		w.l = listener.Wrap(w, mode)
		seq := func(k string) {
			for _, x := range steps(p, k) {
				w.begin(x[0].(string), x[1].(int), nil, 0)
				synctest.Wait()
				log.Add("op", "quiet")
			}
		}
		seq("pre")
		if par := steps(p, "par"); len(par) > 0 {
			sched = vs.New(st)
			for i, x := range par {
				w.begin(x[0].(string), x[1].(int), sched, i)
			}
			if !sched.Run() {
				log.Add("op", "hang")
			}
			sched.Release()
			synctest.Wait()
			log.Add("op", "quiet")
		}
		seq("post")
	})
	if !ok {
		log.Add("op", "hang")
	}
	return log.Events(), sched
}
