package scheddrv

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
	vsignal "verif/vs/signal"
)

// hconn is the network's side of a connection to a server.
type hconn struct {
	w   *hworld
	id  int
	mu  sync.Mutex
	in  []byte
	out []byte
	eof bool // the client is gone
	cl  bool // the server has closed it
	rdl time.Time
	chg chan struct{}
}

func (c *hconn) changed() { // c.mu held
	close(c.chg)
	c.chg = make(chan struct{})
}

func (c *hconn) Read(b []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.cl:
			c.mu.Unlock()
			return 0, errors.New("u:closed")
		case !c.rdl.IsZero() && !time.Now().Before(c.rdl):
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		case len(c.in) > 0:
			n := copy(b, c.in)
			c.in = c.in[n:]
			c.mu.Unlock()
			return n, nil
		case c.eof:
			c.mu.Unlock()
			return 0, io.EOF
		}
		ch, dl := c.chg, c.rdl
		c.mu.Unlock()
		if dl.IsZero() {
			<-ch
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *hconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cl {
		return 0, errors.New("u:closed")
	}
	if c.eof {
		return 0, errors.New("u:broken")
	}
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *hconn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cl {
		return errors.New("u:again")
	}
	c.cl = true
	c.changed()
	n, _, _ := c.answers()
	c.w.log.Add("op", "uclose", "c", c.id, "n", n)
	return nil
}
func (c *hconn) LocalAddr() net.Addr  { return addr("server") }
func (c *hconn) RemoteAddr() net.Addr { return addr(fmt.Sprint(c.id)) }
func (c *hconn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *hconn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.changed()
	return nil
}
func (c *hconn) SetWriteDeadline(t time.Time) error { return nil }

// answers looks at what the client received: complete responses, whether one of them is wrong,
// and answers of whoever hijacked the connection (c.mu held).
func (c *hconn) answers() (n int, bad bool, pongs int) {
	rd := bytes.NewReader(c.out)
	br := bufio.NewReader(rd)
	for {
		p, _ := br.Peek(4)
		if len(p) == 0 {
			return
		}
		if string(p) == "pong" {
			b, _ := io.ReadAll(br)
			return n, bad || strings.Repeat("pong", len(b)/4) != string(b), len(b) / 4
		}
		r, err := http.ReadResponse(br, nil)
		if err != nil {
			return
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		want := fmt.Sprintf("r%d.%d", c.id, n+1)
		s := string(b)
		if r.Proto == "HTTP/1.0" && (!c.cl || len(s) < len(want)) {
			return // a response that ends with the connection
		}
		n++
		if r.StatusCode != 200 || !strings.HasPrefix(s, want) || (s != want && (len(s) != len(want)+20000 || strings.Trim(s[len(want):], "x") != "")) {
			bad = true
		}
	}
}

// hlis is the network's side of a listener.
type hlis struct {
	w     *hworld
	id    int
	kind  string // how it reports that it was closed
	q     chan *hconn
	fail  chan string
	cl    chan struct{}
	mu    sync.Mutex
	ncl   int
	errs  map[string]error
	dials int
}

type tempErr struct{}

func (tempErr) Error() string   { return "u:temporary" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func (w *hworld) lis(id int, kind string) *hlis {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l := w.ls[id]; l != nil {
		return l
	}
	if kind == "" {
		kind = "op-closed"
	}
	closed := errors.New("use of closed network connection")
	l := &hlis{w: w, id: id, kind: kind, q: make(chan *hconn, 16), fail: make(chan string, 16), cl: make(chan struct{}), errs: map[string]error{
		"op-closed":    &net.OpError{Op: "accept", Net: "tcp", Addr: addr("server"), Err: net.ErrClosed},
		"ax-closed":    &net.OpError{Op: "AcceptEx", Net: "tcp", Addr: addr("server"), Err: closed},
		"plain-closed": closed,
		"foreign":      errors.New("u:no more"),
		"boom":         errors.New("u:boom"),
		"op-boom":      &net.OpError{Op: "accept", Net: "tcp", Addr: addr("server"), Err: errors.New("u:too many files")},
		"op-read":      &net.OpError{Op: "read", Net: "tcp", Addr: addr("server"), Err: net.ErrClosed},
		"eof":          io.EOF,
		"temp":         tempErr{},
	}}
	w.ls[id] = l
	return l
}

func (l *hlis) Accept() (net.Conn, error) {
	k := l.kind
	select {
	case <-l.cl:
	default:
		select {
		case k = <-l.fail:
		case c := <-l.q:
			l.w.log.Add("op", "uaccept", "c", c.id)
			return c, nil
		case <-l.cl:
		}
	}
	l.w.log.Add("op", "uaccerr", "l", l.id, "res", k)
	return nil, l.errs[k]
}
func (l *hlis) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.ncl++
	if l.ncl > 1 {
		return errors.New("u:again")
	}
	l.w.log.Add("op", "ulclose", "l", l.id)
	close(l.cl)
	return nil
}
func (l *hlis) Addr() net.Addr { return addr("server") }

type hworld struct {
	*lworld // threads
	log     *sdrv.Log
	mu      sync.Mutex
	ls      map[int]*hlis
	conns   map[int]*hconn
	gates   map[int]chan string
	count   map[int]int
	taken   map[int]net.Conn
	srv     *graceful.Server
	orig    graceful.Server
	n       int
}

func connID(a net.Addr) int {
	id := 0
	fmt.Sscan(a.String(), &id)
	return id
}

func (w *hworld) gate(c int) chan string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gates[c] == nil {
		w.gates[c] = make(chan string, 64)
	}
	return w.gates[c]
}

func (w *hworld) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	c := 0
	fmt.Sscan(r.RemoteAddr, &c)
	kind := strings.TrimPrefix(r.URL.Path, "/")
	w.mu.Lock()
	w.count[c]++
	n := w.count[c]
	w.mu.Unlock()
	w.log.Add("op", "hstart", "c", c, "n", n, "k", kind)
	half := false
	for {
		how := <-w.gate(c)
		if how == "hij" && (half || kind == "b") || how == "panic" && half {
			how = "ok"
		}
		switch how {
		case "half":
			if half || kind == "b" {
				continue
			}
			half = true
			fmt.Fprintf(rw, "r%d.", c)
			rw.(http.Flusher).Flush()
			w.log.Add("op", "hhalf", "c", c)
		case "panic":
			w.log.Add("op", "hend", "c", c, "how", "panic")
			panic(http.ErrAbortHandler)
		case "hij":
			nc, buf, err := rw.(http.Hijacker).Hijack()
			if err != nil {
				w.log.Add("op", "hijfail", "c", c, "res", err.Error())
				return
			}
			w.mu.Lock()
			w.taken[c] = nc
			w.mu.Unlock()
			w.log.Add("op", "hij", "c", c)
			go func() {
				last := "" // (a request may be waiting in front)
				for {
					b, err := buf.ReadByte()
					if err != nil {
						return
					}
					if last += string(b); strings.HasSuffix(last, "ping") {
						io.WriteString(nc, "pong")
					}
				}
			}()
			return
		default:
			if kind == "b" {
				b, err := io.ReadAll(r.Body)
				if err == nil && string(b) != "body" {
					w.log.Add("op", "badbody", "c", c)
				}
			}
			if half {
				fmt.Fprint(rw, n)
			} else {
				fmt.Fprintf(rw, "r%d.%d", c, n)
			}
			if how == "big" {
				io.WriteString(rw, strings.Repeat("x", 20000))
			}
			w.log.Add("op", "hend", "c", c, "how", "ok")
			return
		}
	}
}

func (w *hworld) state(nc net.Conn, s http.ConnState) {
	w.log.Add("op", "cs", "c", connID(nc.RemoteAddr()), "s", s.String())
}

// same says whether the server value is as the user made it.
func (w *hworld) same() bool {
	a, b := reflect.ValueOf((*http.Server)(w.srv)).Elem(), reflect.ValueOf((*http.Server)(&w.orig)).Elem()
	for i := 0; i < a.NumField(); i++ {
		f := a.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		x, y := a.Field(i), b.Field(i)
		if f.Type.Kind() == reflect.Func {
			if x.Pointer() != y.Pointer() {
				return false
			}
		} else if f.Name == "Handler" || f.Name == "ErrorLog" || f.Name == "TLSConfig" || f.Name == "BaseContext" {
			if !x.IsNil() != !y.IsNil() || !x.IsNil() && x.Interface() != y.Interface() {
				return false
			}
		} else if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return false
		}
	}
	return true
}

var requests = map[string]string{
	"k": "GET /k HTTP/1.1\r\nHost: h\r\n\r\n",
	"c": "GET /c HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n",
	"0": "GET /0 HTTP/1.0\r\n\r\n",
	"b": "POST /b HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\n",
}

func (w *hworld) do(a string, c int, s string, sc *vs.Sched, thread int) {
	run := func(f func()) {
		if sc == nil {
			f()
		} else {
			w.thread(sc, thread, f)
		}
	}
	switch a {
	case "tick":
		for ; c > 0; c-- {
			w.log.Add("op", "tick")
			time.Sleep(unit)
			if sc != nil {
				sc.Run()
			}
			synctest.Wait()
		}
	case "raise":
		run(func() {
			w.log.Add("op", "raise")
			vsignal.Raise(os.Interrupt)
		})
	case "serve":
		l := w.lis(c, s)
		w.mu.Lock()
		w.n++
		i := w.n
		w.mu.Unlock()
		w.thread(sc, thread, func() {
			w.log.Add("op", "call", "i", i, "k", "serve", "l", c)
			var err error
			if w.srv == nil {
				err = graceful.Serve(l, w)
			} else {
				err = w.srv.Serve(l)
			}
			res := sdrv.ErrText(err)
			for k, e := range l.errs {
				if e == err {
					res = k
				}
			}
			w.log.Add("op", "ret", "i", i, "k", "serve", "res", res, "same", w.srv == nil || w.same())
		})
	case "shutdown", "now", "wait":
		w.mu.Lock()
		w.n++
		i := w.n
		w.mu.Unlock()
		w.thread(sc, thread, func() {
			w.log.Add("op", "call", "i", i, "k", a, "l", 0)
			switch a {
			case "shutdown":
				graceful.Shutdown()
			case "now":
				graceful.ShutdownNow()
			default:
				graceful.Wait()
			}
			w.log.Add("op", "ret", "i", i, "k", a, "res", "", "same", true)
		})
	case "dial":
		l := w.lis(drvAtoi(s), "")
		run(func() {
			nc := &hconn{w: w, id: c, chg: make(chan struct{})}
			w.mu.Lock()
			w.conns[c] = nc
			w.mu.Unlock()
			w.log.Add("op", "dial", "c", c, "l", l.id)
			l.q <- nc
		})
	case "lfail":
		l := w.lis(c, "")
		run(func() {
			if s != "temp" {
				w.log.Add("op", "lfail", "l", c, "kind", s)
			}
			l.fail <- s
		})
	case "fin":
		run(func() { w.gate(c) <- s })
	case "send", "cclose", "hclose":
		run(func() { w.client(a, c, s) })
	default:
		drv.Die("unknown step ", a)
	}
}

func (w *hworld) client(a string, c int, s string) {
	w.mu.Lock()
	nc, taken := w.conns[c], w.taken[c]
	w.mu.Unlock()
	if nc == nil || s == "ping" && taken == nil {
		return
	}
	if a == "hclose" {
		if taken != nil {
			w.log.Add("op", "hclose", "c", c)
			taken.Close()
		}
		return
	}
	nc.mu.Lock()
	defer nc.mu.Unlock()
	if nc.eof {
		return
	}
	if a == "cclose" {
		w.log.Add("op", "cclose", "c", c)
		nc.eof = true
		nc.changed()
		return
	}
	for _, x := range strings.Fields(s) { // several pieces in one packet
		t, k, _ := strings.Cut(x, ":")
		w.log.Add("op", "send", "c", c, "t", t, "k", k)
		q := requests[k]
		switch t {
		case "p1":
			nc.in = append(nc.in, q[:12]...)
		case "p2":
			nc.in = append(nc.in, q[12:]...)
		case "full":
			nc.in = append(nc.in, q...)
		default:
			nc.in = append(nc.in, t...)
		}
	}
	nc.changed()
}

func (w *hworld) quiet() {
	obs := []any{}
	w.mu.Lock()
	var ids []int
	for id := range w.conns {
		ids = append(ids, id)
	}
	w.mu.Unlock()
	sort.Ints(ids)
	for _, id := range ids {
		c := w.conns[id]
		c.mu.Lock()
		n, bad, pongs := c.answers()
		c.mu.Unlock()
		obs = append(obs, drv.Ev{"c": id, "n": n, "bad": bad, "pongs": pongs})
	}
	w.log.Add("op", "quiet", "obs", obs)
}

// raw serves with the user's server value directly: it must still keep connections alive.
func (w *hworld) raw() {
	lg := w.log
	w.log = &sdrv.Log{}
	l := w.lis(90, "")
	go (*http.Server)(w.srv).Serve(l)
	nc := &hconn{w: w, id: 91, chg: make(chan struct{})}
	w.conns[91] = nc
	l.q <- nc
	w.client("send", 91, "full:k")
	w.gate(91) <- "ok"
	synctest.Wait()
	nc.mu.Lock()
	n, bad, _ := nc.answers()
	ok := n == 1 && !bad && !nc.cl && !strings.Contains(strings.ToLower(string(nc.out)), "connection: close")
	nc.mu.Unlock()
	w.log = lg
	w.log.Add("op", "raw", "ok", ok)
}

func runHTTP(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	lg := &sdrv.Log{}
	var sched *vs.Sched
	ok := sdrv.Bubble(t, func() {
		w := &hworld{lworld: &lworld{}, log: lg, ls: map[int]*hlis{}, conns: map[int]*hconn{}, gates: map[int]chan string{}, count: map[int]int{}, taken: map[int]net.Conn{}}
		vsignal.ResetAll()
		graceful.VerifInit()
		http.VerifIdle = func(nc net.Conn) { w.log.Add("op", "nhidle", "c", connID(nc.RemoteAddr())) }
		synctest.Wait()
		graceful.HandleSignals()
		if !p.B("plain") {
			w.srv = &graceful.Server{Handler: w, ConnState: w.state, ErrorLog: log.New(io.Discard, "", 0)}
			w.orig = graceful.Server(http.Server{Handler: w.srv.Handler, ConnState: w.srv.ConnState, ErrorLog: w.srv.ErrorLog})
		}
		lg.Add("op", "start")
		seq := func(k string) {
			for _, x := range gsteps(p, k) {
				w.do(x.a, x.c, x.s, nil, 0)
				synctest.Wait()
				w.quiet()
			}
		}
		seq("pre")
		if par := gsteps(p, "par"); len(par) > 0 {
			sched = vs.New(st)
			for i, x := range par {
				w.do(x.a, x.c, x.s, sched, i)
			}
			if !sched.Run() {
				lg.Add("op", "hang")
			}
			sched.Release()
			synctest.Wait()
			w.quiet()
		}
		seq("post")
		if p.B("raw") && w.srv != nil {
			w.raw()
		}
	})
	if !ok {
		lg.Add("op", "hang")
	}
	return lg.Events(), sched
}
