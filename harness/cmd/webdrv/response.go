package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
	"verif/drv"
)

// A client's own response writer, which behaves like net/http's.
type fakeW struct {
	h        http.Header
	status   int
	hdr      http.Header
	body     []byte
	cap      int
	infos    []int
	flushes  int
	pushes   []string
	hijacked bool
	pushErr  bool
}

var errFull = errors.New("no more room")

func (f *fakeW) Header() http.Header { return f.h }
func (f *fakeW) WriteHeader(code int) {
	if f.hijacked || f.status != 0 {
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code < 200 && code != 101 {
		f.infos = append(f.infos, code)
		return
	}
	f.status = code
	f.hdr = f.h.Clone()
}
func (f *fakeW) Write(b []byte) (int, error) {
	if f.hijacked {
		return 0, http.ErrHijacked
	}
	f.WriteHeader(200)
	if len(b) == 0 {
		return 0, nil
	}
	if f.status < 200 || f.status == 204 || f.status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	n := min(len(b), max(0, f.cap-len(f.body)))
	f.body = append(f.body, b[:n]...)
	if n < len(b) {
		return n, errFull
	}
	return n, nil
}

type fFlush struct{ *fakeW }
type fHijack struct{ *fakeW }
type fFrom struct{ *fakeW }
type fPush struct{ *fakeW }

func (f fFlush) Flush() {
	if f.hijacked {
		return
	}
	f.WriteHeader(200)
	f.flushes++
}
func (f fHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if f.hijacked {
		return nil, nil, http.ErrHijacked
	}
	f.hijacked = true
	return nil, nil, nil
}
func (f fFrom) ReadFrom(r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, err2 := f.Write(buf[:n])
			total += int64(k)
			if err2 != nil {
				return total, err2
			}
		}
		if err == io.EOF {
			return total, nil
		} else if err != nil {
			return total, err
		}
	}
}

var errPush = errors.New("push failed")

func (f fPush) Push(target string, opts *http.PushOptions) error {
	f.pushes = append(f.pushes, target)
	if f.pushErr {
		return errPush
	}
	return nil
}

type rw = http.ResponseWriter

func (f *fakeW) as(fl, hj, rf, pu bool) http.ResponseWriter {
	F, H, R, P := fFlush{f}, fHijack{f}, fFrom{f}, fPush{f}
	type fi = http.Flusher
	type hi = http.Hijacker
	type ri = io.ReaderFrom
	type pi = http.Pusher
	k := 0
	for i, b := range []bool{fl, hj, rf, pu} {
		if b {
			k |= 1 << i
		}
	}
	switch k {
	case 0:
		return struct{ rw }{f}
	case 1:
		return struct {
			rw
			fi
		}{f, F}
	case 2:
		return struct {
			rw
			hi
		}{f, H}
	case 3:
		return struct {
			rw
			fi
			hi
		}{f, F, H}
	case 4:
		return struct {
			rw
			ri
		}{f, R}
	case 5:
		return struct {
			rw
			fi
			ri
		}{f, F, R}
	case 6:
		return struct {
			rw
			hi
			ri
		}{f, H, R}
	case 7:
		return struct {
			rw
			fi
			hi
			ri
		}{f, F, H, R}
	case 9:
		return struct {
			rw
			fi
			pi
		}{f, F, P}
	case 11:
		return struct {
			rw
			fi
			hi
			pi
		}{f, F, H, P}
	case 13:
		return struct {
			rw
			fi
			ri
			pi
		}{f, F, R, P}
	case 15:
		return struct {
			rw
			fi
			hi
			ri
			pi
		}{f, F, H, R, P}
	}
	drv.Die("no such writer", k)
	return nil
}

// A source without any shortcut, in pieces, which may fail at its end.
type source struct {
	s    string
	step int
	fail bool
}

func (s *source) Read(b []byte) (int, error) {
	if s.s == "" {
		if s.fail {
			return 0, errors.New("source failed")
		}
		return 0, io.EOF
	}
	n := copy(b[:min(len(b), max(1, s.step))], s.s)
	s.s = s.s[n:]
	if s.s == "" && !s.fail && s.step%2 == 1 {
		return n, io.EOF
	}
	return n, nil
}

// The log, and what is in it.
type logTap struct {
	mu sync.Mutex
	f  func(string)
}

var tap logTap

func (t *logTap) Write(b []byte) (int, error) {
	t.mu.Lock()
	f := t.f
	t.mu.Unlock()
	if f != nil {
		f(string(b))
	}
	return len(b), nil
}

var tapOnce sync.Once

func tapLog() {
	tapOnce.Do(func() {
		log.SetFlags(0)
		log.SetOutput(&tap)
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = null // for debug.PrintStack
		}
	})
}

var reEnd = regexp.MustCompile(`(?s)^(?:\[(.*?)\] )?Returning (\d+) in `)
var reStart = regexp.MustCompile(`(?s)^(?:\[(.*?)\] )?Started (\S+) (".*") from `)
var rePanic = regexp.MustCompile(`(?s)^(?:\[(.*?)\] )?panic: `)

type wlayer struct {
	p    mutil.WriterProxy
	tees map[string]*bytes.Buffer
}

type respRun struct {
	mu     sync.Mutex
	tr     []drv.Ev
	rq     drv.Ev
	layers []string
	ws     []*wlayer
	ids    map[string]string // request ID -> symbol
	how    string
	hij    bool
	prog   []drv.Ev
	end    string // how the handler ends
	url    string
	method string
}

func (x *respRun) emit(e drv.Ev) {
	x.mu.Lock()
	x.tr = append(x.tr, e)
	x.mu.Unlock()
}

func (x *respRun) line(s string) {
	e := drv.Ev{"op": "log", "status": 0}
	if m := reStart.FindStringSubmatch(s); m != nil {
		e["what"], e["rawid"] = "start", m[1]
		if m[2] != x.method || m[3] != strconv.Quote(x.url) {
			e["what"] = "start of " + m[2] + " " + m[3]
		}
	} else if m := reEnd.FindStringSubmatch(s); m != nil {
		e["what"], e["rawid"] = "end", m[1]
		e["status"], _ = strconv.Atoi(m[2])
	} else if m := rePanic.FindStringSubmatch(s); m != nil {
		e["what"], e["rawid"] = "panic", m[1]
	} else if strings.HasPrefix(s, "http: ") { // net/http itself
		return
	} else {
		e["what"], e["rawid"] = "other", ""
	}
	x.emit(e)
}

func (x *respRun) acct() []any {
	l := []any{}
	for _, w := range x.ws {
		t := map[string]string{}
		for k, b := range w.tees {
			t[k] = b.String()
		}
		l = append(l, drv.Ev{"status": w.p.Status(), "bytes": w.p.BytesWritten(), "tees": drv.SortedPairs(t)})
	}
	return l
}

type weird struct{ s string }

func (w weird) String() string { panic("String panics") }

type errval struct{}

func (*errval) Error() string { return "errval" }

func throw(kind string) {
	switch kind {
	case "error":
		panic(errors.New("an error %d"))
	case "abort":
		panic(http.ErrAbortHandler)
	case "weird":
		panic(weird{"x"})
	case "nilptr":
		var p *errval
		panic(p)
	case "runtime":
		var m map[string]int
		m["x"] = 1
	case "index":
		var s []int
		_ = s[len(s)]
	case "int":
		panic(42)
	case "struct":
		panic(struct{ A, B int }{1, 2})
	case "empty":
		panic("")
	case "func":
		panic(func() {})
	}
	panic("boom 100%")
}

// one operation on the writer
func (x *respRun) do(w http.ResponseWriter, o drv.Ev) {
	e := drv.Ev{"op": "do", "o": o["o"], "s": o.S("s"), "n": o.I("n"), "impl": true, "rn": 0, "rerr": false, "rpanic": false}
	var thrown any
	func() {
		defer func() {
			if p := recover(); p != nil {
				thrown = p
				e["rpanic"] = true
			}
		}()
		var n int
		var err error
		s := o.S("s")
		switch o.S("o") {
		case "hset":
			w.Header().Set(s, fmt.Sprint(o.I("n")))
		case "hdel":
			w.Header().Del(s)
		case "wh":
			w.WriteHeader(o.I("n"))
		case "write":
			n, err = w.Write([]byte(s))
		case "wstr":
			n, err = io.WriteString(w, s)
		case "copy":
			var k int64
			k, err = io.Copy(w, &source{s: s, step: o.I("step"), fail: o.I("n") == 1})
			n = int(k)
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			} else {
				e["impl"] = false
			}
		case "push":
			if f, ok := w.(http.Pusher); ok {
				err = f.Push(s, nil)
			} else {
				e["impl"] = false
			}
		case "hijack":
			if f, ok := w.(http.Hijacker); ok {
				var c net.Conn
				c, _, err = f.Hijack()
				if err == nil {
					x.hij = true
					if c != nil {
						c.Close()
					}
				}
			} else {
				e["impl"] = false
			}
		case "tee":
			wl := x.wlayer(o.I("n"))
			if s == "" {
				wl.p.Tee(nil)
			} else {
				if wl.tees[s] == nil {
					wl.tees[s] = &bytes.Buffer{}
				}
				wl.p.Tee(wl.tees[s])
			}
		case "panic":
			throw(s)
		}
		e["rn"], e["rerr"] = n, err != nil
	}()
	e["acct"] = x.acct()
	x.emit(e)
	if thrown != nil {
		panic(thrown)
	}
}

func (x *respRun) wlayer(i int) *wlayer { // the W layer at position i (1-based)
	k := 0
	for j := 0; j < i; j++ {
		if x.layers[j] == "W" {
			k++
		}
	}
	return x.ws[k-1]
}

func (x *respRun) handler(w http.ResponseWriter, r *http.Request) {
	how := "pan"
	defer func() { x.emit(drv.Ev{"op": "leave", "how": how}) }()
	for _, o := range x.prog {
		x.do(w, o)
	}
	if x.end == "pan" {
		throw("")
	}
	how = "ret"
}

func (x *respRun) mux() *web.Mux {
	m := web.New()
	for i, k := range x.layers {
		switch k {
		case "L":
			m.Use(middleware.Logger)
		case "R":
			m.Use(middleware.Recoverer)
		case "A":
			m.Use(middleware.AutomaticOptions)
		case "I":
			m.Use(middleware.RequestID)
			m.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					x.mu.Lock()
					x.ids[middleware.GetReqID(*c)] = fmt.Sprintf("id%d", i+1)
					x.mu.Unlock()
					h.ServeHTTP(w, r)
				})
			})
		case "W":
			m.Use(func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					p := mutil.WrapWriter(w)
					x.ws = append(x.ws, &wlayer{p, map[string]*bytes.Buffer{}})
					h.ServeHTTP(p, r)
				})
			})
		case "B":
			m.Use(func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					x.emit(drv.Ev{"op": "leave", "how": "pan"})
					throw("error")
				})
			})
		case "Z":
			m.Use(func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					h.ServeHTTP(w, r)
					throw("weird")
				})
			})
		}
	}
	own := func(w http.ResponseWriter, r *http.Request) { x.handler(w, r) }
	add := map[string]func(web.PatternType, web.HandlerType){"CONNECT": m.Connect, "DELETE": m.Delete, "GET": m.Get,
		"HEAD": m.Head, "OPTIONS": m.Options, "PATCH": m.Patch, "POST": m.Post, "PUT": m.Put, "TRACE": m.Trace}
	for _, r := range x.rq.L("routes") {
		add[r.(string)]("/p", own)
	}
	m.NotFound(own)
	return m
}

func tracked(h http.Header) map[string]string {
	m := map[string]string{}
	for _, k := range []string{"X-A", "X-B", "Allow", "Content-Length", "Content-Type", "X-Content-Type-Options"} {
		if v, ok := h[http.CanonicalHeaderKey(k)]; ok {
			m[k] = strings.Join(v, "|")
			if k == "Allow" {
				if _, err := strconv.Atoi(m[k]); err != nil {
					m[k] = "*"
				}
			}
		}
	}
	return m
}

func (x *respRun) done(status int, body string, hdr http.Header, infos []int, flushes int, pushes []string) {
	allow := []string{}
	if a := hdr.Get("Allow"); a != "" {
		for _, s := range strings.Split(a, ",") {
			allow = append(allow, strings.TrimSpace(s))
		}
		sort.Strings(allow)
	}
	if infos == nil {
		infos = []int{}
	}
	if pushes == nil {
		pushes = []string{}
	}
	x.emit(drv.Ev{"op": "done", "how": x.how, "status": status, "body": body, "hdr": drv.SortedPairs(tracked(hdr)),
		"allow": allow, "infos": infos, "flushes": flushes, "pushes": pushes, "hijacked": x.hij, "acct": x.acct()})
}

var srvOnce sync.Once
var srv1, srv2 *httptest.Server
var srvH http.Handler
var srvMu sync.Mutex

func servers() {
	srvOnce.Do(func() {
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			srvMu.Lock()
			h := srvH
			srvMu.Unlock()
			h.ServeHTTP(w, r)
		})
		srv1 = httptest.NewServer(h)
		srv2 = httptest.NewUnstartedServer(h)
		srv2.EnableHTTP2 = true
		srv2.StartTLS()
	})
}

func runResponse(s []drv.Ev) []drv.Ev {
	tapLog()
	x := &respRun{rq: s[0].E("rq")}
	for _, k := range x.rq.L("layers") {
		x.layers = append(x.layers, k.(string))
	}
	m := x.mux()
	for len(s) > 0 {
		k := 1
		for k < len(s) && s[k].S("op") != "begin" {
			k++
		}
		x.request(m, s[:k])
		s = s[k:]
	}
	return x.tr
}

// request makes one request of the mux.
func (x *respRun) request(m *web.Mux, s []drv.Ev) {
	b := s[0]
	rq := b.E("rq")
	first := len(x.tr)
	x.rq, x.prog, x.end, x.ws, x.hij = rq, s[1:], b.S("how"), nil, false
	x.ids = map[string]string{"": "none", "given-7": "given"}
	x.emit(drv.Ev{"op": "begin", "rq": rq, "real": b.S("on") != ""})
	tap.mu.Lock()
	tap.f = x.line
	tap.mu.Unlock()
	path := "/p"
	if !rq.B("hit") {
		path = "/q"
	}
	path += b.S("tail") // a query
	x.method, x.url = rq.S("method"), path
	top := func(w http.ResponseWriter, r *http.Request) {
		c := web.C{}
		switch rq.S("given") {
		case "given":
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: "given-7"}
		case "foreign":
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: 7}
		case "other":
			c.Env = map[interface{}]interface{}{"k": "v"}
		}
		x.how = "pan"
		defer func() {
			if x.how == "pan" {
				recover()
			}
		}()
		m.ServeHTTPC(c, w, r)
		x.how = "ret"
	}
	switch b.S("on") {
	case "":
		caps := rq.E("caps")
		f := &fakeW{h: http.Header{}, cap: rq.I("cap"), pushErr: b.B("pusherr")}
		r := httptest.NewRequest(rq.S("method"), path, nil)
		top(f.as(caps.B("fl"), caps.B("hj"), caps.B("rf"), caps.B("pu")), r)
		x.done(f.status, string(f.body), f.hdr, f.infos, f.flushes, f.pushes)
	default:
		servers()
		srvMu.Lock()
		fin := make(chan struct{})
		srvH = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(fin)
			top(w, r)
		})
		srvMu.Unlock()
		srv := srv1
		if b.S("on") == "h2" {
			srv = srv2
		}
		r, err := http.NewRequest(rq.S("method"), srv.URL+path, nil)
		if err != nil {
			drv.Die(err)
		}
		var infos []int
		r = r.WithContext(httptrace.WithClientTrace(r.Context(), &httptrace.ClientTrace{
			Got1xxResponse: func(code int, _ textproto.MIMEHeader) error { infos = append(infos, code); return nil }}))
		client := srv.Client()
		for _, o := range x.prog {
			if b.S("on") == "h1" && o.S("o") == "hijack" { // a connection which is not reused: nothing is retried
				client = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
			}
		}
		resp, err := client.Do(r)
		var body []byte
		if err == nil {
			body, err = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		select {
		case <-fin:
		case <-time.After(5 * time.Second):
			err = errors.New("the handler does not return")
		}
		if err != nil || x.hij {
			if x.hij {
				x.done(0, "", nil, infos, 0, nil)
			} else {
				x.emit(drv.Ev{"op": "failed", "msg": err.Error()})
			}
			break
		}
		x.done(resp.StatusCode, string(body), resp.Header, infos, 0, nil)
	}
	tap.mu.Lock()
	tap.f = nil
	tap.mu.Unlock()
	for _, e := range x.tr[first:] {
		if raw, ok := e["rawid"]; ok {
			sym, known := x.ids[raw.(string)]
			if !known {
				sym = "unknown " + raw.(string)
			}
			e["id"] = sym
			delete(e, "rawid")
		}
	}
}
