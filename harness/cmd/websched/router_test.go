package websched

import (
	"flag"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing"
	"unicode/utf8"

	"github.com/zenazn/goji/web"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
)

func TestMain(m *testing.M) {
	sdrv.Pin()
	flag.Parse()
	os.Exit(m.Run())
}

func TestDrive(t *testing.T) {
	a := flag.Args()
	if len(a) != 3 {
		drv.Die("usage: driver CMD IN OUT")
	}
	run := map[string]sdrv.Runner{"router": runRouter, "ids": runIDs}[a[0]]
	if run == nil {
		drv.Die("unknown command ", a[0])
	}
	sdrv.Drive(t, a[1], a[2], run)
}

// TLC's string operators only work on ASCII: in stimuli and traces an E stands for a two
// byte character and a ~ for a byte which is not UTF-8.
func dec(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "E", "\u00e9"), "~", "\xff")
}
func enc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\xff", "~"), "\u00e9", "E")
}

// custPattern is a user-defined pattern; the scheduler may switch while it is asked.
type custPattern struct {
	pfx, m string
	binds  [][2]string
	also   func()
}

func (p *custPattern) Prefix() string { return p.pfx }
func (p *custPattern) Match(r *http.Request, c *web.C) bool {
	vs.Yield()
	if p.also != nil {
		p.also()
	}
	switch p.m {
	case "all":
		return true
	case "odd":
		return utf8.RuneCountInString(r.URL.Path)%2 == 1
	case "even":
		return utf8.RuneCountInString(r.URL.Path)%2 == 0
	}
	return false
}
func (p *custPattern) Run(r *http.Request, c *web.C) {
	vs.Yield()
	if c.URLParams == nil && len(p.binds) > 0 {
		c.URLParams = make(map[string]string)
	}
	for _, b := range p.binds {
		c.URLParams[b[0]] = b[1]
		vs.Yield()
	}
}

func register(m *web.Mux, verb string, p web.PatternType, h web.HandlerType) {
	switch verb {
	case "Handle":
		m.Handle(p, h)
	case "Connect":
		m.Connect(p, h)
	case "Delete":
		m.Delete(p, h)
	case "Get":
		m.Get(p, h)
	case "Head":
		m.Head(p, h)
	case "Options":
		m.Options(p, h)
	case "Patch":
		m.Patch(p, h)
	case "Post":
		m.Post(p, h)
	case "Put":
		m.Put(p, h)
	case "Trace":
		m.Trace(p, h)
	default:
		panic("unknown verb " + verb)
	}
}

// reqState is what one request does to the world.
type reqState struct {
	hs      []int
	c       web.C
	foreign bool
}

type rworld struct {
	log sdrv.Log
	m   *web.Mux
	mu  sync.Mutex
	rs  map[string]*reqState
}

func (w *rworld) find(r *http.Request) *reqState {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rs[r.Header.Get("X-Req")]
}

func (w *rworld) handler(id int, also func()) web.HandlerType {
	return func(c web.C, rw http.ResponseWriter, r *http.Request) {
		vs.Yield()
		q := w.find(r)
		q.hs = append(q.hs, id)
		if c.Env["req"] != r.Header.Get("X-Req") || rw.Header().Get("X-Req") != r.Header.Get("X-Req") {
			q.foreign = true
		}
		q.c = c
		if also != nil {
			also()
		}
		vs.Yield()
	}
}

// layer checks that a layer's own environment is the request's.
func (w *rworld) layer(c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		vs.Yield()
		if c.Env["req"] != r.Header.Get("X-Req") {
			w.find(r).foreign = true
		}
		h.ServeHTTP(rw, r)
		if c.Env["req"] != r.Header.Get("X-Req") {
			w.find(r).foreign = true
		}
	})
}

// once makes what a pattern or handler does in passing: o.also, the first time.
func (w *rworld) once(o drv.Ev) func() {
	a := o.E("also")
	if a.S("op") == "" {
		return nil
	}
	var o1 sync.Once
	return func() {
		first := false
		o1.Do(func() { first = true })
		if first {
			w.do(a)
		}
	}
}

func (w *rworld) do(o drv.Ev) {
	switch o.S("op") {
	case "reg":
		w.log.Add("op", "call", "id", o.I("id"), "verb", o.S("verb"), "pat", o.E("pat"))
		p := o.E("pat")
		var pt web.PatternType
		also := w.once(o)
		switch p.S("k") {
		case "str":
			pt = dec(p.S("s"))
		case "re":
			pt = regexp.MustCompile(dec(p.S("src")))
		case "cust":
			c := &custPattern{pfx: dec(p.S("pfx")), m: p.S("m"), also: also}
			for _, b := range p.L("binds") {
				l := b.([]any)
				c.binds = append(c.binds, [2]string{l[0].(string), l[1].(string)})
			}
			pt, also = c, nil
		}
		register(w.m, o.S("verb"), pt, w.handler(o.I("id"), also))
		w.log.Add("op", "ret", "id", o.I("id"))
	case "compile":
		w.m.Compile()
	case "req":
		j := o.I("j")
		key := fmt.Sprint(j)
		q := &reqState{}
		w.mu.Lock()
		w.rs[key] = q
		w.mu.Unlock()
		rec := httptest.NewRecorder()
		rec.Header().Set("X-Req", key)
		path := dec(o.S("p"))
		r := &http.Request{Method: o.S("m"), URL: &url.URL{Path: path}, Header: http.Header{"X-Req": {key}}, Proto: "HTTP/1.1",
			ProtoMajor: 1, ProtoMinor: 1, Host: "example.com", RemoteAddr: "192.0.2.1:1234", RequestURI: path}
		c := web.C{Env: map[interface{}]interface{}{"req": key}}
		if ps := o.L("ctx"); len(ps) > 0 {
			c.URLParams = drv.Pairs(ps)
		}
		ctx := o.L("ctx")
		if ctx == nil {
			ctx = []any{}
		}
		w.log.Add("op", "begin", "j", j, "m", o.S("m"), "p", o.S("p"), "ctx", ctx)
		func() {
			defer func() {
				if x := recover(); x != nil {
					q.hs = append(q.hs, 9999)
				}
			}()
			w.m.ServeHTTPC(c, rec, r)
		}()
		vm := []string{}
		if v, ok := q.c.Env[web.ValidMethodsKey]; ok {
			if l, ok := v.([]string); ok {
				vm = append(vm, l...)
			}
		}
		ps := drv.SortedPairs(q.c.URLParams)
		for i := range ps {
			ps[i][0], ps[i][1] = enc(ps[i][0]), enc(ps[i][1])
		}
		hs := q.hs
		if hs == nil {
			hs = []int{}
		}
		w.log.Add("op", "end", "j", j, "out", drv.Ev{"h": hs, "own": !q.foreign, "params": ps, "vm": vm, "blind": false})
	case "nf":
		w.m.NotFound(w.handler(-o.I("id")-1, nil))
		w.log.Add("op", "nf", "id", o.I("id"))
	default:
		drv.Die("unknown ", o.S("op"))
	}
}

func ops(l any) []drv.Ev {
	var r []drv.Ev
	x, _ := l.([]any)
	for _, o := range x {
		r = append(r, drv.Ev(o.(map[string]any)))
	}
	return r
}

// runRouter: p.pre in sequence, p.par (a list of sequences) at once, p.post in sequence.
func runRouter(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	w := &rworld{m: web.New(), rs: map[string]*reqState{}}
	for i := 0; i < p.I("layers"); i++ {
		w.m.Use(w.layer)
	}
	if p.B("router") {
		w.m.Use(w.m.Router)
	}
	var sc *vs.Sched
	if !sdrv.Bubble(t, func() {
		for _, o := range ops(p["pre"]) {
			w.do(o)
		}
		sc = vs.New(st)
		par := p.L("par")
		done := make(chan bool, len(par))
		for i, l := range par {
			id := make(chan uint64)
			go func() {
				id <- vs.Goid()
				for _, o := range ops(l) {
					vs.Yield()
					w.do(o)
				}
				done <- true
			}()
			sc.Thread(<-id, i)
		}
		if !sc.Run() || len(done) < len(par) {
			w.log.Add("op", "stuck")
			sc.Release()
			return
		}
		sc.Release()
		for _, o := range ops(p["post"]) {
			w.do(o)
		}
	}) {
		w.log.Add("op", "stuck")
	}
	return w.log.Events(), sc
}
