package main

import (
	"fmt"
	"net/http"
	"reflect"
	"regexp"
	"unsafe"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/drv"
)

// Handlers of every form.  Each knows the run it belongs to and its number.
type hbase struct {
	d  *dispatch
	id int
}
type ptrH struct{ hbase } // *ptrH is a http.Handler
type valH struct{ hbase } // valH is a http.Handler
type uncmpH struct {      // uncmpH is a http.Handler whose values cannot be compared
	hbase
	_ []int
}
type cptrH struct{ hbase } // *cptrH is a web.Handler (and nothing else)
type cvalH struct{ hbase }
type bothH struct{ hbase } // both interfaces
type bothvH struct{ hbase }

func (h *ptrH) ServeHTTP(w http.ResponseWriter, r *http.Request)            { h.d.leaf(h.id, nil, r) }
func (h valH) ServeHTTP(w http.ResponseWriter, r *http.Request)             { h.d.leaf(h.id, nil, r) }
func (h uncmpH) ServeHTTP(w http.ResponseWriter, r *http.Request)           { h.d.leaf(h.id, nil, r) }
func (h *cptrH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { h.d.leaf(h.id, &c, r) }
func (h cvalH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request)  { h.d.leaf(h.id, &c, r) }
func (h *bothH) ServeHTTP(w http.ResponseWriter, r *http.Request)           { h.d.leaf(h.id, nil, r) }
func (h *bothH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { h.d.leaf(h.id, &c, r) }
func (h bothvH) ServeHTTP(w http.ResponseWriter, r *http.Request)           { h.d.leaf(h.id, nil, r) }
func (h bothvH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { h.d.leaf(h.id, &c, r) }

// fixedPattern is a pattern for matches placed by a middleware.
type fixedPattern struct{ pid int }

func (fixedPattern) Prefix() string                       { return "" }
func (fixedPattern) Match(r *http.Request, c *web.C) bool { return true }
func (fixedPattern) Run(r *http.Request, c *web.C)        {}

type dispatch struct {
	tr      []drv.Ev
	muxes   []*web.Mux
	hs      []web.HandlerType
	panics  []bool
	pats    map[int]web.PatternType
	depth   int
	stopped bool
	inMux   []int
}

type loopStop struct{}
type planned struct{}

func funcval(f any) unsafe.Pointer {
	if reflect.TypeOf(f).Kind() != reflect.Func {
		return nil
	}
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&f))[1]
}

func sameRaw(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Kind() == reflect.Func {
		return funcval(a) == funcval(b)
	}
	if ta.Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func (d *dispatch) matchOf(c *web.C) (pid, h int) {
	m := web.GetMatch(*c)
	if m.Handler == nil {
		return 0, 0
	}
	raw := m.RawHandler()
	h = -1
	for i, x := range d.hs {
		if sameRaw(raw, x) {
			h = i + 1
		}
	}
	if f, ok := raw.(func(http.ResponseWriter, *http.Request)); ok && funcval(f) == funcval(http.NotFound) {
		h = 99
	}
	pid = 0
	if rp := m.RawPattern(); rp != nil {
		pid = -1
		for k, p := range d.pats {
			if sameRaw(rp, p) {
				pid = k
			}
		}
	}
	return pid, h
}

func (d *dispatch) obs(ev string, mux, pos int, c *web.C, r *http.Request, how string) {
	if d.stopped {
		return
	}
	e := drv.Ev{"op": "obs", "ev": ev, "mux": mux, "pos": pos, "path": enc(r.URL.Path), "method": r.Method,
		"pid": 0, "h": 0, "params": [][2]string{}, "blind": c == nil, "how": how}
	if c != nil {
		e["pid"], e["h"] = d.matchOf(c)
		e["params"] = encPairs(c.URLParams)
	}
	d.tr = append(d.tr, e)
}

func (d *dispatch) leaf(id int, c *web.C, r *http.Request) {
	how := "c"
	if c == nil {
		how = "p"
	}
	d.obs("h", 0, id, c, r, how)
	if id <= len(d.panics) && d.panics[id-1] {
		panic(planned{})
	}
}

func (d *dispatch) handler(i int, e drv.Ev) web.HandlerType {
	b := hbase{d, i}
	switch e.S("form") {
	case "fn":
		return func(w http.ResponseWriter, r *http.Request) { d.leaf(i, nil, r) }
	case "cfn":
		return func(c web.C, w http.ResponseWriter, r *http.Request) { d.leaf(i, &c, r) }
	case "hf":
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { d.leaf(i, nil, r) })
	case "chf":
		return web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { d.leaf(i, &c, r) })
	case "ptr":
		return &ptrH{b}
	case "val":
		return valH{b}
	case "uncmp":
		return uncmpH{hbase: b}
	case "cptr":
		return &cptrH{b}
	case "cval":
		return cvalH{b}
	case "both":
		return &bothH{b}
	case "bothv":
		return bothvH{b}
	case "mux":
		return d.muxes[e.I("mux")-1]
	case "plainmux":
		m := d.muxes[e.I("mux")-1]
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { m.ServeHTTP(w, r) })
	}
	panic("unknown form " + e.S("form"))
}

// asHandler turns a handler value into what a Match holds, the way a program which places
// its own matches has to.
func asHandler(h web.HandlerType) web.Handler {
	if x, ok := h.(web.Handler); ok {
		return x
	}
	return nil
}

func putMatch(c *web.C, v interface{}) {
	if c.Env == nil {
		c.Env = make(map[interface{}]interface{})
	}
	c.Env[web.MatchKey] = v
}

func (d *dispatch) layer(mux int, e drv.Ev) web.MiddlewareType {
	s, n := e.S("s"), e.I("n")
	change := func(f func(c *web.C, r *http.Request)) web.MiddlewareType {
		return func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				f(c, r)
				h.ServeHTTP(w, r)
			})
		}
	}
	switch e.S("k") {
	case "nop":
		return func(h http.Handler) http.Handler { return h }
	case "router":
		return d.muxes[n-1].Router
	case "sub":
		return middleware.SubRouter
	case "envinit":
		return middleware.EnvInit
	case "setmatch":
		return change(func(c *web.C, r *http.Request) {
			m := web.Match{Handler: asHandler(d.hs[n-1])}
			if s != "" {
				m.Pattern = d.pats[atoi(s)].(web.Pattern)
			}
			putMatch(c, m)
		})
	case "nomatch":
		return change(func(c *web.C, r *http.Request) {
			switch s {
			case "del":
				delete(c.Env, web.MatchKey)
			case "foreign":
				putMatch(c, "not a match")
			case "zero":
				putMatch(c, web.Match{})
			}
		})
	case "newenv":
		return change(func(c *web.C, r *http.Request) { c.Env = make(map[interface{}]interface{}) })
	case "copyenv":
		return change(func(c *web.C, r *http.Request) {
			env := make(map[interface{}]interface{})
			for k, v := range c.Env {
				env[k] = v
			}
			c.Env = env
		})
	case "path":
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				r.URL.Path = dec(s)
				h.ServeHTTP(w, r)
			})
		}
	case "method":
		return change(func(c *web.C, r *http.Request) { r.Method = s })
	case "params":
		return change(func(c *web.C, r *http.Request) { c.URLParams = map[string]string{"*": dec(s)} })
	case "panic":
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { panic(planned{}) })
		}
	case "recover":
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(planned); !ok {
							panic(x)
						}
					}
				}()
				h.ServeHTTP(w, r)
			})
		}
	case "stop":
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})
		}
	}
	panic("unknown layer " + e.S("k"))
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

func (d *dispatch) probe(mux, pos int) web.MiddlewareType {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if pos == 1 {
				d.depth++
				defer func() { d.depth-- }()
			}
			if d.depth > 6 {
				d.obs("loop", 0, 0, nil, r, "")
				d.stopped = true
				panic(loopStop{})
			}
			d.obs("in", mux, pos, c, r, "")
			h.ServeHTTP(w, r)
			d.obs("out", mux, pos, c, r, "")
		})
	}
}

// notFoundWriter notices the default not-found handler.
type notFoundWriter struct {
	h http.Header
	d *dispatch
	r *http.Request
}

func (w *notFoundWriter) Header() http.Header         { return w.h }
func (w *notFoundWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *notFoundWriter) WriteHeader(code int) {
	if code == 404 {
		w.d.leaf(99, nil, w.r)
	}
}

func (d *dispatch) config(cfg drv.Ev) {
	ms, hs := cfg.L("muxes"), cfg.L("hs")
	d.muxes, d.hs, d.panics, d.pats = nil, nil, nil, map[int]web.PatternType{}
	for pid := 101; pid < 104; pid++ {
		d.pats[pid] = fixedPattern{pid}
	}
	for range ms {
		d.muxes = append(d.muxes, web.New())
	}
	for i, x := range hs {
		h := drv.Ev(x.(map[string]any))
		d.hs = append(d.hs, d.handler(i+1, h))
		d.panics = append(d.panics, h.B("panics"))
	}
	for i, x := range ms {
		mx, m := drv.Ev(x.(map[string]any)), d.muxes[i]
		for j, y := range mx.L("layers") {
			m.Use(d.probe(i+1, j+1))
			m.Use(d.layer(i+1, drv.Ev(y.(map[string]any))))
		}
		for _, y := range mx.L("routes") {
			rt := drv.Ev(y.(map[string]any))
			pid := rt.I("pid")
			if d.pats[pid] == nil {
				var calls []any
				p := mkPattern(pid, rt.E("pat"), &calls)
				if re, ok := p.(*regexp.Regexp); ok && pid%2 == 0 {
					p = regexp.MustCompile(re.String())
				}
				d.pats[pid] = p
			}
			register(m, rt.S("verb"), d.pats[pid], d.hs[rt.I("h")-1])
		}
		if nf := mx.I("nf"); nf != 99 {
			m.NotFound(d.hs[nf-1])
		}
	}
}

func runDispatch(s []drv.Ev) []drv.Ev {
	d := &dispatch{}
	for _, e := range s {
		switch e.S("op") {
		case "cfg":
			d.config(e.E("cfg"))
			d.tr = append(d.tr, e)
		case "req":
			d.tr = append(d.tr, e)
			d.stopped, d.depth = false, 0
			r := newReq(e.S("m"), e.S("p"))
			w := &notFoundWriter{http.Header{}, d, r}
			panicked := 0
			func() {
				defer func() {
					if x := recover(); x != nil {
						panicked = 1
						switch x.(type) {
						case planned, loopStop:
						default:
							d.tr = append(d.tr, drv.Ev{"op": "panic", "msg": fmt.Sprint(x)})
						}
					}
				}()
				m := d.muxes[e.I("mux")-1]
				if !e.B("env") && len(e.L("params")) == 0 {
					m.ServeHTTP(w, r)
					return
				}
				c := web.C{}
				if ps := e.L("params"); len(ps) > 0 {
					c.URLParams = drv.Pairs(ps)
				}
				if e.B("env") {
					c.Env = make(map[interface{}]interface{})
					if h := e.I("h"); h != 0 {
						m := web.Match{Handler: asHandler(d.hs[h-1])}
						if p := e.I("pid"); p != 0 {
							m.Pattern = d.pats[p].(web.Pattern)
						}
						c.Env[web.MatchKey] = m
					}
				}
				m.ServeHTTPC(c, w, r)
			}()
			d.obs("end", 0, panicked, nil, r, "")
		}
	}
	return d.tr
}
