package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"

	"github.com/zenazn/goji/web"
	"verif/drv"
)

// A request is stopped at every layer and at the handler until it is told what to do.
type mreq struct {
	id     int
	cmd    chan drv.Ev   // what to do next
	at     chan struct{} // it is stopped again (or over)
	over   bool
	parent int
	kind   string // where it is
}

type mrun struct {
	m    *web.Mux
	tr   []drv.Ev
	reqs map[int]*mreq
	mws  map[int]web.MiddlewareType
}

// There is one run at a time: top-level functions used as middleware have to find it.
var cur *mrun

func (x *mrun) reqOf(r *http.Request) *mreq {
	id := 0
	fmt.Sscan(r.Header.Get("X-Req"), &id)
	return x.reqs[id]
}

func (x *mrun) emit(e drv.Ev) { x.tr = append(x.tr, e) }

// stop reports where a request is and waits until it may go on.
func (x *mrun) stop(q *mreq, kind string, id int, c *web.C, bind string) {
	e := drv.Ev{"op": "at", "r": q.id, "kind": kind, "id": id, "env": []any{}, "params": []any{}, "blind": c == nil, "bind": bind}
	if c != nil {
		env := map[string]string{}
		for k, v := range c.Env {
			env[fmt.Sprint(k)] = fmt.Sprint(v)
		}
		e["env"], e["params"] = drv.SortedPairs(env), drv.SortedPairs(c.URLParams)
	}
	x.emit(e)
	q.kind = kind
	q.at <- struct{}{}
	for {
		cmd := <-q.cmd
		switch cmd.S("op") {
		case "step":
			return
		case "start": // a nested request, with our context
			x.serve(cmd, c)
			q.at <- struct{}{}
		case "use", "insert", "abandon":
			x.edit(cmd)
			q.at <- struct{}{}
		case "act":
			k, v := cmd.S("k"), cmd.S("v")
			if c == nil && cmd.S("a") != "panic" {
				q.at <- struct{}{}
				continue
			}
			x.emit(cmd)
			switch cmd.S("a") {
			case "envput":
				if c.Env == nil {
					c.Env = map[interface{}]interface{}{}
				}
				c.Env[k] = v
			case "parput":
				if c.URLParams == nil {
					c.URLParams = map[string]string{}
				}
				c.URLParams[k] = v
			case "envnew":
				c.Env = map[interface{}]interface{}{k: v}
			case "parnew":
				c.URLParams = map[string]string{k: v}
			case "nil":
				*c = web.C{}
			case "panic":
				panic(planned{})
			}
			q.at <- struct{}{}
		}
	}
}

func (x *mrun) layer(id int, c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	q := x.reqOf(r)
	x.stop(q, "in", id, c, "")
	h.ServeHTTP(w, r)
	x.stop(q, "out", id, c, "")
}

func ctxLayer(id int) func(*web.C, http.Handler) http.Handler {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { cur.layer(id, c, h, w, r) })
	}
}
func plainLayer(id int) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { cur.layer(id, nil, h, w, r) })
	}
}

// Top-level functions as middleware.
func mw1(c *web.C, h http.Handler) http.Handler { return ctxLayer(1)(c, h) }
func mw2(c *web.C, h http.Handler) http.Handler { return ctxLayer(2)(c, h) }
func mw3(h http.Handler) http.Handler           { return plainLayer(3)(h) }

func (x *mrun) edit(e drv.Ev) {
	switch e.S("op") {
	case "use":
		x.m.Use(x.mws[e.I("x")])
		x.emit(e)
	case "insert":
		x.emit(drv.Copy(e, "err", x.m.Insert(x.mws[e.I("x")], x.mws[e.I("b")]) != nil))
	case "abandon":
		x.emit(drv.Copy(e, "err", x.m.Abandon(x.mws[e.I("x")]) != nil))
	}
}

// serve runs a request in the current goroutine.
func (x *mrun) serve(e drv.Ev, outer *web.C) {
	q := x.reqs[e.I("r")]
	nest := e.I("nest")
	if nest != 0 && outer == nil { // from a layer without a context
		e = drv.Copy(e, "nest", 0, "plain", true)
	}
	x.emit(e)
	end := 0
	func() {
		defer func() {
			if p := recover(); p != nil {
				end = 1
				if _, ok := p.(planned); !ok {
					end = 2
					x.emit(drv.Ev{"op": "panic", "msg": fmt.Sprint(p)})
				}
			}
		}()
		path := "/r"
		if b := e.S("bind"); b != "" {
			path = "/x/" + b
		}
		r := newReq("GET", path)
		r.Header.Set("X-Req", fmt.Sprint(q.id))
		w := httptest.NewRecorder()
		switch {
		case e.I("nest") != 0:
			x.m.ServeHTTPC(*outer, w, r)
		case e.B("plain"):
			x.m.ServeHTTP(w, r)
		default:
			c := web.C{}
			if l := e.L("env"); len(l) > 0 {
				c.Env = map[interface{}]interface{}{}
				for k, v := range drv.Pairs(l) {
					c.Env[k] = v
				}
			}
			if l := e.L("params"); len(l) > 0 {
				c.URLParams = drv.Pairs(l)
			}
			x.m.ServeHTTPC(c, w, r)
		}
	}()
	x.emit(drv.Ev{"op": "at", "r": q.id, "kind": "end", "id": end, "env": []any{}, "params": []any{}, "blind": true, "bind": ""})
	q.over = true
	if nest == 0 {
		q.at <- struct{}{}
	}
}

func runMStack(s []drv.Ev) []drv.Ev {
	x := &mrun{m: web.New(), reqs: map[int]*mreq{}}
	cur = x
	x.mws = map[int]web.MiddlewareType{1: mw1, 2: mw2, 3: mw3, 4: ctxLayer(4), 5: ctxLayer(5), 6: plainLayer(6)}
	x.m.Get("/r", func(c web.C, w http.ResponseWriter, r *http.Request) { x.stop(x.reqOf(r), "h", 0, &c, "") })
	x.m.Get("/x/:id", func(c web.C, w http.ResponseWriter, r *http.Request) {
		x.stop(x.reqOf(r), "h", 0, &c, r.URL.Path[3:])
	})
	for _, e := range s {
		op := e.S("op")
		switch op {
		case "start":
			q := &mreq{id: e.I("r"), parent: e.I("nest"), cmd: make(chan drv.Ev), at: make(chan struct{})}
			x.reqs[q.id] = q
			if n := e.I("nest"); n != 0 && x.reqs[n].over {
				e = drv.Copy(e, "nest", 0)
				q.parent = 0
			}
			if n := e.I("nest"); n != 0 {
				p := x.reqs[n]
				p.cmd <- e
				// the nested request stops at its first layer; p itself is stuck in it
				select {
				case <-q.at:
				case <-p.at:
				}
			} else {
				go x.serve(e, nil)
				<-q.at
			}
		case "step", "act":
			q := x.reqs[e.I("r")]
			if q.over {
				continue
			}
			q.cmd <- e
			x.wait(q)
		case "toh":
			q := x.reqs[e.I("r")]
			for !q.over && q.kind != "h" {
				q.cmd <- drv.Ev{"op": "step"}
				x.wait(q)
			}
		case "finish":
			q := x.reqs[e.I("r")]
			for !q.over {
				q.cmd <- drv.Ev{"op": "step"}
				x.wait(q)
			}
		default:
			if by := e.I("by"); by != 0 && x.reqs[by] != nil && !x.reqs[by].over {
				q := x.reqs[by]
				q.cmd <- e
				<-q.at
			} else {
				x.edit(e)
			}
		}
	}
	return x.tr
}

// wait until q is stopped again or over (for a nested request: until its parent is
// stopped again).
func (x *mrun) wait(q *mreq) {
	if q.parent == 0 {
		<-q.at
		return
	}
	select {
	case <-q.at:
	case <-x.reqs[q.parent].at:
	}
}
