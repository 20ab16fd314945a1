package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"verif/drv"
)

type stdRun struct {
	mu sync.Mutex
	tr []drv.Ev
}

func (x *stdRun) emit(e drv.Ev) {
	x.mu.Lock()
	x.tr = append(x.tr, e)
	x.mu.Unlock()
}

func hdrMap(h http.Header) [][2]string {
	m := map[string]string{}
	for k, v := range h {
		if k == "X-Req" || k == "Content-Type" || k == "User-Agent" || k == "Accept-Encoding" || len(v) == 0 {
			continue
		}
		m[k] = strings.Join(v, "|")
		if k == "Expires" {
			if t, err := time.Parse(time.RFC1123, m[k]); err == nil && t.Unix() == 0 {
				m[k] = "epoch"
			} else if t, err := time.ParseInLocation(time.RFC1123, m[k], time.Local); err == nil && t.Unix() == 0 {
				m[k] = "epoch"
			}
		}
	}
	return drv.SortedPairs(m)
}

func envMap(c *web.C) [][2]string {
	m := map[string]string{}
	for k, v := range c.Env {
		switch v.(type) {
		case url.Values:
			m[fmt.Sprint(k)] = "query"
		default:
			m[fmt.Sprint(k)] = fmt.Sprint(v)
		}
	}
	return drv.SortedPairs(m)
}

var reID = regexp.MustCompile(`^(.+/[0-9A-Za-z]+)-([0-9]+)$`)

type stdReq struct {
	id    int
	gates chan struct{} // one token per step
	at    chan struct{}
	r     *http.Request
	rest  string
	env   map[interface{}]interface{} // as passed in
}

// same says whether the environment passed in, if any, is still the one in use.
func (s *stdReq) same(env map[interface{}]interface{}) bool {
	return s.env == nil || reflect.ValueOf(s.env).Pointer() == reflect.ValueOf(env).Pointer()
}

// the parts of a request nobody has any business with
func restOf(r *http.Request) string {
	return fmt.Sprint(r.Method, " ", r.URL.String(), " ", r.Host, " ", r.Proto, " ", r.ContentLength, " ", r.RequestURI, " ", len(r.Form))
}

func (x *stdRun) probe(pos int, q func(r *http.Request) *stdReq) func(c *web.C, h http.Handler) http.Handler {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s := q(r)
			s.wait()
			id := middleware.GetReqID(*c)
			pre, form := "", false
			if m := reID.FindStringSubmatch(id); m != nil {
				pre, form = m[1], true
			}
			qm := map[string]string{}
			if v, ok := c.Env[middleware.URLQueryKey].(url.Values); ok {
				for k, l := range v {
					qm[k] = "|" + strings.Join(l, "|")
				}
			}
			x.emit(drv.Ev{"op": "in", "r": s.id, "pos": pos, "hdr": hdrMap(r.Header), "addr": r.RemoteAddr, "rsp": hdrMap(w.Header()),
				"nil": c.Env == nil, "same": s.same(c.Env), "env": envMap(c), "qmap": drv.SortedPairs(qm), "pre": pre, "form": form,
				"rest": s.r == r && restOf(r) == s.rest})
			h.ServeHTTP(w, r)
			s.wait()
			x.emit(drv.Ev{"op": "out", "r": s.id, "pos": pos, "rsp": hdrMap(w.Header()), "id": middleware.GetReqID(*c)})
		})
	}
}

// wait lets the driver choose how requests interleave.
func (s *stdReq) wait() {
	s.at <- struct{}{}
	<-s.gates
}

func runStd(s []drv.Ev) []drv.Ev {
	x := &stdRun{}
	var mu sync.Mutex
	reqs := map[int]*stdReq{}
	find := func(r *http.Request) *stdReq {
		id := 0
		fmt.Sscan(r.Header.Get("X-Req"), &id)
		mu.Lock()
		defer mu.Unlock()
		return reqs[id]
	}
	fin := map[int]bool{}
	step := func(id int) {
		q := reqs[id]
		if q == nil || fin[id] {
			return
		}
		q.gates <- struct{}{}
		if _, ok := <-q.at; !ok {
			fin[id] = true
		}
	}
	muxes := map[string]*web.Mux{}
	for _, e := range s {
		switch e.S("op") {
		case "bulk":
			x.emit(bulk(e))
		case "step":
			step(e.I("r"))
		case "finish":
			for reqs[e.I("r")] != nil && !fin[e.I("r")] {
				step(e.I("r"))
			}
		case "begin":
			key := fmt.Sprint(e.L("layers"), e.I("mux"))
			m := muxes[key]
			if m == nil {
				m = web.New()
				for i, l := range e.L("layers") {
					switch l.(string) {
					case "E":
						m.Use(middleware.EnvInit)
					case "Q":
						m.Use(middleware.URLQuery)
					case "P":
						m.Use(middleware.RealIP)
					case "N":
						m.Use(middleware.NoCache)
					case "I":
						m.Use(middleware.RequestID)
					}
					m.Use(x.probe(i+1, find))
				}
				m.Handle("/*", func(w http.ResponseWriter, r *http.Request) {
					b, _ := io.ReadAll(r.Body)
					io.WriteString(w, string(b))
				})
				muxes[key] = m
			}
			target := "/p"
			if q := e.S("query"); q != "" {
				target += "?" + q
			}
			r := httptest.NewRequest("POST", "/p", strings.NewReader("done"))
			r.URL = &url.URL{Path: "/p", RawQuery: e.S("query")}
			r.RequestURI = target
			r.RemoteAddr = e.S("addr")
			for k, v := range drv.Pairs(e.L("hdr")) {
				r.Header[k] = strings.Split(v, "|")
			}
			q := &stdReq{id: e.I("r"), gates: make(chan struct{}), at: make(chan struct{}), r: r, rest: restOf(r)}
			r.Header.Set("X-Req", fmt.Sprint(q.id))
			mu.Lock()
			reqs[q.id] = q
			mu.Unlock()
			w := httptest.NewRecorder()
			for k, v := range drv.Pairs(e.L("rsp")) {
				w.Header()[k] = strings.Split(v, "|")
			}
			c := web.C{}
			if !e.B("nil") {
				c.Env = map[interface{}]interface{}{}
				for k, v := range drv.Pairs(e.L("env")) {
					c.Env[k] = v
				}
			}
			q.env = c.Env
			x.emit(e)
			go func() {
				m.ServeHTTPC(c, w, r)
				x.emit(drv.Ev{"op": "end", "r": q.id, "rsp": hdrMap(w.Header()), "body": w.Body.String(), "nil": c.Env == nil, "env": envMap(&c)})
				close(q.at)
			}()
			if _, ok := <-q.at; !ok {
				fin[q.id] = true
			}
		}
	}
	return x.tr
}

// bulk makes n requests from several goroutines through several muxes.
func bulk(e drv.Ev) drv.Ev {
	runtime.GOMAXPROCS(runtime.NumCPU())
	n, g := e.I("n"), e.I("g")
	type res struct {
		ids []string
		bad int
	}
	out := make([]res, g)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var got *res = &out[i]
			got.ids = make([]string, 0, n/g+1)
			m := web.New()
			m.Use(middleware.RequestID)
			m.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
				id := middleware.GetReqID(c)
				got.ids = append(got.ids, id)
				if c.Env["k"] != i || len(c.Env) != 2 {
					got.bad++
				}
			})
			r := httptest.NewRequest("GET", "/", nil)
			w := httptest.NewRecorder()
			<-gate
			for j := 0; j < n/g; j++ {
				m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"k": i}}, w, r)
			}
		}()
	}
	close(gate)
	wg.Wait()
	all := map[string]bool{}
	pres := map[string]bool{}
	total, bad := 0, 0
	for _, r := range out {
		total += len(r.ids)
		bad += r.bad
		for _, id := range r.ids {
			all[id] = true
			k := strings.LastIndex(id, "-")
			if k < 0 || !reID.MatchString(id) {
				bad++
				continue
			}
			pres[id[:k]] = true
		}
	}
	return drv.Ev{"op": "bulk", "n": total, "distinct": len(all), "prefixes": len(pres), "bad": bad}
}
