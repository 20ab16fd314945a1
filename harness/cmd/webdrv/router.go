package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/zenazn/goji/web"
	"verif/drv"
)

// custPattern is a user-defined pattern which logs the calls it receives.
type custPattern struct {
	id    int
	pfx   string
	m     string
	binds [][2]string
	calls *[]any
}

func (p *custPattern) Prefix() string { return p.pfx }
func (p *custPattern) Match(r *http.Request, c *web.C) bool {
	*p.calls = append(*p.calls, []any{"m", p.id})
	switch p.m {
	case "all":
		return true
	case "odd":
		return utf8.RuneCountInString(r.URL.Path)%2 == 1
	case "even":
		return utf8.RuneCountInString(r.URL.Path)%2 == 0
	}
	return false
}
func (p *custPattern) Run(r *http.Request, c *web.C) {
	*p.calls = append(*p.calls, []any{"r", p.id})
	if c.URLParams == nil && len(p.binds) > 0 {
		c.URLParams = make(map[string]string)
	}
	for _, b := range p.binds {
		c.URLParams[b[0]] = b[1]
	}
}

func mkPattern(id int, p drv.Ev, calls *[]any) web.PatternType {
	switch p.S("k") {
	case "str":
		return dec(p.S("s"))
	case "re":
		return regexp.MustCompile(dec(p.S("src")))
	case "cust":
		c := &custPattern{id: id, pfx: dec(p.S("pfx")), m: p.S("m"), calls: calls}
		for _, b := range p.L("binds") {
			l := b.([]any)
			c.binds = append(c.binds, [2]string{l[0].(string), l[1].(string)})
		}
		return c
	}
	panic("unknown pattern kind " + p.S("k"))
}

func register(m *web.Mux, verb string, p web.PatternType, h web.HandlerType) {
	switch verb {
	case "Handle":
		m.Handle(p, h)
	case "Connect":
		m.Connect(p, h)
	case "Delete":
		m.Delete(p, h)
	case "Get":
		m.Get(p, h)
	case "Head":
		m.Head(p, h)
	case "Options":
		m.Options(p, h)
	case "Patch":
		m.Patch(p, h)
	case "Post":
		m.Post(p, h)
	case "Put":
		m.Put(p, h)
	case "Trace":
		m.Trace(p, h)
	default:
		panic("unknown verb " + verb)
	}
}

// TLC's string operators only work on ASCII: in stimuli and traces an E stands for a two
// byte character and a ~ for a byte which is not UTF-8.
func dec(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "E", "\u00e9"), "~", "\xff")
}
func enc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\xff", "~"), "\u00e9", "E")
}
func encPairs(m map[string]string) [][2]string {
	l := drv.SortedPairs(m)
	for i := range l {
		l[i][0], l[i][1] = enc(l[i][0]), enc(l[i][1])
	}
	return l
}

func newReq(method, path string) *http.Request {
	path = dec(path)
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, Host: "example.com", RemoteAddr: "192.0.2.1:1234", RequestURI: path}
}

func runRouter(s []drv.Ev) []drv.Ev {
	m := web.New()
	var calls, hs []any
	var seen web.C
	nf := 0
	mk := func(id int) web.HandlerType {
		return func(c web.C, w http.ResponseWriter, r *http.Request) {
			hs = append(hs, id)
			seen = c
		}
	}
	var tr []drv.Ev
	for _, e := range s {
		switch e.S("op") {
		case "reg":
			register(m, e.S("verb"), mkPattern(e.I("id"), e.E("pat"), &calls), mk(e.I("id")))
			tr = append(tr, e)
		case "compile":
			m.Compile()
			tr = append(tr, e)
		case "nf":
			nf = e.I("id")
			m.NotFound(mk(-nf - 1))
			tr = append(tr, e)
		case "req":
			calls, hs, seen = []any{}, []any{}, web.C{}
			rec := httptest.NewRecorder()
			r := newReq(e.S("m"), e.S("p"))
			env := drv.Pairs(e.L("env"))
			out := drv.Ev{}
			func() {
				defer func() {
					if x := recover(); x != nil {
						hs = append(hs, 9999)
						out["panic"] = fmt.Sprint(x)
					}
				}()
				if e.B("plain") {
					m.ServeHTTP(rec, r)
				} else {
					c := web.C{}
					if ps := e.L("ctx"); len(ps) > 0 {
						c.URLParams = drv.Pairs(ps)
					}
					if len(env) > 0 {
						c.Env = make(map[interface{}]interface{})
						for k, v := range env {
							c.Env[k] = v
						}
					}
					m.ServeHTTPC(c, rec, r)
				}
			}()
			blind := false
			if len(hs) == 0 && nf == 0 && rec.Code == 404 && strings.HasPrefix(rec.Body.String(), "404 page not found") {
				hs = append(hs, -1)
				blind = true
			}
			vm, vmset := []string{}, false
			got := map[string]string{}
			for k, v := range seen.Env {
				if k == web.ValidMethodsKey {
					vmset = true
					if l, ok := v.([]string); ok {
						vm = l
					} else {
						vm = []string{fmt.Sprintf("%T", v)}
					}
				} else {
					got[fmt.Sprint(k)] = fmt.Sprint(v)
				}
			}
			out["h"], out["calls"], out["blind"] = hs, calls, blind
			out["params"] = encPairs(seen.URLParams)
			out["vm"], out["vmset"], out["env"] = vm, vmset, drv.SortedPairs(got)
			tr = append(tr, drv.Copy(e, "out", out))
		}
	}
	return tr
}
