// topdrv runs the top-level package in processes of their own.
// See spec/TopTrace.tla and spec/TopRunTrace.tla for the events.
package main

import (
	"bytes"
	"encoding/json"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"

	"verif/drv"
)

func main() {
	switch {
	case os.Getenv("VERIF_OPS") != "":
		mux(os.Getenv("VERIF_OPS"))
		return
	case os.Getenv("VERIF_SERVE") != "":
		serve(os.Getenv("VERIF_SERVE"))
		return
	}
	drv.HangAfter = 100 * time.Second
	drv.Main(map[string]func([]drv.Ev) []drv.Ev{"mux": runMux, "run": runServe})
}

func runMux(st []drv.Ev) []drv.Ev {
	b, _ := json.Marshal(st)
	exe, _ := os.Executable()
	c := exec.Command(exe)
	c.Env = []string{"VERIF_OPS=" + string(b)}
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Start(); err != nil {
		drv.Die(err)
	}
	t := time.AfterFunc(30*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	var tr []drv.Ev
	for _, l := range strings.Split(out.String(), "\n") {
		var e drv.Ev
		if json.Unmarshal([]byte(l), &e) == nil {
			tr = append(tr, e)
		}
	}
	if len(tr) < len(st) {
		s := errs.String()
		tr = append(tr, drv.Ev{"op": "crash", "msg": s[max(0, len(s)-400):]})
	}
	return tr
}

func say(e drv.Ev) {
	b, _ := json.Marshal(e)
	os.Stdout.Write(append(b, '\n'))
}

var logs bytes.Buffer
var recs [][]any
var handler string

func note(name string, c *web.C) {
	_, id := c.Env["reqID"]
	recs = append(recs, []any{name, id, strings.Count(logs.String(), "\n")})
}

func m1(c *web.C, h http.Handler) http.Handler { return rec("m1", c, h) }
func m2(c *web.C, h http.Handler) http.Handler { return rec("m2", c, h) }
func m3(c *web.C, h http.Handler) http.Handler { return rec("m3", c, h) }
func mp(c *web.C, h http.Handler) http.Handler { return rec("mp", c, h) }
func rec(name string, c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		note(name, c)
		if name == "mp" {
			panic("mp")
		}
		h.ServeHTTP(w, r)
	})
}

var stackable = map[string]web.MiddlewareType{"m1": m1, "m2": m2, "m3": m3, "mp": mp,
	"RequestID": middleware.RequestID, "Logger": middleware.Logger, "Recoverer": middleware.Recoverer, "AutomaticOptions": middleware.AutomaticOptions}

type plain struct{ f func(http.ResponseWriter) }

func (p plain) ServeHTTP(w http.ResponseWriter, r *http.Request) { p.f(w) }

func handle(name, kind, form string) web.HandlerType {
	f := func(w http.ResponseWriter) {
		handler = name
		switch kind {
		case "panic":
			panic("handler")
		case "404":
			w.WriteHeader(404)
			return
		}
		w.Write([]byte("x"))
		if kind == "late" {
			panic("handler")
		}
	}
	switch form {
	case "func":
		return func(w http.ResponseWriter, r *http.Request) { f(w) }
	case "handler":
		return plain{f}
	}
	return func(c web.C, w http.ResponseWriter, r *http.Request) { f(w) }
}

var verbs = map[string]func(web.PatternType, web.HandlerType){"Handle": goji.Handle, "Connect": goji.Connect, "Delete": goji.Delete, "Get": goji.Get, "Head": goji.Head,
	"Options": goji.Options, "Patch": goji.Patch, "Post": goji.Post, "Put": goji.Put, "Trace": goji.Trace}
var lineRE = regexp.MustCompile(`^\S+ \S+ (\[\S+\] )?(Started|Returning|panic:) ?(\d*)`)

func mux(ops string) {
	var st []drv.Ev
	json.Unmarshal([]byte(ops), &st)
	log.SetOutput(&logs)
	for _, e := range st {
		switch e.S("op") {
		case "use":
			goji.Use(stackable[e.S("m")])
			say(e)
		case "insert":
			say(drv.Copy(e, "err", goji.Insert(stackable[e.S("m")], stackable[e.S("b")]) != nil))
		case "abandon":
			say(drv.Copy(e, "err", goji.Abandon(stackable[e.S("m")]) != nil))
		case "route":
			verbs[e.S("verb")](e.S("pat"), handle(e.S("name"), e.S("kind"), e.S("form")))
			say(e)
		case "notfound":
			goji.NotFound(handle(e.S("name"), "404", e.S("form")))
			say(e)
		case "swap":
			goji.DefaultMux = web.New()
			say(e)
		case "req":
			recs, handler = [][]any{}, ""
			logs.Reset()
			w := httptest.NewRecorder()
			r := httptest.NewRequest("GET", "http://x"+e.S("path"), nil)
			r.Method = e.S("m")
			escaped := false
			func() {
				defer func() { escaped = recover() != nil }()
				goji.DefaultMux.ServeHTTP(w, r)
			}()
			lines := [][]any{}
			for _, l := range strings.Split(strings.TrimSuffix(logs.String(), "\n"), "\n") {
				if m := lineRE.FindStringSubmatch(l); m != nil {
					n, _ := strconv.Atoi(m[3])
					lines = append(lines, []any{m[2], m[1] != "", n})
				} else if l != "" {
					lines = append(lines, []any{l, false, 0})
				}
			}
			allow := []string{}
			if a := w.Header().Get("Allow"); a != "" {
				allow = strings.Split(a, ", ")
				sort.Strings(allow)
			}
			if escaped { // whatever
				w.Code = 0
			}
			say(drv.Copy(e, "recs", recs, "h", handler, "status", w.Code, "allow", allow, "lines", lines, "escaped", escaped))
		default:
			drv.Die("unknown ", e.S("op"))
		}
	}
}

