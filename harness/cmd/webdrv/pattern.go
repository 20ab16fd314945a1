package main

import (
	"net/http"
	"net/http/httptest"

	"github.com/zenazn/goji/web"
	"verif/drv"
)

func toStrings(l []any) []string {
	r := make([]string, len(l))
	for i, x := range l {
		r[i] = x.(string)
	}
	return r
}

// runPattern tries each pattern on every path, through a mux and by itself.
func runPattern(s []drv.Ev) []drv.Ev {
	var tr []drv.Ev
	var paths []string
	var calls []any
	for _, e := range s {
		switch e.S("op") {
		case "paths":
			paths = toStrings(e.L("paths"))
			tr = append(tr, e)
		case "pat":
			raw := mkPattern(1, e.E("pat"), &calls)
			m := web.New()
			mux, direct := []any{}, []any{}
			var cur string
			m.Handle(raw, func(c web.C, w http.ResponseWriter, r *http.Request) {
				mux = append(mux, []any{cur, encPairs(c.URLParams)})
			})
			m.NotFound(func(w http.ResponseWriter, r *http.Request) {})
			w := httptest.NewRecorder()
			p := web.ParsePattern(mkPattern(1, e.E("pat"), &calls))
			for _, cur = range paths {
				r := newReq("GET", cur)
				m.ServeHTTP(w, r)
				var c web.C
				if p.Match(r, &c) {
					p.Run(r, &c)
					direct = append(direct, []any{cur, encPairs(c.URLParams)})
				}
			}
			tr = append(tr, drv.Copy(e, "mux", mux, "direct", direct))
		}
	}
	return tr
}
