package websched

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
)

// runIDs: p.par[i] requests from each thread i, through p.muxes muxes in turn.
func runIDs(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	var mu sync.Mutex
	ids, pre := map[string]int{}, map[string]bool{}
	bad, n := 0, 0
	var ms []*web.Mux
	for i := 0; i < p.I("muxes"); i++ {
		m := web.New()
		m.Use(middleware.RequestID)
		m.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			id := middleware.GetReqID(c)
			vs.Yield()
			again := middleware.GetReqID(c)
			mu.Lock()
			defer mu.Unlock()
			ids[id]++
			k := strings.LastIndex(id, "-")
			if k < 0 || id != again || c.Env["k"] != r.URL.Path {
				bad++
			} else {
				pre[id[:k]] = true
			}
		})
		ms = append(ms, m)
	}
	var sc *vs.Sched
	ok := sdrv.Bubble(t, func() {
		sc = vs.New(st)
		par := p.L("par")
		done := make(chan bool, len(par))
		for i, k := range par {
			id := make(chan uint64)
			k := int(k.(float64))
			n += k
			go func() {
				id <- vs.Goid()
				for j := 0; j < k; j++ {
					vs.Yield()
					path := fmt.Sprintf("/%d-%d", i, j)
					ms[(i+j)%len(ms)].ServeHTTPC(web.C{Env: map[interface{}]interface{}{"k": path}}, httptest.NewRecorder(), httptest.NewRequest("GET", path, nil))
				}
				done <- true
			}()
			sc.Thread(<-id, i)
		}
		if !sc.Run() || len(done) < len(par) {
			bad++
		}
		sc.Release()
	})
	if !ok {
		bad++
	}
	return []drv.Ev{{"op": "bulk", "n": n, "distinct": len(ids), "prefixes": len(pre), "bad": bad}}, sc
}
