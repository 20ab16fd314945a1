package bindsched

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/zenazn/goji/bind"

	"verif/drv"
	"verif/sdrv"
	"verif/vs"
)

// acks reads what was sent to an Einhorn control socket: process IDs.
func acks(ctl net.Listener) []int {
	ids := []int{}
	for {
		ctl.(*net.UnixListener).SetDeadline(time.Now().Add(time.Millisecond))
		k, err := ctl.Accept()
		if err != nil {
			return ids
		}
		k.SetDeadline(time.Now().Add(5 * time.Second))
		b, _ := io.ReadAll(k)
		k.Close()
		for rest := string(b); rest != ""; {
			line, r, ok := strings.Cut(rest, "\n")
			rest = r
			var m struct {
				Command string
				Pid     int
			}
			if !ok || json.Unmarshal([]byte(line), &m) != nil || m.Command != "worker:ack" {
				m.Pid = 0
			}
			ids = append(ids, m.Pid)
		}
	}
}

// runBind declares readiness from several goroutines: p.env, and p.n, the number of times each does.
func runBind(t *testing.T, p drv.Ev, st vs.Strategy) ([]drv.Ev, *vs.Sched) {
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "verif-ready-")
	if err != nil {
		drv.Die(err)
	}
	defer os.RemoveAll(dir)
	ctl, err := net.Listen("unix", filepath.Join(dir, "ctl"))
	if err != nil {
		drv.Die(err)
	}
	defer ctl.Close()
	env := [][]string{}
	r := strings.NewReplacer("$PPID", fmt.Sprint(os.Getppid()), "$PID", fmt.Sprint(os.Getpid()))
	for _, n := range []string{"EINHORN_MASTER_PID", "EINHORN_FD_COUNT", "EINHORN_FD_0", "EINHORN_FD_1", "LISTEN_PID", "LISTEN_FDS"} {
		os.Unsetenv(n)
		if v, ok := p.E("env")[n]; ok {
			env = append(env, []string{n, r.Replace(v.(string))})
			os.Setenv(n, env[len(env)-1][1])
		}
	}
	os.Setenv("EINHORN_SOCK_PATH", filepath.Join(dir, "ctl"))
	tr := []drv.Ev{{"op": "start", "env": env, "pid": os.Getpid(), "ppid": os.Getppid(), "passed": []any{}, "dir": ""}}
	var sc *vs.Sched
	how := "ok"
	if !sdrv.Bubble(t, func() {
		bind.VerifInit()
		sc = vs.New(st)
		left := len(p.L("n"))
		done := make(chan bool, left)
		for i, n := range p.L("n") {
			id := make(chan uint64)
			go func() {
				id <- vs.Goid()
				vs.Yield()
				for k := 0; k < int(n.(float64)); k++ {
					bind.Ready()
				}
				done <- true
			}()
			sc.Thread(<-id, i)
		}
		if !sc.Run() || len(done) < left {
			how = "stuck"
		}
		sc.Release()
	}) {
		how = "stuck"
	}
	for range p.L("n") {
		tr = append(tr, drv.Ev{"op": "ready"})
	}
	return append(tr, drv.Ev{"op": "end", "how": how, "acks": acks(ctl), "made": []string{}}), sc
}

func TestMain(m *testing.M) {
	sdrv.Pin()
	flag.Parse()
	os.Exit(m.Run())
}

func TestDrive(t *testing.T) {
	a := flag.Args()
	if len(a) != 3 || a[0] != "bind" {
		drv.Die("usage: driver bind IN OUT")
	}
	sdrv.Drive(t, a[1], a[2], runBind)
}
