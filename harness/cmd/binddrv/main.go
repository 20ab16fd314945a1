// binddrv runs package bind in processes of their own: an environment, inherited descriptors and
// a list of calls.  See spec/BindTrace.tla for the events.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/bind"

	"verif/drv"
)

func main() {
	if os.Getenv("VERIF_STAGE") == "1" {
		stage1()
	}
	if s := os.Getenv("VERIF_CMDS"); s != "" {
		child(s)
		return
	}
	drv.Main(map[string]func([]drv.Ev) []drv.Ev{"bind": run})
}

// stage1 has the process ID of the process to be, and makes its environment.
func stage1() {
	var env [][2]string
	json.Unmarshal([]byte(os.Getenv("VERIF_ENV")), &env)
	r := strings.NewReplacer("$PPID", fmt.Sprint(os.Getppid()), "$PID", fmt.Sprint(os.Getpid()), "$OTHER", fmt.Sprint(os.Getpid()+100000), "$D", os.Getenv("VERIF_DIR"))
	out := []string{"VERIF_CMDS=" + os.Getenv("VERIF_CMDS"), "VERIF_DIR=" + os.Getenv("VERIF_DIR")}
	for i, p := range env {
		env[i][1] = r.Replace(p[1])
		out = append(out, p[0]+"="+env[i][1])
	}
	b, _ := json.Marshal(env)
	out = append(out, "VERIF_ENV="+string(b))
	exe, err := os.Executable()
	if err == nil {
		err = syscall.Exec(exe, []string{exe}, out)
	}
	fmt.Println("exec:", err)
	os.Exit(4)
}

func say(op string, kv ...any) {
	b, _ := json.Marshal(drv.Copy(drv.Ev{"op": op}, kv...))
	os.Stdout.Write(append(b, '\n'))
}

func child(cmds string) {
	var cs []drv.Ev
	json.Unmarshal([]byte(cmds), &cs)
	var env [][2]string // as it was before package bind could change it
	json.Unmarshal([]byte(os.Getenv("VERIF_ENV")), &env)
	say("start", "env", env, "pid", os.Getpid(), "ppid", os.Getppid())
	for _, c := range cs {
		s := strings.ReplaceAll(c.S("s"), "$D", os.Getenv("VERIF_DIR"))
		switch c.S("op") {
		case "fds":
			set := []int{}
			for fd := 3; fd < 3+c.I("n"); fd++ {
				fl, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFD, 0)
				if e == 0 && fl&syscall.FD_CLOEXEC != 0 {
					set = append(set, fd)
				}
			}
			say("fds", "cloexec", set, "n", c.I("n"))
		case "sniff":
			say("sniff", "res", bind.Sniff())
		case "default":
			bind.DefaultBind = s
		case "flag":
			bind.WithFlag()
			say("flag", "dflt", bind.DefaultBind, "res", flag.Lookup("bind").DefValue)
		case "parse":
			if err := flag.CommandLine.Parse([]string{"-bind", s}); err != nil {
				drv.Die(err)
			}
			say("parse", "s", s)
		case "sock", "dsock":
			var l net.Listener
			if c.S("op") == "sock" {
				say("try", "s", s, "k", "sock")
				l = bind.Socket(s)
			} else {
				say("try", "s", flag.Lookup("bind").Value.String(), "k", "dsock")
				l = bind.Default()
			}
			say("res", "res", works(l), "net", l.Addr().Network(), "addr", l.Addr().String())
		case "ready":
			var wg sync.WaitGroup
			n := c.I("n")
			start := make(chan bool)
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					bind.Ready()
					bind.Ready()
				}()
			}
			close(start)
			wg.Wait()
			say("ready", "n", n)
		default:
			drv.Die("unknown ", c.S("op"))
		}
	}
}

// works connects to what was opened.
func works(l net.Listener) string {
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		io.WriteString(c, "hello")
		c.Close()
	}()
	c, err := net.DialTimeout(l.Addr().Network(), l.Addr().String(), 5*time.Second)
	if err != nil {
		return "dead"
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	if b, _ := io.ReadAll(c); string(b) != "hello" {
		return "deaf"
	}
	return "open"
}

var ports = struct {
	sync.Mutex
	next int
}{next: os.Getpid() * 97}

// freePort is below the ports that are given out for port 0.
func freePort() string {
	ports.Lock()
	defer ports.Unlock()
	for {
		ports.next++
		p := fmt.Sprint(12000 + ports.next%18000)
		l, err := net.Listen("tcp", ":"+p)
		if err == nil {
			l.Close()
			return p
		}
	}
}

func run(st []drv.Ev) []drv.Ev {
	s := st[0]
	dir, err := os.MkdirTemp("", "verif-bind-")
	if err != nil {
		drv.Die(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0777)
	os.WriteFile(filepath.Join(dir, "taken"), nil, 0666)
	// descriptors to hand over
	var files []*os.File
	passed := []any{}
	for i, x := range s.L("fds") {
		var f *os.File
		addr := ""
		switch x.(string) {
		case "tcp":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				drv.Die(err)
			}
			addr = l.Addr().String()
			f, _ = l.(*net.TCPListener).File()
			l.Close()
		case "unix":
			l, err := net.Listen("unix", filepath.Join(dir, fmt.Sprint("fd", i)))
			if err != nil {
				drv.Die(err)
			}
			addr = l.Addr().String()
			f, _ = l.(*net.UnixListener).File()
			l.(*net.UnixListener).SetUnlinkOnClose(false)
			l.Close()
		default:
			f, _ = os.Open(filepath.Join(dir, "taken"))
		}
		files = append(files, f)
		passed = append(passed, drv.Ev{"fd": 3 + i, "addr": addr})
	}
	ctl, err := net.Listen("unix", filepath.Join(dir, "ctl"))
	if err != nil {
		drv.Die(err)
	}
	port := ""
	if b, _ := json.Marshal(s); strings.Contains(string(b), "$PORT") {
		port = freePort()
	}
	text := func(v any) string {
		b, _ := json.Marshal(v)
		return strings.ReplaceAll(string(b), "$PORT", port)
	}
	exe, _ := os.Executable()
	c := exec.Command(exe)
	c.Dir = dir
	c.ExtraFiles = files
	c.Env = []string{"VERIF_STAGE=1", "VERIF_DIR=" + dir, "VERIF_ENV=" + text(s.L("env")), "VERIF_CMDS=" + text(s.L("cmds"))}
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Start(); err != nil {
		drv.Die(err)
	}
	for _, f := range files {
		f.Close()
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	how := "crash"
	switch c.ProcessState.ExitCode() {
	case 0:
		how = "ok"
	case 1:
		how = "fatal"
	case 4:
		drv.Die(out.String())
	}
	var tr []drv.Ev
	try, kind := "", ""
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var e drv.Ev
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			continue
		}
		switch e.S("op") {
		case "start":
			e["passed"] = passed
			e["dir"] = dir
		case "try":
			try, kind = e.S("s"), e.S("k")
			continue
		case "res":
			addr := e.S("addr")
			host, p := "", 0
			if e.S("net") == "tcp" {
				h, ps, _ := net.SplitHostPort(addr)
				host = h
				p, _ = strconv.Atoi(ps)
				if ip := net.ParseIP(h); ip != nil && ip.IsUnspecified() {
					host = "any"
				}
			}
			e = drv.Ev{"op": kind, "s": try, "res": e.S("res"), "net": e.S("net"), "addr": addr, "host": host, "port": p}
			kind = ""
		}
		tr = append(tr, e)
	}
	if kind != "" {
		tr = append(tr, drv.Ev{"op": kind, "s": try, "res": how, "net": "", "addr": "", "host": "", "port": 0})
	}
	// what the Einhorn master got
	acks := []int{}
	for {
		ctl.(*net.UnixListener).SetDeadline(time.Now().Add(2 * time.Millisecond))
		k, err := ctl.Accept()
		if err != nil {
			break
		}
		k.SetDeadline(time.Now().Add(5 * time.Second))
		b, _ := io.ReadAll(k)
		k.Close()
		rest := string(b)
		for rest != "" {
			line, r, ok := strings.Cut(rest, "\n")
			rest = r
			var m struct {
				Command string
				Pid     int
			}
			if !ok || json.Unmarshal([]byte(line), &m) != nil || m.Command != "worker:ack" {
				m.Pid = 0
			}
			acks = append(acks, m.Pid)
		}
	}
	ctl.Close()
	made := []string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		n := filepath.Base(p)
		if p != dir && n != "sub" && n != "taken" && n != "ctl" && !strings.HasPrefix(n, "fd") {
			made = append(made, p)
		}
		return nil
	})
	return append(tr, drv.Ev{"op": "end", "how": how, "acks": acks, "made": made})
}
