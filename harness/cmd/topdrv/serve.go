package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"

	"verif/drv"
)

// ---------------------------------------------------------------- the server

var release sync.Map // what is served slowly: number -> channel

func slow(n string, by string, w http.ResponseWriter) {
	ch, _ := release.LoadOrStore(n, make(chan bool))
	k, _ := strconv.Atoi(n)
	say(drv.Ev{"op": "slow", "c": k})
	<-ch.(chan bool)
	io.WriteString(w, by)
}

// breakable is a listener that can be told to fail.
type breakable struct {
	net.Listener
	broken atomic.Bool
}

func (b *breakable) Accept() (net.Conn, error) {
	c, err := b.Listener.Accept()
	if b.broken.Load() {
		return nil, errors.New("the listener broke")
	}
	return c, err
}

func answer(by string) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, by) }
}

func serve(s string) {
	var b drv.Ev
	json.Unmarshal([]byte(s), &b)
	if cpu := os.Getenv("VERIF_CPU"); cpu != "" { // run only when nobody else wants to
		runtime.LockOSThread()
		n, _ := strconv.Atoi(cpu)
		pin(n)
		var prio int32
		syscall.RawSyscall(syscall.SYS_SCHED_SETSCHEDULER, 0, 5, uintptr(unsafe.Pointer(&prio)))
		syscall.RawSyscall(syscall.SYS_FCNTL, 3, syscall.F_SETFD, 0) // package bind has been here
		exe, err := os.Executable()
		if err == nil {
			env := []string{}
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "VERIF_CPU=") {
					env = append(env, e)
				}
			}
			err = syscall.Exec(exe, os.Args, env)
		}
		log.Fatal(err)
	}
	http.HandleFunc("/debug/x", answer("mux"))
	http.HandleFunc("/debug/slow/", func(w http.ResponseWriter, r *http.Request) { slow(r.URL.Path[len("/debug/slow/"):], "mux", w) })
	if b.B("own") {
		goji.DefaultMux = web.New()
	}
	goji.Get("/goji", answer("goji"))
	goji.Get("/slow/:c", func(c web.C, w http.ResponseWriter, r *http.Request) { slow(c.URLParams["c"], "goji", w) })
	goji.Get("/panic", func(w http.ResponseWriter, r *http.Request) { panic("handler") })
	var bl *breakable
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			switch f[0] {
			case "release":
				ch, _ := release.LoadOrStore(f[1], make(chan bool))
				close(ch.(chan bool))
			case "late":
				http.HandleFunc("/debug/late", answer("mux"))
				goji.Get("/late", answer("goji"))
				say(drv.Ev{"op": "late"})
			case "break":
				bl.broken.Store(true)
				bl.Listener.Close()
			}
		}
	}()
	if b.B("parsed") {
		flag.Parse()
	}
	switch b.S("how") {
	case "listener":
		l, err := net.Listen("unix", os.Getenv("VERIF_ADDR"))
		if err != nil {
			log.Fatal(err)
		}
		bl = &breakable{Listener: l}
		goji.ServeListener(bl)
	case "tls":
		goji.ServeTLS(&tls.Config{Certificates: []tls.Certificate{certificate()}})
	default:
		goji.Serve()
	}
	say(drv.Ev{"op": "returned"})
}

func certificate() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		log.Fatal(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"x"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		log.Fatal(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

func pin(cpu int) {
	var mask [16]uint64
	mask[cpu/64] = 1 << (cpu % 64)
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, uintptr(len(mask)*8), uintptr(unsafe.Pointer(&mask)))
}

// ---------------------------------------------------------------- its clients and its master

type conn struct {
	nc     net.Conn
	got    chan string // what was answered
	closed chan bool
}

type server struct {
	mu       sync.Mutex
	cmd      *exec.Cmd
	stdin    io.Writer
	changes  int // observed so far
	lines    []string
	sig, end int // log lines that announce the shutdown, and its end
	notes    map[string]chan bool
	returned bool
	acks     int
	exited   chan bool
	conns    map[int]*conn
	dial     func() (net.Conn, error)
}

func (s *server) note(k string) chan bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.notes[k] == nil {
		s.notes[k] = make(chan bool)
	}
	return s.notes[k]
}

func (s *server) change(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.changes++
	f()
}

func (s *server) logs(r io.Reader) {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		l := sc.Text()
		s.change(func() {
			switch m := lineRE.FindStringSubmatch(l); {
			case m != nil && m[2] != "panic:":
				x := m[2]
				if m[1] != "" {
					x += "+id"
				}
				if m[3] != "" {
					x += " " + m[3]
				}
				s.lines = append(s.lines, x)
			case strings.Contains(l, "gracefully stopping"):
				s.sig++
			case strings.Contains(l, "Goji stopped"):
				s.end++
			}
		})
	}
}

func (s *server) says(r io.Reader) {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		var e drv.Ev
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			continue
		}
		s.change(func() {})
		switch e.S("op") {
		case "returned":
			s.mu.Lock()
			s.returned = true
			s.mu.Unlock()
		case "slow":
			close(s.note(fmt.Sprint("slow", e.I("c"))))
		default:
			close(s.note(e.S("op")))
		}
	}
}

// settle waits until nothing has changed for a while.
func (s *server) settle() {
	last, since := -1, time.Now()
	for t := time.Now(); time.Since(t) < 5*time.Second; time.Sleep(10 * time.Millisecond) {
		s.mu.Lock()
		n := s.changes
		s.mu.Unlock()
		if n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > 150*time.Millisecond {
			return
		}
	}
}

func (s *server) alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

func (s *server) connect(c int) *conn {
	if k := s.conns[c]; k != nil {
		select {
		case <-k.closed:
			delete(s.conns, c)
		default:
			return k
		}
	}
	nc, err := s.dial()
	if err != nil {
		return nil
	}
	k := &conn{nc, make(chan string, 10), make(chan bool)}
	s.conns[c] = k
	go func() {
		br := bufio.NewReader(nc)
		for {
			res, err := http.ReadResponse(br, nil)
			var b []byte
			if err == nil {
				b, err = io.ReadAll(res.Body)
			}
			if err != nil {
				s.change(func() { close(k.closed) })
				nc.Close()
				return
			}
			x := string(b)
			if res.StatusCode != 200 {
				x = fmt.Sprint(res.StatusCode)
			}
			s.change(func() { k.got <- x })
		}
	}()
	return k
}

func (k *conn) send(path string) {
	k.nc.SetWriteDeadline(time.Now().Add(5 * time.Second))
	fmt.Fprintf(k.nc, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path)
}

func (k *conn) await() string {
	select {
	case x := <-k.got:
		return x
	case <-k.closed:
		select {
		case x := <-k.got:
			return x
		default:
		}
		return "none"
	case <-time.After(6 * time.Second):
		return "hang"
	}
}

var signals = map[string]os.Signal{"INT": syscall.SIGINT, "USR2": syscall.SIGUSR2}

func runServe(st []drv.Ev) []drv.Ev {
	boot := st[0]
	dir, err := os.MkdirTemp("", "verif-top-")
	if err != nil {
		drv.Die(err)
	}
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "s")
	s := &server{notes: map[string]chan bool{}, conns: map[int]*conn{}, exited: make(chan bool)}
	network := "unix"
	exe, _ := os.Executable()
	b, _ := json.Marshal(boot)
	cmd := exec.Command(exe)
	cmd.Dir = dir
	cmd.Env = []string{"VERIF_SERVE=" + string(b), "VERIF_ADDR=" + addr, "EINHORN_SOCK_PATH=" + filepath.Join(dir, "ctl")}
	ctl, err := net.Listen("unix", filepath.Join(dir, "ctl"))
	if err != nil {
		drv.Die(err)
	}
	defer ctl.Close()
	how := boot.S("how")
	switch how {
	case "flag", "tls":
		cmd.Args = append(cmd.Args, "-bind", addr)
		cmd.Env = append(cmd.Env, "GOJI_BIND=/nowhere/at/all")
	case "env":
		cmd.Env = append(cmd.Env, "GOJI_BIND="+addr)
	case "port":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			drv.Die(err)
		}
		network, addr = "tcp", l.Addr().String()
		_, p, _ := net.SplitHostPort(addr)
		cmd.Env = append(cmd.Env, "PORT="+p)
		l.Close()
	case "einhorn":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			drv.Die(err)
		}
		network, addr = "tcp", l.Addr().String()
		f, _ := l.(*net.TCPListener).File()
		l.Close()
		defer f.Close()
		cmd.ExtraFiles = []*os.File{f}
		cmd.Env = append(cmd.Env, fmt.Sprint("EINHORN_MASTER_PID=", os.Getpid()), "EINHORN_FD_COUNT=1", "EINHORN_FD_0=3")
	}
	s.dial = func() (net.Conn, error) {
		c, err := net.DialTimeout(network, addr, 5*time.Second)
		if err != nil || how != "tls" {
			return c, err
		}
		t := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
		c.SetDeadline(time.Now().Add(5 * time.Second))
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		c.SetDeadline(time.Time{})
		return t, nil
	}
	cpu := os.Getpid() % runtime.NumCPU()
	if !boot.B("probe") {
		cmd.Env = append(cmd.Env, fmt.Sprint("VERIF_CPU=", cpu))
	}
	s.cmd = cmd
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	errs, _ := cmd.StderrPipe()
	s.stdin = in
	if err := cmd.Start(); err != nil {
		drv.Die(err)
	}
	for _, f := range cmd.ExtraFiles {
		f.Close()
	}
	defer func() {
		cmd.Process.Kill()
		<-s.exited
		for _, k := range s.conns {
			k.nc.Close()
		}
	}()
	go func() {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { s.logs(errs); wg.Done() }()
		go func() { s.says(out); wg.Done() }()
		wg.Wait()
		cmd.Wait()
		s.change(func() { close(s.exited) })
	}()
	acked := make(chan bool)
	if boot.B("probe") {
		go func() {
			for {
				c, err := ctl.Accept()
				if err != nil {
					return
				}
				c.SetDeadline(time.Now().Add(5 * time.Second))
				b, _ := io.ReadAll(c)
				c.Close()
				s.ack(b)
			}
		}()
	} else {
		// react to the acknowledgment before its sender gets any further
		f, _ := ctl.(*net.UnixListener).File()
		go func() {
			defer close(acked)
			runtime.LockOSThread() // and the thread ends with the goroutine
			pin(cpu)
			fd := int(f.Fd())
			syscall.SetNonblock(fd, false)
			syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 10})
			n, _, err := syscall.Accept(fd)
			if err != nil {
				return
			}
			b := make([]byte, 1000)
			k, _ := syscall.Read(n, b)
			syscall.Kill(cmd.Process.Pid, signals[boot.S("s")].(syscall.Signal))
			s.ack(b[:max(k, 0)])
			syscall.Close(n)
			f.Close()
		}()
	}

	var tr []drv.Ev
	add := func(e drv.Ev, kv ...any) {
		s.settle()
		s.mu.Lock()
		open := []int{}
		for c, k := range s.conns {
			select {
			case <-k.closed:
			default:
				open = append(open, c)
			}
		}
		sort.Ints(open)
		lines := append([]string{}, s.lines...)
		sort.Strings(lines)
		s.lines = nil
		exit := 0
		if !s.alive() {
			exit = cmd.ProcessState.ExitCode()
		}
		kv = append(kv, "alive", s.alive(), "exit", exit, "returned", s.returned, "sig", s.sig, "stop", s.end, "acks", s.acks, "open", open, "lines", lines)
		s.mu.Unlock()
		tr = append(tr, drv.Copy(e, kv...))
	}
	if boot.B("probe") {
		res := "none"
		for t := time.Now(); time.Since(t) < 10*time.Second && s.alive(); time.Sleep(5 * time.Millisecond) {
			k := s.connect(0)
			if k == nil {
				continue
			}
			k.send("/goji")
			res = k.await()
			k.nc.Close()
			<-k.closed
			delete(s.conns, 0)
			if res != "none" {
				break
			}
		}
		add(boot, "res", res)
		if res != "goji" {
			return tr
		}
	} else {
		<-acked
		add(boot, "res", "none")
	}
	var last time.Time
	uses, use := 0, map[int]int{} // slow requests are numbered
	for _, e := range st[1:] {
		if !s.alive() {
			break
		}
		c := e.I("c")
		switch e.S("op") {
		case "req", "mute", "slow":
			k := s.connect(c)
			if k == nil {
				add(e, "res", "none")
				continue
			}
			switch e.S("op") {
			case "req":
				k.send(e.S("path"))
				add(e, "res", k.await())
			case "mute":
				add(e, "res", "")
			case "slow":
				uses++
				use[c] = uses
				k.send(fmt.Sprint(e.S("path"), uses))
				res := "none"
				select {
				case <-s.note(fmt.Sprint("slow", uses)):
					res = "started"
				case <-k.closed:
				case <-time.After(6 * time.Second):
				}
				add(e, "res", res)
			}
		case "release":
			k := s.conns[c]
			if k == nil {
				add(e, "res", "none")
				continue
			}
			fmt.Fprintln(in, "release", use[c])
			add(e, "res", k.await())
		case "sig":
			gap := 100000
			if !last.IsZero() {
				gap = int(time.Since(last).Milliseconds())
			}
			cmd.Process.Signal(signals[e.S("s")])
			last = time.Now()
			add(e, "gap", gap, "res", "")
		case "wait":
			time.Sleep(time.Duration(e.I("ms")) * time.Millisecond)
			add(e, "res", "")
		case "late":
			fmt.Fprintln(in, "late")
			select {
			case <-s.note("late"):
			case <-time.After(6 * time.Second):
			}
			add(e, "res", "")
		case "break":
			fmt.Fprintln(in, "break")
			add(e, "res", "")
		default:
			drv.Die("unknown ", e.S("op"))
		}
	}
	return tr
}

func (s *server) ack(b []byte) {
	n := 0
	for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		var m struct {
			Command string
			Pid     int
		}
		if json.Unmarshal(l, &m) == nil && m.Command == "worker:ack" && m.Pid == s.cmd.Process.Pid {
			n++
		}
	}
	s.change(func() { s.acks += n })
}
