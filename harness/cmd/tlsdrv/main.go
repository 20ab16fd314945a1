// tlsdrv serves TLS from certificate files and shakes hands with the servers.
// See spec/TlsTrace.tla for the events.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"time"

	"github.com/zenazn/goji/graceful"

	"verif/drv"
)

var dir string
var certs = map[string]tls.Certificate{} // by who issued them
var cas = map[string]*x509.CertPool{}
var leaf = map[string]string{} // certificate -> name
var echKey tls.EncryptedClientHelloKey
var echList []byte

func must(err error) {
	if err != nil {
		drv.Die(err)
	}
}

func makeCert(name string, parent *x509.Certificate, signer crypto.Signer) (*x509.Certificate, *ecdsa.PrivateKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(leaf) + 1)), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		BasicConstraintsValid: true, IsCA: parent == nil, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}, DNSNames: []string{"example.com", "outer.example"}}
	p, s := t, crypto.Signer(k)
	if parent != nil {
		p, s = parent, signer
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &k.PublicKey, s)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	certs[name] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	leaf[string(der)] = name
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	must(os.WriteFile(filepath.Join(dir, name+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	must(os.WriteFile(filepath.Join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0644))
	return c, k
}

func u16(b []byte, n int) []byte { return binary.BigEndian.AppendUint16(b, uint16(n)) }

func setup() {
	var err error
	dir, err = os.MkdirTemp(".", "tls-")
	must(err)
	for _, n := range []string{"file", "other", "user", "inner", "callback"} {
		makeCert(n, nil, nil)
	}
	for _, n := range []string{"1", "2"} {
		c, k := makeCert("root"+n, nil, nil)
		cas["ca"+n] = x509.NewCertPool()
		cas["ca"+n].AddCert(c)
		makeCert("ca"+n, c, k)
	}
	must(os.WriteFile(filepath.Join(dir, "garbage"), []byte("garbage"), 0644))
	k, err := ecdh.X25519().GenerateKey(rand.Reader)
	must(err)
	c := append([]byte{7}, u16(nil, 0x20)...)
	c = u16(c, 32)
	c = append(c, k.PublicKey().Bytes()...)
	c = append(c, 0, 4, 0, 1, 0, 1, 32, byte(len("outer.example")))
	c = append(c, "outer.example"...)
	c = u16(c, 0)
	full := append(u16(u16(nil, 0xfe0d), len(c)), c...)
	echKey = tls.EncryptedClientHelloKey{Config: full, PrivateKey: k.Bytes(), SendAsRetry: true}
	echList = append(u16(nil, len(full)), full...)
}

func main() {
	setup()
	log.SetOutput(io.Discard)
	drv.HangAfter = 60 * time.Second
	defer os.RemoveAll(dir)
	drv.Main(map[string]func([]drv.Ev) []drv.Ev{"tls": run})
}

var version = map[int]uint16{3: 0x0300, 10: tls.VersionTLS10, 11: tls.VersionTLS11, 12: tls.VersionTLS12, 13: tls.VersionTLS13}
var suite = map[string]uint16{"gcm": tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, "cbc": tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA, "cha": tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, "rsa": tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}
var curve = map[string]tls.CurveID{"p256": tls.CurveP256, "p384": tls.CurveP384, "x25519": tls.X25519}

func name[K comparable, V comparable](m map[K]V, v V) (r K) {
	for k, x := range m {
		if x == v {
			return k
		}
	}
	return
}

func strs(l []any) []string {
	if len(l) == 1 && l[0] == "nil" {
		return nil
	}
	r := make([]string, 0, len(l)+2) // with room: what is appended must not show
	for _, x := range l {
		r = append(r, x.(string))
	}
	return r
}

func suites(l []any) []uint16 {
	s := strs(l)
	if s == nil {
		return nil
	}
	r := make([]uint16, 0, len(s)+1)
	for _, x := range s {
		r = append(r, suite[x])
	}
	return r
}

func curves(l []any) []tls.CurveID {
	var r []tls.CurveID
	for _, x := range strs(l) {
		r = append(r, curve[x])
	}
	return r
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errors.New("no randomness") }

type logged struct {
	sync.Mutex
	bytes.Buffer
}

func (w *logged) Write(b []byte) (int, error) {
	w.Lock()
	defer w.Unlock()
	return w.Buffer.Write(b)
}
func (w *logged) size() int {
	w.Lock()
	defer w.Unlock()
	return w.Len()
}

type server struct {
	addr    string
	conf    *tls.Config
	before  []any
	keylog  *logged
	wrapped *int32
}

func (s *server) config(c drv.Ev) *tls.Config {
	if !c.B("present") {
		return nil
	}
	t := &tls.Config{MinVersion: version[c.I("min")], MaxVersion: version[c.I("max")], CipherSuites: suites(c.L("suites")), NextProtos: strs(c.L("protos")),
		ClientAuth: tls.ClientAuthType(c.I("auth")), ClientCAs: cas[c.S("cas")], CurvePreferences: curves(c.L("curves")),
		// these govern clients only
		RootCAs: cas["ca2"], ServerName: "nobody", ClientSessionCache: tls.NewLRUClientSessionCache(1), Renegotiation: tls.RenegotiateOnceAsClient}
	key := func(b byte) (k [32]byte) { k[0] = b; return }
	switch c.S("tickets") {
	case "off":
		t.SessionTicketsDisabled = true
	case "k1":
		t.SetSessionTicketKeys([][32]byte{key(1)})
	case "k2":
		t.SetSessionTicketKeys([][32]byte{key(2)})
	case "f1":
		t.SessionTicketKey = key(1)
	case "wrap":
		k := &tls.Config{}
		k.SetSessionTicketKeys([][32]byte{key(3)})
		t.WrapSession = k.EncryptTicket
		t.UnwrapSession = k.DecryptTicket
	case "refuse":
		t.UnwrapSession = func([]byte, tls.ConnectionState) (*tls.SessionState, error) { return nil, nil }
	}
	ret := func(s string) error {
		if s == "err" {
			return errors.New("no")
		}
		return nil
	}
	if x := c.S("vp"); x != "none" {
		t.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return ret(x) }
	}
	if x := c.S("vc"); x != "none" {
		t.VerifyConnection = func(tls.ConnectionState) error { return ret(x) }
	}
	if c.B("keylog") {
		t.KeyLogWriter = s.keylog
	}
	if c.S("time") == "future" {
		t.Time = func() time.Time { return time.Now().Add(100 * 24 * time.Hour) }
	}
	if c.S("rand") == "fail" {
		t.Rand = failing{}
	}
	if c.B("ech") {
		t.EncryptedClientHelloKeys = []tls.EncryptedClientHelloKey{echKey}
	}
	if x := c.S("gc"); x != "none" {
		t.GetCertificate = func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			if x == "err" {
				return nil, errors.New("no certificate")
			}
			k := certs["callback"]
			return &k, nil
		}
	}
	if c.B("certs") {
		t.Certificates = append(make([]tls.Certificate, 0, 3), certs["user"])
		t.NameToCertificate = map[string]*tls.Certificate{"example.com": &t.Certificates[0]}
	}
	switch x := c.S("gcfc"); x {
	case "nil", "err":
		t.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { return nil, ret(x) }
	case "other":
		in := s.config(c.E("inner"))
		in.Certificates = []tls.Certificate{certs["inner"]}
		in.NameToCertificate = nil
		t.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { return in, nil }
	}
	return t
}

// fields is what can be seen of a configuration.
func fields(c *tls.Config) []any {
	if c == nil {
		return nil
	}
	var r []any
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !v.Type().Field(i).IsExported() {
			continue
		}
		switch f.Kind() {
		case reflect.Slice:
			n := reflect.MakeSlice(f.Type(), f.Cap(), f.Cap())
			reflect.Copy(n, f.Slice(0, f.Cap()))
			r = append(r, f.Len(), f.IsNil(), n.Interface())
		case reflect.Func, reflect.Map:
			r = append(r, f.Pointer(), f.Kind() == reflect.Map && f.Len() > 0)
		case reflect.Pointer:
			r = append(r, f.Pointer())
		default:
			r = append(r, f.Interface())
		}
	}
	return r
}

var nextPort = 12000

func freeAddr() string {
	host := fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()>>16, os.Getpid()>>8&255, os.Getpid()&255)
	for {
		nextPort++
		if nextPort > 30000 {
			nextPort = 12000
		}
		a := fmt.Sprintf("%s:%d", host, nextPort)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

func serve(e drv.Ev) (*server, string) {
	s := &server{addr: freeAddr(), keylog: &logged{}}
	s.conf = s.config(e.E("cfg"))
	s.before = fields(s.conf)
	crt, key := "file", "file"
	f := func(n, ext string) string { return filepath.Join(dir, n+ext) }
	switch e.S("files") {
	case "missing":
		crt = "nothing"
	case "nokey":
		key = "nothing"
	case "mismatch":
		key = "other"
	}
	cf, kf := f(crt, ".crt"), f(key, ".key")
	if e.S("files") == "garbage" {
		cf = f("garbage", "")
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "hi") })
	res := make(chan error, 1)
	if e.S("files") == "taken" {
		l, err := net.Listen("tcp", s.addr)
		must(err)
		defer l.Close()
	}
	go func() {
		quiet := log.New(io.Discard, "", 0)
		switch e.S("fn") {
		case "std":
			x := &http.Server{Addr: s.addr, Handler: h, TLSConfig: s.conf, ErrorLog: quiet, TLSNextProto: map[string]func(*http.Server, *tls.Conn, http.Handler){}}
			res <- x.ListenAndServeTLS(cf, kf)
		case "func":
			res <- graceful.ListenAndServeTLS(s.addr, cf, kf, h)
		default:
			x := &graceful.Server{Addr: s.addr, Handler: h, TLSConfig: s.conf, ErrorLog: quiet}
			res <- x.ListenAndServeTLS(cf, kf)
		}
	}()
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		select {
		case err := <-res:
			if err == nil {
				return s, "returned"
			}
			if e.S("files") != "taken" {
				if c, err := net.Dial("tcp", s.addr); err == nil {
					c.Close()
					return s, "listening"
				}
			}
			return s, "err"
		default:
		}
		if e.S("files") == "taken" {
			continue
		}
		if c, err := net.Dial("tcp", s.addr); err == nil {
			c.Close()
			return s, "up"
		}
	}
	return s, "stuck"
}

const request = "GET / HTTP/1.1\r\nHost: example.com\r\nConnection: close\r\n\r\n"

// ssl3 offers SSL 3.0 only.
func ssl3(c net.Conn) bool {
	h := append([]byte{3, 0}, make([]byte, 32)...)
	h = append(h, 0, 0, 10, 0xc0, 0x09, 0xc0, 0x0a, 0x00, 0x2f, 0x00, 0x35, 0x00, 0x0a, 1, 0)
	h = append([]byte{1, 0, 0, byte(len(h))}, h...)
	c.Write(append([]byte{22, 3, 0, 0, byte(len(h))}, h...))
	b := make([]byte, 1)
	_, err := io.ReadFull(c, b)
	return err == nil && b[0] == 22
}

func shake(s *server, e drv.Ev, cache tls.ClientSessionCache) drv.Ev {
	r := drv.Copy(e, "ok", false, "ver", 0, "alpn", "", "suite", "", "curve", "", "cert", "", "asked", false, "resumed", false, "echok", false, "logged", false)
	c := e.E("cli")
	raw, err := net.Dial("tcp", s.addr)
	if err != nil {
		return r
	}
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(20 * time.Second))
	if c.S("kind") == "ssl3" {
		r["ok"] = ssl3(raw)
		return r
	}
	asked := false
	t := &tls.Config{InsecureSkipVerify: true, MinVersion: version[c.I("min")], MaxVersion: version[c.I("max")], CipherSuites: suites(c.L("suites")), NextProtos: strs(c.L("protos")), CurvePreferences: curves(c.L("curves")),
		GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
			asked = true
			k := certs[c.S("cert")]
			return &k, nil
		}}
	if c.B("sni") {
		t.ServerName = "example.com"
	}
	if c.B("resume") {
		t.ClientSessionCache = cache
	}
	if c.B("ech") {
		t.EncryptedClientHelloConfigList = echList
		t.EncryptedClientHelloRejectionVerify = func(tls.ConnectionState) error { return nil }
	}
	n := s.keylog.size()
	k := tls.Client(raw, t)
	err = k.Handshake()
	if err == nil {
		k.Write([]byte(request))
		b := make([]byte, 1)
		_, err = io.ReadFull(k, b)
	}
	r["asked"] = asked
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r["op"] = "timeout"
		}
		r["err"] = err.Error()
		return r
	}
	io.Copy(io.Discard, k)
	st := k.ConnectionState()
	r["ok"] = true
	r["ver"] = name(version, st.Version)
	r["alpn"] = st.NegotiatedProtocol
	r["suite"] = name(suite, st.CipherSuite)
	r["curve"] = name(curve, st.CurveID)
	if len(st.PeerCertificates) > 0 {
		r["cert"] = leaf[string(st.PeerCertificates[0].Raw)]
	}
	r["resumed"] = st.DidResume
	r["echok"] = st.ECHAccepted
	r["logged"] = s.keylog.size() > n
	return r
}

func run(st []drv.Ev) []drv.Ev {
	var tr []drv.Ev
	var srv []*server
	cache := tls.NewLRUClientSessionCache(8)
	for _, e := range st {
		switch e.S("op") {
		case "serve":
			s, res := serve(e)
			srv = append(srv, s)
			tr = append(tr, drv.Copy(e, "res", res))
		case "hs":
			tr = append(tr, shake(srv[e.I("srv")-1], e, cache))
		default:
			drv.Die("unknown ", e.S("op"))
		}
	}
	same := []bool{}
	for _, s := range srv {
		same = append(same, reflect.DeepEqual(s.before, fields(s.conf)))
	}
	return append(tr, drv.Ev{"op": "end", "same": same})
}
