package main

// A fake GitHub on the loopback interface, with every misbehaviour a server or a network can show.

import (
	"archive/tar"
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type pki struct {
	caFile, emptyDir     string
	good, rogue, badHost tls.Certificate
	expired              tls.Certificate
	forHost              func(name string) *tls.Certificate
}

var (
	pkiOnce sync.Once
	thePKI  *pki
)

func (c *Ctx) pki() *pki {
	pkiOnce.Do(func() {
		p := &pki{caFile: filepath.Join(c.Scratch, "ca.pem"), emptyDir: filepath.Join(c.Scratch, "nocerts")}
		os.MkdirAll(p.emptyDir, 0755)
		mk := func(cn string) (*x509.Certificate, *ecdsa.PrivateKey) {
			k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
			if err != nil {
				infra("pki: %v", err)
			}
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour),
				NotAfter: time.Now().Add(240 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
			der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
			if err != nil {
				infra("pki: %v", err)
			}
			cert, _ := x509.ParseCertificate(der)
			return cert, k
		}
		leaf := func(ca *x509.Certificate, ck *ecdsa.PrivateKey, hosts []string, end time.Time) tls.Certificate {
			k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
			t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: hosts[0]}, DNSNames: hosts,
				NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: end, KeyUsage: x509.KeyUsageDigitalSignature,
				ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
			der, err := x509.CreateCertificate(crand.Reader, t, ca, &k.PublicKey, ck)
			if err != nil {
				infra("pki: %v", err)
			}
			return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
		}
		hosts := []string{"api.github.com", "github.com", "objects.githubusercontent.com"}
		far := time.Now().Add(200 * time.Hour)
		ca, ck := mk("vp root")
		p.good = leaf(ca, ck, hosts, far)
		p.badHost = leaf(ca, ck, []string{"example.com"}, far)
		p.expired = leaf(ca, ck, hosts, time.Now().Add(-time.Hour))
		var mu sync.Mutex
		made := map[string]*tls.Certificate{}
		p.forHost = func(name string) *tls.Certificate {
			mu.Lock()
			defer mu.Unlock()
			if made[name] == nil {
				x := leaf(ca, ck, []string{name}, far)
				made[name] = &x
			}
			return made[name]
		}
		rca, rck := mk("rogue root")
		p.rogue = leaf(rca, rck, hosts, far)
		os.WriteFile(p.caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw}), 0644)
		thePKI = p
	})
	return thePKI
}

// reply says what the server does with one request.
type reply struct {
	mode   string // "" normal; stallhead, stallbody, truncate, reset, garbage, drip, slow
	status int
	header map[string]string
	body   []byte
	cut    int // bytes of body sent before stallbody/truncate
	delay  time.Duration
	last   time.Duration // how long a slow body takes
	gate   chan struct{} // wait for it before answering
}

type reqRec struct {
	Host, Method, Path string
	Header             http.Header
	Body               string
}

func (q reqRec) all() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s\n", q.Method, q.Host, q.Path)
	for k, v := range q.Header {
		fmt.Fprintf(&b, "%s: %s\n", k, strings.Join(v, ","))
	}
	b.WriteString(q.Body)
	return b.String()
}

type fakeHub struct {
	ln      net.Listener
	addr    string
	cert    *tls.Certificate
	certAt  func(n int) *tls.Certificate // certificate of the n-th connection, if it varies
	anyHost bool                         // take connections for any host, also without TLS
	raw     string                       // connection-level behaviour: "", tlsstall, close, plain, silent
	answer  func(q reqRec, n int) reply
	mu      sync.Mutex
	reqs    []reqRec
	conns   int
	closed  chan struct{}
	open    map[net.Conn]bool
	pki     *pki
	quietTo time.Duration
}

func (c *Ctx) hub(answer func(q reqRec, n int) reply) *fakeHub {
	p := c.pki()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		infra("listen: %v", err)
	}
	h := &fakeHub{ln: ln, addr: ln.Addr().String(), cert: &p.good, answer: answer, closed: make(chan struct{}), open: map[net.Conn]bool{}, pki: p}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			h.mu.Lock()
			cn := h.conns
			h.conns++
			h.open[conn] = true
			h.mu.Unlock()
			go func() {
				defer func() {
					conn.Close()
					h.mu.Lock()
					delete(h.open, conn)
					h.mu.Unlock()
				}()
				h.serve(conn, cn)
			}()
		}
	}()
	return h
}

func (h *fakeHub) close() {
	close(h.closed)
	h.ln.Close()
	h.mu.Lock()
	for c := range h.open {
		c.Close()
	}
	h.mu.Unlock()
}

func (h *fakeHub) requests() []reqRec {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]reqRec{}, h.reqs...)
}

func (h *fakeHub) hold(d time.Duration) {
	select {
	case <-h.closed:
	case <-time.After(d):
	}
}

func (h *fakeHub) serve(conn net.Conn, cn int) {
	switch h.raw {
	case "tlsstall":
		io.CopyN(io.Discard, conn, 1)
		h.hold(90 * time.Second)
		return
	case "silent":
		h.hold(90 * time.Second)
		return
	case "close":
		return
	case "plain":
		io.WriteString(conn, "HTTP/1.1 400 Bad Request\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno")
		return
	}
	cert := h.cert
	if h.certAt != nil {
		cert = h.certAt(cn)
	}
	conf := &tls.Config{Certificates: []tls.Certificate{*cert}, NextProtos: []string{"http/1.1"}}
	if h.anyHost {
		b0 := make([]byte, 1)
		conn.SetDeadline(time.Now().Add(100 * time.Second))
		if _, err := io.ReadFull(conn, b0); err != nil {
			return
		}
		if b0[0] != 0x16 { // not TLS: whatever it is, keep it
			buf := make([]byte, 1<<20)
			conn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			n, _ := io.ReadFull(conn, buf)
			h.mu.Lock()
			h.reqs = append(h.reqs, reqRec{Host: "(plain)", Body: string(b0) + string(buf[:n])})
			h.mu.Unlock()
			io.WriteString(conn, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			return
		}
		conn = &prefixed{Conn: conn, first: b0}
		conf.GetCertificate = func(i *tls.ClientHelloInfo) (*tls.Certificate, error) {
			if i.ServerName == "" || strings.HasSuffix(i.ServerName, "github.com") || strings.HasSuffix(i.ServerName, "githubusercontent.com") {
				return nil, nil
			}
			return h.pki.forHost(i.ServerName), nil
		}
	}
	t := tls.Server(conn, conf)
	t.SetDeadline(time.Now().Add(100 * time.Second))
	br := bufio.NewReader(t)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	body, _ := io.ReadAll(io.LimitReader(req.Body, 1<<20))
	q := reqRec{Host: req.Host, Method: req.Method, Path: req.URL.RequestURI(), Header: req.Header, Body: string(body)}
	h.mu.Lock()
	n := len(h.reqs)
	h.reqs = append(h.reqs, q)
	h.mu.Unlock()
	r := h.answer(q, n)
	if r.delay > 0 {
		h.hold(r.delay)
	}
	if r.gate != nil {
		select {
		case <-r.gate:
		case <-h.closed:
			return
		}
	}
	if r.status == 0 {
		r.status = 200
	}
	switch r.mode {
	case "stallhead":
		h.hold(90 * time.Second)
		return
	case "halfhead":
		io.WriteString(t, "HTTP/1.1 200 OK\r\nContent-Ty")
		h.hold(90 * time.Second)
		return
	case "reset":
		if tc, ok := conn.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		return
	case "garbage":
		t.Write([]byte("\x00\x01\x02 not http at all \xff\xfe\r\n\r\n"))
		t.Close()
		return
	}
	var hd strings.Builder
	fmt.Fprintf(&hd, "HTTP/1.1 %d %s\r\nConnection: close\r\n", r.status, http.StatusText(r.status))
	if r.header["Content-Type"] == "" {
		hd.WriteString("Content-Type: application/json; charset=utf-8\r\n")
	}
	for k, v := range r.header {
		fmt.Fprintf(&hd, "%s: %s\r\n", k, v)
	}
	if r.mode != "nolength" {
		fmt.Fprintf(&hd, "Content-Length: %d\r\n", len(r.body))
	}
	hd.WriteString("\r\n")
	io.WriteString(t, hd.String())
	switch r.mode {
	case "stallbody":
		t.Write(r.body[:min(r.cut, len(r.body))])
		h.hold(90 * time.Second)
		return
	case "truncate":
		t.Write(r.body[:min(r.cut, len(r.body))])
		t.Close()
		return
	case "slow": // all of it, in 20 parts over r.last
		for k := 0; k < 20; k++ {
			if _, err := t.Write(r.body[len(r.body)*k/20 : len(r.body)*(k+1)/20]); err != nil {
				return
			}
			select {
			case <-h.closed:
				return
			case <-time.After(r.last / 20):
			}
		}
		t.Close()
		return
	case "drip":
		for i := range r.body {
			if _, err := t.Write(r.body[i : i+1]); err != nil {
				return
			}
			select {
			case <-h.closed:
				return
			case <-time.After(150 * time.Millisecond):
			}
		}
		return
	}
	t.Write(r.body)
	t.Close()
}

// dial is the address map that sends GitHub traffic to this server and refuses everything else.
func (h *fakeHub) dial() string {
	var p []string
	for _, n := range []string{"api.github.com:443", "github.com:443", "objects.githubusercontent.com:443"} {
		p = append(p, n+"="+h.addr)
	}
	return strings.Join(p, ",") + ",*=refuse"
}

func (c *Ctx) tlsEnv() []string {
	p := c.pki()
	return []string{"SSL_CERT_FILE=" + p.caFile, "SSL_CERT_DIR=" + p.emptyDir}
}

// ---- releases ----

type rasset struct{ Name, Url string }

type rel struct {
	Tag    string
	Body   string
	NoBody bool // null
	Assets []rasset
}

const dlBase = "https://github.com/mashmb/1pass/releases/download/"

// newRel is a release as the project publishes them.
func newRel(tag string) rel {
	return rel{Tag: tag, Body: "## Changelog\n- something new in " + tag, Assets: []rasset{
		{"1pass_" + tag + "_Linux_x86_64.tar.gz", dlBase + tag + "/1pass_" + tag + "_Linux_x86_64.tar.gz"},
		{"checksum.md5", dlBase + tag + "/checksum.md5"},
	}}
}

// variedRel is a release with a changelog of any kind.
func variedRel(r *rand.Rand, tag string) rel {
	x := newRel(tag)
	switch r.Intn(6) {
	case 0:
		x.Body = ""
	case 1:
		x.NoBody = true
	case 2:
		x.Body = strings.Repeat("- changed %s %d\r\n", 1+r.Intn(300))
	case 3:
		x.Body = "\n\n# ąę 漢 <b>\t"
	}
	return x
}

// olderRels is a history of releases as long as the list of a project of some years.
func olderRels(r *rand.Rand) []rel {
	var out []rel
	for k := 20 + r.Intn(10); k > 0; k-- {
		x := newRel(fmt.Sprintf("0.%d.%d", k, r.Intn(4)))
		x.Body = strings.Repeat("- something has changed since\r\n", r.Intn(600))
		out = append(out, x)
	}
	return out
}

func relJSON(rs ...rel) []byte {
	out := []omap{}
	for i, r := range rs {
		as := []omap{}
		for j, a := range r.Assets {
			as = append(as, omap{{"url", "https://api.github.com/repos/mashmb/1pass/releases/assets/" + fmt.Sprint(j)}, {"id", 1000 + j}, {"name", a.Name},
				{"label", nil}, {"uploader", omap{{"login", "mashmb"}, {"id", 7}}}, {"content_type", "application/octet-stream"}, {"state", "uploaded"},
				{"size", 12345}, {"download_count", 3}, {"browser_download_url", a.Url}})
		}
		var body any = r.Body
		if r.NoBody {
			body = nil
		}
		out = append(out, omap{{"url", "https://api.github.com/repos/mashmb/1pass/releases/" + fmt.Sprint(i)}, {"id", 500 + i}, {"author", omap{{"login", "mashmb"}}},
			{"tag_name", r.Tag}, {"target_commitish", "master"}, {"name", "1Pass " + r.Tag}, {"draft", false}, {"prerelease", false},
			{"created_at", "2021-06-01T10:00:00Z"}, {"published_at", "2021-06-01T10:10:00Z"}, {"assets", as},
			{"tarball_url", "https://api.github.com/x"}, {"body", body}})
	}
	b, err := json.Marshal(out)
	if err != nil {
		infra("releases: %v", err)
	}
	return b
}

type tent struct {
	Name string
	Type byte
	Link string
	Mode int64
	Body []byte
}

func tarBytes(es []tent, format tar.Format) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, e := range es {
		t := e.Type
		if t == 0 {
			t = tar.TypeReg
		}
		m := e.Mode
		if m == 0 {
			m = 0755
		}
		h := &tar.Header{Name: e.Name, Typeflag: t, Linkname: e.Link, Mode: m, Format: format, ModTime: time.Unix(1600000000, 0)}
		if t == tar.TypeReg {
			h.Size = int64(len(e.Body))
		}
		if err := tw.WriteHeader(h); err != nil {
			h.Format = tar.FormatPAX
			if err := tw.WriteHeader(h); err != nil {
				infra("tar %q: %v", e.Name, err)
			}
		}
		if t == tar.TypeReg {
			tw.Write(e.Body)
		}
	}
	tw.Close()
	return b.Bytes()
}

func gz(b []byte, level int) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, level)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func tgz(es ...tent) []byte { return gz(tarBytes(es, tar.FormatUnknown), gzip.BestSpeed) }

// prefixed is a connection of which some bytes were read already.
type prefixed struct {
	net.Conn
	first []byte
}

func (p *prefixed) Read(b []byte) (int, error) {
	if len(p.first) > 0 {
		n := copy(b, p.first)
		p.first = p.first[n:]
		return n, nil
	}
	return p.Conn.Read(b)
}

// dialAll sends every connection to this server.
func (h *fakeHub) dialAll() string { return "*=" + h.addr }
