package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"
)

// Proxy is a local HTTPS proxy that plays the release server: it records every
// connection and request and answers them with the given behaviour.
type Proxy struct {
	ln     net.Listener
	ca     *x509.Certificate
	key    *ecdsa.PrivateKey
	CAPem  []byte
	mu     sync.Mutex
	Conns  []string // CONNECT targets, or the first line of anything else
	Reqs   []ProxyReq
	OpenN  int
	closed bool
	// Connect decides about a CONNECT; false means that it took over.
	Connect func(conn net.Conn, host string) bool
	// Answer answers one request inside the tunnel.
	Answer func(conn net.Conn, req *http.Request)
	leafCA bool // use a certificate that the client does not trust
	conns  map[net.Conn]bool
	// how long connections lived and how much was written to them
	Done []ConnStat
}

type ProxyReq struct {
	Host, Method, URL string
	Header            http.Header
	At                time.Time
}

type ConnStat struct {
	Dur   time.Duration
	Bytes int64
}

func newProxy() (*Proxy, error) {
	p := &Proxy{conns: map[net.Conn]bool{}}
	var err error
	if p.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {
		return nil, err
	}
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vmon CA"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &p.key.PublicKey, p.key)
	if err != nil {
		return nil, err
	}
	p.ca, _ = x509.ParseCertificate(der)
	p.CAPem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	if p.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	go func() {
		for {
			c, err := p.ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p, nil
}

func (p *Proxy) URL() string { return "http://" + p.ln.Addr().String() }

// Env makes bab talk to the proxy only.
func (p *Proxy) Env(dir string) []string {
	ca := dir + "/ca.pem"
	_ = os.WriteFile(ca, p.CAPem, 0o644)
	return []string{"HTTPS_PROXY=" + p.URL(), "HTTP_PROXY=" + p.URL(), "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=/nonexistent"}
}

func (p *Proxy) Close() {
	p.mu.Lock()
	p.closed = true
	for c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
	p.ln.Close()
}

func (p *Proxy) Count() (conns, reqs int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.Conns), len(p.Reqs)
}

// Active is the number of open connections.
func (p *Proxy) Active() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.OpenN
}

type countConn struct {
	net.Conn
	n *int64
}

func (c countConn) Write(b []byte) (int, error) {
	k, err := c.Conn.Write(b)
	*c.n += int64(k)
	return k, err
}

func (p *Proxy) serve(raw net.Conn) {
	t0 := time.Now()
	var written int64
	c := countConn{raw, &written}
	p.mu.Lock()
	if p.closed {
		p.mu.Unlock()
		raw.Close()
		return
	}
	p.conns[raw] = true
	p.OpenN++
	p.mu.Unlock()
	defer func() {
		raw.Close()
		p.mu.Lock()
		delete(p.conns, raw)
		p.OpenN--
		p.Done = append(p.Done, ConnStat{time.Since(t0), written})
		p.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	p.mu.Lock()
	p.Conns = append(p.Conns, req.Method+" "+req.Host)
	p.mu.Unlock()
	if req.Method != "CONNECT" {
		fmt.Fprintf(c, "HTTP/1.1 502 no\r\nContent-Length: 0\r\n\r\n")
		return
	}
	if p.Connect != nil && !p.Connect(c, req.Host) {
		return
	}
	fmt.Fprintf(c, "HTTP/1.1 200 ok\r\n\r\n")
	host, _, _ := strings.Cut(req.Host, ":")
	tc := tls.Server(readConn{c, br}, &tls.Config{
		NextProtos: []string{"http/1.1"},
		GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			return p.leaf(host)
		}})
	if err := tc.Handshake(); err != nil {
		return
	}
	tb := bufio.NewReader(tc)
	for {
		rq, err := http.ReadRequest(tb)
		if err != nil {
			return
		}
		p.mu.Lock()
		p.Reqs = append(p.Reqs, ProxyReq{req.Host, rq.Method, rq.URL.String(), rq.Header, time.Now()})
		p.mu.Unlock()
		p.Answer(tc, rq)
		return
	}
}

func (p *Proxy) leaf(host string) (*tls.Certificate, error) {
	signer, parent := p.key, p.ca
	if p.leafCA {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		signer = k
		tpl := *p.ca
		der, err := x509.CreateCertificate(rand.Reader, &tpl, &tpl, &k.PublicKey, k)
		if err != nil {
			return nil, err
		}
		parent, _ = x509.ParseCertificate(der)
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, parent, &k.PublicKey, signer)
	if err != nil {
		return nil, err
	}
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, nil
}

type readConn struct {
	net.Conn
	r io.Reader
}

func (c readConn) Read(b []byte) (int, error) { return c.r.Read(b) }

// reply writes a complete response.
func reply(conn io.Writer, code int, etag, body string, hdr ...string) {
	var b strings.Builder
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", code, http.StatusText(code))
	if etag != "" {
		fmt.Fprintf(&b, "ETag: %s\r\n", etag)
	}
	for _, h := range hdr {
		b.WriteString(h + "\r\n")
	}
	if code != 304 {
		fmt.Fprintf(&b, "Content-Type: application/json\r\nContent-Length: %d\r\n", len(body))
	}
	b.WriteString("Connection: close\r\n\r\n")
	if code != 304 {
		b.WriteString(body)
	}
	_, _ = io.WriteString(conn, b.String())
}
