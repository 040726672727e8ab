package lib

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Reply is what the fake network answers to one request.
type Reply struct {
	Refuse  bool   // close the connection without a word
	Garbage bool   // not HTTP at all
	Status  int    // 0 means 200
	Body    string // the body
	Declare int    // Content-Length to announce: 0 the body's, -1 none (ends with the connection), -2 chunked
	Cut     int    // >0: stop after Cut-1 bytes of the body and drop the connection
	Header  string // further header lines
}

// FakeNet is an HTTP proxy on the loopback that answers for every host itself,
// with certificates of its own authority.
type FakeNet struct {
	l       net.Listener
	handler func(n int, url string) Reply
	mu      sync.Mutex
	reqs    []string
	conns   sync.WaitGroup
	auth    *authority
}

type authority struct {
	file string
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	mu   sync.Mutex
	made map[string]*tls.Certificate
}

var authOnce sync.Once
var theAuth *authority

func (r *Run) authority() *authority {
	authOnce.Do(func() {
		key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "fake"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		if err != nil {
			r.Fatal("%v", err)
		}
		cert, _ := x509.ParseCertificate(der)
		f := filepath.Join(r.Tmp, "fake-ca.pem")
		Write(f, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
		theAuth = &authority{file: f, cert: cert, key: key, made: map[string]*tls.Certificate{}}
	})
	return theAuth
}

func (a *authority) get(host string) (*tls.Certificate, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if c := a.made[host]; c != nil {
		return c, nil
	}
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(len(a.made) + 2)), Subject: pkix.Name{CommonName: host}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), DNSNames: []string{host}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, a.cert, &key.PublicKey, a.key)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	a.made[host] = c
	return c, nil
}

// Fake starts a network; handler gets the number of the request and its URL.
func (r *Run) Fake(handler func(n int, url string) Reply) *FakeNet {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Fatal("loopback: %v", err)
	}
	f := &FakeNet{l: l, handler: handler, auth: r.authority()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

// Close stops it.
func (f *FakeNet) Close() { f.l.Close() }

// Requests lists the URLs asked for.
func (f *FakeNet) Requests() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string{}, f.reqs...)
}

// Env is the environment of a process that uses it.
func (f *FakeNet) Env() []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch strings.ToUpper(k) {
		case "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY", "SSL_CERT_FILE", "SSL_CERT_DIR":
			continue
		}
		env = append(env, e)
	}
	p := "http://" + f.l.Addr().String()
	return append(env, "HTTP_PROXY="+p, "HTTPS_PROXY="+p, "SSL_CERT_FILE="+f.auth.file, "SSL_CERT_DIR=/nonexistent")
}

func (f *FakeNet) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(2 * time.Minute))
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	if req.Method != http.MethodConnect {
		f.answer(c, req.URL.String())
		return
	}
	fmt.Fprintf(c, "HTTP/1.1 200 OK\r\n\r\n")
	host, _, _ := net.SplitHostPort(req.Host)
	t := tls.Server(c, &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		if h.ServerName != "" {
			return f.auth.get(h.ServerName)
		}
		return f.auth.get(host)
	}})
	defer t.Close()
	if t.Handshake() != nil {
		return
	}
	req, err = http.ReadRequest(bufio.NewReader(t))
	if err != nil {
		return
	}
	f.answer(t, "https://"+req.Host+req.URL.RequestURI())
}

func (f *FakeNet) answer(c io.WriteCloser, url string) {
	f.mu.Lock()
	n := len(f.reqs)
	f.reqs = append(f.reqs, url)
	f.mu.Unlock()
	r := f.handler(n, url)
	if r.Refuse {
		return
	}
	if r.Garbage {
		io.WriteString(c, "nonsense\r\n\r\n")
		return
	}
	if r.Status == 0 {
		r.Status = 200
	}
	h := fmt.Sprintf("HTTP/1.1 %d %s\r\nConnection: close\r\n%s", r.Status, http.StatusText(r.Status), r.Header)
	body := r.Body
	switch {
	case r.Declare == 0:
		h += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	case r.Declare > 0:
		h += fmt.Sprintf("Content-Length: %d\r\n", r.Declare)
	case r.Declare == -2:
		h += "Transfer-Encoding: chunked\r\n"
	}
	if r.Declare == -2 {
		cut := len(body)
		if r.Cut > 0 {
			cut = r.Cut - 1
		}
		io.WriteString(c, h+"\r\n")
		for i := 0; i < cut; i += 3 {
			p := body[i:min(i+3, cut)]
			fmt.Fprintf(c, "%x\r\n%s\r\n", len(p), p)
		}
		if r.Cut == 0 {
			io.WriteString(c, "0\r\n\r\n")
		}
		return
	}
	if r.Cut > 0 {
		body = body[:r.Cut-1]
	}
	io.WriteString(c, h+"\r\n"+body)
}
