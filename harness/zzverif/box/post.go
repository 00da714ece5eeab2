package box

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httputil"
	"os"
	"sync"
	"time"

	"alda.io/client/zzverif/vp"
)

// Report is a request which the program made.
type Report struct {
	Host, Method, Path string
	Body               string
	Raw                string // all of it, headers included
}

// Post is a proxy that stands in for the whole internet, and writes down what
// it is asked.
type Post struct {
	ln   net.Listener
	cert tls.Certificate
	pem  []byte
	mu   sync.Mutex
	got  []Report

	// Reply answers a request, if it is set; false ends the connection.
	Reply func(w io.Writer, host string, req *http.Request) bool
}

// NewPost starts one.
func NewPost() *Post {
	p := &Post{}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		vp.Infra(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"api.alda.io", "alda.io", "*.alda.io", "localhost"}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, key.Public(), key)
	if err != nil {
		vp.Infra(err)
	}
	p.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	p.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	if p.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		vp.Infra(err)
	}
	go func() {
		for {
			c, err := p.ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *Post) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(time.Minute))
	rd := bufio.NewReader(c)
	req, err := http.ReadRequest(rd)
	if err != nil {
		return
	}
	if req.Method != "CONNECT" {
		p.note(req, req.Host)
		if p.Reply != nil {
			p.Reply(c, req.Host, req)
			return
		}
		io.WriteString(c, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		return
	}
	host := req.Host
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{p.cert}, NextProtos: []string{"http/1.1"}})
	if err := t.Handshake(); err != nil {
		p.mu.Lock()
		p.got = append(p.got, Report{Host: host, Method: "CONNECT", Raw: "handshake: " + err.Error()})
		p.mu.Unlock()
		return
	}
	rd = bufio.NewReader(t)
	for {
		req, err := http.ReadRequest(rd)
		if err != nil {
			return
		}
		p.note(req, host)
		if p.Reply != nil && req.URL.Path != "/telemetry" {
			if !p.Reply(t, host, req) {
				return
			}
			continue
		}
		answer := "HTTP/1.1 204 No Content\r\n\r\n"
		if req.URL.Path != "/telemetry" {
			answer = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"
		}
		if _, err := io.WriteString(t, answer); err != nil {
			return
		}
	}
}

func (p *Post) note(req *http.Request, host string) {
	raw, _ := httputil.DumpRequest(req, true)
	body := raw
	if i := bytes.Index(raw, []byte("\r\n\r\n")); i >= 0 {
		body = raw[i+4:]
	}
	p.mu.Lock()
	p.got = append(p.got, Report{Host: host, Method: req.Method, Path: req.URL.RequestURI(), Body: string(body), Raw: string(raw)})
	p.mu.Unlock()
}

// Take returns the requests since the last time.
func (p *Post) Take() []Report {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := p.got
	p.got = nil
	return out
}

// Env makes a program use the stand-in.
func (p *Post) Env(h *Home) []string {
	f := h.Sub("ca.pem")
	if err := os.WriteFile(f, p.pem, 0644); err != nil {
		vp.Infra(err)
	}
	u := "http://" + p.ln.Addr().String()
	return []string{"HTTPS_PROXY=" + u, "HTTP_PROXY=" + u, "https_proxy=" + u, "http_proxy=" + u, "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE=" + f, "SSL_CERT_DIR=/nonexistent"}
}

// Close ends it.
func (p *Post) Close() { p.ln.Close() }
