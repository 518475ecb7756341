// Package repoh checks the package index client.
package repoh

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// resp is what the server does for one URL.
type resp struct {
	status   int
	body     []byte
	fail     error // the request fails
	readErr  bool  // the connection breaks while the body is read
	closeErr bool
	loc      string // where redirects led, if anywhere
}

type body struct {
	*bytes.Reader
	r      resp
	closed *int
}

func (b body) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.r.readErr {
		return n, errors.New("connection reset")
	}
	return n, err
}

func (b body) Close() error {
	*b.closed++
	if b.r.closeErr {
		return errors.New("close failed")
	}
	return nil
}

// server answers requests and logs them.
type server struct {
	pages  map[string]resp
	other  resp
	log    []string
	agents []string
	opened int
	closed int
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.Fragment, u.RawFragment = "", ""
	s.log = append(s.log, req.Method+" "+u.String())
	s.agents = append(s.agents, req.Header.Get("User-Agent"))
	r, ok := s.pages[u.String()]
	if !ok {
		r = s.other
	}
	if r.fail != nil {
		return nil, r.fail
	}
	if r.loc != "" {
		l, err := url.Parse(r.loc)
		if err != nil {
			nd.SymSkip()
		}
		c := *req
		c.URL = l
		req = &c
	}
	s.opened++
	return &http.Response{
		Status: "status", StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: body{bytes.NewReader(r.body), r, &s.closed}, ContentLength: int64(len(r.body)), Request: req,
	}, nil
}

const base = "http://h/simple/"

// list fetches the file list of package p as served by s.
func list(s *server, p string) ([]pep503.FileLink, error) {
	c := pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}}
	return c.ListPackageFiles(context.Background(), p)
}

// Server serves one page and one file by default for command level harnesses.
type Server = server

// Serve makes the default HTTP client talk to a server with the given pages.
func Serve(pages map[string][]byte) *Server {
	s := &server{pages: map[string]resp{}, other: resp{status: 404}}
	for u, b := range pages {
		s.pages[u] = resp{status: 200, body: b}
	}
	http.DefaultTransport = s
	return s
}

// Log returns the requests made.
func (s *server) Log() []string { return s.log }

// Sum is the checksum of b.
func Sum(alg string, b []byte) string { return sum(alg, b) }
