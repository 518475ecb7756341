// Package httpm models the HTTP client: one round trip, no redirects of its own.
package httpm

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
)

//symgo:replace net/http.NewRequestWithContext
func NewRequestWithContext(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	if ctx == nil {
		return nil, errors.New("net/http: nil Context")
	}
	r := &http.Request{Method: method, URL: p, Header: http.Header{}, Host: p.Host}
	return r.WithContext(ctx), nil
}

//symgo:replace net/http.NewRequest
func NewRequest(method, u string, body io.Reader) (*http.Request, error) {
	return NewRequestWithContext(context.Background(), method, u, body)
}

//symgo:replace (*net/http.Client).Do
func Do(c *http.Client, req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	r, err := t.RoundTrip(req)
	if err != nil {
		m := req.Method
		return nil, &url.Error{Op: m[:1] + "et", URL: req.URL.String(), Err: err}
	}
	return r, nil
}

//symgo:replace (*net/http.Client).Get
func Get(c *http.Client, u string) (*http.Response, error) {
	req, err := NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return Do(c, req)
}

//symgo:replace (net/http.Header).Set
func HeaderSet(h http.Header, k, v string) { h[http.CanonicalHeaderKey(k)] = []string{v} }
