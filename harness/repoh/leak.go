package repoh

import (
	"context"
	"net/http"

	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// Leak: every response's body is closed, whatever goes wrong.
func Leak() {
	page := []byte(nd.Pick("<html><body><a href=\"f#sha256=00\" data-gpg-sig=true>f</a></body></html>", "<html><head><meta name=\"pypi:repository-version\" content=\"9.9\"></head></html>", "<a href=\"http://[/\">f</a>", "<a href=\"f\" data-requires-python=\"&&\">f</a>"))
	r, f := resp{status: 200, body: page}, resp{status: 200, body: nd.Bytes(nd.Choose(2))}
	if nd.Flip() {
		fault(&r)
	} else {
		fault(&f)
	}
	s := &server{pages: map[string]resp{base + "p/": r}, other: f}
	c := pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}}
	ls, err := c.ListPackageFiles(context.Background(), "p")
	nd.Assert(s.opened == s.closed, "the response to a request for a package page is left open")
	if err == nil && len(ls) == 1 {
		if nd.Flip() {
			_, _ = ls[0].Get(context.Background())
		} else {
			_, _ = ls[0].GetSignature(context.Background())
		}
		nd.Assert(s.opened == s.closed, "the response to a request for a file is left open")
		nd.Reach("file")
	}
	nd.Reach("end")
}
