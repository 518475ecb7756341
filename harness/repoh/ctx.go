package repoh

import (
	"context"
	"errors"
	"net/http"

	"golang.org/x/net/html"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type ctxKey struct{}

// ctxServer answers only requests whose context is live.
type ctxServer struct {
	*server
	n      int // requests so far
	at     int // symbolic: the request during which the context is cancelled
	cancel func()
	ours   bool // every request had the caller's context
}

func (s *ctxServer) RoundTrip(req *http.Request) (*http.Response, error) {
	s.ours = s.ours && req.Context().Value(ctxKey{}) == "v"
	if nd.SymBranch(s.at == s.n) {
		s.cancel()
	}
	s.n++
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	return s.server.RoundTrip(req)
}

// CtxIndex: a cancelled context ends every request, and nothing comes of it.
func CtxIndex() {
	body := nd.Bytes(1)
	s := &ctxServer{ours: true, at: int(nd.Byte()), server: &server{other: resp{status: 404}, pages: map[string]resp{
		base:                                  {status: 200, body: []byte("<a href=\"p/\">p</a>")},
		base + "p/":                           {status: 200, body: []byte("<a href=\"p-1.0-py3-none-any.whl\" data-gpg-sig=true>p-1.0-py3-none-any.whl</a>")},
		base + "p/p-1.0-py3-none-any.whl":     {status: 200, body: body},
		base + "p/p-1.0-py3-none-any.whl.asc": {status: 200, body: body},
	}}}
	parent := context.WithValue(context.Background(), ctxKey{}, "v")
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	s.cancel = cancel
	hooks := 0
	c := simple_repo_api.Client{Client: pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}, HTMLHook: func(ctx context.Context, doc *html.Node) error {
		nd.Assert(ctx.Value(ctxKey{}) == "v", "the page hook does not get the caller's context")
		hooks++
		return nil
	}}}
	nd.Assume(s.at <= 6)
	good := pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}}
	pl, err := c.ListPackages(ctx)
	s.after(err, len(pl) == 1, len(pl) == 0)
	if err != nil { // the rest has its links from before
		s2 := *s
		s2.at, s2.n = -1, 0
		good.HTTPClient = &http.Client{Transport: &s2}
		pl, err = good.ListPackages(parent)
		nd.Assert(err == nil && len(pl) == 1, "a later call does not work")
		return
	}
	fl, err := pl[0].ListFiles(ctx)
	s.after(err, len(fl) == 1, len(fl) == 0)
	if err != nil {
		return
	}
	b, err := fl[0].Get(ctx)
	s.after(err, string(b) == string(body), len(b) == 0)
	b, err = fl[0].GetSignature(ctx)
	s.after(err, string(b) == string(body), len(b) == 0)
	fl, err = c.ListPackageFiles(ctx, "p")
	s.after(err, len(fl) == 1, len(fl) == 0)
	c.Python, err = pep440.ParseVersion("3.9")
	if err != nil {
		nd.SymSkip()
	}
	c.SupportedTags = pep425.Installer{{Python: "py3", ABI: "none", Platform: "any"}}
	l, err := c.SelectWheel(ctx, "p", nil)
	s.after(err, l != nil, l == nil)
	nd.Assert(hooks <= s.n, "a page is processed that was never fetched")
	nd.Reach("end")
}

// after checks what the last call did, given whether it gave its result or nothing.
func (s *ctxServer) after(err error, full, none bool) {
	nd.Assert(s.ours, "a request does not carry the caller's context")
	cut := s.at < s.n
	nd.Assert((err != nil) == cut, "a call succeeds exactly when its context is cancelled")
	if err != nil {
		nd.Assert(errors.Is(err, context.Canceled), "a cancelled call reports something else")
		nd.Assert(none, "a cancelled call has a result")
		nd.Reach("cut")
	} else {
		nd.Assert(full, "a call does not have its result")
	}
}
