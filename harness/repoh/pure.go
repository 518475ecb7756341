package repoh

import (
	"context"
	"net/http"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// PureSelect: what a client does leaves the client, its tags, its Python and
// the specifier alone, and what it got before, so that asking again gives the
// same answer.
func PureSelect() {
	py := &pep440.Version{PublicVersion: pep440.PublicVersion{Release: append(make([]int, 0, 4), 3, int(nd.Byte()), 5)}}
	py.Release = py.Release[:2]
	minor := py.Release[1]
	tags := append(make(pep425.Installer, 0, 3), pep425.Tag{Python: "cp39", ABI: "cp39", Platform: "linux"}, pep425.Tag{Python: "py3.PY2", ABI: "none", Platform: "any"}, pep425.Tag{Python: "z"})
	twas := append(pep425.Installer(nil), tags...)
	cl := simple_repo_api.NewClient(py, tags[:2])
	spec := append(make(pep440.Specifier, 0, 2), pep440.SpecifierClause{CmpOp: pep440.CmpOpGE, Version: pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{int(nd.Byte()) & 3}}}}, pep440.SpecifierClause{CmpOp: pep440.CmpOpLT})
	sr := spec[0].Version.Release[0]
	page := "<!DOCTYPE html><html><body>"
	for i := 0; i < 2; i++ {
		page += "<a href=\"p-" + string([]byte{'1' + byte(i)}) + "-" + nd.Pick("py3-none-any", "cp39-cp39-linux") + ".whl#sha256=x\" data-requires-python=\"&gt;=3." + nd.From(1, "18") + "\" data-yanked=\"y\">p-" + nd.From(1, "12") + "-" + nd.Pick("py3-none-any", "cp39-cp39-linux") + ".whl</a>"
	}
	s := &server{other: resp{status: 200, body: []byte(page + "</body></html>")}}
	hc := &http.Client{Transport: s}
	cl.BaseURL, cl.HTTPClient, cl.UserAgent = nd.Pick(base, base+"/", ""), hc, nd.Pick("", "ua")
	url, ua := cl.BaseURL, cl.UserAgent
	ctx := context.Background()
	ls, err := cl.ListPackageFiles(ctx, "P")
	var texts, refs, reqs []string
	for _, l := range ls {
		texts, refs, reqs = append(texts, l.Text), append(refs, l.HRef), append(reqs, l.DataAttrs["data-requires-python"])
	}
	nd.Assert(err == nil, "listing fails")
	l, err := cl.SelectWheel(ctx, "p", spec[:1])
	var l0 string
	if err == nil {
		l0 = l.Text
	}
	l2, err2 := cl.SelectWheel(ctx, "p", spec[:1])
	nd.Assert((err == nil) == (err2 == nil), "asking again gives another answer")
	if err == nil {
		nd.Assert(l2.Text == l0 && l.Text == l0 && l2.HRef == l.HRef, "asking again gives another answer")
		nd.Reach("selected")
	}
	nd.Assert(len(py.Release) == 2 && py.Release[0] == 3 && py.Release[1] == minor && py.Release[:3][2] == 5 && cl.Python == py, "the client's Python changes")
	nd.Assert(len(cl.SupportedTags) == 2, "the client's tags change")
	for i := range tags {
		nd.Assert(tags[i] == twas[i], "the client's tags change")
	}
	nd.Assert(cl.BaseURL == url && cl.UserAgent == ua && cl.HTTPClient == hc && hc.Transport == http.RoundTripper(s) && hc.Timeout == 0 && hc.CheckRedirect == nil && hc.Jar == nil, "the client changes")
	full := spec[:2]
	nd.Assert(full[0].CmpOp == pep440.CmpOpGE && full[0].Version.Release[0] == sr && full[1].CmpOp == pep440.CmpOpLT && full[1].Version.Release == nil, "the specifier changes")
	for i := range ls {
		nd.Assert(ls[i].Text == texts[i] && ls[i].HRef == refs[i] && ls[i].DataAttrs["data-requires-python"] == reqs[i], "a link changes afterwards")
	}
	nd.Reach("end")
}
