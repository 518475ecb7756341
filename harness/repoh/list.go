package repoh

import (
	"context"
	"net/http"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// norm normalises a project name by hand; ok tells whether it is legal.
func norm(s string) (string, bool) {
	r := ""
	run := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case nd.SymBranch(c == '-' || c == '_' || c == '.'):
			if !run {
				r += "-"
			}
			run = true
			continue
		case nd.SymBranch(c >= 'A' && c <= 'Z'):
			r += string([]byte{c + 32})
		case nd.SymBranch(c >= 'a' && c <= 'z' || c >= '0' && c <= '9'):
			r += s[i : i+1]
		default:
			return "", false
		}
		run = false
	}
	return r, true
}

const empty = "<!DOCTYPE html><html><body></body></html>"

// Names: any project name.
func Names() {
	var name string
	switch nd.Choose(2) {
	case 0:
		name = nd.Str(1 + nd.Choose(nd.Q(3, 4)))
		for i := 0; i < len(name); i++ {
			nd.Assume(name[i] < 0x80)
		}
	case 1:
		name = nd.From(4, "aZ9.-_") + nd.Pick("", "/", "é", "\x00", " ", "%", "?")
	}
	b := nd.Pick("http://h/simple/", "http://h/simple", "http://h/", "http://h", "http://h/a/b/?q", "http://h/g%2Fp/simple/", "http://h/%7Ea%20b/simple")
	s := &server{other: resp{status: 200, body: []byte(empty)}}
	c := pep503.Client{BaseURL: b, HTTPClient: &http.Client{Transport: s}, UserAgent: nd.Pick("", "me")}
	ls, err := c.ListPackageFiles(context.Background(), name)
	n, ok := norm(name)
	nd.Assert((err == nil) == ok, "a legal name is refused, or an illegal one accepted")
	if !ok {
		nd.Assert(len(s.log) == 0, "an illegal name is requested")
		nd.Reach("illegal")
		nd.Reach("end")
		return
	}
	nd.Assert(len(ls) == 0, "there are links on an empty page")
	q := ""
	if i := strings.IndexByte(b, '?'); i >= 0 {
		b, q = b[:i], b[i:]
	}
	// an escaped slash in the URL of the index stays one
	want := "GET " + strings.TrimSuffix(b, "/") + "/" + n + "/" + q
	nd.Assert(len(s.log) == 1 && s.log[0] == want, "the project is not requested under its normalised name")
	nd.Assert(s.agents[0] != "" && (c.UserAgent == "" || s.agents[0] == c.UserAgent), "the user agent is not sent")
	nd.Reach("end")
}

func esc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "&", "&amp;"), "<", "&lt;"), ">", "&gt;"), "\"", "&quot;")
}

type anchor struct{ text, html, href, url, attr, val string }

func mkAnchor(k int, loc string) anchor {
	var a anchor
	switch k {
	case 0:
		t := nd.From(2, "ab&-<")
		a.text, a.html = t, esc(t)
	case 1:
		t := nd.From(1, "ab")
		a.text, a.html = "x"+t+"y", "x<b>"+t+"</b><!--c-->y"
	case 2:
		a.text, a.html = "", ""
	}
	t := nd.From(1, "ab-~")
	switch nd.Choose(8) {
	case 0:
		a.href, a.url = t+".whl", loc+t+".whl"
	case 1:
		a.href, a.url = "/"+t+"/x?q#sha256=00", "http://h/"+t+"/x?q#sha256=00"
	case 2:
		a.href, a.url = "https://o.org/"+t, "https://o.org/"+t
	case 3:
		a.href, a.url = "../../"+t, "http://h/"+t
	case 4:
		a.href, a.url = "//o/"+t, "http://o/"+t
	case 5:
		a.href, a.url = "./z/../"+t, loc+t
	case 6:
		a.href, a.url = "#"+t, loc+"#"+t
	case 7:
		a.href, a.url = "x%20"+t+"?a=1&b", loc+"x%20"+t+"?a=1&b"
	}
	switch nd.Choose(3) {
	case 1:
		a.attr, a.val = "data-gpg-sig", nd.From(1, "a<\"&")
	case 2:
		a.attr, a.val = "data-yanked", ""
	}
	return a
}

// Links: any page.
func Links() {
	s := &server{}
	loc := base + "p/"
	r := resp{status: 200}
	if nd.Flip() {
		r.loc = "http://h/m/q/"
		loc = r.loc
	}
	n := 1 + nd.Choose(2)
	as := make([]anchor, n)
	page := "<!DOCTYPE html><html><head><title>a</title></head><body><h1>a</h1>"
	for i := range as {
		if i == 0 {
			as[i] = mkAnchor(nd.Choose(3), loc)
		} else {
			as[i] = anchor{text: "z", html: "z", href: "z", url: loc + "z", attr: nd.Pick("data-x", "title"), val: "v"}
		}
		page += "<a href=\"" + esc(as[i].href) + "\""
		if as[i].attr != "" {
			page += " " + as[i].attr + "=\"" + esc(as[i].val) + "\""
		}
		page += " rel=\"internal\">" + as[i].html + "</a><br/>\n"
	}
	r.body = []byte(page + "</body></html>")
	s.other = r
	ls, err := list(s, "p")
	nd.Assert(err == nil, "a page cannot be read")
	nd.Assert(len(ls) == n, "the number of links is wrong")
	for i, l := range ls {
		nd.Assert(l.Text == as[i].text, "the text of a link is wrong")
		nd.Assert(l.HRef == as[i].url, "the URL of a link is wrong")
		if strings.HasPrefix(as[i].attr, "data-") {
			v, ok := l.DataAttrs[as[i].attr]
			nd.Assert(ok && v == as[i].val && len(l.DataAttrs) == 1, "the data attributes of a link are wrong")
		} else {
			nd.Assert(len(l.DataAttrs) == 0, "the data attributes of a link are wrong")
		}
		nd.Observe("href", l.HRef)
	}
	nd.Reach("end")
}

// RequiresPython: links are dropped exactly if they exclude the interpreter.
func RequiresPython() {
	major, minor := nd.From(1, "23"), nd.From(1, "0123456789")
	v, err := pep440.ParseVersion(major + "." + minor)
	if err != nil {
		nd.SymSkip()
	}
	w := nd.From(1, "0123456789")
	op := nd.Pick(">=", "<", "==", "!=", ">", "<=", "", "bad ", "none", "two", "comma", "gap", "post")
	req := op + major + "." + w
	switch op {
	case "none":
		req = ""
	case "comma":
		req = ">=" + major + "." + w + ","
	case "gap":
		req = " >= " + major + "." + w + " , != 1.0 "
	case "post":
		req = ">=" + major + "." + w + ".post0,!=" + major + ".5"
	case "two":
		req = ">=" + major + "." + w + ",<" + major + ".9"
	}
	page := "<!DOCTYPE html><html><body><a href=\"a\">a</a><a href=\"b\" data-requires-python=\"" + esc(req) + "\">b</a><a href=\"c\">c</a></body></html>"
	s := &server{other: resp{status: 200, body: []byte(page)}}
	c := pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}}
	set := nd.Flip()
	if set {
		c.Python = v
	}
	ls, err := c.ListPackageFiles(context.Background(), "p")
	nd.Assert(err == nil, "a page cannot be read")
	a, b := minor[0], w[0]
	keep := true
	if set {
		switch op {
		case "post":
			keep = a > b && a != '5'
		case ">=", "comma", "gap":
			keep = a >= b
		case "<":
			keep = a < b
		case "==", "":
			keep = a == b
		case "!=":
			keep = a != b
		case ">":
			keep = a > b
		case "<=":
			keep = a <= b
		case "two":
			keep = a >= b && a < '9'
		}
	}
	want := []string{"a", "c"}
	if nd.SymBranch(keep) {
		want = []string{"a", "b", "c"}
		nd.Reach("kept")
	} else {
		nd.Reach("dropped")
	}
	nd.Assert(len(ls) == len(want), "a file is offered though it needs another Python, or the other way round")
	for i, l := range ls {
		nd.Assert(l.Text == want[i], "a file is offered though it needs another Python, or the other way round")
	}
	nd.Reach("end")
}

// ListErrors: a page that cannot be had gives no links.
func ListErrors() {
	r := resp{status: 200, body: []byte("<a href=\"a\">a</a>")}
	bad := fault(&r)
	s := &server{other: r}
	ls, err := list(s, "p")
	if bad {
		nd.Assert(err != nil && len(ls) == 0, "links are returned although the transfer is bad")
	} else {
		nd.Assert(err == nil && len(ls) == 1 && ls[0].HRef == base+"p/a", "a good page is refused")
	}
	nd.Reach("end")
}

// Packages: the root page leads to the project pages.
func Packages() {
	t := nd.From(1, "ab")
	s := &server{pages: map[string]resp{base: {status: 200, body: []byte("<html><body><a href=\"" + t + "/\">" + t + "</a></body></html>")},
		base + t + "/": {status: 200, body: []byte("<html><body><a href=\"f\" data-yanked>f</a></body></html>")}}}
	c := pep503.Client{BaseURL: base, HTTPClient: &http.Client{Transport: s}}
	ps, err := c.ListPackages(context.Background())
	nd.Assert(err == nil && len(ps) == 1 && ps[0].Text == t && ps[0].HRef == base+t+"/", "the projects are not listed")
	ls, err := ps[0].ListFiles(context.Background())
	nd.Assert(err == nil && len(ls) == 1 && ls[0].Text == "f" && ls[0].HRef == base+t+"/f", "the project's files are not listed")
	_, ok := ls[0].DataAttrs["data-yanked"]
	nd.Assert(ok, "the data attributes of a link are wrong")
	nd.Reach("end")
}

// ApiVersion: any declared version.
func ApiVersion() {
	content := ""
	decl := true
	okv := true
	major := 1
	switch nd.Choose(7) {
	case 6:
		d := nd.From(2, "0123456789")
		major = int(d[0] - '0')
		content = d[:1] + "." + d[1:] + nd.Pick("rc1", ".dev2", ".post3", "a0", ".5")
	case 0:
		d := nd.From(1, "0123456789")
		major = int(d[0] - '0')
		content = d + "." + nd.From(1+nd.Choose(2), "0123456789")
	case 1:
		d := nd.From(2, "0123456789")
		major = int(d[0]-'0')*10 + int(d[1]-'0')
		content = d
	case 2:
		content = nd.From(1+nd.Choose(3), "1.x -")
		c := strings.TrimSpace(content)
		okv = false
		for _, g := range []string{"1", "1.1", "11", "111"} {
			if nd.SymBranch(c == g) {
				okv = true
				major = 1
				if len(g) > 1 && g[1] == '1' {
					major = 11
				}
			}
		}
		if content == "1-1" {
			nd.SymSkip() // a post-release
		}
		if nd.SymBranch(c == "") {
			nd.SymSkip()
		}
	case 3:
		decl = false
	case 4: // some other declaration
		content = "9.9"
	case 5:
		content = nd.Pick("2.0", "1.7", "10", "0.1")
		major = int(content[0] - '0')
		if content == "10" {
			major = 10
		}
	}
	name := "pypi:repository-version"
	if content == "9.9" && major == 1 {
		name = nd.Pick("pypi:version", "generator", "pypi:repository-version2")
	}
	page := nd.Pick("<!DOCTYPE html>", "", "<!-- x -->\n") + "<html><head><meta charset=\"utf-8\">"
	if decl {
		m := "<meta name=\"" + name + "\" content=\"" + content + "\">"
		if nd.Flip() {
			m = "<meta content=\"" + content + "\" name=\"" + name + "\"/>"
		}
		page += m
	}
	page += "<title>x</title></head><body><a href=\"f\">f</a></body></html>"
	s := &server{other: resp{status: 200, body: []byte(page)}}
	c := simple_repo_api.NewClient(nil, nil)
	c.BaseURL, c.HTTPClient = base, &http.Client{Transport: s}
	ls, err := c.ListPackageFiles(context.Background(), "p")
	if nd.SymBranch(okv && major <= 1) {
		nd.Assert(err == nil && len(ls) == 1, "a supported repository version is refused")
		nd.Reach("supported")
	} else {
		nd.Assert(err != nil && len(ls) == 0, "an unsupported or malformed repository version is accepted")
		nd.Reach("unsupported")
	}
	nd.Reach("end")
}
