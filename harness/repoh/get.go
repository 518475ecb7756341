package repoh

import (
	"context"
	"encoding/hex"
	"errors"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var algs = []string{"sha256", "md5", "sha1", "sha224", "sha384", "sha512"}

func sum(alg string, b []byte) string { return hex.EncodeToString(nd.Hash(alg, b)) }

// link serves one link and returns it.
func link(s *server, attrs string) pep503.FileLink {
	s.pages = map[string]resp{base + "p/": {status: 200, body: []byte("<!DOCTYPE html><html><body><a " + attrs + ">f</a></body></html>")}}
	ls, err := list(s, "p")
	nd.Assert(err == nil && len(ls) == 1, "listing one file fails")
	s.log = nil
	return ls[0]
}

func fault(r *resp) bool {
	switch nd.Choose(5) {
	case 0:
		r.fail = errors.New("refused")
	case 1:
		r.readErr = true
	case 2:
		r.closeErr = true
		return true
	case 3:
		r.status = int(nd.SymU16())
		nd.Assume(r.status >= 200 && r.status < 600)
	default:
		return false
	}
	return r.status != 200 || r.fail != nil || r.readErr
}

// Fetch: any checksums and faults.
func Fetch() {
	b := nd.Bytes(nd.Choose(3))
	r := resp{status: 200, body: b}
	bad := false
	frag := ""
	claim := func(alg string) string {
		c := nd.Bytes(nd.Choose(3))
		bad = bad || string(c) != string(b)
		return alg + "=" + sum(alg, c)
	}
	switch nd.Choose(7) {
	case 0:
		bad = fault(&r)
	case 1:
		frag = "#" + claim(algs[nd.Choose(len(algs))])
		f := fault(&r)
		bad = bad || f
	case 2:
		frag = "#" + claim("sha256") + "&" + claim(nd.Pick("md5", "sha256"))
	case 3:
		frag = "#" + nd.Pick("egg=x", "sha3_256=00", "blake2b=", "SHA256=00", "sha256sum=00", "x")
		switch nd.Choose(3) {
		case 1:
			frag += "&" + claim("sha256")
		case 2:
			frag = "#" + claim("sha512") + "&" + frag[1:]
		}
	case 4: // one character is wrong
		h := "sha256=" + sum("sha256", b)
		i := []int{7, 8, 40, 70}[nd.Choose(4)]
		c := nd.From(1, "0123456789abcdefAFgx-. ;")
		nd.Assume(c[0] != h[i])
		frag, bad = "#"+h[:i]+c+h[i+1:], true
	case 5: // too short or too long
		h := "sha1=" + sum("sha1", b)
		switch nd.Choose(4) {
		case 0:
			h = h[:len(h)-1]
		case 1:
			h += nd.From(1, "0a;")
		case 2:
			h = h[:5+nd.Choose(2)]
		case 3:
			h = "sha1=0" + h[5:]
		}
		frag, bad = "#"+h, true
	case 6: // separators
		h := "sha256=" + sum("sha256", append([]byte{1}, b...))
		frag = "#" + nd.Pick(";", "x;y&", "&", "a=b&", "%3B&", "=&") + h + nd.Pick("", ";", "&x;y", "&", "&%25")
		bad = true
	}
	if nd.Flip() { // the file is found elsewhere, after a redirect
		r.loc = nd.Pick("http://cdn/x", "http://cdn/x#y", "http://o/f#sha256=00")
	}
	s := &server{other: r}
	l := link(s, "href=\"http://o/f"+strings.ReplaceAll(frag, "&", "&amp;")+"\"")
	got, err := l.Get(context.Background())
	if bad {
		nd.Assert(err != nil, "a file is returned although its checksum or its transfer is bad")
		nd.Assert(len(got) == 0, "content is returned with an error")
		nd.Reach("bad")
	} else {
		nd.Assert(err == nil, "a good file is refused")
		nd.Assert(string(got) == string(b), "other content is returned")
		nd.Reach("good")
	}
	nd.Assert(len(s.log) == 1 && s.log[0] == "GET http://o/f", "something else is requested")
	nd.Reach("end")
}

// Signature: the signature lies next to the file.
func Signature() {
	sig := nd.Bytes(nd.Choose(3))
	r := resp{status: 200, body: sig}
	bad := fault(&r)
	s := &server{other: resp{status: 404}}
	href := nd.Pick("http://o/f.whl", "http://o/f%2Fg.whl", "http://o/a%20b.whl")
	attr := nd.Choose(4)
	a := []string{"", " data-gpg-sig=\"true\"", " data-gpg-sig=\"false\"", " data-gpg-sig=\"x\""}[attr]
	frag := ""
	if nd.Flip() {
		frag = "#sha256=" + sum("sha256", []byte("file"))
	}
	query := nd.Pick("", "?a=b")
	l := link(s, "href=\""+href+query+frag+"\""+a)
	s.pages[href+".asc"+query] = r
	s.pages[href+query] = resp{status: 200, body: []byte("file")}
	got, err := l.GetSignature(context.Background())
	none := errors.Is(err, pep503.ErrNoSignature)
	if attr == 2 {
		nd.Assert(none && len(got) == 0 && len(s.log) == 0, "a signature is reported though there is none")
		nd.Reach("end")
		return
	}
	nd.Assert(len(s.log) == 1 && s.log[0] == "GET "+href+".asc"+query, "something other than the signature is requested")
	if bad {
		nd.Assert(err != nil && len(got) == 0, "a signature is returned although its transfer is bad")
		missing := r.fail == nil && !r.readErr && !r.closeErr && r.status == 404
		nd.Assert(none == (missing && attr != 1), "a missing signature is not told apart from a failure")
		nd.Reach("bad")
	} else {
		nd.Assert(err == nil && string(got) == string(sig), "the signature is not returned")
		nd.Reach("good")
	}
	nd.Reach("end")
}
