package repoh

import (
	"context"
	"net/http"
	"strconv"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type cand struct {
	name   string
	ver    int // four times the release digit, minus two for a pre-release, plus one for a local label
	match  bool
	rank   int // 0 if not supported
	build  int
	yanked bool
}

// better orders candidates by build tag, then rank, then version.
func better(a, b cand) bool {
	if a.ver != b.ver {
		return a.ver > b.ver
	}
	if a.rank != b.rank {
		return a.rank < b.rank
	}
	return a.build > b.build
}

// Wheels: any listing of up to three files.
func Wheels() {
	tags := []string{"py3-none-any", "cp39-cp39-linux", "cp39-abi3-linux.py2-none-any", "cp27-none-any"}
	ranks := []int{3, 1, 2, 0}
	inst := pep425.Installer{{Python: "cp39", ABI: "cp39", Platform: "linux"}, {Python: "cp39", ABI: "abi3", Platform: "linux"}, {Python: "py3", ABI: "none", Platform: "any"}}
	tags[2] = "cp39.py2-abi3-linux.win"
	builds := []string{"", "1", "2b", "10", "2"}
	border := []int{0, 1, 3, 4, 2}
	n := 1 + nd.Choose(nd.Q(3, 4))
	focus := nd.Choose(4)
	spec := pep440.Specifier{}
	min := "0"
	if focus == 3 {
		min = nd.From(1, "012")
		spec, _ = pep440.ParseSpecifier(">=" + min)
	}
	cs := make([]cand, n)
	page := "<!DOCTYPE html><html><body>"
	for i := range cs {
		c := &cs[i]
		d := "1"
		if focus != 1 {
			d = nd.From(1, "12")
		}
		c.ver = int(d[0]-'0') * 4
		v := d
		if focus != 2 && (n < 3 || focus == 0) {
			v += nd.Pick("", ".0")
		}
		if focus == 3 {
			switch nd.Choose(3) {
			case 1:
				v += "a1"
				c.ver -= 2
			case 2:
				v += "+x"
				c.ver++
			}
		}
		t, b := i%3, 0
		if focus == 1 || focus == 2 {
			t = nd.Choose(4)
			if n > 2 && !nd.SymThorough() {
				nd.Assume(t != 2 && (focus != 2 || t != 1))
			}
		}
		if focus == 1 {
			b = nd.Choose(5)
			if n > 2 && !nd.SymThorough() {
				nd.Assume(b >= 2)
			}
		}
		c.rank, c.build = ranks[t], border[b]
		c.yanked = focus != 1 && nd.Flip()
		c.match = c.ver >= int(min[0]-'0')*4
		c.name = "p-" + v
		if builds[b] != "" {
			c.name += "-" + builds[b]
		}
		c.name += "-" + tags[t] + ".whl"
		page += "<a href=\"" + c.name + "\""
		if c.yanked {
			page += " data-yanked=\"\""
		}
		page += ">" + c.name + "</a>"
		if i == 0 {
			page += "<a href=\"s\">p-9.tar.gz</a>"
		}
		for j := 0; j < i; j++ {
			nd.Assume(cs[j].name != c.name)
		}
	}
	s := &server{other: resp{status: 200, body: []byte(page + "</body></html>")}}
	cl := simple_repo_api.NewClient(nil, inst)
	cl.BaseURL, cl.HTTPClient = base, &http.Client{Transport: s}
	l, err := cl.SelectWheel(context.Background(), "p", spec)
	// the version: permitted ones first
	permitted := func(ver int) bool {
		ok := false
		for _, c := range cs {
			ok = ok || c.ver == ver && c.rank > 0 && !c.yanked
		}
		return ok && ver&2 == 0
	}
	best := -1
	for pass := 0; pass < 2 && best < 0; pass++ {
		for _, c := range cs {
			if nd.SymBranch(c.match && c.rank > 0 && (pass == 1 || permitted(c.ver)) && c.ver > best) {
				best = c.ver
			}
		}
	}
	nd.Assert((err == nil) == (best >= 0), "there is a wheel but none is selected, or the other way round")
	if err != nil {
		nd.Reach("none")
		nd.Reach("end")
		return
	}
	sel := -1
	for i, c := range cs {
		if nd.SymBranch(c.name == l.Text) {
			sel = i
		}
	}
	nd.Assert(sel >= 0, "something other than a listed wheel is selected")
	w := cs[sel]
	nd.Assert(l.HRef == base+"p/"+w.name, "the selected link leads elsewhere")
	nd.Assert(w.rank > 0, "an unsupported wheel is selected")
	nd.Assert(w.match, "a version outside the specifier is selected")
	nd.Assert(w.ver == best, "the best permitted version is not selected")
	for _, c := range cs {
		if c.ver != w.ver || c.rank == 0 {
			continue
		}
		nd.Assert(!w.yanked || c.yanked, "a yanked file is selected although there is a good one")
		if c.yanked == w.yanked {
			nd.Assert(!better(c, w), "a wheel with a worse tag or build tag is selected")
		}
	}
	nd.Reach("end")
}

// ManyWheels: many wheels in any rotation, one of them with a symbolic version.
func ManyWheels() {
	inst := pep425.Installer{{Python: "cp39", ABI: "cp39", Platform: "linux"}, {Python: "cp39", ABI: "abi3", Platform: "linux"}, {Python: "py3", ABI: "none", Platform: "any"}}
	tags := []string{"py3-none-any", "cp39-abi3-linux", "cp39-cp39-linux", "cp27-none-any"}
	ranks := []int{1, 2, 3, 0}
	n := nd.Q(24, 48)
	var cs []cand
	for i := 0; i < n; i++ {
		c := cand{ver: i % 2, rank: ranks[i/2%4], build: i*7%n + 1}
		c.name = "p-1." + string([]byte{'0' + byte(c.ver)}) + "-" + strconv.Itoa(c.build) + "-" + tags[i/2%4] + ".whl"
		c.yanked = i%5 == 0
		cs = append(cs, c)
	}
	d := nd.From(1, "012")
	x := cand{name: "p-1." + d + "-99-py3-none-any.whl", ver: int(d[0] - '0'), rank: 1, build: 99}
	if nd.Flip() {
		x.yanked = true
	}
	cs = append(cs, x)
	r := nd.Choose(len(cs))
	cs = append(append([]cand(nil), cs[r:]...), cs[:r]...)
	page := "<!DOCTYPE html><html><body>"
	for _, c := range cs {
		page += "<a href=\"" + c.name + "\""
		if c.yanked {
			page += " data-yanked=\"\""
		}
		page += ">" + c.name + "</a>"
	}
	s := &server{other: resp{status: 200, body: []byte(page + "</body></html>")}}
	cl := simple_repo_api.NewClient(nil, inst)
	cl.BaseURL, cl.HTTPClient = base, &http.Client{Transport: s}
	l, err := cl.SelectWheel(context.Background(), "p", pep440.Specifier{})
	nd.Assert(err == nil, "there is a wheel but none is selected, or the other way round")
	// a version with a yanked file is not chosen while there are others
	permitted := func(v int) bool {
		any := false
		for _, c := range cs {
			if c.rank == 0 || !nd.SymBranch(c.ver == v) {
				continue
			}
			if !c.yanked {
				any = true
			}
		}
		return any
	}
	best := -1
	for _, c := range cs {
		if c.rank > 0 && nd.SymBranch(c.ver > best) && permitted(c.ver) {
			best = c.ver
		}
	}
	var w cand
	for _, c := range cs {
		if nd.SymBranch(c.ver == best) && c.rank > 0 && !c.yanked && (w.rank == 0 || c.rank > w.rank || c.rank == w.rank && c.build > w.build) {
			w = c
		}
	}
	nd.Assert(l.Text == w.name, "the best permitted wheel is not selected")
	nd.Reach("end")
}
