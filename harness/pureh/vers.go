// Package pureh checks that calls leave their arguments alone: what they were
// given is copied before a call, spare capacity of slices included, and
// compared with what is there afterwards.
package pureh

import (
	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pep592"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func num() int { return int(nd.Byte()) }

// roomy moves r to a slice with room for two more, which hold something.
func roomy(r []int) []int {
	n := len(r)
	r = append(append(make([]int, 0, n+2), r...), 77, 78)
	return r[:n]
}

// ver is a version of which part k is there, or with k = 5 all parts.
func ver(rel, k int) pep440.Version {
	v := pep440.Version{PublicVersion: pep440.PublicVersion{}}
	for i := 0; i < rel; i++ {
		v.Release = append(v.Release, num())
	}
	v.Release = roomy(v.Release)
	if k == 1 || k == 5 {
		v.Pre = &pep440.PreRelease{L: nd.From(1, "ab"), N: 3}
	}
	if k == 2 || k == 5 {
		x := 4
		v.Post = &x
	}
	if k == 3 || k == 5 {
		x := 4
		v.Dev = &x
	}
	if k == 4 || k == 5 {
		l := append(make([]intstr.IntOrString, 0, 3), intstr.IntOrString{Type: intstr.String, StrVal: nd.From(1, "aB")}, intstr.IntOrString{Type: intstr.Int, IntVal: 7}, intstr.FromInt(9))
		v.Local = l[:2]
	}
	return v
}

// vsnap is what a version was.
type vsnap struct {
	was       *pep440.Version
	epoch     int
	rel       []int
	pre       pep440.PreRelease
	post, dev int
	loc       []intstr.IntOrString
}

func snapVer(v *pep440.Version) vsnap {
	s := vsnap{was: v, epoch: v.Epoch, rel: append([]int(nil), v.Release[:cap(v.Release)]...), loc: append([]intstr.IntOrString(nil), v.Local[:cap(v.Local)]...)}
	if v.Pre != nil {
		s.pre = *v.Pre
	}
	if v.Post != nil {
		s.post = *v.Post
	}
	if v.Dev != nil {
		s.dev = *v.Dev
	}
	return s
}

func (s vsnap) same() bool {
	v := s.was
	ok := v.Epoch == s.epoch
	for i, x := range v.Release[:len(s.rel)] {
		ok = ok && x == s.rel[i]
	}
	for i, x := range v.Local[:len(s.loc)] {
		ok = ok && x.Type == s.loc[i].Type && x.IntVal == s.loc[i].IntVal && x.StrVal == s.loc[i].StrVal
	}
	if v.Pre != nil {
		ok = ok && v.Pre.L == s.pre.L && v.Pre.N == s.pre.N
	}
	if v.Post != nil {
		ok = ok && *v.Post == s.post
	}
	if v.Dev != nil {
		ok = ok && *v.Dev == s.dev
	}
	return ok
}

// Versions: what is done with versions and specifiers leaves them alone.
func Versions() {
	vs := make([]pep440.Version, 0, 3)
	n := nd.Q(1, 2)
	what := ""
	do := nd.Choose(7)
	op := pep440.CmpOp(0)
	kb := 5
	switch do {
	case 0, 5:
		kb = []int{0, 5}[nd.Choose(2)]
	case 1, 3:
		op = pep440.CmpOp(nd.Choose(9))
	}
	if op == pep440.CmpOpPrefixMatch || op == pep440.CmpOpPrefixExclude {
		kb = 0
	}
	vs = append(vs, ver(1+nd.Choose(n+1), nd.Choose(6)), ver(1+nd.Choose(2), kb), pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{9}}})
	vs = vs[:2]
	a, b := &vs[0], &vs[1]
	ss := []vsnap{snapVer(a), snapVer(b), snapVer(&vs[:3][2])}
	spec := pep440.Specifier{{CmpOp: op, Version: *b}}
	switch do {
	case 0:
		what = "comparing versions"
		_ = a.Cmp(*b)
		_ = a.PublicVersion.Cmp(b.PublicVersion)
	case 1:
		what = "printing a version"
		_, _ = a.String(), a.GoString()
		_ = spec.String()
	case 2:
		what = "normalising a version"
		_, _ = a.Normalize()
		_, _ = a.PublicVersion.Normalize()
	case 3:
		what = "matching a version"
		_ = spec.Match(*a)
	case 4:
		what = "matching a version by PEP 345"
		_ = pep345.VersionSpecifier{{CmpOp: pep345.CmpOp(nd.Choose(6)), Version: *b}}.Match(*a)
		_, _ = pep345.HaveRequiredPython(*a, ">=1")
	case 5:
		what = "selecting a version"
		_ = pep440.Specifier{{CmpOp: pep440.CmpOpGE, Version: pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{1}}}}}.Select(vs, []pep440.ExclusionBehavior{nil, pep440.AllowAll{}, pep440.ExcludePreReleases{AllowList: vs}, pep440.MultiExcluder{pep440.ExcludePreReleases{}}}[nd.Choose(4)])
	case 6:
		what = "classifying a version"
		_, _, _ = a.IsFinal(), a.IsPreRelease(), a.Major()+a.Minor()+a.Micro()
	}
	for _, s := range ss {
		nd.Assert(s.same(), what+" changes it or another one")
	}
	nd.Assert(spec[0].CmpOp == op, what+" changes the specifier")
	nd.Reach("end")
}

// Tags: lists of tags, links and names are left alone.
func Tags() {
	do := nd.Choose(4)
	mk := func(many bool) pep425.Tag {
		n := 1
		if many {
			n = 3
		}
		return pep425.Tag{Python: nd.From(n, "a.B"), ABI: nd.From(1, "aB"), Platform: "P"}
	}
	x := append(make([]pep425.Tag, 0, 4), mk(false), mk(false), mk(false))
	was := append([]pep425.Tag(nil), x...)
	y := x[:2]
	t := mk(do == 0)
	tw := t
	links := []pep503.FileLink{{}, {}}
	links[0].Text, links[1].Text = "p-"+nd.From(1, "12")+"-py3-none-any.whl", "p-"+nd.From(1, "12")+"-py3-none-any.whl"
	links[0].DataAttrs = map[string]string{}
	if nd.Flip() {
		links[0].DataAttrs["data-yanked"] = "r"
	}
	l0, l1, k := links[0].Text, links[1].Text, len(links[0].DataAttrs)
	bt := &bdist.BuildTag{Int: num(), Str: nd.From(1, "aB")}
	bw := *bt
	f := bdist.FileNameData{Distribution: "p", Version: ver(1, 5), BuildTag: bt, CompatibilityTag: t}
	fs := snapVer(&f.Version)
	what := ""
	switch do {
	case 0:
		what = "matching tags"
		_ = pep425.Intersect(y, []pep425.Tag{t})
		_ = t.Decompress()
		_ = t.String()
	case 1:
		what = "ranking a tag"
		_ = pep425.Installer(y).Supports(t)
		_ = pep425.Installer(y).Preference(t)
	case 2:
		what = "excluding yanked files"
		_ = pep592.ExcludeYanked(links).Allow(f.Version)
	case 3:
		what = "making a file name"
		_, _ = bdist.GenerateFilename(f)
		_ = bt.Cmp(&bdist.BuildTag{Int: 1})
		_ = bt.String()
	}
	for i := range x {
		nd.Assert(x[i] == was[i], what+" changes a list of tags")
	}
	nd.Assert(t == tw && f.CompatibilityTag == tw, what+" changes a tag")
	nd.Assert(links[0].Text == l0 && links[1].Text == l1 && len(links[0].DataAttrs) == k, what+" changes the links")
	nd.Assert(fs.same() && f.BuildTag == bt && *bt == bw, what+" changes a version or build tag")
	nd.Reach("end")
}
