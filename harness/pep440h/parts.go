package pep440h

import (
	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// Parts: what a version says about itself.
func Parts() {
	v := pep440.Version{PublicVersion: genPublic(nd.Q(4, 6))}
	local := nd.Flip()
	if local {
		v.Local = []intstr.IntOrString{intstr.FromString("x")}
	}
	seg := func(i int) int {
		if i < len(v.Release) {
			return v.Release[i]
		}
		return 0
	}
	nd.Assert(v.Major() == seg(0) && v.Minor() == seg(1) && v.Micro() == seg(2), "major, minor or micro is not the release segment of that place")
	final := v.Pre == nil && v.Post == nil && v.Dev == nil
	nd.Assert(v.PublicVersion.IsFinal() == final, "a version is final exactly when it has only a release number")
	nd.Assert(v.IsFinal() == (final && !local), "a version is final exactly when it has only a release number")
	nd.Assert(v.IsPreRelease() == (v.Pre != nil || v.Dev != nil), "a version is a pre-release exactly when it is marked as one or as a development release")
	nd.Reach("end")
}

// Normal: putting a version in normal form.
func Normal() {
	d := func() int { return nd.Range(0, 9) }
	v := pep440.Version{}
	want := ""
	num := func(n int) string { return string([]byte{byte('0' + n)}) }
	if nd.Flip() {
		v.Epoch = d()
		nd.Assume(v.Epoch > 0)
		want = num(v.Epoch) + "!"
	}
	for i, n := 0, 1+nd.Choose(2); i < n; i++ {
		x := d()
		v.Release = append(v.Release, x)
		if i > 0 {
			want += "."
		}
		want += num(x)
	}
	if k := nd.Choose(9); k > 0 {
		x := d()
		v.Pre = &pep440.PreRelease{L: []string{"a", "b", "rc", "alpha", "BETA", "c", "pre", "Preview"}[k-1], N: x}
		want += []string{"a", "b", "rc", "a", "b", "rc", "rc", "rc"}[k-1] + num(x)
	}
	if nd.Flip() {
		x := d()
		v.Post = &x
		want += ".post" + num(x)
	}
	if nd.Flip() {
		x := d()
		v.Dev = &x
		want += ".dev" + num(x)
	}
	p, err := v.PublicVersion.Normalize()
	nd.Assert(err == nil, "a version cannot be normalised")
	nd.Assert(p.String() == want, "the normal form of a public version is wrong")
	switch nd.Choose(3) {
	case 1:
		x := nd.Range(0, 9)
		v.Local = []intstr.IntOrString{intstr.FromInt(x)}
		want += "+" + num(x)
	case 2:
		c := nd.Byte()
		nd.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
		v.Local = []intstr.IntOrString{intstr.FromString(string([]byte{c})), intstr.FromInt(3)}
		if nd.SymBranch(c <= 'Z') {
			c += 32
		}
		want += "+" + string([]byte{c}) + ".3"
	}
	n, err := v.Normalize()
	nd.Assert(err == nil, "a version cannot be normalised")
	nd.Assert(n.String() == want, "the normal form of a version is wrong")
	m, err := n.Normalize()
	nd.Assert(err == nil && m.String() == want && m.Cmp(*n) == 0, "the normal form of a version is not its own normal form")
	nd.Reach("end")
}
