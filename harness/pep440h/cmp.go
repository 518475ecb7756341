package pep440h

import (
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// CmpPublic: V01 for versions without a local label.
func CmpPublic() {
	n := nd.Q(3, 4)
	a, b := genPublic(n), genPublic(n)
	want := oPublic(a, b)
	nd.Assert(sign(a.Cmp(b)) == want, "PublicVersion.Cmp differs from the PEP 440 order")
	nd.Assert(sign(b.Cmp(a)) == -want, "PublicVersion.Cmp is not antisymmetric")
	la, lb := pep440.Version{PublicVersion: a}, pep440.Version{PublicVersion: b}
	nd.Assert(sign(la.Cmp(lb)) == want, "Version.Cmp differs from the PEP 440 order")
	nd.Reach("end")
}

// CmpLocal: V01 for local labels.
func CmpLocal() {
	a := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small()}}, Local: genLocal(nd.Q(4, 5), nd.Q(1, 2))}
	b := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small()}}, Local: genLocal(nd.Q(4, 5), nd.Q(1, 2))}
	nd.Assert(sign(a.Cmp(b)) == oCmp(a, b), "Version.Cmp differs from the PEP 440 order (local label)")
	nd.Reach("end")
}

// CmpLocalText: V01 for longer text segments.
func CmpLocalText() {
	a := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{1}}, Local: genLocal(2, nd.Q(2, 3))}
	b := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{1}}, Local: genLocal(2, nd.Q(2, 3))}
	nd.Assert(sign(a.Cmp(b)) == oCmp(a, b), "Version.Cmp differs from the PEP 440 order (local label text)")
	nd.Reach("end")
}

// CmpLong: V01 for long release numbers.
func CmpLong() {
	gen := func() pep440.Version {
		v := pep440.Version{}
		n := 1 + nd.Choose(nd.Q(7, 10))
		for i := 0; i < n; i++ {
			v.Release = append(v.Release, small())
		}
		return v
	}
	a, b := gen(), gen()
	nd.Assert(sign(a.Cmp(b)) == oCmp(a, b), "Version.Cmp differs from the PEP 440 order (long release number)")
	nd.Reach("end")
}
