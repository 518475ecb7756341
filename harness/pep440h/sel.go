package pep440h

import (
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pep592"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func smallVer(kinds int) pep440.Version {
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small()}}}
	switch nd.Choose(kinds) {
	case 1:
		v.Pre = &pep440.PreRelease{L: "b", N: small()}
	case 2:
		v.Dev = intp(small())
	case 3:
		v.Post = intp(small())
	case 4:
		v.Release = append(v.Release, small())
	case 5:
		v.Post = intp(small())
		v.Dev = intp(small())
	case 6:
		v.Local = genLocal(1, 1)
	}
	return v
}

type policy struct{ f func(pep440.Version) bool }

func (p policy) Allow(v pep440.Version) bool { return p.f(v) }

// checkSelect asserts that got is the best permitted match of choices.
func checkSelect(spec pep440.Specifier, match func(pep440.Version) bool, choices []pep440.Version, excl pep440.ExclusionBehavior, allow func(pep440.Version) bool) {
	got := spec.Select(choices, excl)
	anyMatch, anyAllowed := false, false
	for _, c := range choices {
		mt := match(c)
		anyMatch = anyMatch || mt
		anyAllowed = anyAllowed || (mt && allow(c))
	}
	if got == nil {
		nd.Assert(!anyMatch, "Select returns nothing although a candidate matches")
		nd.Reach("none")
		return
	}
	in := false
	for _, c := range choices {
		in = in || eqVer(c, *got)
	}
	nd.Assert(in, "Select returns a version that is not a candidate")
	nd.Assert(match(*got), "Select returns a version that does not match")
	nd.Assert(!anyAllowed || allow(*got), "Select returns an excluded version although a permitted one matches")
	for _, c := range choices {
		better := match(c) && (allow(c) || !anyAllowed) && oCmp(c, *got) > 0
		nd.Assert(!better, "Select does not return the highest version")
	}
	nd.Reach("some")
}

func genSpec() (pep440.Specifier, func(pep440.Version) bool) {
	if nd.Flip() {
		return nil, func(pep440.Version) bool { return true }
	}
	op := []pep440.CmpOp{pep440.CmpOpGE, pep440.CmpOpLT, pep440.CmpOpStrictExclude}[nd.Choose(3)]
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small()}}}
	return pep440.Specifier{{CmpOp: op, Version: v}}, func(c pep440.Version) bool { return oMatch(op, v, c) }
}

// SelectPre: pre-release exclusion, with and without an allow-list.
func SelectPre() {
	n := nd.Choose(nd.Q(3, 4))
	var choices []pep440.Version
	for i := 0; i < n; i++ {
		k := nd.Q(3, 5)
		if i == n-1 {
			k = 7
		}
		choices = append(choices, smallVer(k))
	}
	spec, match := genSpec()
	isPre := func(v pep440.Version) bool { return v.Pre != nil || v.Dev != nil }
	switch nd.Choose(4) {
	case 0:
		checkSelect(spec, match, choices, nil, func(pep440.Version) bool { return true })
	case 1:
		checkSelect(spec, match, choices, pep440.AllowAll{}, func(pep440.Version) bool { return true })
	case 2:
		checkSelect(spec, match, choices, pep440.ExcludePreReleases{}, func(v pep440.Version) bool { return !isPre(v) })
	case 3:
		l := smallVer(2)
		checkSelect(spec, match, choices, pep440.ExcludePreReleases{AllowList: []pep440.Version{l}},
			func(v pep440.Version) bool { return !isPre(v) || oCmp(v, l) == 0 })
	}
}

// SelectMulti: several policies at once; a version must satisfy all of them.
func SelectMulti() {
	n := nd.Choose(nd.Q(3, 4))
	var choices []pep440.Version
	local := nd.Flip()
	for i := 0; i < n; i++ {
		v := smallVer(1)
		if local {
			v.Local = genLocal(1, 1)
		}
		choices = append(choices, v)
	}
	a, b := small(), small()
	pa := func(v pep440.Version) bool { return v.Release[0] != a }
	pb := func(v pep440.Version) bool { return v.Release[0] < b }
	excl := pep440.MultiExcluder{policy{pa}, policy{pb}}
	checkSelect(nil, func(pep440.Version) bool { return true }, choices, excl, func(v pep440.Version) bool { return pa(v) && pb(v) })
}

// SelectYanked: versions with yanked files are used only as a last resort.
func SelectYanked() {
	n := nd.Choose(nd.Q(3, 4))
	var choices []pep440.Version
	var links []pep503.FileLink
	var yanked, good []pep440.Version
	for i := 0; i < n; i++ {
		d := digits(1)
		v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{int(d[0] - '0')}}}
		choices = append(choices, v)
		l := pep503.FileLink{Link: pep503.Link{Text: "pkg-" + d + nd.Pick("", ".0") + "-py3-none-any.whl", DataAttrs: map[string]string{}}}
		if nd.Flip() {
			l.DataAttrs["data-yanked"] = nd.Pick("", "broken")
			yanked = append(yanked, v)
		} else {
			good = append(good, v)
		}
		nd.Assert(pep592.IsYanked(l) == (len(l.DataAttrs) > 0), "IsYanked is wrong")
		links = append(links, l)
	}
	ok := func(v pep440.Version) bool {
		r := true
		for _, y := range yanked {
			r = r && y.Release[0] != v.Release[0]
		}
		for _, g := range good {
			r = r || g.Release[0] == v.Release[0]
		}
		return r
	}
	checkSelect(nil, func(pep440.Version) bool { return true }, choices, pep592.ExcludeYanked(links), ok)
}

// SelectMany: many candidates in any rotation, one of them symbolic.
func SelectMany() {
	n := nd.Q(18, 36)
	var choices []pep440.Version
	for i := 0; i < n; i++ {
		k := i * 5 % n
		v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{k / 3}}}
		switch k % 3 {
		case 0:
			v.Pre = &pep440.PreRelease{L: "rc", N: k}
		case 1:
			v.Post = intp(k)
		case 2:
			v.Release = append(v.Release, 0, k)
		}
		choices = append(choices, v)
	}
	choices = append(choices, smallVer(4))
	choices[n].Release[0] += 4
	r := nd.Choose(n)
	choices = append(append([]pep440.Version(nil), choices[r:]...), choices[:r]...)
	var spec pep440.Specifier
	match := func(pep440.Version) bool { return true }
	if nd.Flip() {
		v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{int(nd.Byte() % 8)}}}
		spec, match = pep440.Specifier{{CmpOp: pep440.CmpOpLT, Version: v}}, func(c pep440.Version) bool { return oMatch(pep440.CmpOpLT, v, c) }
	}
	keep := append([]pep440.Version(nil), choices...)
	checkSelect(spec, match, choices, pep440.ExcludePreReleases{}, func(v pep440.Version) bool { return v.Pre == nil && v.Dev == nil })
	for i := range keep {
		nd.Assert(eqVer(keep[i], choices[i]), "Select changes the caller's list")
	}
}
