package pep440h

import (
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// use calls one part of the API and describes the result.
func use(k int, sh *pep440.Version, sp pep440.Specifier, f *bdist.FileNameData) string {
	switch k {
	case 0:
		v, err := pep440.ParseVersion(" V1.0RC2.POST3+Ab-01 ")
		if err != nil {
			return "E"
		}
		n, err := v.Normalize()
		if err != nil {
			return "E"
		}
		return n.String()
	case 1:
		v, err := pep440.ParseVersion("1!2.dev7")
		if err != nil {
			return "E"
		}
		return v.String() + cmpText(v.Cmp(*sh))
	case 2:
		if sp.Match(*sh) {
			return "match"
		}
		return "no"
	case 3:
		s, err := pep440.ParseSpecifier("~=1.2, !=1.2.*")
		if err != nil {
			return "E"
		}
		return s.String()
	case 4:
		n, err := sh.Normalize()
		if err != nil {
			return "E"
		}
		return n.String() + sh.String()
	case 5:
		d, err := bdist.ParseFilename("A_b-1.0-2x-py2.py3-none-any.whl")
		if err != nil {
			return "E"
		}
		return d.Distribution + d.Version.String() + d.CompatibilityTag.String()
	case 6:
		return f.Distribution + f.Version.String()
	default:
		in := pep425.Installer{{Python: "py3", ABI: "none", Platform: "any"}, {Python: "py2", ABI: "none", Platform: "any"}}
		return string(rune('0' + in.Preference(f.CompatibilityTag)))
	}
}

func cmpText(n int) string {
	if n < 0 {
		return "<"
	} else if n > 0 {
		return ">"
	}
	return "="
}

// ConcUse: threads that share values get what one alone gets.
func ConcUse() {
	sh, err := pep440.ParseVersion("1.2.0a01+X.1")
	nd.Assert(err == nil, "a version cannot be parsed")
	sh.Release[1] = int(nd.Byte() % 4)
	sp, err := pep440.ParseSpecifier(nd.Pick(">=1.1", "==1.2.*"))
	nd.Assert(err == nil, "a specifier cannot be parsed")
	f, err := bdist.ParseFilename("x_Y-1.0-py2.py3-none-any.whl")
	nd.Assert(err == nil, "a file name cannot be parsed")
	a := nd.Choose(8)
	b := nd.Choose(8)
	nd.Assume(a <= b)
	want := [2]string{use(a, sh, sp, f), use(b, sh, sp, f)}
	rounds := 1
	if nd.SymNative() {
		rounds = 500
	}
	for r := 0; r < rounds; r++ {
		var got [2]string
		nd.SymPar(nd.Q(1, 2), func() { got[0] = use(a, sh, sp, f) }, func() { got[1] = use(b, sh, sp, f) })
		nd.Assert(got[0] == want[0] && got[1] == want[1], "a thread gets another result than one alone")
	}
	nd.Reach("end")
}
