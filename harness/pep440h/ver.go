// Package pep440h checks pkg/python/pep440 against an oracle written from PEP 440.
package pep440h

import (
	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func cmpInt(a, b int) int {
	r := 0
	if a < b {
		r = -1
	}
	if a > b {
		r = 1
	}
	return r
}

// small is a symbolic non-negative number.
func small() int { return int(nd.SymU32()) }

func genPublic(maxRel int) pep440.PublicVersion {
	v := pep440.PublicVersion{Epoch: small()}
	n := 1 + nd.Choose(maxRel)
	for i := 0; i < n; i++ {
		v.Release = append(v.Release, small())
	}
	genTail(&v)
	return v
}

func genTail(v *pep440.PublicVersion) {
	if k := nd.Choose(4); k > 0 {
		v.Pre = &pep440.PreRelease{L: []string{"a", "b", "rc"}[k-1], N: small()}
	}
	if nd.Flip() {
		x := small()
		v.Post = &x
	}
	if nd.Flip() {
		x := small()
		v.Dev = &x
	}
}

func isDigit(c byte) bool { return '0' <= c && c <= '9' }

// alnum returns n symbolic lower-case alphanumerics, not all digits.
func alnum(n int) string {
	b := make([]byte, n)
	all := true
	for i := range b {
		c := nd.Byte()
		nd.Assume(isDigit(c) || ('a' <= c && c <= 'z'))
		all = all && isDigit(c)
		b[i] = c
	}
	nd.Assume(!all)
	return string(b)
}

func genLocal(maxSeg, maxLen int) []intstr.IntOrString {
	var r []intstr.IntOrString
	n := nd.Choose(maxSeg + 1)
	for i := 0; i < n; i++ {
		k := nd.Choose(1 + maxLen)
		if k == 0 {
			x := nd.SymU32()
			nd.Assume(x < 1<<31)
			r = append(r, intstr.IntOrString{Type: intstr.Int, IntVal: int32(x)})
		} else {
			r = append(r, intstr.FromString(alnum(k)))
		}
	}
	return r
}

// ---- oracle ----

func relAt(r []int, i int) int {
	if i < len(r) {
		return r[i]
	}
	return 0
}

func oRel(a, b []int) int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := 0
	for i := n - 1; i >= 0; i-- {
		if c := cmpInt(relAt(a, i), relAt(b, i)); c != 0 {
			r = c
		}
	}
	return r
}

// preKey: rank and number of the pre-release phase of v.
func preKey(v pep440.PublicVersion) (int, int) {
	if v.Pre != nil {
		switch v.Pre.L {
		case "a":
			return 1, v.Pre.N
		case "b":
			return 2, v.Pre.N
		}
		return 3, v.Pre.N
	}
	if v.Post == nil && v.Dev != nil {
		return 0, 0
	}
	return 4, 0
}

func oPublic(a, b pep440.PublicVersion) int {
	r := cmpInt(a.Epoch, b.Epoch)
	if c := oRel(a.Release, b.Release); r == 0 {
		r = c
	}
	ar, an := preKey(a)
	br, bn := preKey(b)
	c := cmpInt(ar, br)
	if c == 0 {
		c = cmpInt(an, bn)
	}
	if r == 0 {
		r = c
	}
	ap, bp := -1, -1
	if a.Post != nil {
		ap = *a.Post
	}
	if b.Post != nil {
		bp = *b.Post
	}
	if c := cmpInt(ap, bp); r == 0 {
		r = c
	}
	switch {
	case a.Dev != nil && b.Dev != nil:
		c = cmpInt(*a.Dev, *b.Dev)
	case a.Dev != nil:
		c = -1
	case b.Dev != nil:
		c = 1
	default:
		c = 0
	}
	if r == 0 {
		r = c
	}
	return r
}

func oStr(a, b string) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := cmpInt(len(a), len(b))
	for i := n - 1; i >= 0; i-- {
		if a[i] < b[i] {
			r = -1
		}
		if a[i] > b[i] {
			r = 1
		}
	}
	return r
}

func oLocal(a, b []intstr.IntOrString) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := cmpInt(len(a), len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := a[i], b[i]
		c := 0
		switch {
		case x.Type == intstr.Int && y.Type == intstr.Int:
			c = cmpInt(int(x.IntVal), int(y.IntVal))
		case x.Type == intstr.Int:
			c = 1
		case y.Type == intstr.Int:
			c = -1
		default:
			c = oStr(x.StrVal, y.StrVal)
		}
		if c != 0 {
			r = c
		}
	}
	return r
}

func oCmp(a, b pep440.Version) int {
	r := oPublic(a.PublicVersion, b.PublicVersion)
	if c := oLocal(a.Local, b.Local); r == 0 {
		r = c
	}
	return r
}

func fromStr(s string) intstr.IntOrString { return intstr.FromString(s) }

// exported for the pep345 harness
func OracleCmp(a, b pep440.Version) int            { return oCmp(a, b) }
func OraclePrefix(s, v pep440.PublicVersion) bool  { return oPrefix(s, v) }
func OracleParse(s string) (*pep440.Version, bool) { return oParse(s) }
func OracleEq(a, b pep440.Version) bool            { return eqVer(a, b) }
func GenPublic(n int) pep440.PublicVersion         { return genPublic(n) }
func GenLocal(s, l int) []intstr.IntOrString       { return genLocal(s, l) }
