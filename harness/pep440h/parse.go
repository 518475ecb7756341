package pep440h

import (
	"strconv"

	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func intp(i int) *int { return &i }

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}
func isAlpha(c byte) bool { c = lower(c); return 'a' <= c && c <= 'z' }
func isSep(c byte) bool   { return c == '-' || c == '_' || c == '.' }
func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

// ---- recogniser written from PEP 440, appendix B ----

type rd struct {
	s string
	i int
}

func (r *rd) peek(f func(byte) bool) bool { return r.i < len(r.s) && nd.SymBranch(f(r.s[r.i])) }
func (r *rd) is(c byte) bool              { return r.i < len(r.s) && nd.SymBranch(r.s[r.i] == c) }

func (r *rd) num() (int, bool) {
	st := r.i
	n := 0
	for r.peek(isDigit) {
		n = n*10 + int(r.s[r.i]-'0')
		r.i++
	}
	return n, r.i > st
}

func (r *rd) word(w string) bool {
	if r.i+len(w) > len(r.s) {
		return false
	}
	for k := 0; k < len(w); k++ {
		if !nd.SymBranch(lower(r.s[r.i+k]) == w[k]) {
			return false
		}
	}
	r.i += len(w)
	return true
}

// keyword matches sep? (one of words) sep? digits?
func (r *rd) keyword(words []string) (string, int, bool) {
	st := r.i
	if r.peek(isSep) {
		r.i++
	}
	for _, w := range words {
		if r.word(w) {
			if r.peek(isSep) {
				r.i++
			}
			n, _ := r.num()
			return w, n, true
		}
	}
	r.i = st
	return "", 0, false
}

func oParse(s string) (*pep440.Version, bool) {
	r := &rd{s: s}
	for r.peek(isSpace) {
		r.i++
	}
	if r.peek(func(c byte) bool { return c == 'v' || c == 'V' }) {
		r.i++
	}
	var v pep440.Version
	n, ok := r.num()
	if !ok {
		return nil, false
	}
	if r.is('!') {
		r.i++
		v.Epoch = n
		if n, ok = r.num(); !ok {
			return nil, false
		}
	}
	v.Release = []int{n}
	for r.is('.') {
		st := r.i
		r.i++
		if n, ok = r.num(); !ok {
			r.i = st
			break
		}
		v.Release = append(v.Release, n)
	}
	if w, n, ok := r.keyword([]string{"alpha", "a", "beta", "b", "c", "rc", "preview", "pre"}); ok {
		l := "rc"
		if w[0] == 'a' || w[0] == 'b' {
			l = w[:1]
		}
		v.Pre = &pep440.PreRelease{L: l, N: n}
	}
	st := r.i
	done := false
	if r.is('-') {
		r.i++
		if n, ok := r.num(); ok {
			v.Post = intp(n)
			done = true
		} else {
			r.i = st
		}
	}
	if !done {
		if _, n, ok := r.keyword([]string{"post", "rev", "r"}); ok {
			v.Post = intp(n)
		}
	}
	if _, n, ok := r.keyword([]string{"dev"}); ok {
		v.Dev = intp(n)
	}
	if r.is('+') {
		r.i++
		for {
			st := r.i
			for r.peek(func(c byte) bool { return isDigit(c) || isAlpha(c) }) {
				r.i++
			}
			if r.i == st {
				return nil, false
			}
			b := []byte(s[st:r.i])
			all := true
			num := 0
			for k := range b {
				b[k] = lower(b[k])
				if !nd.SymBranch(isDigit(b[k])) {
					all = false
				}
				num = num*10 + int(b[k]-'0')
			}
			if all {
				v.Local = append(v.Local, intstr.FromInt(num))
			} else {
				v.Local = append(v.Local, intstr.FromString(string(b)))
			}
			if !r.peek(isSep) {
				break
			}
			r.i++
		}
	}
	for r.peek(isSpace) {
		r.i++
	}
	if r.i != len(s) {
		return nil, false
	}
	return &v, true
}

func eqIP(a, b *int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func eqVer(a, b pep440.Version) bool {
	if len(a.Release) != len(b.Release) || len(a.Local) != len(b.Local) || (a.Pre == nil) != (b.Pre == nil) {
		return false
	}
	ok := a.Epoch == b.Epoch && eqIP(a.Post, b.Post) && eqIP(a.Dev, b.Dev)
	for i := range a.Release {
		ok = ok && a.Release[i] == b.Release[i]
	}
	if a.Pre != nil {
		ok = ok && a.Pre.L == b.Pre.L && a.Pre.N == b.Pre.N
	}
	for i := range a.Local {
		x, y := a.Local[i], b.Local[i]
		if x.Type != y.Type {
			return false
		}
		ok = ok && x.IntVal == y.IntVal && x.StrVal == y.StrVal
	}
	return ok
}

func checkParse(s string) {
	want, ok := oParse(s)
	got, err := pep440.ParseVersion(s)
	if !ok {
		nd.Assert(err != nil, "ParseVersion accepts a string that is not a PEP 440 version")
		nd.Reach("rejected")
		return
	}
	nd.Assert(err == nil, "ParseVersion rejects a PEP 440 version")
	nd.Assert(eqVer(*got, *want), "ParseVersion returns the wrong version")
	nd.Reach("accepted")
	// normal form: printing is canonical and parses back to the same version
	str := got.String()
	nd.Assert(str == oString(*want), "a parsed version does not print in normal form")
}

// oDec is the decimal form of n (n >= 0), printed by the formatting model.
func oDec(n int) string { return strconv.Itoa(n) }

func oString(v pep440.Version) string {
	s := ""
	if nd.SymBranch(v.Epoch != 0) {
		s += oDec(v.Epoch) + "!"
	}
	for i, n := range v.Release {
		if i > 0 {
			s += "."
		}
		s += oDec(n)
	}
	if v.Pre != nil {
		s += v.Pre.L + oDec(v.Pre.N)
	}
	if v.Post != nil {
		s += ".post" + oDec(*v.Post)
	}
	if v.Dev != nil {
		s += ".dev" + oDec(*v.Dev)
	}
	for i, l := range v.Local {
		if i == 0 {
			s += "+"
		} else {
			s += "."
		}
		if l.Type == intstr.Int {
			s += oDec(int(l.IntVal))
		} else {
			s += l.StrVal
		}
	}
	return s
}

func ascii(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
		nd.Assume(b[i] < 0x80 && b[i] != '\v')
	}
	return string(b)
}

// ParseAny: arbitrary ASCII strings (short, after various prefixes).
func ParseAny() {
	pre := nd.Pick("", "1", "0a", "1.0.post", "1.dev", "1+", "1!2", "2-", "1rc1.")
	n := nd.Q(4, 6)
	s := pre + ascii(nd.Choose(n+1))
	checkParse(s)
}

func caseOf(w string) string {
	b := []byte(w)
	for i := range b {
		c := nd.Byte()
		nd.Assume(c == b[i] || c == b[i]-32)
		b[i] = c
	}
	return string(b)
}

func optSep() string {
	if nd.Flip() {
		return nd.From(1, "-_.")
	}
	return ""
}

func digits(n int) string { return nd.From(n, "0123456789") }

// ParseSpellings: every alternate spelling of every component.
func ParseSpellings() {
	focus := nd.Choose(5)
	s := ""
	if focus == 4 {
		s = nd.Pick("", "v", " V", "\n")
		if nd.Flip() {
			s += digits(1+nd.Choose(2)) + "!"
		}
	}
	s += digits(1)
	if focus == 4 {
		s += digits(nd.Choose(2))
		if nd.Flip() {
			s += "." + digits(1+nd.Choose(2))
		}
	}
	if focus == 0 {
		s += optSep() + caseOf(nd.Pick("a", "b", "c", "rc", "alpha", "beta", "pre", "preview")) + optSep() + digits(nd.Choose(nd.Q(2, 3)))
	} else if nd.Flip() {
		s += "rc" + digits(1)
	}
	if focus == 1 {
		if nd.Flip() {
			s += "-" + digits(1+nd.Choose(2))
		} else {
			s += optSep() + caseOf(nd.Pick("post", "rev", "r")) + optSep() + digits(nd.Choose(nd.Q(2, 3)))
		}
	} else if nd.Flip() {
		s += ".post" + digits(1)
	}
	if focus == 2 {
		s += optSep() + caseOf("dev") + optSep() + digits(nd.Choose(nd.Q(2, 3)))
	} else if nd.Flip() {
		s += ".dev" + digits(1)
	}
	if focus == 3 {
		s += "+" + nd.From(1+nd.Choose(2), "0123789abzABZ")
		if nd.Flip() {
			s += nd.From(1, "-_.") + nd.From(1, "0123789abzABZ")
		}
	}
	s += nd.Pick("", " ")
	checkParse(s)
}

// RoundTrip: String then ParseVersion is the identity.
func RoundTrip() {
	var v pep440.Version
	wide := nd.Choose(6)
	num := func(i int) int {
		n := 1
		if wide == i {
			n = nd.Q(2, 3)
		}
		d := digits(n)
		nd.Assume(n == 1 || d[0] != '0')
		r := int(d[0] - '0')
		for k := 1; k < n; k++ {
			r = r*10 + int(d[k]-'0')
		}
		return r
	}
	if nd.Flip() {
		v.Epoch = num(0)
	}
	n := 1 + nd.Choose(nd.Q(2, 3))
	for i := 0; i < n; i++ {
		v.Release = append(v.Release, num(1))
	}
	if k := nd.Choose(4); k > 0 {
		v.Pre = &pep440.PreRelease{L: []string{"a", "b", "rc"}[k-1], N: num(2)}
	}
	if nd.Flip() {
		v.Post = intp(num(3))
	}
	if nd.Flip() {
		v.Dev = intp(num(4))
	}
	nl := nd.Choose(nd.Q(2, 3))
	for i := 0; i < nl; i++ {
		if nd.Flip() {
			v.Local = append(v.Local, intstr.FromInt(num(5)))
		} else {
			v.Local = append(v.Local, intstr.FromString(alnum(1+nd.Choose(2))))
		}
	}
	s := v.String()
	nd.Observe("s", s)
	w, err := pep440.ParseVersion(s)
	nd.Assert(err == nil, "a printed version does not parse")
	nd.Assert(eqVer(*w, v), "a printed version parses to a different version")
	nd.Reach("end")
}

// BigNumbers: large components survive parsing and printing.
func BigNumbers() {
	d := digits(nd.Q(10, 18))
	nd.Assume(d[0] != '0')
	pre := nd.Pick("1.", "1.post", "1a", "")
	s := pre + d
	v, err := pep440.ParseVersion(s)
	nd.Assert(err == nil, "a version with a large number is rejected")
	nd.Assert(v.String() == s, "a version with a large number is misprinted")
	nd.Reach("end")
}

// BigLocal: large numeric local segments survive parsing and printing.
func BigLocal() {
	d := digits(2) + "00000000"
	nd.Assume(d[0] != '0')
	n := 0
	for i := 0; i < len(d); i++ {
		n = n*10 + int(d[i]-'0')
	}
	v, err := pep440.ParseVersion("1+" + d)
	nd.Assert(err == nil, "a version with a large local segment is rejected")
	nd.Assert(len(v.Local) == 1, "a version with a large local segment loses it")
	l := v.Local[0]
	if l.Type == intstr.Int {
		nd.Assert(int(l.IntVal) == n, "a numeric local segment does not fit 32 bits and changes value")
	} else {
		nd.Assert(l.StrVal == d, "a large local segment changes value")
	}
	nd.Reach("end")
}
