// Package tagsh checks PEP 425 tags and wheel file names.
package tagsh

import (
	"k8s.io/apimachinery/pkg/util/intstr"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
	p4 "github.com/datawire/ocibuild/zz_verif/pep440h"
)

// part is a symbolic tag component without '-' and '.'.
func part() string {
	c := nd.Byte()
	nd.Assume(c < 0x80 && c != '-' && c != '.')
	return string([]byte{c})
}

type ctag struct{ py, abi, plat []string }

func join(p []string) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += "."
		}
		s += x
	}
	return s
}
func (c ctag) tag() pep425.Tag {
	return pep425.Tag{Python: join(c.py), ABI: join(c.abi), Platform: join(c.plat)}
}

func parts(max int) []string {
	var r []string
	n := 1 + nd.Choose(max)
	for i := 0; i < n; i++ {
		r = append(r, part())
	}
	return r
}

func gen(max int) ctag { return ctag{parts(max), parts(max), parts(max)} }

func anyEq(a, b []string) bool {
	r := false
	for _, x := range a {
		for _, y := range b {
			r = r || x == y
		}
	}
	return r
}
func overlap(a, b ctag) bool {
	return anyEq(a.py, b.py) && anyEq(a.abi, b.abi) && anyEq(a.plat, b.plat)
}

// Support: Supports and Preference against the expansion of compressed tag sets.
func Support() {
	n := nd.Choose(nd.Q(3, 4))
	var inst pep425.Installer
	var it []ctag
	max := 1
	if n <= 1 {
		max = 2
	}
	for i := 0; i < n; i++ {
		c := gen(1)
		it = append(it, c)
		inst = append(inst, c.tag())
	}
	t := gen(max)
	want := n + 1
	for i := n - 1; i >= 0; i-- {
		if nd.SymBranch(overlap(it[i], t)) {
			want = i + 1
		}
	}
	nd.Assert(inst.Supports(t.tag()) == (want <= n), "Supports differs from the expansion of the tag sets")
	nd.Assert(inst.Preference(t.tag()) == want, "Preference is not the position of the first matching tag")
	nd.Reach("end")
}

// InstCompressed: installers may list compressed sets too.
func InstCompressed() {
	a, b := gen(2), gen(2)
	nd.Assert(pep425.Intersect([]pep425.Tag{a.tag()}, []pep425.Tag{b.tag()}) == overlap(a, b), "Intersect differs from the expansion of the tag sets")
	nd.Reach("end")
}

// Long: one component lists many alternatives, as multi-platform wheels do.
func Long() {
	n := nd.Q(6, 9)
	c := ctag{[]string{part()}, []string{part()}, []string{part()}}
	var many []string
	for i := 0; i < n; i++ {
		many = append(many, part())
	}
	switch nd.Choose(3) {
	case 0:
		c.py = many
	case 1:
		c.abi = many
	case 2:
		c.plat = many
	}
	nd.Assert(len(c.tag().Decompress()) == n, "Decompress returns the wrong number of tags")
	o := gen(1)
	want := overlap(o, c)
	nd.Assert(pep425.Installer{o.tag()}.Supports(c.tag()) == want, "Supports differs from the expansion of a long tag set")
	nd.Assert(pep425.Installer{c.tag()}.Supports(o.tag()) == want, "Supports differs from the expansion of a long installer entry")
	nd.Reach("end")
}

// Expand: Decompress lists every combination once.
func Expand() {
	c := gen(nd.Q(2, 3))
	l := c.tag().Decompress()
	nd.Assert(len(l) == len(c.py)*len(c.abi)*len(c.plat), "Decompress returns the wrong number of tags")
	for _, x := range c.py {
		for _, y := range c.abi {
			for _, z := range c.plat {
				f := false
				for _, t := range l {
					f = f || t == pep425.Tag{Python: x, ABI: y, Platform: z}
				}
				nd.Assert(f, "Decompress misses a combination")
			}
		}
	}
	nd.Reach("end")
}

// TagText: a tag prints and parses back to itself; other strings are errors.
func TagText() {
	s := nd.StrUpTo(0, nd.Q(6, 8))
	n := 0
	for i := 0; i < len(s); i++ {
		if nd.SymBranch(s[i] == '-') {
			n++
		}
	}
	t, err := pep425.ParseTag(s)
	nd.Assert((err == nil) == (n == 2), "ParseTag accepts exactly the strings with three components")
	if err == nil {
		nd.Assert(t.String() == s, "a parsed tag does not print as written")
		b, err := t.MarshalText()
		var u pep425.Tag
		nd.Assert(err == nil && u.UnmarshalText(b) == nil && u == t, "a tag does not survive marshalling")
		nd.Reach("ok")
	}
}

// ---- wheel file names ----

func word(n int, extra string) string {
	b := make([]byte, n)
	for i := range b {
		c := nd.Byte()
		ok := (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
		for j := 0; j < len(extra); j++ {
			ok = ok || c == extra[j]
		}
		nd.Assume(ok)
		b[i] = c
	}
	return string(b)
}

func dec(d string) int {
	n := 0
	for i := 0; i < len(d); i++ {
		n = n*10 + int(d[i]-'0')
	}
	return n
}

func eqBuild(a, b *bdist.BuildTag) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Int == b.Int && a.Str == b.Str
}

// FileRoundTrip: GenerateFilename then ParseFilename returns the parts.
func FileRoundTrip() {
	var d bdist.FileNameData
	focus := nd.Choose(4)
	pick := func(f, n int) int {
		if focus == f || nd.SymThorough() {
			return nd.Choose(n)
		}
		return 1
	}
	num := func(f int) int {
		if focus == f || nd.SymThorough() {
			return dec(nd.From(1, "0123456789"))
		}
		return 7
	}
	d.Distribution = word(1, "_") + word(pick(0, nd.Q(4, 3)), "-_.")
	d.Version = pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{num(1)}}}
	switch pick(1, 6) {
	case 4:
		d.Version.Local = []intstr.IntOrString{intstr.FromInt(num(1))}
	case 5:
		x := num(1)
		d.Version.Dev = &x
		d.Version.Local = []intstr.IntOrString{intstr.FromString("ab"), intstr.FromInt(num(1))}
	case 1:
		d.Version.Release = append(d.Version.Release, 7)
		x := num(1)
		d.Version.Post = &x
	case 2:
		d.Version.Epoch = 1
		d.Version.Pre = &pep440.PreRelease{L: "rc", N: num(1)}
	case 3:
		x := num(1)
		d.Version.Dev = &x
	}
	if k := pick(2, 4); k > 0 {
		b := bdist.BuildTag{Int: num(2)}
		if k >= 2 {
			b.Str = word(k-1, "_.")
			nd.Assume(!(b.Str[0] >= '0' && b.Str[0] <= '9'))
		}
		d.BuildTag = &b
	}
	d.CompatibilityTag = pep425.Tag{Python: "py3", ABI: "none", Platform: "any"}
	if focus == 3 || nd.SymThorough() {
		d.CompatibilityTag = pep425.Tag{Python: word(2, "."), ABI: word(1, "."), Platform: word(2, "._")}
	}
	name, err := bdist.GenerateFilename(d)
	nd.Assert(err == nil, "GenerateFilename rejects valid parts")
	nd.Observe("name", name)
	p, err := bdist.ParseFilename(name)
	nd.Assert(err == nil, "a generated file name does not parse")
	// the distribution name is escaped: runs of -_. become one _
	want := []byte{}
	for i := 0; i < len(d.Distribution); i++ {
		c := d.Distribution[i]
		if nd.SymBranch(c == '-' || c == '_' || c == '.') {
			if len(want) == 0 || want[len(want)-1] != '_' {
				want = append(want, '_')
			}
		} else {
			want = append(want, c)
		}
	}
	nd.Assert(p.Distribution == string(want), "the distribution does not survive the file name")
	nd.Assert(p4.OracleEq(p.Version, d.Version), "the version does not survive the file name")
	nd.Assert(eqBuild(p.BuildTag, d.BuildTag), "the build tag does not survive the file name")
	nd.Assert(p.CompatibilityTag == d.CompatibilityTag, "the compatibility tag does not survive the file name")
	nd.Reach("end")
}

// FileParse: parts separated by dashes are recognised whatever they contain.
func FileParse() {
	dist := word(1+nd.Choose(2), "_.")
	d1 := nd.From(1, "0123456789")
	ver := d1 + nd.Pick("", "rc1")
	s := dist + "-" + ver
	var wantB *bdist.BuildTag
	bad := false
	nb := nd.Choose(nd.Q(2, 3))
	switch nd.Choose(4) {
	case 1:
		x := nd.From(1+nb, "0123456789")
		s += "-" + x
		wantB = &bdist.BuildTag{Int: dec(x)}
	case 2:
		x := nd.From(1, "0123456789")
		y := word(1+nb, "_.")
		nd.Assume(!(y[0] >= '0' && y[0] <= '9'))
		s += "-" + x + y
		wantB = &bdist.BuildTag{Int: dec(x), Str: y}
	case 3:
		y := word(1+nb, "_.")
		nd.Assume(!(y[0] >= '0' && y[0] <= '9'))
		s += "-" + y
		bad = true // a build tag must start with a digit
	}
	t := pep425.Tag{Python: word(1, "."), ABI: word(1, "."), Platform: word(1, "._")}
	s += "-" + t.String()
	switch nd.Choose(4) {
	case 0:
		s += ".whl"
	case 1:
		s += ".whl" + word(1, "-._")
		bad = true
	case 2:
		s += ".wh"
		bad = true
	case 3:
		s += "-" + word(1, "") + "-x.whl"
		bad = true
		nd.Assume(wantB != nil)
	}
	p, err := bdist.ParseFilename(s)
	if bad {
		nd.Assert(err != nil, "ParseFilename accepts an invalid wheel file name")
		nd.Reach("bad")
		return
	}
	nd.Assert(err == nil, "ParseFilename rejects a valid wheel file name")
	nd.Assert(p.Distribution == dist, "ParseFilename returns the wrong distribution")
	v, ok := p4.OracleParse(ver)
	nd.Assert(ok && p4.OracleEq(p.Version, *v), "ParseFilename returns the wrong version")
	nd.Assert(eqBuild(p.BuildTag, wantB), "ParseFilename returns the wrong build tag")
	nd.Assert(p.CompatibilityTag == t, "ParseFilename returns the wrong compatibility tag")
	nd.Reach("end")
}

// FileAny: the number of dash-separated parts decides.
func FileAny() {
	n := nd.Q(4, 5)
	b := nd.Bytes(n)
	for i := range b {
		nd.Assume(b[i] < 0x80 && b[i] != '\n')
	}
	s := "a-1" + string(b) + "-n-a.whl"
	var f []string
	cur := ""
	t := s[:len(s)-4]
	for i := 0; i < len(t); i++ {
		if nd.SymBranch(t[i] == '-') {
			f = append(f, cur)
			cur = ""
		} else {
			cur += t[i : i+1]
		}
	}
	f = append(f, cur)
	ok := len(f) == 5 || len(f) == 6
	for _, x := range f {
		ok = ok && x != ""
	}
	if ok {
		_, vok := p4.OracleParse(f[1])
		ok = vok
	}
	if ok && len(f) == 6 {
		ok = nd.SymBranch(f[2][0] >= '0' && f[2][0] <= '9')
	}
	_, err := bdist.ParseFilename(s)
	nd.Assert((err == nil) == ok, "ParseFilename accepts the wrong strings")
	nd.Reach("end")
}

func oStr(a, b string) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := 0
	if len(a) < len(b) {
		r = -1
	} else if len(a) > len(b) {
		r = 1
	}
	for i := n - 1; i >= 0; i-- {
		if a[i] < b[i] {
			r = -1
		}
		if a[i] > b[i] {
			r = 1
		}
	}
	return r
}

// BuildOrder: build tags order by number, then text; no tag is lowest.
func BuildOrder() {
	gen := func() *bdist.BuildTag {
		if nd.Flip() {
			return nil
		}
		return &bdist.BuildTag{Int: int(nd.SymU32()), Str: nd.StrUpTo(0, 2)}
	}
	a, b := gen(), gen()
	want := 0
	switch {
	case a == nil && b == nil:
	case a == nil:
		want = -1
	case b == nil:
		want = 1
	case nd.SymBranch(a.Int != b.Int):
		want = 1
		if nd.SymBranch(a.Int < b.Int) {
			want = -1
		}
	default:
		want = oStr(a.Str, b.Str)
	}
	got := a.Cmp(b)
	sg := 0
	if got < 0 {
		sg = -1
	}
	if got > 0 {
		sg = 1
	}
	nd.Assert(sg == want, "BuildTag.Cmp gives the wrong order")
	nd.Reach("end")
}
