package pep440h

import (
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// ---- oracle for specifier clauses, from the text of PEP 440 ----

func samePre(a, b *pep440.PreRelease) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.L == b.L && a.N == b.N
}

func oPrefix(s, v pep440.PublicVersion) bool {
	ok := s.Epoch == v.Epoch
	if s.Pre == nil && s.Post == nil {
		for i := range s.Release {
			ok = ok && s.Release[i] == relAt(v.Release, i)
		}
		return ok
	}
	ok = ok && oRel(s.Release, v.Release) == 0 && samePre(s.Pre, v.Pre)
	if s.Post != nil {
		ok = ok && eqIP(s.Post, v.Post)
	}
	return ok
}

func oMatch(op pep440.CmpOp, s, v pep440.Version) bool {
	switch op {
	case pep440.CmpOpCompatible:
		p := s.PublicVersion
		p.Release = p.Release[:len(p.Release)-1]
		p.Pre, p.Post, p.Dev = nil, nil, nil
		return oCmp(v, s) >= 0 && oPrefix(p, v.PublicVersion)
	case pep440.CmpOpStrictMatch:
		if len(s.Local) == 0 {
			return oPublic(s.PublicVersion, v.PublicVersion) == 0
		}
		return oCmp(s, v) == 0
	case pep440.CmpOpPrefixMatch:
		return oPrefix(s.PublicVersion, v.PublicVersion)
	case pep440.CmpOpStrictExclude:
		return !oMatch(pep440.CmpOpStrictMatch, s, v)
	case pep440.CmpOpPrefixExclude:
		return !oPrefix(s.PublicVersion, v.PublicVersion)
	case pep440.CmpOpLE:
		return oCmp(v, s) <= 0
	case pep440.CmpOpGE:
		return oCmp(v, s) >= 0
	case pep440.CmpOpLT:
		return oPublic(v.PublicVersion, s.PublicVersion) < 0
	}
	// ">": later, but neither a post-release nor a local version of s
	later := oPublic(v.PublicVersion, s.PublicVersion) > 0
	if s.Post == nil && v.Post != nil {
		later = later && !(s.Epoch == v.Epoch && oRel(s.Release, v.Release) == 0 && samePre(s.Pre, v.Pre))
	}
	return later
}

var allOps = []pep440.CmpOp{pep440.CmpOpCompatible, pep440.CmpOpStrictMatch, pep440.CmpOpPrefixMatch, pep440.CmpOpStrictExclude,
	pep440.CmpOpPrefixExclude, pep440.CmpOpLE, pep440.CmpOpGE, pep440.CmpOpLT, pep440.CmpOpGT}

// genSpecVersion is a version permitted in a clause with operator op.
func genClause(op pep440.CmpOp, maxRel int, local bool) pep440.SpecifierClause {
	v := pep440.Version{PublicVersion: genPublic(maxRel)}
	if op == pep440.CmpOpCompatible && len(v.Release) < 2 {
		nd.SymSkip()
	}
	if (op == pep440.CmpOpPrefixMatch || op == pep440.CmpOpPrefixExclude) && v.Dev != nil {
		nd.SymSkip()
	}
	if local && (op == pep440.CmpOpStrictMatch || op == pep440.CmpOpStrictExclude) {
		v.Local = genLocal(1, 1)
	}
	return pep440.SpecifierClause{CmpOp: op, Version: v}
}

func matchClause(op pep440.CmpOp) {
	n := nd.Q(2, 3)
	c := genClause(op, n, false)
	v := pep440.Version{PublicVersion: genPublic(n)}
	nd.Assert(c.Match(v) == oMatch(op, c.Version, v), "a clause does not match the versions PEP 440 says: "+op.String())
	nd.Reach("end")
}

// MatchOps: every operator against every pair of public versions.
func MatchOps() { matchClause(allOps[nd.Choose(len(allOps))]) }

// MatchLocal: candidates and clauses with local labels.
func MatchLocal() {
	op := allOps[nd.Choose(len(allOps))]
	s := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small(), small()}}}
	if nd.Flip() {
		s.Pre = &pep440.PreRelease{L: "rc", N: small()}
	}
	if op == pep440.CmpOpStrictMatch || op == pep440.CmpOpStrictExclude {
		s.Local = genLocal(nd.Q(1, 2), 1)
	}
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small(), small()}}, Local: genLocal(nd.Q(1, 2), 1)}
	if nd.Flip() {
		v.Pre = &pep440.PreRelease{L: "rc", N: small()}
	}
	if op == pep440.CmpOpLE {
		// PEP 440 does not say whether a local version of V satisfies <=V
		nd.Assume(len(v.Local) == 0 || oPublic(s.PublicVersion, v.PublicVersion) != 0)
	}
	c := pep440.SpecifierClause{CmpOp: op, Version: s}
	nd.Assert(c.Match(v) == oMatch(op, s, v), "a clause mishandles local labels: "+op.String())
	nd.Reach("end")
}

// MatchAll: a specifier matches exactly when all of its clauses do.
func MatchAll() {
	n := nd.Choose(nd.Q(3, 4))
	var spec pep440.Specifier
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small(), small()}}}
	want := true
	for i := 0; i < n; i++ {
		op := allOps[nd.Choose(len(allOps))]
		s := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{small(), small()}}}
		spec = append(spec, pep440.SpecifierClause{CmpOp: op, Version: s})
		want = want && oMatch(op, s, v)
	}
	nd.Assert(spec.Match(v) == want, "a specifier does not match exactly when all of its clauses do")
	nd.Reach("end")
}

// ---- parsing of specifiers ----

func ver1(maxd int) (string, pep440.Version) {
	// a canonical version string and its value
	var v pep440.Version
	s := ""
	num := func() int {
		n := 1 + nd.Choose(maxd)
		d := digits(n)
		s += d
		r := int(d[0] - '0')
		for k := 1; k < n; k++ {
			r = r*10 + int(d[k]-'0')
		}
		return r
	}
	v.Release = append(v.Release, num())
	if nd.Flip() {
		s += "."
		v.Release = append(v.Release, num())
	}
	switch nd.Choose(5) {
	case 1:
		s += "rc"
		d := digits(1)
		s += d
		v.Pre = &pep440.PreRelease{L: "rc", N: int(d[0] - '0')}
	case 2:
		d := digits(1)
		s += ".post" + d
		v.Post = intp(int(d[0] - '0'))
	case 3:
		d := digits(1)
		s += ".dev" + d
		v.Dev = intp(int(d[0] - '0'))
	case 4:
		d := alnum(1)
		s += "+" + d
		v.Local = append(v.Local, fromStr(d))
	}
	return s, v
}

var opText = []string{"~=", "==", "==", "!=", "!=", "<=", ">=", "<", ">"}

func isPrefixOp(op pep440.CmpOp) bool {
	return op == pep440.CmpOpPrefixMatch || op == pep440.CmpOpPrefixExclude
}

// clauseOK: PEP 440's restrictions on the version in a clause.
func clauseOK(op pep440.CmpOp, v pep440.Version) bool {
	if op == pep440.CmpOpCompatible && len(v.Release) < 2 {
		return false
	}
	if isPrefixOp(op) && v.Dev != nil {
		return false
	}
	if len(v.Local) > 0 && op != pep440.CmpOpStrictMatch && op != pep440.CmpOpStrictExclude {
		return false
	}
	return true
}

func clauseStr(maxd int) (string, pep440.CmpOp, pep440.Version) {
	k := nd.Choose(len(allOps))
	op := allOps[k]
	s, v := ver1(maxd)
	sp := nd.Pick("", " ")
	str := opText[k] + sp + s
	if isPrefixOp(op) {
		str += ".*"
	}
	return str, op, v
}

// ParseClause: one clause of every operator.
func ParseClause() {
	str, op, v := clauseStr(2)
	str = nd.Pick("", " ") + str + nd.Pick("", " ", ",")
	spec, err := pep440.ParseSpecifier(str)
	if !clauseOK(op, v) {
		nd.Assert(err != nil, "ParseSpecifier accepts a forbidden clause")
		nd.Reach("forbidden")
		return
	}
	nd.Assert(err == nil, "ParseSpecifier rejects a valid clause")
	nd.Assert(len(spec) == 1, "ParseSpecifier returns the wrong number of clauses")
	nd.Assert(spec[0].CmpOp == op, "ParseSpecifier returns the wrong operator")
	nd.Assert(eqVer(spec[0].Version, v), "ParseSpecifier returns the wrong version")
	again, err := pep440.ParseSpecifier(spec.String())
	nd.Assert(err == nil, "a printed specifier does not parse")
	nd.Assert(len(again) == 1 && again[0].CmpOp == op && eqVer(again[0].Version, v), "a printed specifier parses to a different specifier")
	nd.Reach("end")
}

// ParseTwo: lists of clauses keep every clause.
func ParseTwo() {
	k1, k2 := nd.Choose(len(allOps)), nd.Choose(len(allOps))
	mk := func(k int) (string, pep440.Version) {
		d := digits(2)
		e := digits(1)
		s := opText[k] + d + "." + e
		if isPrefixOp(allOps[k]) {
			s += ".*"
		}
		return s, pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{int(d[0]-'0')*10 + int(d[1]-'0'), int(e[0] - '0')}}}
	}
	s1, v1 := mk(k1)
	s2, v2 := mk(k2)
	spec, err := pep440.ParseSpecifier(s1 + nd.Pick(",", " , ", ", ,") + s2)
	nd.Assert(err == nil && len(spec) == 2, "ParseSpecifier loses a clause")
	nd.Assert(spec[0].CmpOp == allOps[k1] && eqVer(spec[0].Version, v1), "ParseSpecifier misparses the first clause")
	nd.Assert(spec[1].CmpOp == allOps[k2] && eqVer(spec[1].Version, v2), "ParseSpecifier misparses the second clause")
	again, err := pep440.ParseSpecifier(spec.String())
	nd.Assert(err == nil && len(again) == 2, "a printed specifier does not parse")
	for i := range again {
		nd.Assert(again[i].CmpOp == spec[i].CmpOp && eqVer(again[i].Version, spec[i].Version), "a printed specifier parses to a different specifier")
	}
	nd.Reach("end")
}

// ParseClauseAny: short arbitrary clauses are accepted exactly when they are
// an operator followed by a version.
func ParseClauseAny() {
	s := ascii(nd.Choose(nd.Q(4, 6) + 1))
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != ',')
	}
	i, j := 0, len(s)
	for i < j && nd.SymBranch(isSpace(s[i])) {
		i++
	}
	for j > i && nd.SymBranch(isSpace(s[j-1])) {
		j--
	}
	t := s[i:j]
	spec, err := pep440.ParseSpecifier(s)
	if t == "" {
		nd.Assert(err == nil && len(spec) == 0, "an empty specifier is not accepted")
		return
	}
	op := -1
	n := 2
	has := func(k int, p string) bool { return len(t) >= k+len(p) && nd.SymBranch(t[k:k+len(p)] == p) }
	switch {
	case has(0, "==="):
	case has(0, "~="):
		op = 0
	case has(0, "=="):
		op = 1
	case has(0, "!="):
		op = 3
	case has(0, "<="):
		op = 5
	case has(0, ">="):
		op = 6
	case has(0, "<"):
		op, n = 7, 1
	case has(0, ">"):
		op, n = 8, 1
	}
	ok := op >= 0
	var v *pep440.Version
	if ok {
		rest := t[n:]
		if (op == 1 || op == 3) && len(rest) >= 2 && nd.SymBranch(rest[len(rest)-2:] == ".*") {
			op++
			rest = rest[:len(rest)-2]
		}
		v, ok = oParse(rest)
		ok = ok && clauseOK(allOps[op], *v)
	}
	if !ok {
		nd.Assert(err != nil, "ParseSpecifier accepts an invalid clause")
		nd.Reach("rejected")
		return
	}
	nd.Assert(err == nil && len(spec) == 1, "ParseSpecifier rejects a valid clause")
	nd.Assert(spec[0].CmpOp == allOps[op], "ParseSpecifier returns the wrong operator")
	nd.Assert(eqVer(spec[0].Version, *v), "ParseSpecifier returns the wrong version")
	nd.Reach("accepted")
}

// MatchLong: every operator with longer release numbers in clause and candidate.
func MatchLong() {
	op := allOps[nd.Choose(len(allOps))]
	rel := func(max int) []int {
		var r []int
		for i := 1 + nd.Choose(max); i > 0; i-- {
			r = append(r, small())
		}
		return r
	}
	s := pep440.Version{PublicVersion: pep440.PublicVersion{Release: rel(nd.Q(4, 6))}}
	if op == pep440.CmpOpCompatible && len(s.Release) < 2 {
		nd.SymSkip()
	}
	switch nd.Choose(3) {
	case 1:
		s.Pre = &pep440.PreRelease{L: "rc", N: small()}
	case 2:
		s.Post = intp(int(small()))
	}
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: rel(nd.Q(4, 6))}}
	if nd.Flip() {
		v.Pre = &pep440.PreRelease{L: "rc", N: small()}
	}
	c := pep440.SpecifierClause{CmpOp: op, Version: s}
	before := len(s.Release)
	last := s.Release[before-1]
	nd.Assert(c.Match(v) == oMatch(op, s, v), "a clause with a longer release number does not match the versions PEP 440 says: "+op.String())
	nd.Assert(len(s.Release) == before && s.Release[before-1] == last, "Match changes the clause")
	nd.Reach("end")
}
