// Package pep345h checks pkg/python/pep345 against an oracle written from PEP 345.
package pep345h

import (
	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/zz_verif/nd"
	p4 "github.com/datawire/ocibuild/zz_verif/pep440h"
)

// startsWith: v is in the series that s names.
func startsWith(s, v pep440.Version) bool {
	if len(s.Local) > 0 || s.Dev != nil {
		return p4.OracleCmp(s, v) == 0
	}
	return p4.OraclePrefix(s.PublicVersion, v.PublicVersion)
}

func oEQ(s, v pep440.Version) bool {
	if !nd.SymBranch(startsWith(s, v)) {
		return false
	}
	switch {
	case s.Dev != nil:
		return true
	case s.Post != nil:
		return v.Dev == nil
	case s.Pre != nil:
		return v.Dev == nil && v.Post == nil
	}
	return v.Dev == nil && v.Post == nil && v.Pre == nil
}

func oMatch(op pep345.CmpOp, s, v pep440.Version) bool {
	c := p4.OracleCmp(v, s)
	switch op {
	case pep345.CmpOpLT:
		return c < 0 && !startsWith(s, v)
	case pep345.CmpOpGT:
		return c > 0
	case pep345.CmpOpLE:
		return c <= 0
	case pep345.CmpOpGE:
		return c >= 0
	case pep345.CmpOpEQ:
		return oEQ(s, v)
	}
	return !oEQ(s, v)
}

// Match: every operator and every pair of versions.
func Match() {
	op := pep345.CmpOp(nd.Choose(6))
	n := nd.Q(2, 3)
	s := pep440.Version{PublicVersion: p4.GenPublic(n)}
	v := pep440.Version{PublicVersion: p4.GenPublic(n)}
	c := pep345.VersionSpecifierClause{CmpOp: op, Version: s}
	nd.Assert(c.Match(v) == oMatch(op, s, v), "a PEP 345 clause matches the wrong versions: "+op.String())
	nd.Reach("end")
}

// MatchLocal: local version labels on either side.
func MatchLocal() {
	op := pep345.CmpOp(nd.Choose(6))
	s := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{nd.Range(0, 99)}}}
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{nd.Range(0, 99)}}}
	v.Local = p4.GenLocal(1, 1)
	if nd.Flip() {
		s.Local = p4.GenLocal(1, 1)
	}
	c := pep345.VersionSpecifierClause{CmpOp: op, Version: s}
	nd.Assert(c.Match(v) == oMatch(op, s, v), "a PEP 345 clause mishandles local labels: "+op.String())
	nd.Reach("end")
}

var ops = []string{"<", ">", "<=", ">=", "==", "!=", ""}
var opv = []pep345.CmpOp{pep345.CmpOpLT, pep345.CmpOpGT, pep345.CmpOpLE, pep345.CmpOpGE, pep345.CmpOpEQ, pep345.CmpOpNE, pep345.CmpOpEQ}

func clause(sp string) (string, pep345.CmpOp, pep440.Version) {
	k := nd.Choose(len(ops))
	d := nd.From(1+nd.Choose(nd.Q(1, 2)), "0123456789")
	e := nd.From(1, "0123456789")
	s := d
	n := 0
	for i := 0; i < len(d); i++ {
		n = n*10 + int(d[i]-'0')
	}
	v := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{n}}}
	if nd.Flip() {
		s += "." + e
		v.Release = append(v.Release, int(e[0]-'0'))
	}
	return ops[k] + sp + s, opv[k], v
}

// Require: a requirement string holds exactly when every comparison in it does.
func Require() {
	have := pep440.Version{PublicVersion: pep440.PublicVersion{Release: []int{nd.Range(0, 99), nd.Range(0, 99)}}}
	switch nd.Choose(3) {
	case 1:
		have.Release = append(have.Release, nd.Range(0, 99))
	case 2:
		x := pep440.PreRelease{L: "b", N: nd.Range(0, 9)}
		have.Pre = &x
	}
	n := nd.Choose(3)
	str, sp := "", ""
	if n > 0 {
		sp = nd.Pick("", " ")
		str = sp
	}
	want := true
	for i := 0; i < n; i++ {
		s, op, v := clause(sp)
		if i > 0 {
			str += "," + sp
		}
		str += s
		want = want && oMatch(op, v, have)
	}
	got, err := pep345.HaveRequiredPython(have, str)
	nd.Assert(err == nil, "HaveRequiredPython rejects a valid requirement")
	nd.Assert(got == want, "HaveRequiredPython gives the wrong answer")
	nd.Reach("end")
}

// Invalid: a requirement with a clause that is not an optional operator and a
// version is an error.
func Invalid() {
	b := make([]byte, nd.Choose(nd.Q(4, 5)+1))
	for i := range b {
		b[i] = nd.Byte()
		nd.Assume(b[i] < 0x80 && b[i] != ',' && b[i] != '\v')
	}
	s := string(b)
	if s == "" {
		return
	}
	i := 0
	for i < len(s) && nd.SymBranch(s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' || s[i] == '\f') {
		i++
	}
	t := s[i:]
	two := len(t) >= 2 && nd.SymBranch((t[0] == '<' || t[0] == '>' || t[0] == '=' || t[0] == '!') && t[1] == '=')
	if two {
		t = t[2:]
	} else if len(t) >= 1 && nd.SymBranch(t[0] == '<' || t[0] == '>') {
		t = t[1:]
	}
	_, ok := p4.OracleParse(t)
	_, err := pep345.ParseVersionSpecifier(s)
	nd.Assert((err == nil) == ok, "ParseVersionSpecifier accepts exactly the wrong strings")
	nd.Reach("end")
}
