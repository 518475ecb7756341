// Package imgh checks image level helpers.
package imgh

import (
	"os"
	"time"

	"github.com/datawire/ocibuild/pkg/reproducible"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// epoch reads an integer by hand.
func epoch(s string) (int64, bool) {
	neg := false
	if len(s) > 0 && nd.SymBranch(s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	v := int64(0)
	for i := 0; i < len(s); i++ {
		if !nd.SymBranch(s[i] >= '0' && s[i] <= '9') {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// Clock: any value of the variable, any clock.
func Clock() {
	const k = "SOURCE_DATE_EPOCH"
	set := true
	var v string
	big := false
	switch nd.Choose(4) {
	case 0:
		set = false
	case 1:
		v = nd.Str(nd.Choose(nd.Q(4, 5)))
		for i := 0; i < len(v); i++ {
			nd.Assume(v[i] != 0)
		}
	case 2:
		v = "17" + nd.From(nd.Q(3, 5), "0123456789") + "00000"
	case 3: // around the largest and smallest
		v = nd.Pick("", "-", "+")
		d := nd.From(2, "0123456789")
		n := int(d[0]-'0')*10 + int(d[1]-'0')
		max := 7
		if v == "-" {
			max = 8
		}
		v += "92233720368547758" + d
		big = n > max
	}
	os.Unsetenv(k)
	if set {
		os.Setenv(k, v)
	}
	e, ok := epoch(v)
	if nd.SymBranch(big) {
		ok = false
	}
	before := time.Now()
	a := reproducible.Now()
	after := time.Now()
	if ok {
		nd.Assert(a.Unix() == e && a.Nanosecond() == 0, "the build time is not SOURCE_DATE_EPOCH")
		nd.Reach("fixed")
	} else {
		nd.Assert(!a.Before(before) && !a.After(after), "the build time is not the time of the first request")
		nd.Reach("clock")
	}
	switch nd.Choose(3) {
	case 1:
		os.Setenv(k, nd.From(2, "0123456789x"))
	case 2:
		os.Unsetenv(k)
	}
	nd.Assert(reproducible.Now().Equal(a), "the build time changes")
	os.Setenv(k, "7")
	nd.Assert(reproducible.Now().Equal(a), "the build time changes")
	nd.Reach("end")
}
