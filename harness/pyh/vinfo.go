package pyh

import (
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func num() int { return int(nd.SymU32() & 0x7fffffff) }

// VersionInfo: any sys.version_info.
func VersionInfo() {
	level := ""
	switch nd.Choose(3) {
	case 0:
		level = nd.Pick("alpha", "beta", "candidate", "final")
	case 1:
		level = nd.StrUpTo(0, nd.Q(6, 9))
	case 2:
		level = nd.Pick("Alpha", "rc", "finals", "candidat", "a", "dev")
	}
	vi := python.VersionInfo{Major: num(), Minor: num(), Micro: num(), ReleaseLevel: level, Serial: num()}
	v, err := vi.PEP440()
	pre := ""
	final := level == "final"
	if !final {
		switch level {
		case "alpha":
			pre = "a"
		case "beta":
			pre = "b"
		case "candidate":
			pre = "rc"
		default:
			nd.Assert(err != nil, "an unknown release level is accepted")
			nd.Reach("bad level")
			return
		}
	}
	nd.Assert(err == nil && v != nil, "a valid version_info is refused")
	nd.Assert(len(v.Release) == 3 && v.Release[0] == vi.Major && v.Release[1] == vi.Minor && v.Release[2] == vi.Micro, "the release is not major.minor.micro")
	nd.Assert(v.Epoch == 0 && v.Post == nil && v.Dev == nil && len(v.Local) == 0, "the version has parts that version_info does not")
	if final {
		nd.Assert(v.Pre == nil, "a final release counts as a pre-release")
		nd.Reach("final")
		return
	}
	nd.Assert(v.Pre != nil && v.Pre.L == pre, "the pre-release phase is another one")
	nd.Assert(v.Pre.N == vi.Serial, "the pre-release number is not the serial")
	nd.Reach("pre")
}

// PlatformInit: shebang defaults and the scheme's validation.
func PlatformInit() {
	word := func() string { return nd.From(nd.Choose(3), "/a.") }
	p := python.Platform{ConsoleShebang: word(), GraphicalShebang: word()}
	s := [5]string{"/p", "/l", "/h", "/s", "/d"}
	if k := nd.Choose(6); k < 5 {
		s[k] = nd.From(nd.Choose(4), "/a.")
	}
	p.Scheme = python.Scheme{PureLib: s[0], PlatLib: s[1], Headers: s[2], Scripts: s[3], Data: s[4]}
	p.UID, p.UName = 5, "u"
	q := p
	err := p.Init()
	abs := true
	for _, x := range s {
		abs = abs && len(x) > 0 && x[0] == '/'
	}
	if !nd.SymBranch(abs) || q.ConsoleShebang == "" && q.GraphicalShebang == "" {
		nd.Assert(err != nil, "a platform without an interpreter or with a relative install path is accepted")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil, "a valid platform is refused")
	c, g := q.ConsoleShebang, q.GraphicalShebang
	if c == "" {
		c = g
	}
	if g == "" {
		g = c
	}
	nd.Assert(p.ConsoleShebang == c && p.GraphicalShebang == g, "a missing interpreter does not default to the other one, or a given one changes")
	nd.Assert(p.Scheme == q.Scheme && p.UID == 5 && p.UName == "u", "validating a platform changes it")
	nd.Reach("accepted")
}
