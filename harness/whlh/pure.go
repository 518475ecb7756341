package whlh

import (
	"bytes"
	"context"
	"os"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// PureInstall: installing leaves the platform, the hooks, the recorded origin
// and the wheel alone, so that doing it again gives the same layer.
func PureInstall() {
	p := plat()
	p.UID, p.GID = int(nd.Byte()), int(nd.Byte())
	p.Scheme.PureLib = nd.Pick("/lib/pure", "/lib//pure/", "/bin")
	magic := append(make([]byte, 0, 6), nd.Bytes(2)...)
	magic = append(magic, 7, 8)
	p.MagicNumber = magic[:2]
	tags := append(make(pep425.Installer, 0, 3), pep425.Tag{Python: nd.From(1, "aB"), ABI: "x", Platform: "y"}, pep425.Tag{Python: "z"})
	p.Tags = tags[:1]
	vi := &python.VersionInfo{Major: 3, Minor: int(nd.Byte()), ReleaseLevel: "final"}
	p.VersionInfo = vi
	minor, m0, m1, t0 := vi.Minor, magic[0], magic[1], tags[0]
	was := p

	u := &direct_url.DirectURL{URL: "U" + nd.From(1, "a&/")}
	vcs, arc, di := &direct_url.VCSInfo{VCS: "Git", CommitID: nd.From(1, "aB"), RequestedRevision: "R "}, &direct_url.ArchiveInfo{Hash: nd.From(2, "aB=/")}, &direct_url.DirInfo{Editable: nd.Flip()}
	switch nd.Choose(4) {
	case 1:
		u.VCSInfo = vcs
	case 2:
		u.ArchiveInfo = arc
	case 3:
		u.DirInfo = di
	default:
		u = nil
	}
	vcsWas, arcWas, diWas := *vcs, *arc, *di
	var uWas direct_url.DirectURL
	if u != nil {
		uWas = *u
	}
	ran := 0
	none := func(ctx context.Context, clamp time.Time, vfs map[string]fsutil.FileReference, d string) error {
		ran++
		return nil
	}
	hooks := append(make([]bdist.PostInstallHook, 0, 4), entry_points.CreateScripts(p), none, recording_installs.Record("sha256", "i", u), none)
	hook := bdist.PostInstallHooks(hooks[:3]...)

	es := []zent{wheelFile(nd.Pick("true", "false")), zfile("f.py", nd.Bytes(1)), zfile("p-1.data/scripts/s", []byte("#!python\nx")), zfile(info+"/entry_points.txt", []byte("[console_scripts]\nt = f:g\n"))}
	es = append(es, record(es))
	dir, err := os.MkdirTemp("", "verif-whl")
	try(err)
	defer os.RemoveAll(dir)
	whl := pack(dir, es)
	before, err := os.ReadFile(whl)
	try(err)
	min, max := time.Unix(50, 0), time.Unix(100, 0)
	l, err := bdist.InstallWheel(context.Background(), p, min, max, whl, hook)
	nd.Assert(err == nil, "installing fails")
	first := read(l)
	check := func() {
		p.PyCompile, was.PyCompile = nil, nil
		nd.Assert(p.ConsoleShebang == was.ConsoleShebang && p.GraphicalShebang == was.GraphicalShebang && p.Scheme == was.Scheme && p.UID == was.UID && p.GID == was.GID && p.UName == was.UName && p.GName == was.GName && len(p.Tags) == 1 && len(p.MagicNumber) == 2 && p.VersionInfo == vi, "installing changes the platform")
		nd.Assert(*vi == python.VersionInfo{Major: 3, Minor: minor, ReleaseLevel: "final"}, "installing changes the interpreter's version")
		nd.Assert(magic[0] == m0 && magic[1] == m1 && magic[2] == 7 && magic[3] == 8, "installing changes the magic number")
		nd.Assert(tags[0] == t0 && tags[1].Python == "z", "installing changes the platform's tags")
		nd.Assert(*vcs == vcsWas && *arc == arcWas && *di == diWas && (u == nil || *u == uWas), "installing changes the recorded origin")
		p.PyCompile = compile
	}
	check()
	nd.Assert(ran == 1, "another hook runs than the given ones")
	l, err = bdist.InstallWheel(context.Background(), p, min, max, whl, hook)
	nd.Assert(err == nil, "installing again fails")
	second := read(l)
	check()
	nd.Assert(len(first) == len(second), "installing again gives other files")
	for i := range first {
		a, b := first[i], second[i]
		nd.Assert(a.name == b.name && a.h.Typeflag == b.h.Typeflag && a.h.Linkname == b.h.Linkname, "installing again gives other files")
		nd.Assert(a.h.Mode == b.h.Mode && a.h.Uid == b.h.Uid && a.h.Gid == b.h.Gid && a.h.Uname == b.h.Uname && a.h.Gname == b.h.Gname && a.h.ModTime.Equal(b.h.ModTime), "installing again gives other metadata")
		nd.Assert(bytes.Equal(a.body, b.body), "installing again gives other contents")
	}
	after, err := os.ReadFile(whl)
	nd.Assert(err == nil && bytes.Equal(before, after), "installing changes the wheel")
	nd.Reach("end")
}
