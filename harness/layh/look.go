package layh

import (
	"archive/tar"
	"errors"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type lookImage struct {
	ociv1.Image
	cfg *ociv1.ConfigFile
	err error
	ls  []ociv1.Layer
}

func (i *lookImage) ConfigFile() (*ociv1.ConfigFile, error) { return i.cfg, i.err }
func (i *lookImage) Layers() ([]ociv1.Layer, error)         { return i.ls, nil }

func lookFS(ls [][]Ent, env []string, wd string) (*pyinspect.ImageFS, *FS) {
	t := &FS{}
	t.put("", Ent{Kind: implied})
	for _, l := range ls {
		t.Apply(l)
	}
	return &pyinspect.ImageFS{Image: &lookImage{cfg: &ociv1.ConfigFile{Config: ociv1.Config{Env: env, WorkingDir: wd}}, ls: pack(ls)}}, t
}

// exec: the absolute path names something executable that is not a directory.
func (t *FS) exec(p string) bool {
	q := clean(p)
	if q == "" {
		return false
	}
	i := t.stat(q, 0)
	t.odd, t.err = false, false
	return i >= 0 && t.n[i].e.Kind == tar.TypeReg && nd.SymBranch(t.n[i].e.Mode&0o111 != 0)
}

func absIn(wd, p string) string {
	if p != "" && p[0] == '/' {
		return "/" + clean(p)
	}
	return "/" + clean(wd+"/"+p)
}

func splitPath(s string) []string {
	if s == "" {
		return nil
	}
	var r []string
	c := 0
	for i := 0; i < len(s); i++ {
		if nd.SymBranch(s[i] == ':') {
			r = append(r, s[c:i])
			c = i + 1
		}
	}
	return append(r, s[c:])
}

func (t *FS) lookPath(path []string, wd, name string) (string, bool) {
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			p := absIn(wd, name)
			return p, t.exec(p)
		}
	}
	for _, d := range path {
		if p := absIn(wd, d+"/"+name); d != "" && t.exec(p) {
			return p, true
		} else if p := absIn(wd, name); d == "" && t.exec(p) {
			return p, true
		}
	}
	return "", false
}

func lookCheck(sys *pyinspect.ImageFS, t *FS, path []string, wd, name string) {
	want, ok := t.lookPath(path, wd, name)
	got, err := sys.LookPath(name)
	nd.Observe("found", got)
	if !ok {
		nd.Assert(err != nil, "a command is found that the image does not have on its PATH as an executable")
		nd.Reach("none")
		return
	}
	nd.Assert(err == nil, "a command that the image has on its PATH is not found")
	if len(name) > 0 && name[0] == '/' {
		got = "/" + clean(got)
	}
	nd.Assert(got == want, "a command resolves to another file than the first one on the PATH")
	nd.Reach("found")
}

// thing puts something at p.
func thing(p string) []Ent {
	m := int64(0o600 | int(nd.Byte())&0o111)
	switch nd.Choose(7) {
	case 0:
		return nil
	case 1:
		return []Ent{{Name: p, Kind: tar.TypeReg, Mode: m, Body: []byte("x")}}
	case 2:
		return []Ent{{Name: p, Kind: tar.TypeDir, Mode: 0o755}}
	case 3:
		return []Ent{{Name: p, Kind: tar.TypeSymlink, Mode: 0o777, Link: "q"}, {Name: parent(p) + "/q", Kind: tar.TypeReg, Mode: m}}
	case 4:
		return []Ent{{Name: p, Kind: tar.TypeSymlink, Mode: 0o777, Link: "/opt/q"}, {Name: "opt/q", Kind: tar.TypeReg, Mode: m}}
	case 5:
		return []Ent{{Name: p, Kind: tar.TypeSymlink, Mode: 0o777, Link: nd.Pick("nosuch", "p", "..")}}
	}
	return []Ent{{Name: p, Kind: tar.TypeSymlink, Mode: 0o777, Link: "../opt/q"}, {Name: "opt", Kind: tar.TypeSymlink, Mode: 0o777, Link: "o2"}, {Name: "o2/q", Kind: tar.TypeReg, Mode: m}}
}

// LookTree: the image's tree varies.
func LookTree() {
	ls := [][]Ent{append(thing("bin/p"), Ent{Name: "usr/p", Kind: tar.TypeReg, Mode: int64(0o600 | int(nd.Byte())&0o111)})}
	switch nd.Choose(4) {
	case 1:
		ls = append(ls, []Ent{{Name: "bin/.wh.p", Kind: tar.TypeReg}})
	case 2:
		ls = append(ls, []Ent{{Name: "usr/.wh..wh..opq", Kind: tar.TypeReg}})
	case 3:
		ls = append(ls, thing("usr/p"))
	}
	sys, t := lookFS(ls, []string{"PATH=/bin:/usr"}, "")
	lookCheck(sys, t, []string{"/bin", "/usr"}, "", "p")
}

var lookAll = []Ent{
	{Name: "p", Kind: tar.TypeReg, Mode: 0o700},
	{Name: "b/p", Kind: tar.TypeReg, Mode: 0o755},
	{Name: "b/u/p", Kind: tar.TypeReg, Mode: 0o701},
	{Name: "u/p", Kind: tar.TypeReg, Mode: 0o610},
	{Name: "u/b", Kind: tar.TypeReg, Mode: 0o755},
}

// LookPathVar: any PATH.
func LookPathVar() {
	pv := nd.From(nd.Choose(nd.Q(5, 7)), "/:bu.")
	wd := nd.Pick("", "/b", "u", "/nosuch", "./b", ".", "u/")
	sys, t := lookFS([][]Ent{lookAll}, []string{"X=1", "PATH=" + pv, "PATH=/b"}, wd)
	lookCheck(sys, t, splitPath(pv), wd, "p")
}

// LookEnv: any environment entry.
func LookEnv() {
	e := nd.From(nd.Choose(8), "PATHX=/b")
	env := []string{e, "PATH=/u"}
	var path []string
	if nd.Flip() {
		env = env[:1]
	} else {
		path = []string{"/u"}
	}
	if len(e) >= 5 && e[:5] == "PATH=" {
		path = splitPath(e[5:])
	}
	sys, t := lookFS([][]Ent{lookAll}, env, "/b")
	lookCheck(sys, t, path, "/b", "p")
}

// LookName: any name.
func LookName() {
	name := nd.From(nd.Choose(nd.Q(5, 7)), "/bup.")
	if n := len(name); n > 1 && (name[n-1] == '/' || name[n-1] == '.') {
		nd.SymSkip() // a trailing slash asks for a directory
	}
	for i := 0; i+1 < len(name); i++ {
		nd.Assume(!(name[i] == '.' && name[i+1] == '.')) // ".." after a file
	}
	wd := nd.Pick("", "/b", "b/u")
	sys, t := lookFS([][]Ent{lookAll}, []string{"PATH=/u:/b"}, wd)
	lookCheck(sys, t, []string{"/u", "/b"}, wd, name)
}

// LookBroken: an image whose configuration or layers cannot be read.
func LookBroken() {
	i := &lookImage{err: errors.New("broken")}
	if nd.Flip() {
		i.err = nil
		i.ls = pack([][]Ent{lookAll})
		i.cfg = nil
		sys := &pyinspect.ImageFS{Image: i}
		_, err := sys.LookPath("p")
		nd.Assert(err != nil, "a command is found without a PATH")
		r, err := sys.LookPath("/b/p")
		nd.Assert(err == nil && r == "/b/p", "an absolute command is not found")
		nd.Reach("no config")
		return
	}
	sys := &pyinspect.ImageFS{Image: i}
	for k := 0; k < 2; k++ {
		_, err := sys.LookPath(nd.Pick("p", "/b/p"))
		nd.Assert(err != nil, "a command is found in an unreadable image")
	}
}

// Owner: Stat gives the owner of what the path names.
func Owner() {
	e := Ent{Name: "b/f", Kind: tar.TypeReg, Mode: 0o755, UID: int(nd.Byte()), GID: int(nd.Byte()), Uname: nd.From(1, "ab")}
	if nd.Flip() {
		e.Kind = tar.TypeDir
	}
	sys, _ := lookFS([][]Ent{{e, {Name: "l", Kind: tar.TypeSymlink, Mode: 0o777, Link: nd.Pick("b/f", "/b/f", "b/../b/f"), UID: 77}}}, nil, "")
	i, err := sys.Stat(nd.Pick("/b/f", "/l", "/b/./f", "/b//f", "/b/../l"))
	nd.Assert(err == nil, "an existing path cannot be stat'ed")
	nd.Assert(i.UID() == e.UID && i.GID() == e.GID && i.UName() == e.Uname, "a path has another owner than the file it names")
	nd.Assert(i.IsDir() == (e.Kind == tar.TypeDir), "a path has another type than the file it names")
	if _, err := sys.Stat(nd.Pick("b/f", "l", "")); err == nil {
		nd.Assert(false, "a relative path is accepted")
	}
	_, err = sys.Stat(nd.Pick("/nosuch", "/b/g", "/l2"))
	nd.Assert(err != nil, "a missing path can be stat'ed")
	nd.Reach("owner")
}

// Shebangs: which interpreter pair a command gives.
func Shebangs() {
	dir := nd.Pick("/bin/", "/usr/bin/")
	suffix := nd.From(nd.Choose(nd.Q(3, 4)), "3.w")
	stem := nd.Pick("python", "pythonw", "pypy", "perl")
	file := stem + suffix
	isW := len(file) >= 7 && file[:7] == "pythonw"
	isPy := len(file) >= 6 && file[:6] == "python" && !isW
	sib := ""
	if nd.SymBranch(isW) {
		sib = "python" + file[7:]
	} else if nd.SymBranch(isPy) {
		sib = "pythonw" + file[6:]
	}
	l := []Ent{{Name: dir[1:] + file, Kind: tar.TypeReg, Mode: 0o755}}
	haveSib := false
	if sib != "" {
		m := int64(0o644 | int(nd.Byte())&0o111)
		switch nd.Choose(4) {
		case 1:
			l = append(l, Ent{Name: dir[1:] + sib, Kind: tar.TypeReg, Mode: m})
			haveSib = m&0o111 != 0
		case 2:
			l = append(l, Ent{Name: dir[1:] + sib, Kind: tar.TypeDir, Mode: 0o755})
		case 3:
			// elsewhere on the PATH does not count
			l = append(l, Ent{Name: "opt/" + sib, Kind: tar.TypeReg, Mode: 0o755})
		}
	}
	sys, _ := lookFS([][]Ent{l}, []string{"PATH=/sbin:/usr/bin:/bin:/opt"}, "/")
	cmd := file
	if nd.Flip() {
		cmd = dir + file
	}
	console, graphical, err := pyinspect.Shebangs(sys, cmd)
	nd.Assert(err == nil, "an existing interpreter is not found")
	wc, wg := dir+file, dir+file
	if nd.SymBranch(haveSib) {
		if nd.SymBranch(isW) {
			wc = dir + sib
		} else {
			wg = dir + sib
		}
	}
	nd.Assert(console == wc, "the console interpreter is not the command or its sibling without w")
	nd.Assert(graphical == wg, "the graphical interpreter is not the sibling with w or else the command")
	if _, _, err := pyinspect.Shebangs(sys, "nosuch"); err == nil {
		nd.Assert(false, "a missing interpreter is found")
	}
	nd.Reach("pair")
}
