package layh

import (
	"archive/tar"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

const (
	kFile = iota
	kDir
	kLink
	kHard
)

// hfile is a file to put in the scratch directory.
type hfile struct {
	name string // relative to the directory
	kind int
	mode fs.FileMode
	uid  int
	gid  int
	tm   int64
	body []byte
	link string // symlink target, or name of the hard link's target
	of   *hfile
}

func try(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

func mkTree(root string, hs []*hfile) {
	for _, h := range hs {
		p := path.Join(root, h.name)
		switch h.kind {
		case kFile:
			try(os.WriteFile(p, h.body, 0o600))
		case kDir:
			try(os.Mkdir(p, 0o700))
		case kLink:
			try(os.Symlink(h.link, p))
		case kHard:
			try(os.Link(path.Join(root, h.link), p))
		}
	}
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		p := path.Join(root, h.name)
		if h.kind == kHard {
			continue
		}
		try(os.Lchown(p, h.uid, h.gid))
		if h.kind != kLink {
			try(os.Chmod(p, h.mode))
			try(os.Chtimes(p, time.Unix(h.tm, 0), time.Unix(h.tm, 0)))
		}
	}
}

func hmode(special bool) fs.FileMode {
	perm := nd.SymU16()
	nd.Assume(perm <= 0o777)
	m := fs.FileMode(perm)
	if special {
		switch nd.Choose(4) {
		case 1:
			m |= fs.ModeSetuid
		case 2:
			m |= fs.ModeSetgid
		case 3:
			m |= fs.ModeSticky | fs.ModeSetgid
		}
	}
	return m
}

type dirRun struct {
	hs     []*hfile
	prefix *dir.Prefix
	chown  *dir.Ownership
	clamp  int64
}

// check makes the layer and compares it with the directory.
func (r *dirRun) check() {
	root, err := os.MkdirTemp("", "verif-dir")
	try(err)
	defer os.RemoveAll(root)
	mkTree(root, r.hs)
	var pre dir.Prefix
	if r.prefix != nil {
		pre = *r.prefix
	}
	l, err := dir.LayerFromDir(root, r.prefix, r.chown, time.Unix(r.clamp, 0))
	nd.Assert(err == nil, "making a layer from a readable directory fails")
	rd, err := l.Uncompressed()
	nd.Assert(err == nil, "the layer cannot be read")
	t := tar.NewReader(rd)
	var hdrs []*tar.Header
	var bodies [][]byte
	for {
		h, err := t.Next()
		if err != nil {
			nd.Assert(errors.Is(err, io.EOF), "the layer is not a readable tar")
			break
		}
		b, err := io.ReadAll(t)
		nd.Assert(err == nil, "the layer is not a readable tar")
		nd.Assert(h.ModTime.Unix() <= r.clamp && !h.AccessTime.After(time.Unix(r.clamp, 0)) && !h.ChangeTime.After(time.Unix(r.clamp, 0)), "a timestamp is later than the clamp time")
		for _, o := range hdrs {
			nd.Assert(path.Clean(o.Name) != path.Clean(h.Name), "a path is in the layer twice")
			nd.Assert(!under(path.Clean(h.Name), path.Clean(o.Name)), "an entry precedes its parent")
		}
		hdrs = append(hdrs, h)
		bodies = append(bodies, b)
	}
	npre := 0
	if r.prefix != nil {
		want := int64(pre.Mode)
		if want == 0 {
			want = 0o755
		}
		for d := pre.DirName; d != "."; d = path.Dir(d) {
			npre++
			i := findHdr(hdrs, d)
			nd.Assert(i >= 0, "a prefix directory is missing")
			h := hdrs[i]
			nd.Assert(h.Typeflag == tar.TypeDir && h.Mode == want, "a prefix directory has another type or mode")
			nd.Assert(h.Uid == pre.UID && h.Gid == pre.GID && h.Uname == pre.UName && h.Gname == pre.GName, "a prefix directory has another owner")
		}
	}
	nd.Assert(len(hdrs) == npre+len(r.hs), "the layer has extra or missing entries")
	seen := map[*hfile]*hfile{}
	for _, f := range r.hs {
		name := f.name
		if r.prefix != nil {
			name = path.Join(pre.DirName, name)
		}
		i := findHdr(hdrs, name)
		nd.Assert(i >= 0, "a file is missing from the layer")
		h, b := hdrs[i], bodies[i]
		src := f
		if f.kind == kHard {
			src = f.of
		}
		// a hard link stands for the entry it points at, which must precede it
		if h.Typeflag == tar.TypeLink {
			j := findHdr(hdrs, h.Linkname)
			nd.Assert(j >= 0 && j < i, "a hard link points at nothing that precedes it")
			ok := false
			for _, g := range r.hs {
				gs := g
				if g.kind == kHard {
					gs = g.of
				}
				gn := g.name
				if r.prefix != nil {
					gn = path.Join(pre.DirName, gn)
				}
				if gs == src && path.Clean(hdrs[j].Name) == gn {
					ok = true
				}
			}
			nd.Assert(ok, "a hard link points at another file")
			for hdrs[j].Typeflag == tar.TypeLink {
				k := findHdr(hdrs, hdrs[j].Linkname)
				nd.Assert(k >= 0 && k < j, "a hard link points at nothing that precedes it")
				j = k
			}
			h, b = hdrs[j], bodies[j]
		}
		if hdrs[i].Typeflag != tar.TypeLink {
			nd.Assert(seen[src] == nil, "two names of one file become separate files")
			seen[src] = f
		}
		uid, gid := src.uid, src.gid
		if r.chown != nil && r.chown.UID >= 0 {
			uid = r.chown.UID
		}
		if r.chown != nil && r.chown.GID >= 0 {
			gid = r.chown.GID
		}
		nd.Assert(h.Uid == uid && h.Gid == gid && hdrs[i].Uid == uid && hdrs[i].Gid == gid, "an entry does not have the requested owner")
		if r.chown != nil && r.chown.UName != "" {
			nd.Assert(h.Uname == r.chown.UName && hdrs[i].Uname == r.chown.UName, "an entry does not have the requested user name")
		}
		if r.chown != nil && r.chown.GName != "" {
			nd.Assert(h.Gname == r.chown.GName && hdrs[i].Gname == r.chown.GName, "an entry does not have the requested group name")
		}
		switch src.kind {
		case kFile:
			nd.Assert(h.Typeflag == tar.TypeReg && string(b) == string(src.body), "a file's content is not recorded")
		case kDir:
			nd.Assert(h.Typeflag == tar.TypeDir, "a directory is not recorded as one")
		case kLink:
			nd.Assert(h.Typeflag == tar.TypeSymlink && h.Linkname == src.link, "a symlink is not recorded with its target")
		}
		if src.kind != kLink {
			nd.Assert(h.FileInfo().Mode().Perm() == src.mode.Perm() && h.FileInfo().Mode()&(fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) == src.mode&^fs.ModePerm, "a mode is not recorded")
			want := src.tm
			if want > r.clamp {
				want = r.clamp
			}
			nd.Assert(h.ModTime.Unix() == want, "a modification time is not the earlier of the file's and the clamp time")
		}
	}
}

func findHdr(hs []*tar.Header, name string) int {
	for i, h := range hs {
		if path.Clean(h.Name) == name {
			return i
		}
	}
	return -1
}

func genH(name string, kind int, special bool) *hfile {
	h := &hfile{name: name, kind: kind, uid: 50000 + int(nd.Byte()), gid: 50000 + int(nd.Byte()), tm: int64(nd.SymU16())}
	switch kind {
	case kFile:
		h.mode = hmode(special)
		h.body = nd.Bytes(nd.Choose(3))
	case kDir:
		h.mode = hmode(special)
	case kLink:
		h.link = nd.Pick("x", "a", "../a")
	}
	return h
}

// DirMeta: one file of any type, with every prefix, ownership and clamp setting.
func DirMeta() {
	r := &dirRun{clamp: int64(nd.SymU16())}
	focus := nd.Choose(3)
	r.hs = []*hfile{genH("f", nd.Choose(3), focus == 0)}
	own := func() dir.Ownership {
		return dir.Ownership{UID: int(nd.SymU16()), GID: int(nd.SymU16()), UName: lower(), GName: lower()}
	}
	if focus == 1 {
		r.prefix = &dir.Prefix{DirName: nd.Pick("p", "p/q", "p/q/r", "f"), Mode: int(nd.SymU16() & 0o7777), Ownership: own()}
		if nd.Flip() {
			r.prefix.Mode = 0
		}
	}
	if focus != 0 && nd.Flip() {
		o := own()
		switch nd.Choose(4) {
		case 1:
			o.UID, o.UName = -1, ""
		case 2:
			o.GID, o.GName = -1, ""
		case 3:
			o.UName, o.GName = "", ""
		}
		r.chown = &o
	}
	r.check()
	nd.Reach("end")
}

// DirTree: several files, nested, with symlinks and hard links.
func DirTree() {
	r := &dirRun{clamp: 30000}
	n := 1 + nd.Choose(nd.Q(4, 5))
	dirs := []string{""}
	var regs []*hfile // files and symlinks
	for i := 0; i < n; i++ {
		name := path.Join(dirs[nd.Choose(len(dirs))], nd.From(1, "a-b"))
		kind := nd.Choose(4)
		if kind == kHard && len(regs) == 0 {
			kind = kFile
		}
		h := &hfile{name: name, kind: kind, mode: 0o644, uid: 50001, gid: 50002, tm: 20000}
		switch kind {
		case kFile:
			h.body = nd.Bytes(1)
			regs = append(regs, h)
		case kDir:
			h.mode = 0o755
			dirs = append(dirs, name)
		case kLink:
			h.link = nd.From(1, "ab")
			regs = append(regs, h)
		case kHard:
			h.of = regs[nd.Choose(len(regs))]
			h.link = h.of.name
		}
		for _, g := range r.hs {
			nd.Assume(g.name != h.name)
		}
		r.hs = append(r.hs, h)
	}
	if (n < 4 || nd.SymThorough()) && nd.Flip() {
		r.prefix = &dir.Prefix{DirName: "a/b"}
		r.chown = &dir.Ownership{UID: 3, GID: 4, UName: "u", GName: "g"}
	}
	r.check()
	nd.Reach("end")
}

// DirNames: a file with any name, beside another one.
func DirNames() {
	r := &dirRun{clamp: 30000}
	n := 1 + nd.Choose(nd.Q(4, 5))
	name := nd.Str(n)
	for i := 0; i < n; i++ {
		nd.Assume(name[i] != 0 && name[i] != '/')
	}
	nd.Assume(name != "." && name != ".." && name != "o")
	k := nd.Choose(3)
	h := &hfile{name: name, kind: k, mode: 0o644, uid: 50001, gid: 50002, tm: 20000, link: "o"}
	r.hs = []*hfile{h}
	switch k {
	case kFile:
		h.body = nd.Bytes(1)
	case kDir:
		h.mode = 0o755
		r.hs = append(r.hs, &hfile{name: path.Join(name, "f"), kind: kFile, mode: 0o600, uid: 50001, gid: 50002, tm: 20000})
	}
	r.hs = append(r.hs, &hfile{name: "o", kind: kFile, mode: 0o600, uid: 50001, gid: 50002, tm: 20000})
	if nd.Flip() {
		r.prefix = &dir.Prefix{DirName: "p"}
	}
	r.check()
	nd.Reach("end")
}

// DirLong: paths on both sides of the lengths the tar formats have fields for.
func DirLong() {
	r := &dirRun{clamp: 30000}
	n := []int{98, 99, 100, 101, 154, 155, 156, 250, 255}[nd.Choose(9)]
	name := make([]byte, n)
	for i := range name {
		name[i] = 'a'
	}
	name[n-1] = nd.From(1, "xy")[0]
	dup := append([]byte(nil), name...)
	dup[n-1] = nd.From(1, "xy")[0]
	nd.Assume(dup[n-1] != name[n-1])
	r.hs = []*hfile{
		{name: string(name), kind: kDir, mode: 0o755, uid: 50001, gid: 50002, tm: 20000},
		{name: string(name) + "/" + string(name), kind: kFile, mode: 0o644, uid: 50001, gid: 50002, tm: 20000, body: nd.Bytes(1)},
		{name: string(dup), kind: kLink, link: string(name), mode: 0o644, uid: 50001, gid: 50002, tm: 20000},
	}
	if nd.Flip() {
		h := &hfile{name: "z", kind: kHard, of: r.hs[1], link: r.hs[1].name}
		r.hs = append(r.hs, h)
	}
	r.check()
	nd.Reach("end")
}

// DirMissing: a directory that cannot be read is an error.
func DirMissing() {
	root, err := os.MkdirTemp("", "verif-dir")
	try(err)
	defer os.RemoveAll(root)
	_, err = dir.LayerFromDir(path.Join(root, "missing"), nil, nil, time.Unix(0, 0))
	nd.Assert(err != nil, "a directory that does not exist yields a layer")
	nd.Reach("end")
}
