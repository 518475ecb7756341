package layh

import (
	"archive/tar"
	"io/fs"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// hostileCheck squashes and loads; any outcome is fine as long as there is one
// and nothing in it leaves the root.
func hostileCheck(ls [][]Ent, probe string) {
	lay := pack(ls)
	out, err := squash.Squash(lay)
	if err == nil {
		for _, e := range RdLayer(out) {
			p := e.Name
			nd.Assert(p != "" && p[0] != '/', "the output contains an absolute path")
			for _, c := range splitAll(p) {
				nd.Assert(c != "..", "the output contains a path that climbs out with ..")
			}
		}
		nd.Reach("squashed")
	} else {
		nd.Reach("refused")
	}
	v, err := squash.Load(lay, false)
	if err == nil {
		f, err := v.Open(probe)
		if err == nil {
			if d, ok := f.(fs.ReadDirFile); ok {
				_, _ = d.ReadDir(-1)
			}
			_, _ = f.Stat()
			_ = f.Close()
			nd.Reach("opened")
		}
	}
}

// Names: any entry name over '/', '.' and a letter.
func Names() {
	n := nd.From(1+nd.Choose(nd.Q(6, 7)), "/.a")
	e := Ent{Name: n, Kind: nd.Pick("0", "5", "2")[0], Link: "b"}
	if e.Kind == tar.TypeReg {
		e.Body = []byte{nd.Byte()}
	}
	hostileCheck([][]Ent{{e}}, "a")
	nd.Reach("end")
}

// Links: a symlink with any target, and entries and look-ups through it.
func Links() {
	l := Ent{Name: "a", Kind: tar.TypeSymlink, Link: nd.From(1+nd.Choose(nd.Q(4, 6)), "/.ab")}
	f := Ent{Name: nd.Pick("a/b", "a/a", "b/a"), Kind: tar.TypeReg}
	switch nd.Choose(3) {
	case 0:
		hostileCheck([][]Ent{{l, f}}, nd.Pick("a", "a/b"))
	case 1:
		hostileCheck([][]Ent{{l}}, nd.Pick("a", "a/b", "b"))
	case 2:
		l2 := Ent{Name: nd.Pick("b", "a/b"), Kind: tar.TypeSymlink, Link: nd.From(1+nd.Choose(3), "/.ab")}
		hostileCheck([][]Ent{{l}, {l2, f}}, nd.Pick("a", "a/b"))
	}
	nd.Reach("end")
}
