package layh

import (
	"archive/tar"
	"bytes"
	"io"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type raw struct {
	h tar.Header
	b []byte
}

func rawLayer(es []raw) ociv1.Layer {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range es {
		h := e.h
		h.Size = int64(len(e.b))
		if err := w.WriteHeader(&h); err != nil {
			nd.SymSkip()
		}
		if _, err := w.Write(e.b); err != nil {
			nd.SymSkip()
		}
	}
	if w.Close() != nil {
		nd.SymSkip()
	}
	b := buf.Bytes()
	l, err := ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(b)), nil })
	if err != nil {
		nd.SymSkip()
	}
	return l
}

func lower() string {
	c := nd.Byte()
	nd.Assume(c >= 'a' && c <= 'z')
	return string([]byte{c})
}

// genRaw makes an entry with every header field symbolic.
func genRaw(kind byte, nbody int) raw {
	r := raw{h: tar.Header{Typeflag: kind, Name: lower(), Mode: int64(nd.SymU16()), Uid: int(nd.SymU16()), Gid: int(nd.SymU16()), Uname: lower(), Gname: lower()}}
	switch kind {
	case tar.TypeReg:
		r.b = nd.Bytes(nbody)
	case tar.TypeSymlink, tar.TypeLink:
		r.h.Linkname = lower()
	case tar.TypeChar:
		r.h.Devmajor, r.h.Devminor = int64(nd.Byte()), int64(nd.Byte())
	}
	return r
}

func rawEq(a, b raw) bool {
	x, y := a.h, b.h
	return x.Typeflag == y.Typeflag && x.Name == y.Name && x.Mode == y.Mode && x.Uid == y.Uid && x.Gid == y.Gid && x.Uname == y.Uname && x.Gname == y.Gname &&
		x.Linkname == y.Linkname && x.Devmajor == y.Devmajor && x.Devminor == y.Devminor && string(a.b) == string(b.b)
}

func isPAX(h tar.Header) bool {
	return h.Format == tar.FormatPAX && (!h.AccessTime.IsZero() || !h.ChangeTime.IsZero() || h.ModTime.Nanosecond() != 0 || len(h.PAXRecords) > 0)
}

func checkEq(a, b []raw, want bool) {
	got, err := fsutil.LayersEqualExceptTimestamps(rawLayer(a), rawLayer(b))
	nd.Assert(err == nil, "comparing readable layers fails")
	// a timestamp may decide which tar format encodes an entry; that alone is left open
	if len(a) != 1 || len(b) != 1 || isPAX(a[0].h) == isPAX(b[0].h) {
		nd.Assert(got || !want, "equal layers compare unequal")
	}
	nd.Assert(!got || want, "different layers compare equal")
	rev, err := fsutil.LayersEqualExceptTimestamps(rawLayer(b), rawLayer(a))
	nd.Assert(err == nil && rev == got, "layer comparison is not symmetric")
}

var kinds = []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeChar}

// EqOne: two single-entry layers with arbitrary headers and contents.
func EqOne() {
	a := genRaw(kinds[nd.Choose(len(kinds))], nd.Choose(nd.Q(3, 4)))
	b := genRaw(kinds[nd.Choose(len(kinds))], nd.Choose(nd.Q(3, 4)))
	checkEq([]raw{a}, []raw{b}, rawEq(a, b))
	nd.Reach("end")
}

// EqNames: owner and link names that may be empty.
func EqNames() {
	mk := func() raw {
		r := genRaw([]byte{tar.TypeReg, tar.TypeSymlink}[nd.Choose(2)], 1)
		r.h.Mode, r.h.Gid = 0o644, 7
		if nd.Flip() {
			r.h.Uname = ""
		}
		if nd.Flip() {
			r.h.Gname = ""
		}
		return r
	}
	a, b := mk(), mk()
	checkEq([]raw{a}, []raw{b}, rawEq(a, b))
	nd.Reach("end")
}

// EqMany: order and number of entries matter.
func EqMany() {
	mk := func() []raw {
		var r []raw
		n := nd.Choose(nd.Q(3, 4))
		for i := 0; i < n; i++ {
			r = append(r, raw{h: tar.Header{Typeflag: tar.TypeReg, Name: lower(), Mode: 0o644}, b: nd.Bytes(nd.Choose(2))})
		}
		return r
	}
	a, b := mk(), mk()
	want := len(a) == len(b)
	if want {
		for i := range a {
			want = want && rawEq(a[i], b[i])
		}
	}
	checkEq(a, b, want)
	nd.Reach("end")
}

// EqTimes: timestamps of any kind are ignored, in every format.
func EqTimes() {
	tm := func() time.Time {
		switch nd.Choose(3) {
		case 0:
			return time.Time{}
		case 1:
			return time.Unix(1000, 0)
		}
		return time.Unix(2000, 0)
	}
	k := []tar.Format{tar.FormatUnknown, tar.FormatPAX, tar.FormatGNU}[nd.Choose(3)]
	mk := func() raw {
		r := raw{h: tar.Header{Typeflag: tar.TypeReg, Name: lower(), Format: k}, b: nd.Bytes(1)}
		r.h.ModTime = time.Unix(int64(nd.Byte()), 0)
		r.h.AccessTime, r.h.ChangeTime = tm(), tm()
		return r
	}
	a, b := mk(), mk()
	checkEq([]raw{a}, []raw{b}, rawEq(a, b))
	nd.Reach("end")
}

// EqPAX: sub-second modification times and extended attributes.
func EqPAX() {
	mk := func() raw {
		r := raw{h: tar.Header{Typeflag: tar.TypeReg, Name: "f", Format: tar.FormatPAX}, b: nd.Bytes(1)}
		r.h.ModTime = time.Unix(5, []int64{0, 500000000, 7}[nd.Choose(3)])
		if nd.Flip() {
			r.h.PAXRecords = map[string]string{"SCHILY.xattr.user.x": lower()}
		}
		return r
	}
	a, b := mk(), mk()
	want := rawEq(a, b) && len(a.h.PAXRecords) == len(b.h.PAXRecords) && a.h.PAXRecords["SCHILY.xattr.user.x"] == b.h.PAXRecords["SCHILY.xattr.user.x"]
	checkEq([]raw{a}, []raw{b}, want)
	nd.Reach("end")
}

// EqBig: contents longer than one read buffer.
func EqBig() {
	n := 1022 + nd.Choose(nd.Q(4, 5))
	mk := func(n int) raw {
		b := make([]byte, n)
		for _, i := range []int{0, 1021, 1022, 1023, 1024, n - 1} {
			if i < n {
				b[i] = nd.Byte()
			}
		}
		return raw{h: tar.Header{Typeflag: tar.TypeReg, Name: "f"}, b: b}
	}
	a, b := mk(n), mk(n)
	checkEq([]raw{a}, []raw{b}, rawEq(a, b))
	nd.Reach("end")
}
