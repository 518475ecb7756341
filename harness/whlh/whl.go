// Package whlh checks wheel installation.
package whlh

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"io"
	"os"
	"path"
	"strconv"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

const (
	info = "d-1.dist-info"
	data = "d-1.data"
)

// zent is one archive entry.
type zent struct {
	name    string
	body    []byte
	creator uint16 // host system: 0 FAT, 3 Unix, 10 NTFS
	attrs   uint32
	tm      int64
	corrupt bool // the content does not have the checksum the archive states
}

func zfile(name string, body []byte) zent {
	return zent{name: name, body: body, creator: 3, attrs: 0o100644 << 16, tm: 1000000000}
}

func wheelFile(pure string) zent {
	return zfile(info+"/WHEEL", []byte("Wheel-Version: 1.0\nRoot-Is-Purelib: "+pure+"\n"))
}

func recHash(alg string, body []byte) string {
	return alg + "=" + base64.RawURLEncoding.EncodeToString(nd.Hash(alg, body))
}

func recRow(name string, body []byte) string {
	return name + "," + recHash("sha256", body) + "," + strconv.Itoa(len(body)) + "\n"
}

// record lists every file correctly.
func record(es []zent) zent {
	s := ""
	for _, e := range es {
		if !strings.HasSuffix(e.name, "/") {
			s += recRow(e.name, e.body)
		}
	}
	s += info + "/RECORD,,\n"
	return zfile(info+"/RECORD", []byte(s))
}

func try(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

// pack writes the archive to a scratch file.
func pack(dir string, es []zent) string {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, e := range es {
		h := &zip.FileHeader{Name: e.name, Method: zip.Store, CreatorVersion: e.creator << 8, ExternalAttrs: e.attrs}
		h.Modified = time.Unix(e.tm, 0)
		create := w.CreateHeader
		if e.corrupt {
			create = w.CreateRaw
			h.CRC32 = 0x12345678
			h.UncompressedSize64, h.CompressedSize64 = uint64(len(e.body)), uint64(len(e.body))
		}
		f, err := create(h)
		try(err)
		if len(e.body) > 0 {
			_, err = f.Write(e.body)
			try(err)
		}
	}
	try(w.Close())
	fn := path.Join(dir, "d-1-py3-none-any.whl")
	try(os.WriteFile(fn, buf.Bytes(), 0o600))
	return fn
}

func plat() python.Platform {
	return python.Platform{
		ConsoleShebang: "/usr/bin/py", GraphicalShebang: "/usr/bin/pyw",
		Scheme: python.Scheme{PureLib: "/lib/pure", PlatLib: "/lib/plat", Headers: "/inc", Scripts: "/bin", Data: "/usr"},
		UID:    11, GID: 12, UName: "u", GName: "g",
		PyCompile: compile,
	}
}

// compile stands in for the external compiler: each a.py gives a.pyc.
func compile(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
	var r []fsutil.FileReference
	for _, f := range in {
		n := f.FullName() + "c"
		b := []byte("compiled")
		r = append(r, &fsutil.InMemFileReference{FileInfo: (&tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: int64(len(b)), ModTime: clamp}).FileInfo(), MFullName: n, MContent: b})
	}
	return r, nil
}

type req struct {
	plat     python.Platform
	min, max time.Time
	hook     bdist.PostInstallHook
	es       []zent
}

func install(r req) (ociv1.Layer, error) {
	dir, err := os.MkdirTemp("", "verif-whl")
	try(err)
	defer os.RemoveAll(dir)
	return bdist.InstallWheel(context.Background(), r.plat, r.min, r.max, pack(dir, r.es), r.hook)
}

// out is one entry of the resulting layer.
type out struct {
	h    *tar.Header
	name string
	body []byte
}

func read(l ociv1.Layer) []out {
	var r []out
	rd, err := l.Uncompressed()
	nd.Assert(err == nil, "the layer cannot be read")
	t := tar.NewReader(rd)
	for {
		h, err := t.Next()
		if err != nil {
			nd.Assert(errors.Is(err, io.EOF), "the layer is not a readable tar")
			break
		}
		b, err := io.ReadAll(t)
		nd.Assert(err == nil, "the layer is not a readable tar")
		nd.Assert(h.Size == int64(len(b)), "an entry's size is not its length")
		r = append(r, out{h, strings.TrimSuffix(h.Name, "/"), b})
	}
	return r
}

func find(os []out, name string) int {
	for i := range os {
		if os[i].name == name {
			return i
		}
	}
	return -1
}

func count(os []out, name string) int {
	n := 0
	for i := range os {
		if os[i].name == name {
			n++
		}
	}
	return n
}

func dump(os []out) string {
	s := ""
	for _, o := range os {
		s += string([]byte{o.h.Typeflag}) + o.name + ";"
	}
	return s
}

// within tells whether p is strictly below dir.
func within(dir, p string) bool {
	return len(p) > len(dir)+1 && p[:len(dir)+1] == dir+"/"
}
