package whlh

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var errIO = errors.New("input/output error")

// ioErr is what a failing read or open reports.
func ioErr() error {
	switch nd.Choose(4) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist}
	case 3:
		return fs.ErrPermission
	}
	return errIO
}

// source is a file that may be unreadable, and counts its readers.
type source struct {
	fs.FileInfo
	name           string
	body           []byte
	mode           int // symbolic; 0: good, 1: it cannot be opened, 2: reading breaks
	opened, closed int
}

func mkSource(name string, body []byte, mode int) *source {
	h := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: time.Unix(5, 0)}
	return &source{FileInfo: h.FileInfo(), name: name, body: body, mode: mode}
}

func (s *source) FullName() string { return s.name }
func (s *source) Name() string     { return path.Base(s.name) }
func (s *source) Open() (io.ReadCloser, error) {
	if nd.SymBranch(s.mode == 1) {
		return nil, ioErr()
	}
	s.opened++
	return &sourceReader{s: s, r: bytes.NewReader(s.body)}, nil
}

type sourceReader struct {
	s    *source
	r    *bytes.Reader
	shut bool
}

func (r *sourceReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	if err == io.EOF && nd.SymBranch(r.s.mode == 2) {
		err = ioErr()
	}
	return n, err
}

func (r *sourceReader) Close() error {
	if !r.shut {
		r.s.closed++
	}
	r.shut = true
	return nil
}

// faultHook runs a hook on a few files of which any one may be unreadable.
func faultHook() (ss []*source, broken bool, err error) {
	vfs := map[string]fsutil.FileReference{}
	add := func(name string, body []byte) {
		m := int(nd.Byte())
		nd.Assume(m <= 2)
		nd.Assume(!broken || m == 0)
		broken = broken || m != 0
		s := mkSource(name, body, m)
		ss = append(ss, s)
		vfs[name] = s
	}
	var hook bdist.PostInstallHook
	if nd.Flip() {
		hook = entry_points.CreateScripts(plat())
		txt := nd.Pick("", "[console_scripts]\nx = a:b\n", "[gui_scripts]\nx = a\n", "[console_scripts]\n../x = a:b\n", "junk\n", "[console_scripts]\nx = a:b:c\n")
		bad := len(txt) > 0 && txt != "[console_scripts]\nx = a:b\n"
		add("lib/pure/"+info+"/entry_points.txt", []byte(txt))
		broken = broken || bad
	} else {
		for i := 0; i < 1+nd.Choose(2); i++ {
			add("lib/pure/"+string([]byte{byte('a' + i)}), nd.Bytes(nd.Choose(2)))
		}
		hook = recording_installs.Record(nd.Pick("", "sha512", "md5"), "me", nil)
	}
	err = hook(context.Background(), time.Unix(9, 0), vfs, "lib/pure/"+info)
	return ss, broken, err
}

// FaultHook: a hook fails exactly when a file it needs is unreadable or wrong.
func FaultHook() {
	_, broken, err := faultHook()
	nd.Assert((err != nil) == broken, "a hook succeeds exactly when a file it needs is unreadable")
	nd.Reach("end")
}

// LeakHook: hooks close every file they open.
func LeakHook() {
	ss, _, _ := faultHook()
	for _, s := range ss {
		nd.Assert(s.opened == s.closed, "a file is left open")
	}
	nd.Reach("end")
}

// faultWheel installs a wheel with one thing wrong with it, or nothing.
func faultWheel() (broken bool, l ociv1.Layer, err error, files, temps int) {
	dir, e := os.MkdirTemp("", "verif-whl")
	try(e)
	defer os.RemoveAll(dir)
	p := plat()
	es := []zent{wheelFile("true"), zfile("f.py", nd.Bytes(1)), zfile(data+"/scripts/s", []byte("#!python\n"+nd.Str(1))), zfile(data+"/data/e/d", nd.Bytes(1))}
	es = append(es, record(es))
	corrupt := func(i, k int) {
		es[i].corrupt = nd.SymBranch(k == i)
	}
	var hook bdist.PostInstallHook
	fn := ""
	switch nd.Choose(6) {
	case 0: // the content of an entry is damaged
		k := int(nd.Byte())
		nd.Assume(k <= len(es))
		for i := range es {
			corrupt(i, k)
		}
		broken = k < len(es)
	case 1:
		fn = dir + "/nosuch"
		broken = true
	case 2:
		fn = dir + "/f"
		try(os.WriteFile(fn, nd.Bytes(nd.Choose(3)), 0o644))
		broken = true
	case 3:
		broken = nd.Flip()
		fail := broken
		p.PyCompile = func(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
			if fail {
				return nil, errIO
			}
			return compile(ctx, clamp, pp, in)
		}
	case 4:
		broken = nd.Flip()
		fail := broken
		hook = func(ctx context.Context, clamp time.Time, vfs map[string]fsutil.FileReference, d string) error {
			if fail {
				return errIO
			}
			return nil
		}
	case 5: // the compiler yields a file that cannot be read
		m := int(nd.Byte())
		nd.Assume(m <= 2)
		broken = m != 0
		p.PyCompile = func(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
			return []fsutil.FileReference{mkSource("lib/pure/f.pyc", []byte("x"), m)}, nil
		}
	}
	if fn == "" {
		fn = pack(dir, es)
	}
	files, temps = execw.OpenFiles(), execw.TempFiles()
	l, err = bdist.InstallWheel(context.Background(), p, time.Time{}, time.Time{}, fn, hook)
	return broken, l, err, execw.OpenFiles() - files, execw.TempFiles() - temps
}

// FaultWheel: a wheel that cannot be read or completed is not installed.
func FaultWheel() {
	broken, l, err, _, _ := faultWheel()
	nd.Assert((err != nil) == broken, "a wheel is installed exactly when something fails")
	nd.Assert(err == nil || l == nil, "a failed installation yields a layer")
	nd.Reach("end")
}

// LeakWheel: installing a wheel leaves nothing open and nothing behind.
func LeakWheel() {
	_, _, _, files, temps := faultWheel()
	nd.Assert(files == 0, "a file is left open")
	nd.Assert(temps == 0, "a temporary file is left behind")
	nd.Reach("end")
}
