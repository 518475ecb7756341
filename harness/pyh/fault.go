package pyh

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

var errIO = errors.New("input/output error")

// ioErr is what a failing read or open reports.
func ioErr() error {
	switch nd.Choose(4) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist}
	case 3:
		return fs.ErrPermission
	}
	return errIO
}

// source is a file that may be unreadable, and counts its readers.
type source struct {
	fs.FileInfo
	name           string
	body           []byte
	mode           int // symbolic; 0: good, 1: it cannot be opened, 2: reading breaks, 3: closing fails
	opened, closed int
}

func mkSource(name string, body []byte, mode int) *source {
	h := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(body)), ModTime: time.Unix(1577836800, 0)}
	return &source{FileInfo: h.FileInfo(), name: name, body: body, mode: mode}
}

func (s *source) FullName() string { return s.name }
func (s *source) Name() string     { return path.Base(s.name) }
func (s *source) Open() (io.ReadCloser, error) {
	if nd.SymBranch(s.mode == 1) {
		return nil, ioErr()
	}
	s.opened++
	return &sourceReader{s: s, r: bytes.NewReader(s.body)}, nil
}

type sourceReader struct {
	s    *source
	r    *bytes.Reader
	shut bool
}

func (r *sourceReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	if err == io.EOF && nd.SymBranch(r.s.mode == 2) {
		err = ioErr()
	}
	return n, err
}

func (r *sourceReader) Close() error {
	if !r.shut {
		r.s.closed++
	}
	r.shut = true
	if nd.SymBranch(r.s.mode == 3) {
		return errIO
	}
	return nil
}

func faultMode(max int) int {
	m := int(nd.Byte())
	nd.Assume(m <= max)
	return m
}

// faultCompile compiles up to two sources, any one of which, or the tool, may fail.
func faultCompile() (in []*source, broken bool, out []fsutil.FileReference, err error, files, temps int) {
	execw.Hook = toolHook
	d, e := os.MkdirTemp("", "zz")
	must(e)
	defer os.RemoveAll(d)
	must(os.WriteFile(d+"/tool", []byte(tool), 0o755))
	must(os.Chmod(d+"/tool", 0o755))
	n := nd.Choose(3)
	var refs []fsutil.FileReference
	for i := 0; i < n; i++ {
		mode := faultMode(3)
		nd.Assume(!broken || mode == 0)
		broken = broken || mode != 0
		s := mkSource([]string{"lib/a.py", "b/c.py"}[i], nd.Bytes(nd.Choose(2)), mode)
		in, refs = append(in, s), append(refs, s)
	}
	args := []string{d + "/tool", "ok"}
	if nd.Flip() {
		args[1] = nd.Pick("fail", "gone") // gone: it leaves a compiled file that cannot be read
		broken = true
	}
	c, err := python.ExternalCompiler(args...)
	nd.Assert(err == nil, "a present compiler is refused")
	if n == 1 && nd.Flip() { // a name that cannot be written
		in[0].name = nd.Pick("a.py/b.py", "a.py")
		refs = append([]fsutil.FileReference{mkSource("a.py", nil, 0)}, refs...)
		broken = broken || in[0].name != "a.py"
	}
	files, temps = execw.OpenFiles(), execw.TempFiles()
	out, err = c(context.Background(), time.Time{}, nil, refs)
	files, temps = execw.OpenFiles()-files, execw.TempFiles()-temps
	return in, broken, out, err, files, temps
}

// FaultCompile: nothing comes of compiling when a source or the compiler fails.
func FaultCompile() {
	_, broken, out, err, _, _ := faultCompile()
	nd.Assert((err != nil) == broken, "compiling succeeds exactly when a source or the compiler fails")
	nd.Assert(err == nil || len(out) == 0, "a failed compilation yields files")
	nd.Reach("end")
}

// LeakCompile: compiling leaves nothing open and nothing behind.
func LeakCompile() {
	in, _, _, _, files, temps := faultCompile()
	for _, s := range in {
		nd.Assert(s.opened == s.closed, "a source is left open")
	}
	nd.Assert(files == 0, "a file is left open")
	nd.Assert(temps == 0, "a temporary file or directory is left behind")
	nd.Reach("end")
}
