package layh

import (
	"archive/tar"
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/types"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// ---- fault schedules: where reading a layer breaks is a choice ----

const (
	okay       = iota
	failOpen   // the layer cannot be opened
	failHeader // reading breaks at an entry's header, or at the end marker
	failBody   // reading breaks in an entry's content
	failClose  // the layer can be read but closing it fails
)

var errIO = errors.New("input/output error")

// ioErr is what a failing read or open reports: a device error, data that ends early, or a file that is gone or may not be read.
func ioErr() error {
	switch nd.Choose(4) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist}
	case 3:
		return fs.ErrPermission
	}
	return errIO
}

// flayer is a layer that breaks at a chosen point and counts its readers.
type flayer struct {
	data   []byte
	starts []int // where each entry's header is; the last is the end marker
	mode   int   // symbolic
	at     int   // which entry; symbolic
	opened int
	closed int
}

func (l *flayer) Digest() (ociv1.Hash, error)         { return ociv1.Hash{}, errIO }
func (l *flayer) DiffID() (ociv1.Hash, error)         { return ociv1.Hash{}, errIO }
func (l *flayer) Compressed() (io.ReadCloser, error)  { return l.Uncompressed() }
func (l *flayer) Size() (int64, error)                { return int64(len(l.data)), nil }
func (l *flayer) MediaType() (types.MediaType, error) { return types.DockerLayer, nil }
func (l *flayer) Uncompressed() (io.ReadCloser, error) {
	if nd.SymBranch(l.mode == failOpen) {
		return nil, ioErr()
	}
	l.opened++
	return &flreader{l: l}, nil
}

// bodyOff is how far behind its header an entry's content begins.
func bodyOff() int {
	if nd.SymNative() {
		return 512
	}
	return 8
}

// breaks: reading breaks at this offset.
func (l *flayer) breaks(pos int) bool {
	r := false
	for i, p := range l.starts {
		r = r || l.mode == failHeader && l.at == i && p == pos || l.mode == failBody && l.at == i && p+bodyOff() == pos
	}
	return r
}

type flreader struct {
	l    *flayer
	pos  int
	shut bool
	err  error
}

func (r *flreader) Read(b []byte) (int, error) {
	if err := r.BodyErr(); err != nil {
		return 0, err
	}
	if r.pos >= len(r.l.data) {
		return 0, io.EOF
	}
	end := len(r.l.data)
	for _, p := range r.l.starts {
		if p > r.pos && p < end {
			end = p
		}
		if p += bodyOff(); p > r.pos && p < end {
			end = p
		}
	}
	n := copy(b, r.l.data[r.pos:end])
	r.pos += n
	return n, nil
}

// BodyErr also tells the tar model whether the content now being read is broken.
func (r *flreader) BodyErr() error {
	if r.err == nil && nd.SymBranch(r.l.breaks(r.pos)) {
		r.err = ioErr()
	}
	return r.err
}

func (r *flreader) Close() error {
	if !r.shut {
		r.l.closed++
	}
	r.shut = true
	if nd.SymBranch(r.l.mode == failClose) {
		return errIO
	}
	return nil
}

func mkFault(ents []Ent, mode, at int) *flayer {
	l := &flayer{mode: mode, at: at}
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range ents {
		try(w.Flush())
		l.starts = append(l.starts, buf.Len())
		try(w.WriteHeader(&tar.Header{Name: e.Name, Typeflag: e.Kind, Linkname: e.Link, Mode: e.Mode, Size: int64(len(e.Body)), ModTime: time.Unix(e.Time, 0)}))
		if len(e.Body) > 0 {
			_, err := w.Write(e.Body)
			try(err)
		}
	}
	try(w.Flush())
	l.starts = append(l.starts, buf.Len())
	try(w.Close())
	l.data = buf.Bytes()
	return l
}

// fents is a small layer: every entry is a directory, a file, a link or a whiteout.
func fents(max int) []Ent {
	var r []Ent
	n := nd.Choose(max + 1)
	for i := 0; i < n; i++ {
		nm := string([]byte{byte('a' + i)})
		switch nd.Choose(4) {
		case 0:
			r = append(r, Ent{Name: nm, Kind: tar.TypeReg, Mode: 0o644, Body: nd.Bytes(1 + nd.Choose(2))})
		case 1:
			r = append(r, Ent{Name: nm, Kind: tar.TypeDir, Mode: 0o755})
		case 2:
			r = append(r, Ent{Name: ".wh." + nm, Kind: tar.TypeReg})
		case 3:
			r = append(r, Ent{Name: nm, Kind: tar.TypeSymlink, Link: "x"})
		}
	}
	return r
}

// fault is what goes wrong with a layer of these entries: any mode and place.
func fault(ents []Ent) (mode, at int) {
	mode, at = int(nd.Byte()), int(nd.Byte())
	nd.Assume(okay <= mode && mode <= failBody)
	nd.Assume(at <= len(ents))
	body := mode != failBody
	for i, e := range ents {
		body = body || at == i && len(e.Body) > 0
	}
	nd.Assume(body)
	return mode, at
}

// faulty makes 1..max layers of which at most one is broken.
func faulty(max, ents int) (ls []ociv1.Layer, fls []*flayer, broken bool) {
	n := 1 + nd.Choose(max)
	for i := 0; i < n; i++ {
		if i > 0 {
			ents = nd.Q(1, 2)
		}
		es := fents(ents)
		mode, at := fault(es)
		nd.Assume(!broken || mode == okay)
		broken = broken || mode != okay
		l := mkFault(es, mode, at)
		ls, fls = append(ls, l), append(fls, l)
	}
	return ls, fls, broken
}

func checkClosed(fls ...*flayer) {
	for _, l := range fls {
		nd.Assert(l.opened == l.closed, "a layer's reader is left open")
	}
}

// FaultSquash: layers that cannot be read in full are never squashed or loaded.
func FaultSquash() {
	ls, _, broken := faulty(2, nd.Q(2, 3))
	if nd.Flip() {
		l, err := squash.Squash(ls)
		nd.Assert((err != nil) == broken, "squashing succeeds exactly when a layer is unreadable")
		nd.Assert(err == nil || l == nil, "squashing an unreadable layer yields a layer")
	} else {
		f, err := squash.Load(ls, nd.Flip())
		nd.Assert((err != nil) == broken, "loading succeeds exactly when a layer is unreadable")
		nd.Assert(err == nil || f == nil, "loading an unreadable layer yields a filesystem")
	}
	nd.Reach("end")
}

// LeakSquash: squashing and loading close every reader they open.
func LeakSquash() {
	ls, fls, broken := faulty(2, nd.Q(2, 3))
	if nd.Flip() { // a layer that is refused
		nd.Assume(!broken)
		l := mkFault([]Ent{{Name: "../x", Kind: tar.TypeReg}}, okay, 0)
		ls, fls = append(ls, l), append(fls, l)
	}
	if nd.Flip() {
		_, _ = squash.Squash(ls)
	} else {
		_, _ = squash.Load(ls, nd.Flip())
	}
	checkClosed(fls...)
	nd.Reach("end")
}

func faultPair() (a, b *flayer, broken bool) {
	es := fents(nd.Q(2, 3))
	ma, aa := fault(es)
	mb, ab := fault(es)
	if nd.Flip() {
		nd.Assume(ma == okay && aa == 0)
		ma = failClose
	} else if nd.Flip() {
		nd.Assume(mb == okay && ab == 0)
		mb = failClose
	}
	return mkFault(es, ma, aa), mkFault(es, mb, ab), ma != okay || mb != okay
}

// FaultEqual: layers of which one cannot be read are never called equal, nor different.
func FaultEqual() {
	a, b, broken := faultPair()
	eq, err := fsutil.LayersEqualExceptTimestamps(a, b)
	nd.Assert((err != nil) == broken, "comparing layers gives an answer exactly when one is unreadable")
	nd.Assert(eq == !broken, "an unreadable layer is called equal, or a layer differs from itself")
	nd.Reach("end")
}

// LeakEqual: comparing layers closes both.
func LeakEqual() {
	var a, b *flayer
	if nd.Flip() {
		a, b, _ = faultPair()
	} else {
		a, b = mkFault(fents(1), okay, 0), mkFault(fents(1), okay, 0)
	}
	_, _ = fsutil.LayersEqualExceptTimestamps(a, b)
	checkClosed(a, b)
	nd.Reach("end")
}

// fwriter accepts only so many bytes.
type fwriter struct {
	buf  bytes.Buffer
	room int
}

func (w *fwriter) Write(b []byte) (int, error) {
	if len(b) > w.room {
		n, _ := w.buf.Write(b[:w.room])
		w.room = 0
		return n, errIO
	}
	w.room -= len(b)
	return w.buf.Write(b)
}

func faultWrite() (l *flayer, w *fwriter, broken bool, err error) {
	es := fents(2)
	mode, at := fault(es)
	l = mkFault(es, mode, at)
	w = &fwriter{room: 1 << 30}
	if k := nd.Choose(3); k < 2 {
		w.room = []int{0, len(l.data) - 1}[k]
		broken = true
	}
	broken = broken || mode != okay
	return l, w, broken, fsutil.WriteLayer(l, w)
}

// FaultWrite: writing a layer fails when either side does, and otherwise writes all of it.
func FaultWrite() {
	l, w, broken, err := faultWrite()
	nd.Assert((err != nil) == broken, "writing a layer succeeds exactly when it cannot be read or written")
	if err == nil {
		nd.Assert(bytes.Equal(w.buf.Bytes(), l.data), "writing a layer writes something else")
	}
	nd.Reach("end")
}

// LeakWrite: writing a layer closes it.
func LeakWrite() {
	l, _, _, _ := faultWrite()
	checkClosed(l)
	nd.Reach("end")
}

// fimage is an image of which some part may be unreadable.
type fimage struct {
	ociv1.Image
	noCfg, noLayers bool
	ls              []ociv1.Layer
}

func (i *fimage) ConfigFile() (*ociv1.ConfigFile, error) {
	if i.noCfg {
		return nil, errIO
	}
	return &ociv1.ConfigFile{Config: ociv1.Config{Env: []string{"PATH=/bin"}}}, nil
}

func (i *fimage) Layers() ([]ociv1.Layer, error) {
	if i.noLayers {
		return nil, errIO
	}
	return i.ls, nil
}

func faultImage() (sys *pyinspect.ImageFS, fls []*flayer, broken bool) {
	img := &fimage{}
	es := []Ent{{Name: "bin/p", Kind: tar.TypeReg, Mode: 0o755, Body: []byte("x")}}
	switch nd.Choose(3) {
	case 0:
		img.noCfg = true
		img.ls = pack([][]Ent{es})
	case 1:
		img.noLayers = true
		img.ls = pack([][]Ent{es})
	case 2:
		for i := 1 + nd.Choose(2); i > 0; i-- {
			mode, at := fault(es)
			l := mkFault(es, mode, at)
			broken = broken || mode != okay
			fls = append(fls, l)
			img.ls = append(img.ls, l)
		}
	}
	return &pyinspect.ImageFS{Image: img}, fls, broken || img.noCfg || img.noLayers
}

// FaultImage: nothing is found in an image that cannot be read, however often one asks.
func FaultImage() {
	sys, _, broken := faultImage()
	for i := 0; i < 2; i++ {
		var err error
		if nd.Flip() {
			_, err = sys.LookPath(nd.Pick("p", "/bin/p"))
		} else {
			_, err = sys.Stat("/bin/p")
		}
		nd.Assert((err != nil) == broken, "a look-up in an image succeeds exactly when the image is unreadable")
	}
	nd.Reach("end")
}

// LeakImage: looking in an image closes its layers.
func LeakImage() {
	sys, fls, _ := faultImage()
	for i := 0; i < 2; i++ {
		_, _ = sys.LookPath("p")
	}
	checkClosed(fls...)
	nd.Reach("end")
}

// LeakFiles: making a layer of files closes each file it opens.
func LeakFiles() {
	n := 1 + nd.Choose(nd.Q(2, 3))
	var fs []*fref
	for i := 0; i < n; i++ {
		b := nd.Bytes(nd.Choose(2))
		fs = append(fs, &fref{name: string([]byte{byte('a' + i)}), mode: 0o644, tm: time.Unix(5, 0), body: b, size: int64(len(b))})
	}
	if v := nd.Choose(n + 1); v < n {
		k := nd.Choose(4)
		if k == 3 {
			fs[v].size = int64(nd.Choose(4))
		} else {
			fs[v].fail = k + 1
		}
	}
	_, _ = fsutil.LayerFromFileReferences(refsOf(fs), time.Unix(9, 0))
	for _, f := range fs {
		nd.Assert(f.opened == f.closed, "a file is left open")
	}
	nd.Reach("end")
}

// ---- directories with parts that may not be read ----

type capHdr struct {
	version uint32
	pid     int32
}

type capData struct{ eff, perm, inh uint32 }

// permissions makes (or stops making) file permissions bind the caller.
func permissions(bind bool) {
	if bind {
		runtime.LockOSThread()
	}
	h := capHdr{version: 0x20080522}
	var d [2]capData
	if _, _, e := syscall.RawSyscall(syscall.SYS_CAPGET, uintptr(unsafe.Pointer(&h)), uintptr(unsafe.Pointer(&d[0])), 0); e != 0 {
		panic("capget: " + e.Error())
	}
	const dac = 1<<1 | 1<<2
	if bind {
		d[0].eff &^= dac
	} else {
		d[0].eff |= d[0].perm & dac
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&h)), uintptr(unsafe.Pointer(&d[0])), 0); e != 0 {
		panic("capset: " + e.Error())
	}
	if !bind {
		runtime.UnlockOSThread()
	}
}

// sealed makes a directory of up to n things of any permissions, and reports
// whether some part cannot be read.
func sealed(root string, n int) bool {
	broken := false
	d := root
	var shut []string
	mode := map[string]fs.FileMode{}
	perm := func(p string) fs.FileMode {
		m := nd.SymU16()
		nd.Assume(m <= 0o777)
		shut, mode[p] = append(shut, p), fs.FileMode(m)
		return fs.FileMode(m)
	}
	for i := nd.Choose(n + 1); i > 0; i-- {
		p := path.Join(d, string([]byte{byte('a' + i)}))
		switch nd.Choose(4) {
		case 0: // a file
			try(os.WriteFile(p, nd.Bytes(nd.Choose(2)), 0o600))
			broken = perm(p)&0o400 == 0 || broken
		case 1: // a directory, in which the rest is
			try(os.Mkdir(p, 0o700))
			m := perm(p)
			broken = m&0o400 == 0 || i > 1 && m&0o100 == 0 || broken
			d = p
		case 2: // a directory with a file
			try(os.Mkdir(p, 0o700))
			try(os.WriteFile(p+"/x", nil, 0o644))
			m := perm(p)
			broken = m&0o400 == 0 || m&0o100 == 0 || broken
		case 3:
			try(os.Symlink("/nosuch", p))
		}
	}
	for i := len(shut) - 1; i >= 0; i-- {
		try(os.Chmod(shut[i], mode[shut[i]]))
	}
	return broken
}

func faultDir() (broken bool, l ociv1.Layer, err error, leaked int) {
	tmp, e := os.MkdirTemp("", "verif-dir")
	try(e)
	defer os.RemoveAll(tmp)
	root := tmp + "/r"
	try(os.Mkdir(root, 0o755))
	if k := nd.Choose(4); k == 3 {
		broken = sealed(root, nd.Q(2, 3))
	} else {
		root = []string{tmp + "/nosuch", tmp + "/f", tmp + "/loop"}[k]
		try(os.WriteFile(tmp+"/f", []byte("x"), 0o644))
		try(os.Symlink("loop", tmp+"/loop"))
		broken = true
	}
	before := execw.OpenFiles()
	permissions(true)
	l, err = dir.LayerFromDir(root, nil, nil, time.Unix(5, 0))
	permissions(false)
	return broken, l, err, execw.OpenFiles() - before
}

// FaultDir: a directory of which some part may not be read never gives a layer.
func FaultDir() {
	broken, l, err, _ := faultDir()
	nd.Assert((err != nil) == broken, "a directory gives a layer exactly when some part of it is unreadable")
	nd.Assert(err == nil || l == nil, "an unreadable directory yields a layer")
	nd.Reach("end")
}

// LeakDir: no file stays open.
func LeakDir() {
	_, _, _, leaked := faultDir()
	nd.Assert(leaked == 0, "a file is left open")
	nd.Reach("end")
}

// DirLink: a link to a directory stands for the directory.
func DirLink() {
	tmp, e := os.MkdirTemp("", "verif-dir")
	try(e)
	defer os.RemoveAll(tmp)
	try(os.Mkdir(tmp+"/r", 0o755))
	body := nd.Bytes(nd.Choose(3))
	try(os.WriteFile(tmp+"/r/f", body, 0o644))
	try(os.Symlink(nd.Pick("r", tmp+"/r"), tmp+"/l"))
	try(os.Symlink("l", tmp+"/l2"))
	l, err := dir.LayerFromDir(tmp+nd.Pick("/l", "/l2", "/l/", "/r/", "/l2/../r"), nil, nil, time.Unix(5, 0))
	nd.Assert(err == nil, "making a layer from a link to a directory fails")
	es := RdLayer(l)
	nd.Assert(len(es) == 1 && es[0].Name == "f" && string(es[0].Body) == string(body), "a link to a directory does not give the directory's files")
	nd.Reach("end")
}
