// Package osm models the part of the file system API the code under check and
// the harnesses use, as an in-memory tree.  Native replay uses real files in a
// scratch directory.
package osm

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"os/user"
	"path"
	"strings"
	"syscall"
	"time"
)

type inode struct {
	mode fs.FileMode
	uid  uint32
	gid  uint32
	tm   time.Time
	body []byte
	link string
}

type dent struct {
	path string
	n    *inode
}

type file struct {
	n    *inode
	path string
	pos  int
	shut bool
	app  bool
	full bool
}

// now is the time the model's clock shows while files are made.
const now = 4000000000

var (
	tree  []dent
	files = map[*os.File]*file{}
	ntmp  int
)

type info struct {
	name string
	n    *inode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return size(i.n) }
func (i *info) Mode() fs.FileMode  { return i.n.mode }
func (i *info) ModTime() time.Time { return i.n.tm }
func (i *info) IsDir() bool        { return i.n.mode.IsDir() }
func (i *info) Sys() interface{} {
	return &syscall.Stat_t{Uid: i.n.uid, Gid: i.n.gid, Atim: syscall.Timespec{Sec: now}, Ctim: syscall.Timespec{Sec: now}}
}

func size(n *inode) int64 {
	if n.mode&fs.ModeSymlink != 0 {
		return int64(len(n.link))
	}
	if n.mode&fs.ModeNamedPipe != 0 {
		return 0
	}
	return int64(len(n.body))
}

func get(p string) *inode {
	p = path.Clean(p)
	for _, d := range tree {
		if d.path == p {
			return d.n
		}
	}
	return nil
}

// strict: file permissions bind the caller, who owns every file.
var strict bool

//symgo:replace github.com/datawire/ocibuild/zz_verif/layh.permissions
func permissions(bind bool) { strict = bind }

//symgo:replace github.com/datawire/ocibuild/zz_verif/execw.OpenFiles
func openFiles() int {
	n := 0
	for _, f := range files {
		if !f.shut {
			n++
		}
	}
	return n
}

//symgo:replace github.com/datawire/ocibuild/zz_verif/execw.TempFiles
func tempFiles() int { return len(names("/tmp")) }

//symgo:replace github.com/datawire/ocibuild/zz_verif/execw.Pipe
func pipe(p string, b []byte) bool {
	return add("mkfifo", p, &inode{mode: fs.ModeNamedPipe | 0o644, body: b}) == nil
}

// barred reports whether a directory on the way to p may not be entered.
func barred(p string) bool {
	if !strict {
		return false
	}
	for d := path.Dir(path.Clean(p)); d != "/" && d != "."; d = path.Dir(d) {
		if n := get(d); n != nil && n.mode&0o100 == 0 {
			return true
		}
	}
	return false
}

func mayRead(n *inode) bool { return !strict || n.mode&0o400 != 0 }

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func add(op, p string, n *inode) error {
	p = path.Clean(p)
	if get(p) != nil {
		return pathErr(op, p, fs.ErrExist)
	}
	if d := get(path.Dir(p)); d == nil || !d.mode.IsDir() {
		return pathErr(op, p, fs.ErrNotExist)
	}
	n.tm = time.Unix(now, 0)
	tree = append(tree, dent{p, n})
	return nil
}

//symgo:replace os.MkdirTemp
func MkdirTemp(dir, pattern string) (string, error) {
	ntmp++
	p := "/tmp/scratch" + string([]byte{byte('0' + ntmp)})
	tree = append(tree, dent{p, &inode{mode: fs.ModeDir | 0o700, tm: time.Unix(now, 0)}})
	return p, nil
}

//symgo:replace os.Mkdir
func Mkdir(p string, m fs.FileMode) error {
	return add("mkdir", p, &inode{mode: fs.ModeDir | m})
}

//symgo:replace os.MkdirAll
func MkdirAll(p string, m fs.FileMode) error {
	p = path.Clean(p)
	if n := follow(p); n != nil {
		if n.mode.IsDir() {
			return nil
		}
		return pathErr("mkdir", p, errors.New("not a directory"))
	}
	if d := path.Dir(p); d != p && d != "/tmp" && d != "." {
		if err := MkdirAll(d, m); err != nil {
			return err
		}
	}
	return Mkdir(p, m)
}

//symgo:replace os.WriteFile
func WriteFile(p string, b []byte, m fs.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	files[f].n.body = append([]byte(nil), b...)
	return Close(f)
}

//symgo:replace os.Create
func Create(p string) (*os.File, error) {
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//symgo:replace os.OpenFile
func OpenFile(p string, flag int, m fs.FileMode) (*os.File, error) {
	if p == "/dev/full" { // where nothing can be written
		f := new(os.File)
		files[f] = &file{n: &inode{mode: fs.ModeDevice | fs.ModeCharDevice | 0o666}, path: p, full: true}
		return f, nil
	}
	n := follow(p)
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, pathErr("open", p, fs.ErrExist)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", p, fs.ErrNotExist)
		}
		n = &inode{mode: m &^ 0o022}
		if err := add("open", p, n); err != nil {
			return nil, err
		}
	}
	if n.mode.IsDir() && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, pathErr("open", p, errors.New("is a directory"))
	}
	if flag&os.O_TRUNC != 0 {
		n.body = nil
		n.tm = time.Unix(now, 0)
	}
	f := new(os.File)
	files[f] = &file{n: n, path: path.Clean(p), app: flag&os.O_APPEND != 0}
	return f, nil
}

//symgo:replace (*os.File).Name
func Name(f *os.File) string { return files[f].path }

//symgo:replace (*os.File).Sync
func Sync(f *os.File) error { return nil }

//symgo:replace (*os.File).Write
func Write(f *os.File, b []byte) (int, error) {
	s := files[f]
	if s == nil { // the process's own output
		return len(b), nil
	}
	if s.shut {
		return 0, pathErr("write", s.path, os.ErrClosed)
	}
	if s.full && len(b) > 0 {
		return 0, pathErr("write", s.path, errors.New("no space left on device"))
	}
	if s.app {
		s.pos = len(s.n.body)
	}
	for _, c := range b {
		if s.pos < len(s.n.body) {
			s.n.body[s.pos] = c
		} else {
			s.n.body = append(s.n.body, c)
		}
		s.pos++
	}
	s.n.tm = time.Unix(now, 0)
	return len(b), nil
}

//symgo:replace (*os.File).WriteString
func WriteString(f *os.File, b string) (int, error) { return Write(f, []byte(b)) }

//symgo:replace (*os.File).ReadFrom
func ReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, e := Write(f, b)
	if err == nil {
		err = e
	}
	return int64(n), err
}

//symgo:replace (*os.File).WriteTo
func WriteTo(f *os.File, w io.Writer) (int64, error) {
	s := files[f]
	if s.shut {
		return 0, pathErr("read", s.path, os.ErrClosed)
	}
	b := append([]byte(nil), s.n.body[s.pos:]...)
	s.pos = len(s.n.body)
	n, err := w.Write(b)
	return int64(n), err
}

//symgo:replace os.Remove
func Remove(p string) error {
	p = path.Clean(p)
	for i, d := range tree {
		if d.path == p {
			if d.n.mode.IsDir() && len(names(p)) > 0 {
				return pathErr("remove", p, errors.New("directory not empty"))
			}
			tree = append(append([]dent(nil), tree[:i]...), tree[i+1:]...)
			return nil
		}
	}
	return pathErr("remove", p, fs.ErrNotExist)
}

//symgo:replace os.Rename
func Rename(a, b string) error {
	a, b = path.Clean(a), path.Clean(b)
	n := get(a)
	if n == nil {
		return pathErr("rename", a, fs.ErrNotExist)
	}
	if n.mode.IsDir() {
		return pathErr("rename", a, errors.New("the model renames files only"))
	}
	if get(b) != nil {
		if err := Remove(b); err != nil {
			return err
		}
	}
	t := n.tm
	if err := add("rename", b, n); err != nil {
		return err
	}
	n.tm = t
	return Remove(a)
}

//symgo:replace os.Symlink
func Symlink(old, p string) error {
	return add("symlink", p, &inode{mode: fs.ModeSymlink | 0o777, link: old})
}

//symgo:replace os.Link
func Link(old, p string) error {
	n := get(old)
	if n == nil {
		return pathErr("link", old, fs.ErrNotExist)
	}
	t := n.tm
	err := add("link", p, n)
	n.tm = t
	return err
}

//symgo:replace os.Chmod
func Chmod(p string, m fs.FileMode) error {
	n := get(p)
	if n == nil {
		return pathErr("chmod", p, fs.ErrNotExist)
	}
	const bits = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky
	n.mode = n.mode&^bits | m&bits
	return nil
}

//symgo:replace os.Lchown
func Lchown(p string, uid, gid int) error {
	n := get(p)
	if n == nil {
		return pathErr("lchown", p, fs.ErrNotExist)
	}
	n.uid, n.gid = uint32(uid), uint32(gid)
	return nil
}

//symgo:replace os.Chtimes
func Chtimes(p string, a, m time.Time) error {
	n := get(p)
	if n == nil {
		return pathErr("chtimes", p, fs.ErrNotExist)
	}
	n.tm = m
	return nil
}

//symgo:replace os.RemoveAll
func RemoveAll(p string) error {
	p = path.Clean(p)
	var r []dent
	for _, d := range tree {
		if d.path != p && !(len(d.path) > len(p) && d.path[:len(p)+1] == p+"/") {
			r = append(r, d)
		}
	}
	tree = r
	return nil
}

//symgo:replace os.Lstat
func Lstat(p string) (fs.FileInfo, error) {
	if c := path.Clean(p); c == "/tmp" || c == "/" {
		return &info{path.Base(c), &inode{mode: fs.ModeDir | 0o777}}, nil
	}
	if barred(p) {
		return nil, pathErr("lstat", p, fs.ErrPermission)
	}
	n := get(p)
	if n == nil {
		return nil, pathErr("lstat", p, fs.ErrNotExist)
	}
	return &info{path.Base(p), n}, nil
}

func follow(p string) *inode {
	for i := 0; i < 40; i++ {
		n := get(p)
		if n == nil || n.mode&fs.ModeSymlink == 0 {
			return n
		}
		if path.IsAbs(n.link) {
			p = n.link
		} else {
			p = path.Join(path.Dir(p), n.link)
		}
	}
	return nil
}

//symgo:replace os.Stat
func Stat(p string) (fs.FileInfo, error) {
	if barred(p) {
		return nil, pathErr("stat", p, fs.ErrPermission)
	}
	n := follow(p)
	if n == nil {
		return nil, pathErr("stat", p, fs.ErrNotExist)
	}
	return &info{path.Base(p), n}, nil
}

//symgo:replace os.Readlink
func Readlink(p string) (string, error) {
	n := get(p)
	if n == nil {
		return "", pathErr("readlink", p, fs.ErrNotExist)
	}
	if n.mode&fs.ModeSymlink == 0 {
		return "", pathErr("readlink", p, fs.ErrInvalid)
	}
	return n.link, nil
}

//symgo:replace os.SameFile
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

//symgo:replace os.Open
func Open(p string) (*os.File, error) {
	n := follow(p)
	if n == nil {
		return nil, pathErr("open", p, fs.ErrNotExist)
	}
	if barred(p) || !mayRead(n) {
		return nil, pathErr("open", p, fs.ErrPermission)
	}
	f := new(os.File)
	files[f] = &file{n: n, path: path.Clean(p)}
	return f, nil
}

//symgo:replace os.ReadFile
func ReadFile(p string) ([]byte, error) {
	n := follow(p)
	if n == nil {
		return nil, pathErr("open", p, fs.ErrNotExist)
	}
	if barred(p) || !mayRead(n) {
		return nil, pathErr("open", p, fs.ErrPermission)
	}
	if n.mode.IsDir() {
		return nil, pathErr("read", p, errors.New("is a directory"))
	}
	r := append([]byte(nil), n.body...)
	drain(n)
	return r, nil
}

// drain empties a pipe that was read.
func drain(n *inode) {
	if n.mode&fs.ModeNamedPipe != 0 {
		n.body = nil
	}
}

//symgo:replace (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	s := files[f]
	if s.shut {
		return 0, pathErr("read", s.path, os.ErrClosed)
	}
	if s.n.mode.IsDir() {
		return 0, pathErr("read", s.path, errors.New("is a directory"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.n.body) {
		return 0, io.EOF
	}
	n := copy(b, s.n.body[s.pos:])
	s.pos += n
	return n, nil
}

//symgo:replace (*os.File).Close
func Close(f *os.File) error {
	if files[f].shut {
		return pathErr("close", files[f].path, os.ErrClosed)
	}
	files[f].shut = true
	drain(files[f].n)
	return nil
}

//symgo:replace (*os.File).Stat
func FStat(f *os.File) (fs.FileInfo, error) {
	return &info{path.Base(files[f].path), files[f].n}, nil
}

func names(p string) []string {
	p = path.Clean(p)
	var r []string
	for _, d := range tree {
		if len(d.path) > len(p)+1 && d.path[:len(p)+1] == p+"/" && !strings.Contains(d.path[len(p)+1:], "/") {
			r = append(r, d.path[len(p)+1:])
		}
	}
	return r
}

//symgo:replace (*os.File).Readdirnames
func Readdirnames(f *os.File, n int) ([]string, error) {
	s := files[f]
	if !s.n.mode.IsDir() {
		return nil, pathErr("readdirent", s.path, errors.New("not a directory"))
	}
	return names(s.path), nil
}

type dirent struct{ info }

func (d *dirent) Type() fs.FileMode          { return d.n.mode.Type() }
func (d *dirent) Info() (fs.FileInfo, error) { return &info{d.name, d.n}, nil }

//symgo:replace os.ReadDir
func ReadDir(p string) ([]fs.DirEntry, error) {
	n := follow(p)
	if n == nil {
		return nil, pathErr("open", p, fs.ErrNotExist)
	}
	if barred(p) || !mayRead(n) {
		return nil, pathErr("open", p, fs.ErrPermission)
	}
	if !n.mode.IsDir() {
		return nil, pathErr("readdirent", p, errors.New("not a directory"))
	}
	ns := names(p)
	for i := 1; i < len(ns); i++ {
		for j := i; j > 0 && ns[j] < ns[j-1]; j-- {
			ns[j], ns[j-1] = ns[j-1], ns[j]
		}
	}
	var r []fs.DirEntry
	for _, x := range ns {
		r = append(r, &dirent{info{x, get(path.Join(p, x))}})
	}
	return r, nil
}

//symgo:replace (*os.File).ReadDir
func FReadDir(f *os.File, n int) ([]fs.DirEntry, error) { return ReadDir(files[f].path) }

// The accounts every Unix system has.

//symgo:replace os/user.LookupId
func LookupId(id string) (*user.User, error) {
	switch id {
	case "0":
		return &user.User{Uid: id, Gid: "0", Username: "root"}, nil
	case "1":
		return &user.User{Uid: id, Gid: "1", Username: "daemon"}, nil
	case "2":
		return &user.User{Uid: id, Gid: "2", Username: "bin"}, nil
	}
	return nil, errors.New("no such user")
}

//symgo:replace os/user.LookupGroupId
func LookupGroupId(id string) (*user.Group, error) {
	switch id {
	case "0":
		return &user.Group{Gid: id, Name: "root"}, nil
	case "1":
		return &user.Group{Gid: id, Name: "daemon"}, nil
	case "2":
		return &user.Group{Gid: id, Name: "bin"}, nil
	}
	return nil, errors.New("no such group")
}

//symgo:replace os.Getpid
func Getpid() int { return 4242 }
