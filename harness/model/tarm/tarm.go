// Package tarm models archive/tar and tarball.LayerFromOpener for the symbolic
// executor: every entry is kept in a table and the byte stream carries only its
// index, so that names, headers and contents stay symbolic.  Native replay uses
// the real packages.
package tarm

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"github.com/google/go-containerregistry/pkg/v1/types"
)

type entry struct {
	hdr  tar.Header
	data []byte
	pax  map[string]string
}

type wstate struct {
	w    io.Writer
	cur  *entry
	left int64
	err  error
}

type rstate struct {
	r    io.Reader
	cur  *entry
	pos  int
	err  error
	done bool
}

var (
	entries []*entry
	writers = map[*tar.Writer]*wstate{}
	readers = map[*tar.Reader]*rstate{}
)

func headerOnly(t byte) bool {
	switch t {
	case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo:
		return true
	}
	return false
}

//symgo:replace archive/tar.NewWriter
func NewWriter(w io.Writer) *tar.Writer {
	t := new(tar.Writer)
	writers[t] = &wstate{w: w}
	return t
}

//symgo:replace (*archive/tar.Writer).Flush
func Flush(t *tar.Writer) error {
	s := writers[t]
	if s.err != nil {
		return s.err
	}
	if s.left > 0 {
		return errors.New("archive/tar: missed writing bytes")
	}
	return nil
}

func token(n int) []byte {
	return []byte{'T', 'A', 'R', '1', byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func paxTime(t time.Time) string {
	s := strconv.FormatInt(t.Unix(), 10)
	n := t.Nanosecond()
	if n == 0 {
		return s
	}
	f := strconv.Itoa(n)
	for len(f) < 9 {
		f = "0" + f
	}
	return s + "." + strings.TrimRight(f, "0")
}

//symgo:replace (*archive/tar.Writer).WriteHeader
func WriteHeader(t *tar.Writer, hdr *tar.Header) error {
	if err := Flush(t); err != nil {
		return err
	}
	s := writers[t]
	h := *hdr
	if h.Typeflag == tar.TypeRegA {
		if strings.HasSuffix(h.Name, "/") {
			h.Typeflag = tar.TypeDir
		} else {
			h.Typeflag = tar.TypeReg
		}
	}
	if h.Format == tar.FormatUnknown {
		h.ModTime = h.ModTime.Round(time.Second)
		h.AccessTime = time.Time{}
		h.ChangeTime = time.Time{}
	}
	if h.Size < 0 {
		return errors.New("archive/tar: cannot encode header: negative size on header-only type")
	}
	switch h.Typeflag {
	case tar.TypeReg, tar.TypeChar, tar.TypeBlock, tar.TypeFifo:
		if strings.HasSuffix(h.Name, "/") {
			return errors.New("archive/tar: cannot encode header: filename may not have trailing slash")
		}
	}
	e := &entry{hdr: h, pax: map[string]string{}}
	fracs := h.ModTime.Nanosecond() != 0
	at, ct := !h.AccessTime.IsZero(), !h.ChangeTime.IsZero()
	switch h.Format {
	case tar.FormatUSTAR:
		if at || ct || fracs || len(h.PAXRecords) > 0 || len(h.Xattrs) > 0 {
			return errors.New("archive/tar: cannot encode header: Format specifies USTAR")
		}
	case tar.FormatGNU:
		if fracs || h.AccessTime.Nanosecond() != 0 || h.ChangeTime.Nanosecond() != 0 || len(h.PAXRecords) > 0 || len(h.Xattrs) > 0 {
			return errors.New("archive/tar: cannot encode header: Format specifies GNU")
		}
	case tar.FormatPAX:
		if fracs {
			e.pax["mtime"] = paxTime(h.ModTime)
		}
		if at {
			e.pax["atime"] = paxTime(h.AccessTime)
		}
		if ct {
			e.pax["ctime"] = paxTime(h.ChangeTime)
		}
	}
	for k, v := range h.Xattrs {
		e.pax["SCHILY.xattr."+k] = v
	}
	for k, v := range h.PAXRecords {
		switch k {
		case "path", "linkpath", "size", "uid", "gid", "uname", "gname", "mtime", "atime", "ctime":
		default:
			e.pax[k] = v
		}
	}
	entries = append(entries, e)
	s.cur = e
	s.left = h.Size
	if headerOnly(h.Typeflag) {
		s.left = 0
	}
	if _, err := s.w.Write(token(len(entries) - 1)); err != nil {
		s.err = err
		return err
	}
	return nil
}

//symgo:replace (*archive/tar.Writer).Write
func Write(t *tar.Writer, b []byte) (int, error) {
	s := writers[t]
	if s.err != nil {
		return 0, s.err
	}
	n := len(b)
	over := int64(n) > s.left
	if over {
		n = int(s.left)
	}
	if n > 0 {
		s.cur.data = append(s.cur.data, b[:n]...)
		s.left -= int64(n)
	}
	if over {
		return n, tar.ErrWriteTooLong
	}
	return n, nil
}

//symgo:replace (*archive/tar.Writer).Close
func Close(t *tar.Writer) error {
	s := writers[t]
	if s.err != nil {
		if s.err == tar.ErrWriteAfterClose {
			return nil
		}
		return s.err
	}
	err := Flush(t)
	if err == nil {
		_, err = s.w.Write([]byte{'T', 'A', 'R', '0', 0, 0, 0, 0})
	}
	s.err = tar.ErrWriteAfterClose
	return err
}

//symgo:replace archive/tar.NewReader
func NewReader(r io.Reader) *tar.Reader {
	t := new(tar.Reader)
	readers[t] = &rstate{r: r}
	return t
}

//symgo:replace (*archive/tar.Reader).Next
func Next(t *tar.Reader) (*tar.Header, error) {
	s := readers[t]
	if s.err != nil {
		return nil, s.err
	}
	var buf [8]byte
	if _, err := io.ReadFull(s.r, buf[:]); err != nil {
		s.err = err
		return nil, err
	}
	if buf[0] != 'T' || buf[1] != 'A' || buf[2] != 'R' {
		s.err = tar.ErrHeader
		return nil, s.err
	}
	if buf[3] == '0' {
		s.err = io.EOF
		return nil, s.err
	}
	n := int(buf[4])<<24 | int(buf[5])<<16 | int(buf[6])<<8 | int(buf[7])
	s.cur = entries[n]
	s.pos = 0
	h := s.cur.hdr
	h.PAXRecords, h.Xattrs = nil, nil
	if len(s.cur.pax) > 0 {
		h.Format = tar.FormatPAX
		h.PAXRecords = map[string]string{}
		for k, v := range s.cur.pax {
			h.PAXRecords[k] = v
			if strings.HasPrefix(k, "SCHILY.xattr.") {
				if h.Xattrs == nil {
					h.Xattrs = map[string]string{}
				}
				h.Xattrs[k[len("SCHILY.xattr."):]] = v
			}
		}
	} else if h.Format != tar.FormatGNU {
		h.Format = tar.FormatUSTAR
	}
	if !h.AccessTime.IsZero() {
		h.AccessTime = time.Unix(h.AccessTime.Unix(), int64(h.AccessTime.Nanosecond()))
	}
	if !h.ChangeTime.IsZero() {
		h.ChangeTime = time.Unix(h.ChangeTime.Unix(), int64(h.ChangeTime.Nanosecond()))
	}
	if h.ModTime.IsZero() {
		h.ModTime = time.Unix(0, 0)
	} else {
		h.ModTime = time.Unix(h.ModTime.Unix(), int64(h.ModTime.Nanosecond()))
	}
	return &h, nil
}

//symgo:replace (*archive/tar.Reader).Read
func Read(t *tar.Reader, b []byte) (int, error) {
	s := readers[t]
	if s.err != nil {
		return 0, s.err
	}
	if s.cur == nil || s.pos >= len(s.cur.data) {
		return 0, io.EOF
	}
	if f, ok := s.r.(interface{ BodyErr() error }); ok { // the content is broken here
		if err := f.BodyErr(); err != nil {
			s.err = err
			return 0, err
		}
	}
	if len(b) > 3 { // a reader may return less than it is asked for
		if rest := len(s.cur.data) - s.pos; rest <= 64 {
			b = b[:3]
		} else if len(b) > 509 {
			b = b[:509]
		}
	}
	n := copy(b, s.cur.data[s.pos:])
	s.pos += n
	if s.pos >= len(s.cur.data) {
		return n, io.EOF
	}
	return n, nil
}

// Layer is what LayerFromOpener returns under the model.
type Layer struct{ open ociv1tarball.Opener }

func (l *Layer) Digest() (ociv1.Hash, error) {
	return ociv1.Hash{}, fmt.Errorf("model layer has no digest")
}
func (l *Layer) DiffID() (ociv1.Hash, error) {
	return ociv1.Hash{}, fmt.Errorf("model layer has no diff ID")
}
func (l *Layer) Compressed() (io.ReadCloser, error)   { return l.open() }
func (l *Layer) Uncompressed() (io.ReadCloser, error) { return l.open() }
func (l *Layer) Size() (int64, error)                 { return 0, nil }
func (l *Layer) MediaType() (types.MediaType, error)  { return types.DockerLayer, nil }

//symgo:replace github.com/google/go-containerregistry/pkg/v1/tarball.LayerFromOpener
func LayerFromOpener(o ociv1tarball.Opener, opts ...ociv1tarball.LayerOption) (ociv1.Layer, error) {
	r, err := o()
	if err != nil {
		return nil, err
	}
	if err := r.Close(); err != nil {
		return nil, err
	}
	return &Layer{o}, nil
}
