// Package zipm models archive/zip for the symbolic executor: entries are kept
// in a table and the byte stream carries only their indexes.  Native replay
// uses the real package.
package zipm

import (
	"archive/zip"
	"bytes"
	"io"
	"os"
	"strings"
	"time"
)

type entry struct {
	hdr  zip.FileHeader
	data []byte
	bad  bool // the checksum is wrong
}

type wstate struct {
	w   io.Writer
	cur *entry
}

type ewriter struct {
	e   *entry
	dir bool
}

var (
	entries []*entry
	writers = map[*zip.Writer]*wstate{}
	files   = map[*zip.File]*entry{}
)

//symgo:replace archive/zip.NewWriter
func NewWriter(w io.Writer) *zip.Writer {
	z := new(zip.Writer)
	writers[z] = &wstate{w: w}
	return z
}

func (w *ewriter) Write(b []byte) (int, error) {
	if w.dir && len(b) > 0 {
		return 0, io.ErrShortWrite
	}
	w.e.data = append(w.e.data, b...)
	return len(b), nil
}

//symgo:replace (*archive/zip.Writer).CreateHeader
func CreateHeader(z *zip.Writer, fh *zip.FileHeader) (io.Writer, error) {
	e := &entry{hdr: *fh}
	entries = append(entries, e)
	n := len(entries) - 1
	if _, err := writers[z].w.Write([]byte{'Z', 'I', 'P', '1', byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}); err != nil {
		return nil, err
	}
	return &ewriter{e, strings.HasSuffix(fh.Name, "/")}, nil
}

//symgo:replace (*archive/zip.Writer).CreateRaw
func CreateRaw(z *zip.Writer, fh *zip.FileHeader) (io.Writer, error) {
	w, err := CreateHeader(z, fh)
	if err == nil {
		entries[len(entries)-1].bad = true // that is what harnesses use it for
	}
	return w, err
}

//symgo:replace (*archive/zip.Writer).Create
func Create(z *zip.Writer, name string) (io.Writer, error) {
	return CreateHeader(z, &zip.FileHeader{Name: name, Method: zip.Deflate})
}

//symgo:replace (*archive/zip.Writer).Close
func Close(z *zip.Writer) error {
	_, err := writers[z].w.Write([]byte{'Z', 'I', 'P', '0', 0, 0, 0, 0})
	return err
}

func decode(b []byte) ([]*zip.File, error) {
	var r []*zip.File
	for len(b) >= 8 && b[0] == 'Z' && b[1] == 'I' && b[2] == 'P' {
		if b[3] == '0' {
			return r, nil
		}
		e := entries[int(b[4])<<24|int(b[5])<<16|int(b[6])<<8|int(b[7])]
		f := &zip.File{FileHeader: e.hdr}
		f.UncompressedSize64 = uint64(len(e.data))
		f.UncompressedSize = uint32(len(e.data))
		f.CompressedSize64, f.CompressedSize = f.UncompressedSize64, f.UncompressedSize
		if f.Modified.IsZero() {
			f.Modified = time.Date(1979, 11, 30, 0, 0, 0, 0, time.UTC)
		} else {
			f.Modified = time.Unix(f.Modified.Unix(), 0).UTC()
		}
		files[f] = e
		r = append(r, f)
		b = b[8:]
	}
	return nil, zip.ErrFormat
}

//symgo:replace archive/zip.OpenReader
func OpenReader(name string) (*zip.ReadCloser, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	fs, err := decode(b)
	if err != nil {
		return nil, err
	}
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	r := new(zip.ReadCloser)
	r.File = fs
	open[r] = f
	return r, nil
}

var open = map[*zip.ReadCloser]*os.File{}

//symgo:replace (*archive/zip.ReadCloser).Close
func RClose(r *zip.ReadCloser) error { return open[r].Close() }

// badReader reports the wrong checksum at the end.
type badReader struct{ r *bytes.Reader }

func (r badReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	if err == io.EOF {
		err = zip.ErrChecksum
	}
	return n, err
}

//symgo:replace archive/zip.NewReader
func NewReader(r io.ReaderAt, size int64) (*zip.Reader, error) {
	b := make([]byte, size)
	if _, err := r.ReadAt(b, 0); err != nil && err != io.EOF {
		return nil, err
	}
	fs, err := decode(b)
	if err != nil {
		return nil, err
	}
	z := new(zip.Reader)
	z.File = fs
	return z, nil
}

//symgo:replace (*archive/zip.File).Open
func Open(f *zip.File) (io.ReadCloser, error) {
	if e := files[f]; e.bad {
		return io.NopCloser(badReader{bytes.NewReader(e.data)}), nil
	}
	return io.NopCloser(bytes.NewReader(files[f].data)), nil
}
