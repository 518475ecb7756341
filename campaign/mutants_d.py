FS="pkg/squash/vfs_fs.go"; FI="pkg/python/pyinspect/fs_image.go"; RN="pkg/reproducible/source_date_epoch.go"; SQ="pkg/squash/squash.go"; FR="pkg/fsutil/fileref.go"; DI="pkg/dir/dir.go"
M=[
("md-nowzero","C01",(RN,"	nowOnce.Do(func() {","	if now.IsZero() {"),(RN,"""			now = time.Now()
		}
	})""","""			now = time.Now()
		}
	}"""),(RN,"	nowOnce sync.Once\n	now     time.Time","	now time.Time"),(RN,'	"sync"\n',"")),
("md-nowflag","C01",(RN,"	nowOnce.Do(func() {","	if !nowDone {\n		nowDone = true"),(RN,"""			now = time.Now()
		}
	})""","""			now = time.Now()
		}
	}"""),(RN,"	nowOnce sync.Once\n	now     time.Time","	nowDone bool\n	now time.Time"),(RN,'	"sync"\n',"")),
("md-readnomu","C01",FS,"""	f.mu.Lock()
	defer f.mu.Unlock()

	if f.closed {
		return 0,""","""	if f.closed {
		return 0,"""),
("md-readpart","C01",FS,"""	f.mu.Lock()
	defer f.mu.Unlock()

	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.pos == len(f.tgt.body) {
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[f.pos:])
	f.pos += n
""","""	f.mu.Lock()
	pos, closed := f.pos, f.closed
	f.mu.Unlock()

	if closed {
		return 0, fs.ErrClosed
	}
	if pos == len(f.tgt.body) {
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[pos:])
	f.mu.Lock()
	f.pos = pos + n
	f.mu.Unlock()
"""),
("md-readadd","C01",FS,"""	f.mu.Lock()
	defer f.mu.Unlock()

	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.pos == len(f.tgt.body) {
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[f.pos:])
	f.pos += n
""","""	f.mu.Lock()
	if f.closed {
		f.mu.Unlock()
		return 0, fs.ErrClosed
	}
	if f.pos == len(f.tgt.body) {
		f.mu.Unlock()
		return 0, io.EOF
	}
	rest := f.tgt.body[f.pos:]
	f.mu.Unlock()
	n := copy(buf, rest)
	f.mu.Lock()
	f.pos += n
	f.mu.Unlock()
"""),
("md-readleak","C01",FS,"""	f.mu.Lock()
	defer f.mu.Unlock()

	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.pos == len(f.tgt.body) {
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[f.pos:])
	f.pos += n
""","""	f.mu.Lock()
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.pos == len(f.tgt.body) {
		f.mu.Unlock()
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[f.pos:])
	f.pos += n
	f.mu.Unlock()
"""),
("md-closenomu","C01",FS,"""func (f *fsfileReader) Close() error {
	f.mu.Lock()
	defer f.mu.Unlock()
""","""func (f *fsfileReader) Close() error {
"""),
("md-listnomu","C01",FS,"""	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closed {
		return nil, fs.ErrClosed""","""	if f.closed {
		return nil, fs.ErrClosed"""),
("md-listlate","C01",(FS,"""	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closed {
		return nil, fs.ErrClosed""","""	if f.closed {
		return nil, fs.ErrClosed"""),(FS,"	if f.pos > len(f.dirents) {","	f.mu.Lock()\n	defer f.mu.Unlock()\n	if f.pos > len(f.dirents) {")),
("md-statshare","C01",(FS,"	hdr := *f.tgt.header // shallow copy\n	hdr.Name = f.lnk.header.Name\n	return hdr.FileInfo(), nil","	hdr := f.tgt.header\n	orig := hdr.Name\n	hdr.Name = f.lnk.header.Name\n	cp := *hdr\n	hdr.Name = orig\n	return cp.FileInfo(), nil")),
("md-imginit","C01",(FI,"	sys.initOnce.Do(func() {\n","	if !sys.initDone {\n		sys.initDone = true\n"),(FI,"""			return nil
		}()
	})""","""			return nil
		}()
	}"""),(FI,"initOnce sync.Once","initDone bool"),(FI,'	"sync"\n',"")),
("md-imginit2","C01",(FI,"	sys.initOnce.Do(func() {\n","	if sys.imgPATH == nil {\n"),(FI,"""			return nil
		}()
	})""","""			return nil
		}()
	}"""),(FI,"	initOnce sync.Once\n",""),(FI,'	"sync"\n',"")),
("md-layshare","C01",SQ,"""	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		return io.NopCloser(bytes.NewReader(byteSlice)), nil
	}, opts...)""","""	reader := bytes.NewReader(byteSlice)
	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		_, err := reader.Seek(0, io.SeekStart)
		return io.NopCloser(reader), err
	}, opts...)"""),
("md-layshare2","C01",FR,"""	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		return io.NopCloser(bytes.NewReader(byteSlice)), nil
	}, opts...)""","""	reader := bytes.NewReader(byteSlice)
	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		_, err := reader.Seek(0, io.SeekStart)
		return io.NopCloser(reader), err
	}, opts...)"""),
("md-layshare3","C01",DI,"""	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		return io.NopCloser(bytes.NewReader(byteSlice)), nil
	}, opts...)""","""	reader := bytes.NewReader(byteSlice)
	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) {
		_, err := reader.Seek(0, io.SeekStart)
		return io.NopCloser(reader), err
	}, opts...)"""),
]
