B="pkg/python/pypa/bdist/binary_distribution_format.go"; IO="pkg/python/pypa/bdist/ioutil.go"; MI="pkg/python/pypa/bdist/misc.go"
RI="pkg/python/pypa/recording_installs/recording_installs.go"; EP="pkg/python/pypa/entry_points/entry_points.go"; PC="pkg/python/py_compile.go"
Q="pkg/squash/vfs.go"; F="pkg/squash/vfs_fs.go"; RL="pkg/squash/readlayer.go"; D="pkg/dir/dir.go"; FR="pkg/fsutil/fileref.go"; DF="pkg/fsutil/diff.go"
CP="pkg/python/configparser.go"
W="W01+W02+W03+W04+W05+W06+W07+W08+W09+W10+W11+W13"
M=[
("rb-check",W,(B,"""		algo := strings.SplitN(recHashsum, "=", 2)[0]
""","""		algo, _, _ := strings.Cut(recHashsum, "=")
"""),(B,"""		if recSize != "" && strconv.FormatInt(actSize, 10) != recSize {
""","""		if recSize != "" && fmt.Sprint(actSize) != recSize {
"""),(B,"""		size, err = io.Copy(dst, reader)
		if err != nil {
			return "", 0, err
		}
""","""		buf := make([]byte, 512)
		for {
			n, rerr := reader.Read(buf)
			size += int64(n)
			if _, err := dst.Write(buf[:n]); err != nil {
				return "", 0, err
			}
			if errors.Is(rerr, io.EOF) {
				break
			}
			if rerr != nil {
				return "", 0, rerr
			}
		}
"""),(B,'	"encoding/csv"\n','	"encoding/csv"\n	"errors"\n')),
("rb-csv","W02+W13",(B,"""		data, err := csv.NewReader(reader).ReadAll()
		if err != nil {
			return nil, fmt.Errorf("read %q: %w", recordName, err)
		}
		return data, nil
""","""		csvReader := csv.NewReader(reader)
		var data [][]string
		for {
			row, err := csvReader.Read()
			if err == io.EOF {
				return data, nil
			}
			if err != nil {
				return nil, fmt.Errorf("read %q: %w", recordName, err)
			}
			data = append(data, row)
		}
""")),
("rb-infodir",W,(MI,"""	infoDirs := make(map[string]struct{})
	for _, file := range wh.zip.File {
		dirname := strings.Split(path.Clean(file.FileHeader.Name), "/")[0]
		if !strings.HasSuffix(dirname, ".dist-info") {
			continue
		}
		infoDirs[dirname] = struct{}{}
	}
""","""	infoDirs := make(map[string]struct{})
	for _, file := range wh.zip.File {
		dirname := path.Clean(file.FileHeader.Name)
		if i := strings.IndexByte(dirname, '/'); i >= 0 {
			dirname = dirname[:i]
		}
		if ok, _ := path.Match("*.dist-info", dirname); ok {
			infoDirs[dirname] = struct{}{}
		}
	}
""")),
("rb-scheme","W01+W04+W08",(B,"""		var dstDataDir string
		switch key {
		case "purelib":
			dstDataDir = plat.Scheme.PureLib
		case "platlib":
			dstDataDir = plat.Scheme.PlatLib
		case "headers":
			dstDataDir = plat.Scheme.Headers
		case "scripts":
			dstDataDir = plat.Scheme.Scripts
		case "data":
			dstDataDir = plat.Scheme.Data
		default:
			return""","""		dstDataDir, known := map[string]string{
			"purelib": plat.Scheme.PureLib,
			"platlib": plat.Scheme.PlatLib,
			"headers": plat.Scheme.Headers,
			"scripts": plat.Scheme.Scripts,
			"data":    plat.Scheme.Data,
		}[key]
		if !known {
			return""")),
("rb-parts","W01+W04+W08",(B,"""		parts := strings.SplitN(relName, "/", 2)
		key := parts[0]
		var rest string
		if len(parts) > 1 {
			rest = parts[1]
		}
""","""		key, rest, _ := strings.Cut(relName, "/")
""")),
("rb-shebang","W08+W05+W06",(B,"""			return readCloser{
				Reader: io.MultiReader(
					strings.NewReader("#!"+shebang),
					&skipReader{
						skip:  skip,
						inner: inner,
					},
				),
				Closer: inner,
			}, nil
""","""			body, err := io.ReadAll(inner)
			if err != nil {
				_ = inner.Close()
				return nil, err
			}
			if err := inner.Close(); err != nil {
				return nil, err
			}
			return io.NopCloser(bytes.NewReader(append([]byte("#!"+shebang), body[skip:]...))), nil
"""),(B,"""			return io.ReadAll(io.LimitReader(fh, int64(len("#!pythonw"))))
""","""			buf := make([]byte, len("#!pythonw"))
			n, err := io.ReadFull(fh, buf)
			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
				return nil, err
			}
			return buf[:n], nil
"""),(IO,"""type skipReader struct {""","""var _ io.Reader = (*skipReader)(nil)

var _ = readCloser{}

type skipReader struct {""")),
("rb-pyfiles","W06+W10+W12+W04",(B,"""	for _, file := range vfs {
		if !strings.HasSuffix(file.Name(), ".py") {
			continue
		}
		srcs = append(srcs, file)
	}
""","""	for name, file := range vfs {
		if path.Ext(name) == ".py" {
			srcs = append(srcs, file)
		}
	}
	sort.Slice(srcs, func(i, j int) bool { return srcs[i].FullName() < srcs[j].FullName() })
""")),
("rb-dirs","W04+W05+W10+L06",(B,"""	for filename := range vfs {
		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
			if _, exists := vfs[dir]; !exists {
				vfs[dir] = &fsutil""","""	missing := make(map[string]bool)
	for filename := range vfs {
		for {
			filename = path.Dir(filename)
			if filename == "." {
				break
			}
			if vfs[filename] == nil {
				missing[filename] = true
			}
		}
	}
	for dir := range missing {
		{
			{
				vfs[dir] = &fsutil""")),
("rb-record","W06+W10",(RI,"""		sort.Slice(csvData, func(i, j int) bool {
			return csvData[i][0] < csvData[j][0]
		})
""","""		sort.SliceStable(csvData, func(i, j int) bool {
			return strings.Compare(csvData[i][0], csvData[j][0]) < 0
		})
"""),(RI,"""		if err := csvWriter.WriteAll(csvData); err != nil {
			return err
		}
		csvWriter.Flush()
""","""		for _, row := range csvData {
			if err := csvWriter.Write(row); err != nil {
				return err
			}
		}
		csvWriter.Flush()
"""),(RI,"""		content := []byte(installer + "\\n")
""","""		content := []byte(fmt.Sprintln(installer))
""")),
("rb-record2","W06",(RI,"""		size = strconv.FormatInt(file.Size(), 10)
	}
""","""		size = strconv.Itoa(int(file.Size()))
	}
"""),(RI,"""		if _, err := io.Copy(hasher, reader); err != nil {
			return nil, err
		}
""","""		body, err := io.ReadAll(reader)
		if err != nil {
			return nil, err
		}
		hasher.Write(body)
""")),
("rb-rel","W06",(RI,"""	name := filepath.ToSlash(fpName)
""","""	name := strings.ReplaceAll(fpName, string(filepath.Separator), "/")
""")),
("rb-entry","W07+W10",(EP,"""				parts := strings.Split(funcRef, ":")
				if len(parts) != 2 {
""","""				parts := strings.Split(funcRef, ":")
				if strings.Count(funcRef, ":") != 1 {
"""),(EP,"""					"ImportName": strings.SplitN(parts[1], ".", 2)[0],
""","""					"ImportName": strings.FieldsFunc(parts[1], func(r rune) bool { return r == '.' })[0],
"""),(EP,"""			for key, val := range sectionData {
				if key""","""			keys := make([]string, 0, len(sectionData))
			for key := range sectionData {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			for _, key := range keys {
				val := sectionData[key]
				if key"""),(EP,'	"regexp"\n','	"regexp"\n	"sort"\n')),
("rb-entrysprintf","W07+W10",(EP,"""				var buf bytes.Buffer
				if err := scriptTmpl.Execute(&buf, map[string]string{
					"Shebang":    shebang,
					"Module":     parts[0],
					"ImportName": strings.SplitN(parts[1], ".", 2)[0],
					"Func":       parts[1],
				}); err != nil {
					return fmt.Errorf("%s: %s: %w", sectionName, key, err)
				}
""","""				buf := renderScript(shebang, parts[0], parts[1])
"""),(EP,"""func CreateScripts(""","""type scriptParams struct{ Shebang, Module, ImportName, Func string }

func renderScript(shebang, module, fn string) *bytes.Buffer {
	var buf bytes.Buffer
	if err := scriptTmpl.Execute(&buf, scriptParams{
		Shebang:    shebang,
		Module:     module,
		ImportName: strings.SplitN(fn, ".", 2)[0],
		Func:       fn,
	}); err != nil {
		panic(err)
	}
	return &buf
}

func CreateScripts(""")),
("rb-filename","V08+R03+R06",(B,"""	ret.CompatibilityTag = pep425.Tag{
		Python:   match[reFilename.SubexpIndex("python")],
		ABI:      match[reFilename.SubexpIndex("abi")],
		Platform: match[reFilename.SubexpIndex("platform")],
	}
	return &ret, nil
""","""	ret.CompatibilityTag, err = pep425.ParseTag(strings.Join(match[len(match)-3:], "-"))
	if err != nil {
		return nil, err
	}
	return &ret, nil
"""),(B,"""	return fmt.Sprintf("%d%s", t.Int, t.Str)
""","""	return strconv.Itoa(t.Int) + t.Str
""")),
("rb-filename2","V08",(B,"""	if d := a.Int - b.Int; d != 0 {
		return d
	}
	switch {
	case a.Str < b.Str:
		return -1
	case a.Str > b.Str:
		return 1
	default:
		return 0
	}
""","""	if a.Int != b.Int {
		if a.Int < b.Int {
			return -1
		}
		return 1
	}
	return strings.Compare(a.Str, b.Str)
""")),
("rb-mime","W13+W03+W04",(B,"""	kvReader := textproto.NewReader(bufio.NewReader(io.MultiReader(
		wheelFile,
		strings.NewReader("\\r\\n\\r\\n\\r\\n"),
	)))
	return kvReader.ReadMIMEHeader()
""","""	content, err := io.ReadAll(wheelFile)
	if err != nil {
		return nil, err
	}
	content = append(content, "\\r\\n\\r\\n\\r\\n"...)
	kvReader := textproto.NewReader(bufio.NewReader(bytes.NewReader(content)))
	return kvReader.ReadMIMEHeader()
""")),
("rb-config","W07+W11",(CP,"""	file := bufio.NewReader(_file)
	lineno := 0
	keepGoing := true
	for keepGoing {
		line, err := file.ReadString('\\n')
		if err != nil {
			if err != io.EOF {
				return nil, err
			}
			keepGoing = false
		}
		lineno++
""","""	content, err := io.ReadAll(_file)
	if err != nil {
		return nil, err
	}
	lineno := 0
	for _, line := range strings.SplitAfter(string(content), "\\n") {
		lineno++
"""),(CP,'	"bufio"\n','')),
("rb-pyc","W12",(PC,"""		err = fs.WalkDir(dirFS, ".", func(fullname string, dirent fs.DirEntry, e error) error {
			if e != nil {
				return e
			}
			if dirent.IsDir() || !strings.HasSuffix(fullname, ".pyc") {
				return nil
			}
""","""		err = fs.WalkDir(dirFS, ".", func(fullname string, dirent fs.DirEntry, e error) error {
			switch {
			case e != nil:
				return e
			case dirent.IsDir():
				return nil
			case filepath.Ext(fullname) != ".pyc":
				return nil
			}
"""),(PC,"""			content, err := fs.ReadFile(dirFS, fullname)
""","""			content, err := os.ReadFile(filepath.Join(tmpdir, fullname))
"""),(PC,"""				fmt.Sprintf("SOURCE_DATE_EPOCH=%d", clampTime.Unix()))
""","""				"SOURCE_DATE_EPOCH="+strconv.FormatInt(clampTime.Unix(), 10))
"""),(PC,'	"strings"\n','	"strconv"\n	"strings"\n')),
("rb-pyc2","W12",(PC,"""			if _, err := io.Copy(outWriter, inReader); err != nil {
				return err
			}
""","""			content, err := io.ReadAll(inReader)
			if err != nil {
				return err
			}
			if _, err := outWriter.Write(content); err != nil {
				return err
			}
""")),
("rb-read","L01+L02+L03",(RL,"""		cleanName := path.Clean(header.Name)
		if strings.HasPrefix(cleanName, "/") || strings.HasPrefix(cleanName, "../") || cleanName == ".." {
			return nil, fmt.Errorf""","""		cleanName := path.Clean(header.Name)
		if strings.Split(cleanName, "/")[0] == ".." || path.IsAbs(cleanName) {
			return nil, fmt.Errorf"""),(RL,"""			body, err = io.ReadAll(tarReader)
			if err != nil {
				return nil, fmt.Errorf("reading tar: %w", err)
			}
""","""			var buf bytes.Buffer
			if _, err := buf.ReadFrom(tarReader); err != nil {
				return nil, fmt.Errorf("reading tar: %w", err)
			}
			body = buf.Bytes()
"""),(RL,'	"archive/tar"\n','	"archive/tar"\n	"bytes"\n')),
("rb-fsget","L01+L02+L03+L04",(Q,"""	for {
		slash := strings.Index(pathname[done:], "/")
		if slash < 0 {
			break
		}
		var err error
		dir, err = dir.get(pathname[done:done+slash], create, false, links)
		done += slash + 1
		if err != nil {
			return nil, err
		}
	}
	ret, err := dir.get(pathname[done:], create, followLinks, links)
	if err != nil {
		return nil, err
	}
	return ret, nil
""","""	parts := strings.Split(pathname[done:], "/")
	for i, part := range parts {
		var err error
		if dir, err = dir.get(part, create, followLinks && i == len(parts)-1, links); err != nil {
			return nil, err
		}
	}
	return dir, nil
""")),
("rb-sortkids","L01+L02",(Q,"""	childNames := make([]string, 0, len(f.children))
	for childName := range f.children {
		childNames = append(childNames, childName)
	}
	sort.Slice(childNames, func(i, j int) bool {
		iStr := childNames[i]
		jStr := childNames[j]
		iWhiteout := strings.HasPrefix(iStr, ".wh.")
		jWhiteout := strings.HasPrefix(jStr, ".wh.")
		switch {
		case iStr == ".wh..wh..opq" || jStr == ".wh..wh..opq":
			return jStr != ".wh..wh..opq"
		case iWhiteout && !jWhiteout:
			return true
		case !iWhiteout && jWhiteout:
			return false
		}
		return iStr < jStr
	})
""","""	var childNames, whiteouts, others []string
	for childName := range f.children {
		switch {
		case childName == ".wh..wh..opq":
			childNames = append(childNames, childName)
		case strings.HasPrefix(childName, ".wh."):
			whiteouts = append(whiteouts, childName)
		default:
			others = append(others, childName)
		}
	}
	sort.Strings(whiteouts)
	sort.Strings(others)
	childNames = append(childNames, append(whiteouts, others...)...)
""")),
("rb-opq","L01+L02+L04",(Q,"""			whFile, err := f.Get(".wh..wh..opq", true, true)
			if err != nil {
				return nil, err
			}
			if err := whFile.Set(&tar.Header{
				Typeflag: tar.TypeReg,
				Mode:     0o644,
			}, nil); err != nil {
				return nil, err
			}
""","""			if err := f.markOpaque(); err != nil {
				return nil, err
			}
"""),(Q,"""		whFile, err := f.Get(".wh..wh..opq", true, true)
		if err != nil {
			return err
		}
		if err := whFile.Set(&tar.Header{
			Typeflag: tar.TypeReg,
			Mode:     0o644,
		}, nil); err != nil {
			return err
		}
	}
""","""		if err := f.markOpaque(); err != nil {
			return err
		}
	}
"""),(Q,"""func (f *fsfile) WriteTo(""","""func (f *fsfile) markOpaque() error {
	whFile, err := f.Get(".wh..wh..opq", true, true)
	if err != nil {
		return err
	}
	return whFile.Set(&tar.Header{
		Typeflag: tar.TypeReg,
		Mode:     0o644,
	}, nil)
}

func (f *fsfile) WriteTo(""")),
("rb-fsreader","L04",(F,"""	if f.pos == len(f.tgt.body) {
		return 0, io.EOF
	}
	n := copy(buf, f.tgt.body[f.pos:])
	f.pos += n
	return n, nil
""","""	rest := f.tgt.body[f.pos:]
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n, err := bytes.NewReader(rest).Read(buf)
	f.pos += n
	return n, err
"""),(F,'	"archive/tar"\n','	"archive/tar"\n	"bytes"\n')),
("rb-refs","L06+L05+W10+W05",(FR,"""		for idx := 0; idx < len(iParts) || idx < len(jParts); idx++ {
			var iPart, jPart string
			if idx < len(iParts) {
				iPart = iParts[idx]
			}
			if idx < len(jParts) {
				jPart = jParts[idx]
			}
			if iPart != jPart {
				return iPart < jPart
			}
		}
		return false
""","""		for idx := 0; idx < len(iParts) && idx < len(jParts); idx++ {
			if c := strings.Compare(iParts[idx], jParts[idx]); c != 0 {
				return c < 0
			}
		}
		return len(iParts) < len(jParts)
"""),(FR,"""		if header.ModTime.After(clampTime) {
			header.ModTime = clampTime
		}
		if header.AccessTime.After(clampTime) {
			header.AccessTime = clampTime
		}
		if header.ChangeTime.After(clampTime) {
			header.ChangeTime = clampTime
		}
""","""		for _, t := range []*time.Time{&header.ModTime, &header.AccessTime, &header.ChangeTime} {
			if clampTime.Before(*t) {
				*t = clampTime
			}
		}
""")),
("rb-diff","L07+I06",(DF,"""	return reflect.DeepEqual(a, b)
""","""	if !reflect.DeepEqual(a.PAXRecords, b.PAXRecords) || !reflect.DeepEqual(a.Xattrs, b.Xattrs) {
		return false
	}
	return a.Typeflag == b.Typeflag && a.Name == b.Name && a.Linkname == b.Linkname && a.Size == b.Size &&
		a.Mode == b.Mode && a.Uid == b.Uid && a.Gid == b.Gid && a.Uname == b.Uname && a.Gname == b.Gname &&
		a.Devmajor == b.Devmajor && a.Devminor == b.Devminor && a.Format == b.Format
""")),
("rb-diff2","L07+I06",(DF,"""	const chunkSize = 1024
	var aBuf, bBuf [chunkSize]byte

	for {
		aLen, err := io.ReadFull(a, aBuf[:])
		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return false, err
		}
		bLen, err := io.ReadFull(b, bBuf[:])
		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return false, err
		}
		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {
			return false, nil
		}
		if aLen < chunkSize {
			break
		}
	}

	return true, nil
""","""	aBody, err := io.ReadAll(a)
	if err != nil {
		return false, err
	}
	bBody, err := io.ReadAll(b)
	if err != nil {
		return false, err
	}
	return bytes.Equal(aBody, bBody), nil
""")),
("rb-dir","L05+L08+I07",(D,"""		var dirs []string
		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
			dirs = append(dirs, dir)
		}
		for i := len(dirs) - 1; i >= 0; i-- {
			if err""","""		var dirs []string
		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
			dirs = append([]string{dir}, dirs...)
		}
		for i := range dirs {
			if err""")),
("rb-dirwalk","L05+L08+I07",(D,"""			reader, err := os.Open(filename)
			if err != nil {
				return err
			}
			if _, err := io.Copy(tarWriter, reader); err != nil {
				_ = reader.Close()
				return err
			}
			if err := reader.Close(); err != nil {
				return err
			}
""","""			body, err := os.ReadFile(filename)
			if err != nil {
				return err
			}
			if _, err := tarWriter.Write(body); err != nil {
				return err
			}
""")),
("rb-dirwalk2","L05+L08+I07",(D,"""		name, err := filepath.Rel(dirname, filename)
		if err != nil {
			return err
		}
		name = filepath.ToSlash(name)
		if name == "." {
			return nil
		}
""","""		rel, err := filepath.Rel(dirname, filename)
		switch {
		case err != nil:
			return err
		case rel == ".":
			return nil
		}
		name := filepath.ToSlash(rel)
""")),
]
