Q='pkg/squash/vfs.go'; F='pkg/squash/vfs_fs.go'; D='pkg/dir/dir.go'
R='pkg/python/pep503/simple_repo_api.go'; A='pkg/python/pypa/simple_repo_api/pypa_repo_api.go'; PI='pkg/python/pyinspect/fs_image.go'
M=[
("l01-opq-only","L01",Q,"				for k := range f.parent.children {\n					if k != basename {","				for k := range f.parent.children {\n					if k != basename && !strings.HasPrefix(k, \".wh.\") {"),
("l01-child-nil","L01",Q,"		f.children = nil\n	} else if wasFile {","		if !wasFile {\n			f.children = nil\n		}\n	} else if wasFile {"),
("l01-sort","L01",Q,"		case iWhiteout && !jWhiteout:\n			return true\n",""),
("l01-wh-prefix","L01",Q,'delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))','delete(f.parent.children, strings.TrimLeft(basename, ".wh"))'),
("l01-body","L01",Q,"	f.header = hdr\n	f.body = body","	f.header = hdr\n	if len(body) > 0 {\n		f.body = body\n	}"),
("l01-order","L01","pkg/squash/squash.go",None,None),
("l02-implicit-opq","L02+L01",Q,"			f.header = nil\n			f.body = nil\n			whFile, err := f.Get(\".wh..wh..opq\", true, true)","			f.header = nil\n			f.body = nil\n			whFile, err := f.Get(\".wh..wh..opq\", true, false)"),
("l02-symlink-parent","L02+L01",Q,"			newF, err := fsGetCount(f.parent, f.header.Linkname, create, true, links)","			newF, err := fsGetCount(f.parent, f.header.Linkname, create, false, links)"),
("l03-readpos","L04",F,"	f.pos += n\n	return n, nil","	f.pos = n\n	return n, nil"),
("l04-whlist","L04",F,'			if strings.HasPrefix(childname, ".wh.") {','			if childname == ".wh..wh..opq" {'),
("l04-name","L04",F,"	hdr.Name = f.lnk.header.Name\n",""),
("l04-readdir-eof","L04",F,"		if len(ret) == 0 {\n			return nil, io.EOF\n		}","		if len(ret) == 0 && f.pos > 0 {\n			return nil, io.EOF\n		}"),
("l04-missing","L04",F,"int64(len(f.tgt.body)) < f.tgt.header.Size","len(f.tgt.body) == 0 && f.tgt.header.Size > 1"),
("l05-link","L05",D,"				header.Linkname = entry.Name\n				break","				header.Linkname = entry.Name"),
("l05-clamp","L05",D,"		if header.ModTime.After(clampTime) {\n			header.ModTime = clampTime\n		}","		if header.ModTime.Before(clampTime) {\n			header.ModTime = clampTime\n		}"),
("l06-sort","L06","pkg/fsutil/fileref.go","		for idx := 0; idx < len(iParts) || idx < len(jParts); idx++ {","		for idx := 0; idx < len(iParts) && idx < len(jParts); idx++ {"),
("l06-reg","L06","pkg/fsutil/fileref.go","		if header.Typeflag == tar.TypeReg {","		if header.Typeflag == tar.TypeReg && header.Size > 1 {"),
("l07-len","L07","pkg/fsutil/diff.go","		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {","		if !bytes.Equal(aBuf[:aLen], bBuf[:aLen]) {"),
("l07-one","L07","pkg/fsutil/diff.go","		if aHeader == nil || bHeader == nil {\n			// one got EOF before the other\n			return false, nil","		if aHeader == nil || bHeader == nil {\n			// one got EOF before the other\n			return bHeader == nil, nil"),
("l07-pax","L07","pkg/fsutil/diff.go",'		case "mtime", "atime", "ctime":','		case "mtime", "atime", "ctime", "uname":'),
("l08-trim","L08","pkg/gobuild/gobuild.go",'		"-trimpath",\n',''),
("l08-env","L08","pkg/gobuild/gobuild.go",'	cmd.Env = append(os.Environ(),\n		"GOOS=linux",\n		"GOARCH=amd64")','	cmd.Env = append([]string{\n		"GOOS=linux",\n		"GOARCH=amd64"}, os.Environ()...)'),
("r01-prefix","R01",R,"				if sum != val {","				if !strings.HasPrefix(sum, strings.ToLower(val)) {"),
("r01-lastonly","R01",R,"			for _, val := range vals {\n","			for _, val := range vals[len(vals)-1:] {\n"),
("r01-status","R01",R,"	if resp.StatusCode != http.StatusOK {","	if resp.StatusCode >= http.StatusBadRequest {"),
("r01-redirect","R01",R,"if u, err := url.Parse(requestURL); err == nil","if u, err := url.Parse(resp.Request.URL.String()); err == nil"),
("r02-norm","R02",R,'	return strings.ToLower(regexp.MustCompile("[-_.]+").ReplaceAllLiteralString(str, "-"))','	return strings.ToLower(regexp.MustCompile("[-_.]").ReplaceAllLiteralString(str, "-"))'),
("r02-base","R02",R,"				href, err := location.Parse(attr.Val)","				base, err := url.Parse(requestURL)\n				if err != nil {\n					return err\n				}\n				href, err := base.Parse(attr.Val)"),
("r02-reqpy","R02",R,"				if err == nil && !ok {","				if !ok {"),
("r03-rank","R03",A,"		if minRank == 0 || rank < minRank {","		if minRank == 0 || rank <= minRank {"),
("r03-yank","R03",A,"		if pep592.IsYanked(link) {\n			yankedLinks","		if link.DataAttrs[\"data-yanked\"] != \"\" {\n			yankedLinks"),
("r03-build","R03",A,"iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0","iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0"),
("r04-minor","R04","pkg/python/pep629/simple_api_versions.go","	if version.Minor() > SupportedVersion.Minor() {\n","	if version.Minor() > SupportedVersion.Minor() && version.Pre != nil {\n		return fmt.Errorf(\"unsupported pre-release: %s\", version)\n	}\n	if version.Minor() > SupportedVersion.Minor() {\n"),
("r04-last","R04","pkg/python/pep629/simple_api_versions.go","		if ok {\n			verStr","		if ok && verStr == \"\" {\n			verStr"),
("r05-raw","R05",R,'	if u.RawPath != "" {\n		u.RawPath += ".asc"\n	}\n',''),
("r05-404","R05",R,"httpErr.StatusCode == http.StatusNotFound","httpErr.StatusCode >= http.StatusNotFound"),
("r06-ci","R06","cmd_python_getwheel.go","				if link.Text == filename {","				if strings.EqualFold(link.Text, filename) {"),
("i01-env","I01","cmd_image_build.go","	config.Env = append(config.Env, flags.envAppend...)","	config.Env = append(flags.envAppend, config.Env...)"),
("i01-cmd","I01","cmd_image_build.go","	if flags.entrypoint != nil {\n		config.Entrypoint = flags.entrypoint","	if flags.entrypoint != nil {\n		config.Cmd = nil\n		config.Entrypoint = flags.entrypoint"),
("i02-neg","I02","pkg/reproducible/source_date_epoch.go","		if err == nil {","		if err == nil && secs > 0 {"),
("i02-nanos","I02","pkg/reproducible/source_date_epoch.go","now = time.Unix(secs, 0)","now = time.Unix(0, secs*1000000000)"),
("i03-last","I03",PI,"			return strings.TrimPrefix(keyval, prefix), true","			val, ok = strings.TrimPrefix(keyval, prefix), true"),
("i03-dir","I03",PI,"mode.IsDir() || mode&0o111 == 0","mode&0o111 == 0"),
("i03-wd","I03",PI,"			fullfilename = sys.Join(sys.imgWD, fullfilename)\n		}\n		if err := sys.checkExecutable(fullfilename); err != nil {",'			fullfilename = sys.Join("/", fullfilename)\n		}\n		if err := sys.checkExecutable(fullfilename); err != nil {'),
("i03-empty","I03",PI,"	for _, dir := range sys.imgPATH {\n","	for _, dir := range sys.imgPATH {\n		if dir == \"\" {\n			continue\n		}\n"),
("i04-order","I04","cmd_image_build.go","				layers = append(layers, layer)","				layers = append([]ociv1.Layer{layer}, layers...)"),
("i05-w","I05","pkg/python/pyinspect/pyinspect.go","	graphical = generic\n","	graphical = console\n"),
("i05-all","I05","pkg/python/pyinspect/pyinspect.go",'"python"+strings.TrimPrefix(filePart, "pythonw")','strings.Replace(filePart, "w", "", -1)'),
("i06-remove","I06","cmd_layer_gobuild.go","				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {\n					return err\n				}\n",""),
("i07-prefix","I07","cmd_layer_dir.go",'			if flagPrefix.DirName != "" {','			if flagPrefix.DirName != "" && flagPrefix.UID == 0 {'),
("i07-dup","I07","cmd_layer_squash.go",None,None),
]
M=[m for m in M if m[3] is not None]
