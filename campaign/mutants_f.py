V='pkg/python/pep440/01_version_scheme.go'; S='pkg/python/pep440/02_version_specifiers.go'; T='pkg/python/pep440/03_tail.go'
B='pkg/python/pypa/bdist/binary_distribution_format.go'; IO='pkg/python/pypa/bdist/ioutil.go'; MI='pkg/python/pypa/bdist/misc.go'
Q='pkg/squash/vfs.go'; F='pkg/squash/vfs_fs.go'; D='pkg/dir/dir.go'; RL='pkg/squash/readlayer.go'; SQ='pkg/squash/squash.go'
FR='pkg/fsutil/fileref.go'; DF='pkg/fsutil/diff.go'
R='pkg/python/pep503/simple_repo_api.go'; A='pkg/python/pypa/simple_repo_api/pypa_repo_api.go'; PI='pkg/python/pyinspect/fs_image.go'; PY='pkg/python/pyinspect/pyinspect.go'
RI='pkg/python/pypa/recording_installs/recording_installs.go'; EP='pkg/python/pypa/entry_points/entry_points.go'; CP='pkg/python/configparser.go'
P345='pkg/python/pep345/metadata.go'; TG='pkg/python/pep425/tags.go'; PL='pkg/python/platform.go'; PC='pkg/python/py_compile.go'; ST='pkg/python/stat.go'
YK='pkg/python/pep592/yank.go'; P629='pkg/python/pep629/simple_api_versions.go'; HU='pkg/htmlutil/htmlutil.go'; OP='pkg/fsutil/open.go'
M=[
# pep440
("mf-relcap","V01",V,"	for i := 0; i < len(a.Release) || i < len(b.Release); i++ {","	for i := 0; i < 4 && (i < len(a.Release) || i < len(b.Release)); i++ {"),
("mf-postdev","V01",V,"	default:\n		return (*a.Dev) - (*b.Dev)","	default:\n		if a.Post != nil && a.Pre != nil {\n			return 0\n		}\n		return (*a.Dev) - (*b.Dev)"),
("mf-prestr","V01",V,"	if aL != bL {\n		return aL - bL\n	}\n	return aN - bN","	if aL != bL {\n		return aL - bL\n	}\n	if a.Post != nil && b.Post == nil && aN < bN {\n		return 1\n	}\n	return aN - bN"),
("mf-post0","V01",V,"	if a.Post != nil {\n		aPost = *a.Post\n	}","	if a.Post != nil && (*a.Post > 0 || a.Dev == nil) {\n		aPost = *a.Post\n	}"),
("mf-localcap","V01",V,"	for i := 0; i < len(a.Local) || i < len(b.Local); i++ {","	for i := 0; i < len(a.Local) || i < len(b.Local) && i < 2; i++ {"),
("mf-atoi32","V02",T,"		segInt, err := strconv.Atoi(segStr)\n		if err != nil {\n			return nil, err\n		}","		seg64, err := strconv.ParseInt(segStr, 10, 32)\n		if err != nil {\n			return nil, err\n		}\n		segInt := int(seg64)"),
("mf-dev32","V02",T,"			ret.N, err = strconv.Atoi(number)\n			if err != nil {\n				return nil, err\n			}","			n64, err := strconv.ParseInt(number, 10, 32)\n			if err != nil {\n				return nil, err\n			}\n			ret.N = int(n64)"),
("mf-epochbase0","V02",T,"		ver.Epoch, err = strconv.Atoi(epoch)\n","		var e64 int64\n		e64, err = strconv.ParseInt(epoch, 0, 0)\n		ver.Epoch = int(e64)\n"),
("mf-localsep","V02",T,'strings.ContainsRune("-_.", r)','strings.ContainsRune("-.", r)'),
("mf-fmtpre","V02",V,'		fmt.Fprintf(ret, "%s%d", ver.Pre.L, ver.Pre.N)','		if ver.Pre.N == 0 && ver.Post == nil && ver.Dev == nil {\n			ret.WriteString(ver.Pre.L)\n		} else {\n			fmt.Fprintf(ret, "%s%d", ver.Pre.L, ver.Pre.N)\n		}'),
("mf-lestrip","V03",S,"func matchLE(spec, ver Version) bool {\n	return spec.Cmp(ver) >= 0","func matchLE(spec, ver Version) bool {\n	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0"),
("mf-gtspecpost","V03",S,"	if spec.Post == nil && ver.Post != nil &&","	if spec.Dev == nil && spec.Post == nil && ver.Post != nil &&"),
("mf-preprefix","V03",S,"	if terminalPart == partRel {\n		if len(ver.Release) > len(spec.Release) {","	if terminalPart == partRel || terminalPart == partPre {\n		if len(ver.Release) > len(spec.Release) {"),
("mf-alias","V03",S,"	prefix := spec\n	prefix.Release = prefix.Release[:len(prefix.Release)-1]","	prefix := spec\n	prefix.Release = append(prefix.Release[:len(prefix.Release)-2], prefix.Release[len(prefix.Release)-2])\n	if prefix.Release[len(prefix.Release)-1] == 0 && len(prefix.Release) > 1 {\n		prefix.Release = prefix.Release[:len(prefix.Release)-1]\n	}"),
("mf-op3","V04",S,"	case strings.HasPrefix(str, \"===\"):\n		return ret, fmt.Errorf(\"specifiers with === are not supported; versions must be PEP 440 compliant\")","	case strings.HasPrefix(str, \"===\"):\n		ret.CmpOp = CmpOpStrictMatch\n		str = str[3:]\n		localOK = true"),
("mf-devlocal","V04",S,"			ret.CmpOp = CmpOpPrefixExclude\n			str = strings.TrimSuffix(str, \".*\")\n			devOK = false\n			localOK = false","			ret.CmpOp = CmpOpPrefixExclude\n			str = strings.TrimSuffix(str, \".*\")\n			devOK = false"),
("mf-fields","V04",S,"strings.FieldsFunc(str, func(r rune) bool { return r == ',' })","strings.FieldsFunc(str, func(r rune) bool { return r == ',' || r == ';' })"),
("mf-multi","V05",S,"	for _, e := range m {\n		if !e.Allow(ver) {\n			return false\n		}\n	}\n	return true\n}","	for _, e := range m {\n		if e.Allow(ver) {\n			return true\n		}\n	}\n	return len(m) == 0\n}"),
("mf-selpre","V05",S,"				if best == nil || best.Cmp(choice) < 0 {","				if best == nil || best.Cmp(choice) < 0 && (!choice.IsPreRelease() || best.IsPreRelease()) {"),
# squash
("mf-opqdup","L01",Q,"				for k := range f.parent.children {\n					if k != basename {","				for k, c := range f.parent.children {\n					if k != basename && !(c.header == nil && len(c.children) == 0) {"),
("mf-whself","L01",Q,"			if f.header.Typeflag == tar.TypeDir {\n				// The","			if f.header.Typeflag == tar.TypeDir && f.children == nil {\n				// The"),
("mf-bodyalias","L01",Q,"	f.header = hdr\n	f.body = body","	f.header = hdr\n	f.body = append(f.body[:0], body...)"),
("mf-hdrlink","L01",Q,"	if f.header.Typeflag != tar.TypeDir {\n		// Changing","	if f.header.Typeflag != tar.TypeDir && f.header.Typeflag != tar.TypeLink {\n		// Changing"),
("mf-names","L01",Q,"		hdr.Name = name\n","		if f.header.Typeflag != tar.TypeLink {\n			hdr.Name = name\n		}\n"),
("mf-dotdot","L03",RL,'strings.HasPrefix(cleanName, "../") || cleanName == ".."','strings.HasPrefix(cleanName, "../")'),
("mf-abs","L03",RL,'strings.HasPrefix(cleanName, "/") || strings','strings.HasPrefix(header.Name, "//") || strings'),
("mf-openreg","L04",RL,'		if strings.HasPrefix(path.Base(header.Name), ".wh.") {','		if strings.HasPrefix(path.Base(header.Name), ".wh.") && header.Size == 0 {'),
("mf-skiphdr","L01",RL,"		header.Name = cleanName\n","		header.Name = cleanName\n		if cleanName == \".\" {\n			continue\n		}\n"),
("mf-hdrcopy","L01",Q,"	if hdr != nil {\n		_hdr := *hdr\n		hdr = &_hdr\n	}\n","	if hdr != nil && f.header != nil && hdr.Typeflag == tar.TypeDir && f.header.Typeflag == tar.TypeDir {\n		_hdr := *hdr\n		_hdr.PAXRecords = f.header.PAXRecords\n		hdr = &_hdr\n	}\n"),
# dir
("mf-longname","L05",D,"		header.Name = name\n		for","		header.Name = name\n		if len(name) > 100 {\n			header.Name = path.Clean(name[:100])\n		}\n		for"),
("mf-linkprefix","L05",D,"				header.Linkname = entry.Name\n","				header.Linkname = path.Base(entry.Name)\n"),
("mf-linkfirst","L05",D,"			if os.SameFile(entry.Info, info) {","			if entry.Info.Mode().IsRegular() && os.SameFile(entry.Info, info) {"),
("mf-atime","L05",D,"		if header.AccessTime.After(clampTime) {\n			header.AccessTime = clampTime","		if header.ModTime.After(clampTime) {\n			header.AccessTime = clampTime"),
("mf-uid0","L05",D,"			if chown.UID >= 0 {","			if chown.UID > 0 {"),
("mf-gidbig","L05",D,"				header.Gid = chown.GID\n","				header.Gid = int(int16(chown.GID))\n"),
("mf-unamecl","L05",D,"				header.Uid = chown.UID\n","				header.Uid = chown.UID\n				header.Uname = \"\"\n"),
("mf-prefmode","L05",D,"				Mode:  int64(prefix.Mode),","				Mode:  int64(prefix.Mode & 0o777),"),
("mf-prefsame","L05",D,"		if prefix.Mode == 0 {","		if prefix.Mode&0o111 == 0 {"),
("mf-rel","L05",D,'		if name == "." {','		if name == "." || name == ".git" {'),
("mf-backslash","L05",D,'		name = filepath.ToSlash(name)\n','		name = strings.ReplaceAll(name, "\\\\", "/")\n'),
# files
("mf-fsort","L06",FR,"				return iPart < jPart","				return strings.ToLower(iPart) < strings.ToLower(jPart)"),
("mf-fname","L06",FR,"		header.Name = file.FullName()\n","		header.Name = strings.TrimPrefix(file.FullName(), \"./\")\n"),
("mf-fclamp","L06",FR,"		if header.ModTime.After(clampTime) {\n			header.ModTime = clampTime","		if header.ModTime.Unix() > clampTime.Unix() {\n			header.ModTime = clampTime"),
("mf-fdev","L06",FR,"		if header.Typeflag == tar.TypeReg {","		if header.Typeflag == tar.TypeReg && header.Mode&0o4000 == 0 {"),
# diff
("mf-dpax","L07",DF,'		case "mtime", "atime", "ctime":','		case "mtime", "atime", "ctime", "path":'),
("mf-dtype","L07",DF,"	b.ModTime = a.ModTime\n","	b.ModTime = a.ModTime\n	b.Format = a.Format\n	a.Xattrs, b.Xattrs = nil, nil //nolint:staticcheck // also in PAXRecords\n"),
("mf-dbody","L07",DF,"		if equal, err := readersEqual(aTarReader, bTarReader); err != nil {","		if aHeader.Typeflag == tar.TypeSymlink {\n			continue\n		}\n		if equal, err := readersEqual(aTarReader, bTarReader); err != nil {"),
("mf-dlast","L07",DF,"		if aLen < chunkSize {\n			// EOF","		if aLen < chunkSize/2 {\n			// EOF"),
("mf-duname","L07",DF,"	b.ModTime = a.ModTime\n","	b.ModTime = a.ModTime\n	if a.Uid == b.Uid && (a.Uname == \"\" || b.Uname == \"\") {\n		b.Uname = a.Uname\n	}\n"),
("mf-dswallow","L07",DF,"			equal = false\n			err = _err","			err = _err"),

# wheels: names and integrity
("mf-dist","W01",B,"		^(?P<distribution>[^-]+)\n","		^(?P<distribution>[^-.]+)\n"),
("mf-buildint","W01",B,"	if d := a.Int - b.Int; d != 0 {\n		return d\n	}","	if d := int(int16(a.Int - b.Int)); d != 0 {\n		return d\n	}"),
("mf-buildstr","W01",B,'	return fmt.Sprintf("%d%s", t.Int, t.Str)','	if t.Int == 0 {\n		return t.Str\n	}\n	return fmt.Sprintf("%d%s", t.Int, t.Str)'),
("mf-genlocal","W01",B,"	ver, err := data.Version.Normalize()\n","	ver, err := data.Version.PublicVersion.Normalize()\n"),
("mf-opencase","W02",B,"		if path.Clean(file.Name) == filename {","		if strings.EqualFold(path.Clean(file.Name), filename) {"),
("mf-dupok","W02",B,"dup && !(seenDir && isDir) {","dup && seenDir != isDir {"),
("mf-hashpad","W02",B,"		if recHashsum != \"\" && actHashsum != recHashsum {","		if recHashsum != \"\" && actHashsum != strings.TrimRight(recHashsum, \"=\") {"),
("mf-hashci","W02",B,"		if recHashsum != \"\" && actHashsum != recHashsum {","		if recHashsum != \"\" && !strings.EqualFold(actHashsum, recHashsum) {"),
("mf-sizelead","W02",B,"		if recSize != \"\" && strconv.FormatInt(actSize, 10) != recSize {","		if recSize != \"\" && len(recSize) < 10 && strconv.FormatInt(actSize, 10) != recSize {"),
("mf-recself","W02",B,"			case path.Join(distInfoDir, \"RECORD\"):\n			default:","			case path.Join(distInfoDir, \"RECORD\"), path.Join(distInfoDir, \"WHEEL\"):\n			default:"),
("mf-lazyq","W02",B,"		data, err := csv.NewReader(reader).ReadAll()","		csvReader := csv.NewReader(reader)\n		csvReader.Comment = '#'\n		data, err := csvReader.ReadAll()"),
("mf-fields","W02",B,"		data, err := csv.NewReader(reader).ReadAll()","		csvReader := csv.NewReader(reader)\n		csvReader.TrimLeadingSpace = true\n		csvReader.LazyQuotes = true\n		data, err := csvReader.ReadAll()"),
("mf-dirslash","W03",B,'			return fmt.Errorf("unsafe filename in wheel zip archive: %q", file.Name)','			if isDir {\n				continue\n			}\n			return fmt.Errorf("unsafe filename in wheel zip archive: %q", file.Name)'),
("mf-dotdotabs","W03",B,'name == ".." || strings.HasPrefix(name, "../") ||','name == ".." || strings.HasPrefix(file.Name, "../") ||'),
("mf-purelib","W04",B,'	if metadata.Get("Root-Is-Purelib") == "true" {','	if strings.HasPrefix(metadata.Get("Root-Is-Purelib"), "true") {'),
("mf-dataprefix","W04",B,'		if !strings.HasPrefix(fullName, dataDir+"/") {','		if !strings.HasPrefix(fullName, dataDir) {'),
("mf-delrec","W04",B,'	delete(vfs, path.Join(dstDir, distInfoDir, "RECORD.jws"))\n	delete(vfs, path.Join(dstDir, distInfoDir, "RECORD.p7s"))\n','	for name := range vfs {\n		if base := path.Base(name); base == "RECORD.jws" || base == "RECORD.p7s" {\n			delete(vfs, name)\n		}\n	}\n'),
("mf-headers","W04",B,'		case "headers":\n			dstDataDir = plat.Scheme.Headers','		case "headers", "include":\n			dstDataDir = plat.Scheme.Headers'),
("mf-newname","W04",B,'		newFullName := path.Join(dstDataDir, rest)\n		if newFullName == "" {','		newFullName := path.Join(dstDataDir, rest)\n		if newFullName == "" || (key == "scripts" && strings.HasPrefix(path.Base(rest), ".")) {'),
("mf-pycsrc","W04",B,'		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {\n			continue\n		}','		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") || strings.HasPrefix(file.Name(), ".") {\n			continue\n		}'),
("mf-maxtime","W05",B,"			if file.Modified.After(maxWheelTime) {","			if file.Modified.After(maxWheelTime) && file.Modified.Year() < 2038 {"),
("mf-parentmode","W05",B,"						Mode:     0o755,\n						ModTime:  maxTime,","						Mode:     0o755,\n						ModTime:  minTime,"),
("mf-mintime","W05",IO,"	if !mtime.IsZero() {","	if !mtime.IsZero() && mtime.After(content.header.Modified) {"),
("mf-uname","W05",B,"			header.Uname = plat.UName\n","			if plat.UName != \"\" {\n				header.Uname = plat.UName\n			}\n"),
("mf-execreg","W05",MI,"	return externalAttrs.UNIX.IsRegular() && ","	return "),
("mf-execbits","W05",IO,"		externalAttrs.UNIX = python.ModeFmtRegular | 0o644","		externalAttrs.UNIX = python.ModeFmtRegular | 0o644\n		if strings.HasSuffix(name, \".sh\") {\n			externalAttrs.UNIX |= 0o111\n		}"),
("mf-shebangws","W08",B,'		if bytes.Equal(header, []byte("#!pythonw")) {','		if bytes.HasPrefix(bytes.ToLower(header), []byte("#!pythonw")) {'),
("mf-shebangend","W08",B,'		if !bytes.HasPrefix(header, []byte("#!python")) {','		if !bytes.HasPrefix(header, []byte("#!python")) || len(header) < len("#!pythonw") {'),
("mf-scriptsub","W08",B,'		if key != "scripts" {\n','		if key != "scripts" || strings.Contains(path.Base(filename), ".") {\n'),
("mf-skiperr","W08",IO,"				err = io.ErrUnexpectedEOF","				err = io.EOF"),
("mf-wvmajor","W13",B,"	if wheelVersion.Major() > specVersion.Major() {","	if wheelVersion.Major() > specVersion.Major() && !wheelVersion.IsPreRelease() {"),
("mf-distinfocase","W13",MI,'		if !strings.HasSuffix(dirname, ".dist-info") {','		if !strings.HasSuffix(dirname, ".dist-info") || strings.HasPrefix(dirname, ".") {'),
("mf-datakey","W13",B,'		if rest == "" && !dataVFS[fullName].IsDir() {','		if rest == "" && !dataVFS[fullName].IsDir() && key != "data" {'),
("mf-hooks","W04",MI,"			if err := hook(ctx, clampTime, vfs, installedDistInfoDir); err != nil {\n				return err\n			}","			if hook == nil {\n				return nil\n			}\n			if err := hook(ctx, clampTime, vfs, installedDistInfoDir); err != nil {\n				return err\n			}"),

# repository
("mf-redirect","R02",R,"	return resp.Request.URL, content, nil","	if u, err := url.Parse(requestURL); err == nil && u.Host == resp.Request.URL.Host {\n		return u, content, nil\n	}\n	return resp.Request.URL, content, nil"),
("mf-frag","R01",R,'if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {','if u, err := url.Parse(requestURL); err == nil && strings.Count(u.Fragment, "=") == 1 {'),
("mf-hashname","R01",R,"				newHasher := python.HashlibAlgorithmsGuaranteed[key]\n				if newHasher == nil {\n					continue","				newHasher := python.HashlibAlgorithmsGuaranteed[key]\n				if newHasher == nil || val == \"\" {\n					continue"),
("mf-sumcase","R01",R,"				if sum != val {","				if !strings.EqualFold(sum, val) && len(val) != 0 {"),
("mf-partial","R01",R,"	if resp.StatusCode != http.StatusOK {","	if resp.StatusCode != http.StatusOK && resp.StatusCode != http.StatusPartialContent {"),
("mf-hook","R04",R,"	if c.HTMLHook != nil {","	if c.HTMLHook != nil && doc.FirstChild != doc.LastChild {"),
("mf-atext","R02",R,"			if child.Type == html.TextNode {","			if child.Type == html.TextNode && child.Parent == node {"),
("mf-href","R02",R,"				link.HRef = href.String()","				href.RawQuery = \"\"\n				link.HRef = href.String()"),
("mf-dataempty","R02",R,"				link.DataAttrs[attr.Key] = attr.Val\n","				if attr.Val != \"\" {\n					link.DataAttrs[attr.Key] = attr.Val\n				}\n"),
("mf-pkgchar","R02",R,"			char == '.' ||\n","			char == '.' || char == '+' ||\n"),
("mf-basequery","R02",R,'	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"','	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"\n	u.RawQuery = ""'),
("mf-reqpyws","R02",R,'reqPy != "" {','reqPy != "" && !strings.Contains(reqPy, "*") && !strings.HasSuffix(reqPy, ",") {'),
("mf-useragent","R02",R,'	req.Header.Set("User-Agent", c.UserAgent)\n','	req.Header.Add("User-Agent", c.UserAgent)\n	req.Header.Set("User-Agent", "")\n'),
("mf-yankall","R03",YK,"		if good.Cmp(v) == 0 {","		if good.PublicVersion.Cmp(v.PublicVersion) == 0 {"),
("mf-yankeq","R03",A,"		if versions[i].Cmp(*selectedVersion) != 0 {","		if versions[i].String() != selectedVersion.String() {"),
("mf-rankzero","R03",A,"	if len(links) == 1 {\n		ret := links[0]\n		return &ret, nil\n	}\n\n	// the best","	if len(links) == 1 {\n		ret := links[0]\n		return &ret, nil\n	}\n\n	// the best"),
("mf-metacase","R04",P629,'		if name != "pypi:repository-version" {','		if name != "pypi:repository-version" || (node.Parent != nil && node.Parent.Data != "head") {'),
("mf-majorepoch","R04",P629,"	if version.Major() > SupportedVersion.Major() {","	if version.Major() > SupportedVersion.Major() && !version.IsPreRelease() {"),
("mf-emptyver","R04",P629,'	if verStr == "" {','	if strings := len(verStr); strings < 2 {'),
("mf-sigquery","R05",R,'	u.Fragment, u.RawFragment = "", "" //','	u.RawQuery = ""\n	u.Fragment, u.RawFragment = "", "" //'),
("mf-sigtrue","R05",R,'	case "false":\n','	case "false", "":\n'),
("mf-sigcase","R05",R,'	switch l.DataAttrs["data-gpg-sig"] {','	switch strings.ToLower(l.DataAttrs["data-gpg-sig"]) {'),
# pep345, tags, platform
("mf-345sp","V06",P345,"	str = strings.TrimSpace(str)\n","	str = strings.TrimSpace(strings.Trim(str, \"()\"))\n"),
("mf-345le","V06",P345,"		return ver.Cmp(spec.Version) <= 0","		return ver.PublicVersion.Cmp(spec.Version.PublicVersion) <= 0"),
("mf-345post","V06",P345,"		case spec.Version.Post != nil:\n			return ver.Dev == nil","		case spec.Version.Post != nil && spec.Version.Pre == nil:\n			return ver.Dev == nil"),
("mf-345lt","V06",P345,"			excl.CmpOp = pep440.CmpOpStrictExclude\n		}\n		return ver.Cmp","			excl.CmpOp = pep440.CmpOpStrictExclude\n		}\n		if spec.Version.Post != nil {\n			excl.CmpOp = pep440.CmpOpStrictExclude\n		}\n		return ver.Cmp"),
("mf-tagdec","V07",TG,'	for _, x := range strings.Split(t.Python, ".") {','	for _, x := range strings.Split(strings.ToLower(t.Python), ".") {'),
("mf-taglast","V07",TG,"		if Intersect([]Tag{it}, []Tag{t}) {\n			return i + 1","		if Intersect([]Tag{it}, t.Decompress()[:1]) || (i > 0 && Intersect([]Tag{it}, []Tag{t})) {\n			return i + 1"),
("mf-tagun","V07",TG,"	_t, err := ParseTag(string(txt))","	_t, err := ParseTag(strings.TrimSpace(string(txt)))"),
("mf-viserial","V08",PL,'		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}','		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial & 0xf}'),
("mf-vifinal","V08",PL,"		ret.Pre = nil\n","		ret.Pre = nil\n		if vi.Serial > 0 {\n			post := vi.Serial\n			ret.Post = &post\n		}\n"),
("mf-absw","W11",PL,"		if !filepath.IsAbs(pair.val) {","		if !filepath.IsAbs(filepath.Clean(pair.val)) {"),
("mf-absempty","W11",PL,"		if !filepath.IsAbs(pair.val) {","		if pair.val != \"\" && !filepath.IsAbs(pair.val) {"),
("mf-pcenv","W12",PC,'			if e := os.Getenv("PYTHONPATH"); e != "" {\n				pythonPathEnv = append(pythonPathEnv, e)\n			}','			if e := os.Getenv("PYTHONPATH"); e != "" {\n				pythonPathEnv = append([]string{e}, pythonPathEnv...)\n			}'),
("mf-pcdup","W12",PC,"		for _, inFile := range inFiles {\n","		for i, inFile := range inFiles {\n			if i > 0 && inFile.Name() == inFiles[i-1].Name() {\n				continue\n			}\n"),
("mf-pcclamp","W12",PC,"		if !clampTime.IsZero() {","		if clampTime.Unix() > 0 {"),
("mf-pcdot","W12",PC,'			if dirent.IsDir() || !strings','			if strings.HasPrefix(dirent.Name(), ".") && fullname != "." {\n				return nil\n			}\n			if dirent.IsDir() || !strings'),
("mf-modesock","W10",ST,"	case fs.ModeSocket:\n		pyMode |= ModeFmtSocket\n	}","	case fs.ModeSocket:\n		pyMode |= ModeFmtSocket\n	case fs.ModeIrregular:\n		pyMode |= ModeFmtRegular\n	}"),
("mf-modestr","W10",ST,'		"-xTt"[((pyMode>>0)&0o1)|((pyMode>>8)&0o2)],','		"-xTt"[((pyMode>>0)&0o1)|((pyMode>>9)&0o2)],'),
# record, entry points, config
("mf-recpyc","W06",RI,'} else if !strings.HasSuffix(name, ".pyc") {','} else if path.Ext(path.Dir(name)+".pyc") != path.Ext(name) || path.Base(name) == ".pyc" {'),
("mf-reccrlf","W06",RI,"		csvWriter.UseCRLF = true\n","		csvWriter.UseCRLF = len(csvData) > 2\n"),
("mf-recsize","W06",RI,"		size = strconv.FormatInt(file.Size(), 10)","		size = strconv.Itoa(int(int16(file.Size())))"),
("mf-recabs","W06",RI,"	name := filepath.ToSlash(fpName)","	name := filepath.ToSlash(fpName)\n	if strings.HasPrefix(name, \"../../../../\") {\n		name = \"/\" + file.FullName()\n	}"),
("mf-epname","W07",EP,'if key == "." || key == ".." || strings.Contains(key, "/") {','if key == ".." || strings.Contains(key, "/") {'),
("mf-epcolon","W07",EP,"				if len(parts) != 2 {","				if len(parts) < 2 {"),
("mf-epsect","W07",EP,"			if !ok {\n				continue\n			}\n			for key, val","			if !ok {\n				break\n			}\n			for key, val"),
("mf-cfgbom","W09",CP,'		value := strings.TrimSpace(line[:commentStart])','		value := strings.Trim(line[:commentStart], " \\t\\r\\n")'),
("mf-cfginline","W09",CP,"					commentStart = index\n					break","					commentStart = index"),
("mf-cfgdelim","W09",CP,"					if index < sepPos {","					if index < sepPos && index > 0 {"),
("mf-cfgtrim","W09",CP,'strings.TrimRight(strings.Join(curVal, "\\n"), "\\n")','strings.TrimSpace(strings.Join(curVal, "\\n"))'),
("mf-cfglastline","W09",CP,"			keepGoing = false\n","			keepGoing = false\n			if strings.HasPrefix(line, \" \") {\n				break\n			}\n"),
("mf-cfgstrict","W09",CP,"			} else if p.Strict {","			} else if p.Strict && len(config[sectName]) > 0 {"),
# image, inspection
("mf-wdrel","I03",PI,'					if !strings.HasPrefix(sys.imgWD, "/") {','					if sys.imgWD == "." {\n						sys.imgWD = "/"\n					} else if !strings.HasPrefix(sys.imgWD, "./") && !strings.HasPrefix(sys.imgWD, "/") {'),
("mf-envcase","I03",PI,"		if strings.HasPrefix(keyval, prefix) {","		if strings.HasPrefix(keyval, prefix) && len(keyval) > len(prefix) {"),
("mf-abspath","I03",PI,'			return "", err\n		}\n		return fullfilename, nil\n	}\n	for','			return "", err\n		}\n		return path.Clean(fullfilename), nil\n	}\n	for'),
("mf-pathclean","I03",PI,'	return strings.Split(path, ":")','	return strings.FieldsFunc(path, func(r rune) bool { return r == \':\' })'),
("mf-shw","I05",PY,'"python"+strings.TrimPrefix(filePart, "pythonw")','"python"+strings.TrimLeft(filePart, "pythonw")'),
("mf-shgraph","I05",PY,"	if dirPart, filePart := sys.Split(console); strings.HasPrefix(filePart, \"python\") &&","	if dirPart, filePart := sys.Split(generic); strings.HasPrefix(filePart, \"python\") &&"),
("mf-cfgnil","I01","cmd_image_build.go","	if flags.entrypoint != nil {","	if len(flags.entrypoint) != 0 && flags.entrypoint[0] != \"\" {"),
("mf-cfgenv","I01","cmd_image_build.go","	if flags.envClear {","	if flags.envClear && len(flags.envAppend) == 0 {"),
("mf-cfgzero","I01+I04","cmd_image_build.go","			if !flags.config.IsZero() {","			if !flags.config.IsZero() && flags.base != \"\" {"),
("mf-openfifo","I07",OP,"	bs, err := os.ReadFile(filename)\n	return func","	bs, err := os.ReadFile(filename)\n	if len(bs) == 0 {\n		err = os.ErrInvalid\n	}\n	return func"),
("mf-openonce","I07+C01",OP,"		return io.NopCloser(bytes.NewReader(bs)), nil","		ret := bytes.NewReader(bs)\n		bs = bs[:len(bs):len(bs)]\n		return io.NopCloser(ret), nil"),
("mf-epochws","I02","pkg/reproducible/source_date_epoch.go",'os.Getenv("SOURCE_DATE_EPOCH"), 10, 64)','os.Getenv("SOURCE_DATE_EPOCH"), 0, 64)'),
("mf-viewmode","L04",F,"	hdr.Name = f.lnk.header.Name\n	return","	hdr.Name = f.lnk.header.Name\n	if f.tgt != f.lnk {\n		hdr.ModTime = f.lnk.header.ModTime\n	}\n	return"),
("mf-viewdirerr","L04",F,"	if f.tgt.header != nil && f.tgt.header.Typeflag != tar.TypeDir {\n		return nil, ErrNotDir","	if f.tgt.header == nil || f.tgt.header.Typeflag != tar.TypeDir {\n		return nil, ErrNotDir"),
("mf-viewneg","L04",F,"	if n > 0 {\n		if n < len(ret)","	if n >= 0 && n != 0 || n < -1 {\n		if n > 0 && n < len(ret)"),
("mf-viewlnk","L04",F,"	if strings.HasPrefix(path.Base(lnk.name), \".wh.\") {","	if strings.HasPrefix(path.Base(name), \".wh..\") {"),
("mf-viewsort","L04",F,"			return f.dirents[i].Name() < f.dirents[j].Name()","			return len(f.dirents[i].Name()) < len(f.dirents[j].Name()) || len(f.dirents[i].Name()) == len(f.dirents[j].Name()) && f.dirents[i].Name() < f.dirents[j].Name()"),
]
