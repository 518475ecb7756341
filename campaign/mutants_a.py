V='pkg/python/pep440/01_version_scheme.go'; S='pkg/python/pep440/02_version_specifiers.go'; T='pkg/python/pep440/03_tail.go'
B='pkg/python/pypa/bdist/binary_distribution_format.go'; IO='pkg/python/pypa/bdist/ioutil.go'; MI='pkg/python/pypa/bdist/misc.go'
M=[
("v01-post-default0","V01",V,"	bPost := -1\n","	bPost := 0\n"),
("v01-dev-post","V01",V,"	} else if b.Dev != nil && b.Post == nil {\n		bL = -4","	} else if b.Dev != nil {\n		bL = -4"),
("v01-local-str-ci","V01",V,"		case a.StrVal < b.StrVal:\n			return -1\n","		case len(a.StrVal) < len(b.StrVal):\n			return -1\n		case a.StrVal < b.StrVal:\n			return -1\n"),
("v01-epoch-sign","V01",V,"	return a.Epoch - b.Epoch","	return int(int8(a.Epoch - b.Epoch))"),
("v01-pre-n-only","V01",V,"	if aL != bL {\n		return aL - bL\n	}\n	return aN - bN","	if aL != bL && aN == bN {\n		return aL - bL\n	}\n	if aL != bL {\n		return aL - bL\n	}\n	return int(int16(aN - bN))"),
("v02-local-lower","V02",T,"intstr.Parse(strings.ToLower(part))","intstr.Parse(part)"),
("v02-post-n1","V02",T,'match[reVersion.SubexpIndex("post_n1")]+match[reVersion.SubexpIndex("post_n2")]','match[reVersion.SubexpIndex("post_n2")]'),
("v02-preview","V02",T,'"rc": {"c", "pre", "preview"}','"rc": {"c", "preview"}'),
("v02-epoch0","V02",V,"	if ver.Epoch > 0 {","	if ver.Epoch > 1 {"),
("v02-implicit1","V02",T,'			number = "0"','			number = "1"'),
("v03-compat-post","V03",S,"	prefix.Post = nil\n	prefix.Dev = nil","	prefix.Dev = nil"),
("v03-lt-local","V03",S,"func matchLT(spec, ver Version) bool {\n	return spec.Cmp(ver) > 0","func matchLT(spec, ver Version) bool {\n	return spec.PublicVersion.Cmp(ver.PublicVersion) > 0 || spec.Cmp(ver) > 0"),
("v03-le-public","V03",S,"func matchLE(spec, ver Version) bool {\n	return spec.Cmp(ver) >= 0","func matchLE(spec, ver Version) bool {\n	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0"),
("v03-strict-local","V03",S,"	return spec.Cmp(ver) == 0","	return spec.PublicVersion.Cmp(ver.PublicVersion) == 0 && len(spec.Local) == len(ver.Local) && cmpLocal(spec, ver) <= 0"),
("v03-prefix-pre-n","V03",S,"		ver.Pre.N != spec.Pre.N) {","		ver.Pre.N < spec.Pre.N) {"),
("v03-gt-epoch","V03",S,"	if spec.Post == nil && ver.Post != nil &&\n		cmpEpoch(spec.PublicVersion, ver.PublicVersion) == 0 &&","	if spec.Post == nil && ver.Post != nil &&"),
("v04-trim","V04",S,'		clauseStr = strings.TrimSpace(clauseStr)\n		if clauseStr == "" {','		if clauseStr == "" {'),
("v04-minseg","V04",S,"		minSegments = 2\n",""),
("v04-devok","V04",S,'		ret.CmpOp = CmpOpStrictExclude\n		str = str[2:]\n		localOK = true\n		if strings.HasSuffix(str, ".*") {\n			ret.CmpOp = CmpOpPrefixExclude\n			str = strings.TrimSuffix(str, ".*")\n			devOK = false','		ret.CmpOp = CmpOpStrictExclude\n		str = str[2:]\n		localOK = true\n		if strings.HasSuffix(str, ".*") {\n			ret.CmpOp = CmpOpPrefixExclude\n			str = strings.TrimSuffix(str, ".*")'),
("v04-localok-ge","V04",S,"	case strings.HasPrefix(str, \">=\"):\n		ret.CmpOp = CmpOpGE\n","	case strings.HasPrefix(str, \">=\"):\n		ret.CmpOp = CmpOpGE\n		localOK = true\n"),
("v05-le0","V05",S,"				if best == nil || best.Cmp(choice) < 0 {","				if best == nil || best.PublicVersion.Cmp(choice.PublicVersion) < 0 {"),
("v05-ptr","V05",S,"					val := choice\n					best = &val","					best = &choice"),
("v05-allowlist","V05",S,"		if item.Cmp(ver) == 0 {","		if item.Cmp(ver) >= 0 {"),
("v05-ispre","V05",V,"	return ver.Pre != nil || ver.Dev != nil\n}\n\nfunc cmpDev","	return ver.Pre != nil || (ver.Dev != nil && ver.Post == nil)\n}\n\nfunc cmpDev"),
("v06-ne","V06","pkg/python/pep345/metadata.go","			return ver.Dev == nil && ver.Post == nil && ver.Pre == nil","			return ver.Dev == nil && ver.Post == nil"),
("v06-lt","V06","pkg/python/pep345/metadata.go","		return ver.Cmp(spec.Version) < 0 && excl.Match(ver)","		return ver.Cmp(spec.Version) < 0 && (ver.Dev == nil || excl.Match(ver))"),
("v06-gt","V06","pkg/python/pep345/metadata.go","		return ver.Cmp(spec.Version) > 0\n","		return ver.PublicVersion.Cmp(spec.Version.PublicVersion) > 0\n"),
("v07-pref","V07","pkg/python/pep425/tags.go","	return len(inst) + 1","	return len(inst)"),
("v07-dec","V07","pkg/python/pep425/tags.go",'strings.Split(t.Platform, ".")','strings.SplitN(t.Platform, ".", 3)'),
("v07-first-b","V07","pkg/python/pep425/tags.go","				for _, b2 := range b1.Decompress() {","				for _, b2 := range append(b1.Decompress()[:1], b1) {"),
("v08-rc","V08","pkg/python/platform.go",'	case "candidate":','	case "candidate", "gamma":'),
("w01-build","W01",B,"(?P<build_n>[0-9]+)","(?P<build_n>[1-9][0-9]*)"),
("w01-norm","W01",B,'regexp.MustCompile("[-_.]+").ReplaceAllLiteralString(data.Distribution, "_")','regexp.MustCompile("[-_.]").ReplaceAllLiteralString(data.Distribution, "_")'),
("w01-cmp","W01",B,"	case a.Str < b.Str:\n		return -1","	case len(a.Str) < len(b.Str):\n		return -1"),
("w02-size","W02",B,'		if recSize != "" && strconv.FormatInt(actSize, 10) != recSize {','		if recSize != "" && recHashsum == "" && strconv.FormatInt(actSize, 10) != recSize {'),
("w02-jws","W02",B,'		case path.Join(distInfoDir, "RECORD.jws"):','		case path.Join(distInfoDir, "RECORD.jws"), path.Join(distInfoDir, "INSTALLER"):'),
("w02-nohash","W02",B,'		if recHashsum == "" || recSize == "" {','		if recHashsum == "" && recSize == "" {'),
("w02-continue","W02",B,"		name, recHashsum, recSize := path.Clean(row[0]), row[1], row[2]\n","		name, recHashsum, recSize := path.Clean(row[0]), row[1], row[2]\n		if _, ok := todo[name]; !ok && i > 0 {\n			continue\n		}\n"),
("w02-weak","W02",B,'	"sha256": sha256.New,\n','	"sha256": sha256.New,\n	"sha224": sha256.New224,\n'),
("w03-version","W13",B,"	if wheelVersion.Major() > specVersion.Major() {","	if wheelVersion.Major() > specVersion.Major()+1 {"),
("w03-multidist","W13",MI,"	default:\n		list := make","	case 2:\n		for infoDir := range infoDirs {\n			wh.cachedDistInfoDir = infoDir\n			return infoDir, nil\n		}\n		panic(\"not reached\")\n	default:\n		list := make"),
("w04-platlib","W04",B,'		case "platlib":\n			dstDataDir = plat.Scheme.PlatLib','		case "platlib":\n			dstDataDir = dstDir'),
("w04-parent","W04",B,'for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {','for dir := path.Dir(filename); dir != "." && path.Dir(dir) != "."; dir = path.Dir(dir) {'),
("w04-rename","W04",IO,"	if isDir {\n		ref.(*zipEntry).header.Name += \"/\"\n	}\n	delete(oldvfs","	delete(oldvfs"),
("w04-record","W04",B,'	delete(vfs, path.Join(dstDir, distInfoDir, "RECORD.p7s"))\n','	delete(vfs, path.Join(dstDir, distInfoDir, "RECORD.p7s"))\n	delete(vfs, path.Join(dstDir, distInfoDir, "REQUESTED"))\n'),
("w05-exec","W05",MI,"(externalAttrs.UNIX&0o111 != 0)","(externalAttrs.UNIX&0o100 != 0)"),
("w05-mtime","W05",IO,"	if !mtime.IsZero() {","	if !mtime.IsZero() && content.header.Modified.Before(mtime) {"),
("w05-gname","W05",B,"			header.Gname = plat.GName\n",""),
("w05-dirmode","W05",IO,"		externalAttrs.UNIX = python.ModeFmtDir | 0o755","		externalAttrs.UNIX = python.ModeFmtDir | 0o775"),
("w06-pyc","W06","pkg/python/pypa/recording_installs/recording_installs.go",'} else if !strings.HasSuffix(name, ".pyc") {','} else if !strings.Contains(name, ".pyc") {'),
("w06-reset","W06","pkg/python/pypa/recording_installs/recording_installs.go","		hasher.Reset()\n",""),
("w06-sort","W06","pkg/python/pypa/recording_installs/recording_installs.go","			return csvData[i][0] < csvData[j][0]","			return path.Dir(csvData[i][0]) < path.Dir(csvData[j][0])"),
("w06-base","W06","pkg/python/pypa/recording_installs/recording_installs.go",'path.Join(path.Base(installedDistInfoDir), "RECORD"), "", ""','path.Join(installedDistInfoDir, "RECORD"), "", ""'),
("w07-import","W07","pkg/python/pypa/entry_points/entry_points.go",'strings.SplitN(parts[1], ".", 2)[0]','parts[1]'),
("w07-shebang","W07","pkg/python/pypa/entry_points/entry_points.go",'{"gui_scripts", plat.GraphicalShebang}','{"gui_scripts", plat.ConsoleShebang}'),
("w07-extras","W07","pkg/python/pypa/entry_points/entry_points.go",r'(?:\s*\[.*\])?$`',r'(?:\[.*\])?$`'),
("w08-skip","W08",B,"			skip++\n			shebang = plat.GraphicalShebang","			shebang = plat.GraphicalShebang"),
("w08-size","W08",B,"		entry.header.UncompressedSize64 += 2 + uint64(len(shebang))\n		entry.header.UncompressedSize64 -= uint64(skip)","		entry.header.UncompressedSize64 += 2 + uint64(len(shebang))\n		entry.header.UncompressedSize64 -= uint64(len(header))"),
("w08-notscripts","W08",B,'		if key != "scripts" {\n','		if key != "scripts" && key != "data" {\n'),
("w09-cont","W09","pkg/python/configparser.go","lineIndentLevel > 0 && lineIndentLevel > curIndentLevel","lineIndentLevel > 0 && lineIndentLevel >= curIndentLevel"),
("w09-dup","W09","pkg/python/configparser.go","			if _, exists := curSection[curKey]; p.Strict && exists {","			if _, exists := curSection[value[:sepPos]]; p.Strict && exists {"),
("w09-lastidx","W09","pkg/python/configparser.go",'sectName := value[1:strings.LastIndex(value, "]")]','sectName := value[1:strings.Index(value, "]")]'),
("w09-comment","W09","pkg/python/configparser.go","if curVal != nil && commentStart == len(line) {","if curVal != nil {"),
("w10-setgid","W10","pkg/python/stat.go","	if goMode&fs.ModeSetgid != 0 {\n		pyMode |= ModePermSetGID","	if goMode&(fs.ModeSetgid|fs.ModeIrregular) != 0 {\n		pyMode |= ModePermSetGID"),
("w10-todos","W10","pkg/python/stat.go","DOSAttribute(fa & 0b00110111)","DOSAttribute(fa & 0b01110111)"),
("w11-rel","W11","pkg/python/platform.go",'		{"headers", plat.Scheme.Headers},\n',''),
("w12-seed","W12","pkg/python/py_compile.go",'			"PYTHONHASHSEED=0")','			"PYTHONHASHSEED=1")'),
("w12-mtime","W12","pkg/python/py_compile.go","os.Chtimes(tmpfilename, inFile.ModTime(), inFile.ModTime())","os.Chtimes(tmpfilename, clampTime, clampTime)"),
("w12-suffix","W12","pkg/python/py_compile.go",'!strings.HasSuffix(fullname, ".pyc")','strings.HasSuffix(fullname, ".py")'),
]
