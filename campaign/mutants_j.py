# Bugs written from the properties' texts, tenth round.
PC="pkg/python/py_compile.go"
IO="pkg/python/pypa/bdist/ioutil.go"
MI="pkg/python/pypa/bdist/misc.go"
RE="pkg/python/pypa/recording_installs/recording_installs.go"
CP="pkg/python/configparser.go"
M=[
("mj-gone","F01",PC,"			content, err := fs.ReadFile(dirFS, fullname)\n			if err != nil {\n				return err\n			}","			content, err := fs.ReadFile(dirFS, fullname)\n			if err != nil {\n				return nil\n			}"),
("mj-exec","W05+W04",MI,"externalAttrs.UNIX&0o111 != 0","externalAttrs.UNIX&0o100 != 0"),
("mj-execdir","W05+W04",MI,"externalAttrs.UNIX.IsRegular() && (externalAttrs","(externalAttrs"),
("mj-distslash","W13+W04",MI,"strings.Split(path.Clean(file.FileHeader.Name), \"/\")[0]","strings.Split(file.FileHeader.Name, \"/\")[0]"),
("mj-platclean","W04+W01",MI,'strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")','path.Clean(strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/"))'),
("mj-renexist","W04",IO,"exists && !(isDir && existing.IsDir())","exists && !existing.IsDir()"),
("mj-skip","W04+W05",IO,"		r.skip -= n\n","		r.skip = 0\n"),
("mj-pychash","W06",RE,'!strings.HasSuffix(name, ".pyc")','!strings.HasSuffix(name, "c")'),
("mj-hasher","W06",RE,"		hasher.Reset()\n","		if size == \"\" && hash == \"\" && strings.HasSuffix(name, \"y\") {\n			hasher.Reset()\n		}\n"),
("mj-reclast","W06",RE,"			return csvData[i][0] < csvData[j][0]","			return path.Base(csvData[i][0]) < path.Base(csvData[j][0])"),
("mj-indent","W09",CP,"curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel","curVal != nil && lineIndentLevel > 0"),
("mj-sectend","W09",CP,'sectName := value[1:strings.LastIndex(value, "]")]','sectName := value[1:strings.Index(value, "]")]'),
("mj-comment","W09",CP,"if curVal != nil && commentStart == len(line) {","if curVal != nil {"),
("mj-seppos","W09",CP,"					if index < sepPos {\n","					if sepLen == 0 {\n"),
("mj-flush","W09",CP,"			flushKV()\n			curIndentLevel = lineIndentLevel\n			sectName","			curVal, curKey = nil, \"\"\n			curIndentLevel = lineIndentLevel\n			sectName"),
("mj-dupopt","W09",CP,"			if _, exists := curSection[curKey]; p.Strict && exists {","			if v, exists := curSection[curKey]; p.Strict && exists && v != \"\" {"),
]
