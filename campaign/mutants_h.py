V='pkg/python/pep440/01_version_scheme.go'; S='pkg/python/pep440/02_version_specifiers.go'; T='pkg/python/pep425/tags.go'
A='pkg/python/pypa/simple_repo_api/pypa_repo_api.go'; SQ='pkg/squash/squash.go'; D='pkg/dir/dir.go'; FR='pkg/fsutil/fileref.go'; PC='pkg/python/py_compile.go'; PY='pkg/python/pyinspect/pyinspect.go'; G='pkg/gobuild/gobuild.go'; DU='pkg/python/pypa/direct_url/direct_url.go'; MI='pkg/python/pypa/bdist/misc.go'; RI='pkg/python/pypa/recording_installs/recording_installs.go'
M=[
("mh-relpad","P01",V,"	for i := 0; i < len(a.Release) || i < len(b.Release); i++ {\n		if diff","	for len(a.Release) < len(b.Release) {\n		a.Release = append(a.Release, 0)\n	}\n	for i := 0; i < len(a.Release) || i < len(b.Release); i++ {\n		if diff"),
("mh-lower","P01",V,"			aSeg = &(a.Local[i])\n","			aSeg = &(a.Local[i])\n			aSeg.StrVal = strings.ToLower(aSeg.StrVal)\n"),
("mh-prefixzero","P01",S,"	prefix.Release = prefix.Release[:len(prefix.Release)-1]\n	prefix.Pre = nil","	ver.Release = append(ver.Release, 0)\n	prefix.Release = prefix.Release[:len(prefix.Release)-1]\n	prefix.Pre = nil"),
("mh-selfilter","P01",S,"	for _, choice := range choices {\n		if spec.Match(choice) {\n			if","	matching := choices[:0]\n	for _, choice := range choices {\n		if spec.Match(choice) {\n			matching = append(matching, choice)\n		}\n	}\n	for _, choice := range matching {\n		if true {\n			if"),
("mh-chown","P01",D,"			if chown.UID >= 0 {\n				header.Uid = chown.UID\n","			if chown.UID < 0 {\n				chown.UID = header.Uid\n			}\n			if chown.UID >= 0 {\n				header.Uid = chown.UID\n"),
("mh-prefclean","P01",D,"		var dirs []string\n","		prefix.DirName = path.Base(prefix.DirName)\n		var dirs []string\n"),
("mh-gopkgs","P01",G,"	args := append([]string{","	for i, pkgname := range pkgnames {\n		if len(pkgname) > 1 && pkgname[len(pkgname)-1] == '/' {\n			pkgnames[i] = pkgname[:len(pkgname)-1]\n		}\n	}\n	args := append([]string{"),
("mh-ducommit","P01",DU,"		bs, err := jsonDumps(urlData)","		if urlData.ArchiveInfo != nil {\n			urlData.ArchiveInfo.Hash = path.Clean(urlData.ArchiveInfo.Hash + \"/\")\n		}\n		if urlData.VCSInfo != nil && urlData.VCSInfo.RequestedRevision == urlData.VCSInfo.CommitID {\n			urlData.VCSInfo.RequestedRevision = \"\"\n		}\n		bs, err := jsonDumps(urlData)"),
("mh-ppath","P01",PC,"			for _, dir := range pythonPath {\n				pythonPathEnv","			for i, dir := range pythonPath {\n				pythonPath[i] = filepath.Clean(dir)\n				pythonPathEnv"),
("mh-cmd0","P01",PC,"append(cmdline[1:len(cmdline):len(cmdline)],","append(cmdline[1:],"),
("mh-dyn0","P01",PY,"append(cmdline[1:len(cmdline):len(cmdline)], ","append(append(cmdline[:0], cmdline[1:]...), "),
("mh-platvi","P01",MI,"	return plat, nil\n","	if plat.VersionInfo != nil && plat.VersionInfo.ReleaseLevel == \"final\" {\n		plat.VersionInfo.Serial = 1\n	}\n	return plat, nil\n"),
("mh-filesort","P01",FR,"	vfs = append([]FileReference(nil), vfs...) // don't reorder the caller's slice\n","	if cap(vfs) == len(vfs) {\n		vfs = append([]FileReference(nil), vfs...)\n	}\n"),
("mh-seltags","P01",A,"	// 1. Filter by version\n","	// 1. Filter by version\n	for i := range c.SupportedTags {\n		if t := c.SupportedTags[i].Decompress(); len(t) > 1 {\n			c.SupportedTags[i] = t[0]\n		}\n	}\n"),
("mh-loadrev","P01",SQ,"	// Apply all the layers\n","	// Apply all the layers\n	for len(layers) > 1 && layers[len(layers)-1] == layers[len(layers)-2] {\n		layers[len(layers)-1] = nil\n		layers = layers[:len(layers)-1]\n	}\n"),
("mh-respelling","P01",S,"	return spec.Cmp(ver) == 0\n}","	for len(spec.Release) < len(ver.Release) {\n		spec.Release = append(spec.Release, 0)\n	}\n	return spec.Cmp(ver) == 0\n}"),
]
