V='pkg/squash/vfs.go'; VF='pkg/squash/vfs_fs.go'; P='pkg/python/pep503/simple_repo_api.go'; B='pkg/python/pypa/bdist/binary_distribution_format.go'; PC='pkg/python/py_compile.go'; OP='pkg/fsutil/open.go'; A='pkg/python/pypa/simple_repo_api/pypa_repo_api.go'; CF='pkg/python/configparser.go'; RI='pkg/python/pypa/recording_installs/recording_installs.go'; FR='pkg/fsutil/fileref.go'; G='pkg/gobuild/gobuild.go'
M=[
("mi-maxlinks","L01+L04",V,"const maxLinks = 40","const maxLinks = 2"),
("mi-rootonce","L01+L04",V,"		for dir.parent != dir {","		if dir.parent != dir {"),
("mi-wasfile","L01",V,"wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir","wasFile := f.header != nil && f.header.Typeflag == tar.TypeReg"),
("mi-symopq","L01",V,"		if f.header != nil && f.header.Typeflag != tar.TypeDir {\n			if !create","		if f.header != nil && f.header.Typeflag == tar.TypeReg {\n			if !create"),
("mi-dirpos","L04",VF,"	f.pos += len(ret)\n	return ret","	if n > 0 {\n		f.pos += len(ret)\n	}\n	return ret"),
("mi-statname","L04",VF,"	hdr.Name = f.lnk.header.Name\n",""),
("mi-readdirall","L04",VF,"	ret := f.dirents[f.pos:]\n	if n > 0 {","	ret := f.dirents[f.pos:]\n	if n <= 0 {\n		ret = f.dirents\n	}\n	if n > 0 {"),
("mi-requrl","R02",P,"return resp.Request.URL, content, nil","return req.URL, content, nil"),
("mi-normone","R02",P,'"[-_.]+"','"[-_.]"'),
("mi-sumfirst","R01",P,"			for _, val := range vals {\n				newHasher","			for _, val := range vals[:1] {\n				newHasher"),
("mi-sumlast","R01",P,"				if sum != val {","				if sum != vals[len(vals)-1] {"),
("mi-sig4xx","R05",P,"httpErr.StatusCode == http.StatusNotFound","httpErr.StatusCode/100 == 4"),
("mi-rawpath","R05",P,"	if u.RawPath != \"\" {\n		u.RawPath += \".asc\"\n	}\n",""),
("mi-yankfew","R03",A,"	if len(links) == 0 {\n		links = yanked","	if len(links) < len(yankedLinks) {\n		links = yanked"),
("mi-minrank0","R03",A,"		if minRank == 0 || rank < minRank {","		if minRank == 0 || rank <= minRank {"),
("mi-envorder","W12",PC,"		cmd.Env = append(os.Environ(),\n			\"PYTHONHASHSEED=0\")","		cmd.Env = append([]string{\"PYTHONHASHSEED=0\"}, os.Environ()...)"),
("mi-gobenv","L08",G,"	cmd.Env = append(os.Environ(),\n		\"GOOS=linux\",\n		\"GOARCH=amd64\")","	cmd.Env = append([]string{\n		\"GOOS=linux\",\n		\"GOARCH=amd64\"}, os.Environ()...)"),
("mi-pipe","I07",OP,"	if fileinfo.Mode().IsRegular() {","	if !fileinfo.IsDir() {"),
("mi-seclast","W09",CF,'sectName := value[1:strings.LastIndex(value, "]")]','sectName := value[1:strings.Index(value, "]")]'),
("mi-indent","W09",CF,"lineIndentLevel > 0 && lineIndentLevel > curIndentLevel","lineIndentLevel > 0 && lineIndentLevel >= curIndentLevel"),
("mi-dupempty","W09",CF,"if _, exists := curSection[curKey]; p.Strict && exists {","if prev := curSection[curKey]; p.Strict && prev != \"\" {"),
("mi-dupsect","W09",CF,"			if _, exists := config[sectName]; !exists {","			if len(config[sectName]) == 0 {"),
("mi-nosect","W09",CF,"			if curSection == nil {","			if len(config) == 0 {"),
("mi-parentsfirst","W04+W07+W01",B,"	for filename := range vfs {\n		for dir := path.Dir(filename); dir != \".\"; dir = path.Dir(dir) {","	for filename, file := range vfs {\n		if file.IsDir() {\n			continue\n		}\n		for dir := path.Dir(filename); dir != \".\"; dir = path.Dir(dir) {"),
("mi-recsort","W06",RI,"			return csvData[i][0] < csvData[j][0]","			return len(csvData[i][0]) < len(csvData[j][0])"),
("mi-recsize","W06",RI,"		size = strconv.FormatInt(file.Size(), 10)\n","		if file.Size() > 0 {\n			size = strconv.FormatInt(file.Size(), 10)\n		}\n"),
("mi-sorthash","L06",FR,"			if iPart != jPart {\n				return iPart < jPart\n			}","			if len(iPart) != len(jPart) && strings.EqualFold(iPart, jPart) {\n				return len(iPart) < len(jPart)\n			}\n			if !strings.EqualFold(iPart, jPart) {\n				return iPart < jPart\n			}"),
("mi-ctime","L06",FR,"		if header.ChangeTime.After(clampTime) {\n			header.ChangeTime = clampTime\n		}\n",""),
("mi-compileabs","W12",PC,'			"-p", "/", //','			"-p", "", //'),
("mi-ppathjoin","W12",PC,"			if e := os.Getenv(\"PYTHONPATH\"); e != \"\" {\n				pythonPathEnv = append(pythonPathEnv, e)\n			}\n",""),
("mi-rootpure","W02+W03",B,'if metadata.Get("Root-Is-Purelib") == "true" {','if metadata.Get("Root-Is-Purelib") != "false" {'),
("mi-wver","W02+W03+W01",B,"if wheelVersion.Major() > specVersion.Major() {","if wheelVersion.Cmp(*specVersion) > 0 && wheelVersion.Major() != specVersion.Major() && wheelVersion.Minor() > 0 {"),
]
