S="pkg/python/pep440/01_version_scheme.go"; C="pkg/python/pep440/02_version_specifiers.go"; T="pkg/python/pep440/03_tail.go"
R="pkg/python/pep503/simple_repo_api.go"; A="pkg/python/pypa/simple_repo_api/pypa_repo_api.go"
M=[
("ra-cmpint","V01+V03+V05",(S,"""	return aPost - bPost
}""","""	return sign(aPost, bPost)
}

func sign(x, y int) int {
	if x < y {
		return -1
	}
	if x > y {
		return 1
	}
	return 0
}"""),(S,"	return a.Epoch - b.Epoch\n","	return sign(a.Epoch, b.Epoch)\n"),(S,"	return aN - bN\n","	return sign(aN, bN)\n")),
("ra-cmpchain","V01+V03",(S,"""	if d := cmpEpoch(a, b); d != 0 {
		return d
	}
	if d := cmpRelease(a, b); d != 0 {
		return d
	}
	if d := cmpPreRelease(a, b); d != 0 {
		return d
	}
	if d := cmpPostRelease(a, b); d != 0 {
		return d
	}
	if d := cmpDevRelease(a, b); d != 0 {
		return d
	}
	return 0
""","""	for _, fn := range []func(a, b PublicVersion) int{
		cmpEpoch,
		cmpRelease,
		cmpPreRelease,
		cmpPostRelease,
		cmpDevRelease,
	} {
		if d := fn(a, b); d != 0 {
			return d
		}
	}
	return 0
""")),
("ra-local","V01+V02",(S,"""		switch {
		case a.StrVal < b.StrVal:
			return -1
		case a.StrVal > b.StrVal:
			return 1
		}
		return 0
""","		return strings.Compare(a.StrVal, b.StrVal)\n")),
("ra-string","V02+V04",(S,"""	fmt.Fprintf(ret, "%d", ver.Release[0])
	for _, segment := range ver.Release[1:] {
		fmt.Fprintf(ret, ".%d", segment)
	}
""","""	segs := make([]string, len(ver.Release))
	for i := range ver.Release {
		segs[i] = strconv.Itoa(ver.Release[i])
	}
	ret.WriteString(strings.Join(segs, "."))
"""),(S,'	"fmt"\n	"strings"\n','	"fmt"\n	"strconv"\n	"strings"\n')),
("ra-prestr","V02",(S,"""		fmt.Fprintf(ret, "%s%d", ver.Pre.L, ver.Pre.N)
""","""		_, _ = ret.WriteString(fmt.Sprint(ver.Pre.L) + fmt.Sprint(ver.Pre.N))
""")),
("ra-op","V03+V04+V05",(C,"""	fn, ok := map[CmpOp]func(spec, ver Version) bool{
		CmpOpCompatible:    matchCompatible,
		CmpOpStrictMatch:   matchStrictMatch,
		CmpOpPrefixMatch:   matchPrefixMatch,
		CmpOpStrictExclude: matchStrictExclude,
		CmpOpPrefixExclude: matchPrefixExclude,
		CmpOpLE:            matchLE,
		CmpOpGE:            matchGE,
		CmpOpLT:            matchLT,
		CmpOpGT:            matchGT,
	}[op]
	if !ok {
		panic(fmt.Errorf("invalid CmpOp: %d", op))
	}
	return fn(spec, ver)
""","""	switch op {
	case CmpOpCompatible:
		return matchCompatible(spec, ver)
	case CmpOpStrictMatch:
		return matchStrictMatch(spec, ver)
	case CmpOpPrefixMatch:
		return matchPrefixMatch(spec, ver)
	case CmpOpStrictExclude:
		return !matchStrictMatch(spec, ver)
	case CmpOpPrefixExclude:
		return !matchPrefixMatch(spec, ver)
	case CmpOpLE:
		return matchLE(spec, ver)
	case CmpOpGE:
		return matchGE(spec, ver)
	case CmpOpLT:
		return matchLT(spec, ver)
	case CmpOpGT:
		return matchGT(spec, ver)
	default:
		panic(fmt.Errorf("invalid CmpOp: %d", op))
	}
"""),(C,"""func matchStrictExclude(spec, ver Version) bool {
	return !matchStrictMatch(spec, ver)
}

""",""),(C,"""func matchPrefixExclude(spec, ver Version) bool {
	return !matchPrefixMatch(spec, ver)
}

""","")),
("ra-clauses","V04+V03",(C,"""	clauseStrs := strings.FieldsFunc(str, func(r rune) bool { return r == ',' })
""","""	clauseStrs := strings.Split(str, ",")
""")),
("ra-select","V05",(C,"""				if best == nil || best.Cmp(choice) < 0 {
					val := choice
					best = &val
				}
""","""				best = higher(best, choice)
"""),(C,"""				if bestExcluded == nil || bestExcluded.Cmp(choice) < 0 {
					val := choice
					bestExcluded = &val
				}
""","""				bestExcluded = higher(bestExcluded, choice)
"""),(C,"""type AllowAll struct{}""","""func higher(cur *Version, candidate Version) *Version {
	if cur != nil && cur.Cmp(candidate) >= 0 {
		return cur
	}
	return &candidate
}

type AllowAll struct{}""")),
("ra-parse","V02+V01",(T,"""	localParts := strings.FieldsFunc(match[reVersion.SubexpIndex("local")], func(r rune) bool {
		return strings.ContainsRune("-_.", r)
	})
	for _, part := range localParts {
		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
	}
""","""	if local := strings.ToLower(match[reVersion.SubexpIndex("local")]); local != "" {
		local = strings.NewReplacer("-", ".", "_", ".").Replace(local)
		for _, part := range strings.Split(local, ".") {
			ver.Local = append(ver.Local, intstr.Parse(part))
		}
	}
"""),(T,"""	var ver Version
	var err error
""","""	groups := make(map[string]string)
	for i, name := range reVersion.SubexpNames() {
		if name != "" {
			groups[name] = match[i]
		}
	}
	var ver Version
	var err error
"""),(T,"""strings.Split(match[reVersion.SubexpIndex("release")], ".")""","""strings.Split(groups["release"], ".")""")),
("ra-parseint","V02",(T,"""		segInt, err := strconv.Atoi(segStr)
		if err != nil {
			return nil, err
		}
		ver.Release = append(ver.Release, segInt)
""","""		segInt, err := strconv.ParseInt(segStr, 10, 0)
		if err != nil {
			return nil, err
		}
		ver.Release = append(ver.Release, int(segInt))
""")),
("ra-tag","V07+V08",("pkg/python/pep425/tags.go","""	parts := strings.Split(str, "-")
	if len(parts) != 3 {
""","""	parts := strings.SplitN(str, "-", 4)
	if len(parts) != 3 {
"""),("pkg/python/pep425/tags.go","""	return t.Python + "-" + t.ABI + "-" + t.Platform
""","""	return strings.Join([]string{t.Python, t.ABI, t.Platform}, "-")
"""),("pkg/python/pep425/tags.go","""	for _, a1 := range a {
		for _, a2 := range a1.Decompress() {
			for _, b1 := range b {
				for _, b2 := range b1.Decompress() {
					if a2 == b2 {
						return true
					}
				}
			}
		}
	}
	return false
""","""	have := make(map[Tag]struct{})
	for _, t := range a {
		for _, x := range t.Decompress() {
			have[x] = struct{}{}
		}
	}
	for _, t := range b {
		for _, x := range t.Decompress() {
			if _, ok := have[x]; ok {
				return true
			}
		}
	}
	return false
""")),
("ra-345","V06+R02",("pkg/python/pep345/metadata.go","""		if !base.Match(ver) {
			return false
		}
		switch {
		case spec.Version.Dev != nil:
			return true
		case spec.Version.Post != nil:
			return ver.Dev == nil
		case spec.Version.Pre != nil:
			return ver.Dev == nil && ver.Post == nil
		default:
			return ver.Dev == nil && ver.Post == nil && ver.Pre == nil
		}
""","""		return base.Match(ver) && noFurtherParts(spec.Version, ver)
"""),("pkg/python/pep345/metadata.go","""func (spec VersionSpecifierClause) Match(""","""func noFurtherParts(spec, ver pep440.Version) bool {
	if spec.Dev != nil {
		return true
	}
	if ver.Dev != nil {
		return false
	}
	if spec.Post != nil {
		return true
	}
	if ver.Post != nil {
		return false
	}
	return spec.Pre != nil || ver.Pre == nil
}

func (spec VersionSpecifierClause) Match(""")),
("ra-get","R01+R02+R05+R06",(R,"""	content, err := io.ReadAll(resp.Body)
	if err != nil {
		_ = resp.Body.Close()
		return nil, nil, err
	}
	if err := resp.Body.Close(); err != nil {
		return nil, nil, err
	}
""","""	var buf bytes.Buffer
	_, err = io.Copy(&buf, resp.Body)
	if cerr := resp.Body.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return nil, nil, err
	}
	content := buf.Bytes()
"""),(R,"""				hasher := newHasher()
				hasher.Write(content)
				sum := hex.EncodeToString(hasher.Sum(nil))
""","""				hasher := newHasher()
				if _, err := io.Copy(hasher, bytes.NewReader(content)); err != nil {
					return nil, nil, err
				}
				sum := fmt.Sprintf("%x", hasher.Sum(nil))
""")),
("ra-get2","R01+R05",(R,"""				sum := hex.EncodeToString(hasher.Sum(nil))
				if sum != val {
""","""				sum := hex.EncodeToString(hasher.Sum(nil))
				if strings.Compare(sum, val) != 0 {
"""),(R,"""	req.Header.Set("User-Agent", c.UserAgent)
""","""	req.Header["User-Agent"] = []string{c.UserAgent}
""")),
("ra-norm","R02+R06",(R,"""	return strings.ToLower(regexp.MustCompile("[-_.]+").ReplaceAllLiteralString(str, "-"))
""","""	return strings.ToLower(strings.Join(reSeparators.Split(str, -1), "-"))
"""),(R,"""func normalize(""","""var reSeparators = regexp.MustCompile("[-_.]+")

func normalize(""")),
("ra-pkgname","R02+R06",(R,"""	for _, char := range pkgname {
		if !(('a' <= char && char <= 'z') ||
			('A' <= char && char <= 'Z') ||
			('0' <= char && char <= '9') ||
			char == '.' ||
			char == '-' ||
			char == '_') {
			return nil, fmt.Errorf("illegal character in pkgname: %q: %s",
				pkgname, strconv.QuoteRuneToASCII(char))
		}
	}
""","""	if i := strings.IndexFunc(pkgname, func(r rune) bool {
		return !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_", r)
	}); i >= 0 {
		return nil, fmt.Errorf("illegal character in pkgname: %q: %s", pkgname, strconv.QuoteToASCII(pkgname[i:]))
	}
""")),
("ra-urljoin","R02+R06",(R,"""	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"
""","""	u.Path = path.Clean(u.Path+"/"+normalize(pkgname)) + "/"
""")),
("ra-select2","R03",(A,"""	sort.Slice(links, func(i, j int) bool {
		iInfo, _ := bdist.ParseFilename(links[i].Text)
		jInfo, _ := bdist.ParseFilename(links[j].Text)
		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
	})
	ret := links[0]
	return &ret, nil
""","""	best := 0
	for i := range links {
		iInfo, _ := bdist.ParseFilename(links[i].Text)
		jInfo, _ := bdist.ParseFilename(links[best].Text)
		if iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0 {
			best = i
		}
	}
	ret := links[best]
	return &ret, nil
"""),(A,'	"sort"\n',"")),
("ra-select3","R03",(A,"""	sort.Slice(links,""","""	sort.SliceStable(links,""")),
("ra-629","R04",("pkg/python/pep629/simple_api_versions.go","""		_verStr, ok := htmlutil.GetAttr(node, "", "content")
		if ok {
			verStr = _verStr
		}
		return nil
""","""		for _, attr := range node.Attr {
			if attr.Namespace == "" && strings.EqualFold(attr.Key, "content") {
				verStr = attr.Val
				break
			}
		}
		return nil
"""),("pkg/python/pep629/simple_api_versions.go",'	"fmt"\n','	"fmt"\n	"strings"\n')),
]
