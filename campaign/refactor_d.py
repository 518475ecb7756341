S="pkg/python/pep440/01_version_scheme.go"; C="pkg/python/pep440/02_version_specifiers.go"; T="pkg/python/pep440/03_tail.go"
D="pkg/dockerutil/docker.go"; I="cmd_python_inspect.go"; LW="cmd_layer_wheel.go"; PI="pkg/python/pyinspect/pyinspect.go"; FN="pkg/python/pyinspect/fs_native.go"; FI="pkg/python/pyinspect/fs_image.go"
RI="pkg/python/pypa/recording_installs/recording_installs.go"; DU="pkg/python/pypa/direct_url/direct_url.go"; DJ="pkg/python/pypa/direct_url/json.go"
BP="pkg/cliutil/borrowed_pflag.go"; TE="pkg/cliutil/term.go"; CO="pkg/cliutil/cobra.go"
B="pkg/python/pypa/bdist/binary_distribution_format.go"; Q="pkg/squash/vfs.go"; DF="pkg/fsutil/diff.go"
M=[
("rd-cmpchain","V01+V03",(S,"""	if d := cmpEpoch(a, b); d != 0 {
		return d
	}
""","""	chain := []func(a, b PublicVersion) int{cmpEpoch, cmpRelease, cmpPreRelease, cmpPostRelease}
	for _, cmp := range chain {
		if d := cmp(a, b); d != 0 {
			return d
		}
	}
"""),(S,"""	if d := cmpRelease(a, b); d != 0 {
		return d
	}
""",""),(S,"""	if d := cmpPreRelease(a, b); d != 0 {
		return d
	}
""",""),(S,"""	if d := cmpPostRelease(a, b); d != 0 {
		return d
	}
""","")),
("rd-345","V06",("pkg/python/pep345/metadata.go","""		switch {
		case spec.Version.Dev != nil:
			// allow anything
			return true
		case spec.Version.Post != nil:
			// dissallow dev
			return ver.Dev == nil
		case spec.Version.Pre != nil:
			// dissallow dev, post
			return ver.Dev == nil && ver.Post == nil
		default:
			// dissallow dev, post, pre
			return ver.Dev == nil && ver.Post == nil && ver.Pre == nil
		}
""","""		if spec.Version.Dev != nil {
			return true
		}
		if ver.Dev != nil {
			return false
		}
		if spec.Version.Post != nil {
			return true
		}
		if ver.Post != nil {
			return false
		}
		return spec.Version.Pre != nil || ver.Pre == nil
""")),
("rd-filename","W01+R03+R06",(B,"""	ret.CompatibilityTag = pep425.Tag{
		Python:   match[reFilename.SubexpIndex("python")],
		ABI:      match[reFilename.SubexpIndex("abi")],
		Platform: match[reFilename.SubexpIndex("platform")],
	}

	return &ret, nil
""","""	group := func(name string) string {
		for i, n := range reFilename.SubexpNames() {
			if n == name {
				return match[i]
			}
		}
		return ""
	}
	ret.CompatibilityTag = pep425.Tag{Python: group("python"), ABI: group("abi"), Platform: group("platform")}

	return &ret, nil
""")),
("rd-sortkids","L01+L02",(Q,"""	sort.Slice(childNames, func(i, j int) bool {
		iStr := childNames[i]
		jStr := childNames[j]
		iWhiteout := strings.HasPrefix(iStr, ".wh.")
		jWhiteout := strings.HasPrefix(jStr, ".wh.")
		switch {
		case iStr == ".wh..wh..opq" || jStr == ".wh..wh..opq":
			// Applying an opaque marker discards any whiteouts applied before it.
			return jStr != ".wh..wh..opq"
		case iWhiteout && !jWhiteout:
			return true
		case !iWhiteout && jWhiteout:
			return false
		}
		return iStr < jStr
	})
""","""	sort.Strings(childNames)
	rank := func(name string) int {
		if name == ".wh..wh..opq" {
			return 0
		} else if strings.HasPrefix(name, ".wh.") {
			return 1
		}
		return 2
	}
	sort.SliceStable(childNames, func(i, j int) bool {
		return rank(childNames[i]) < rank(childNames[j])
	})
""")),
("rd-diff2","L06+I06",(DF,"""	const chunkSize = 1024

	var aBuf, bBuf [chunkSize]byte
	for {
		aLen, err := io.ReadFull(a, aBuf[:])
		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return false, err
		}
		bLen, err := io.ReadFull(b, bBuf[:])
		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return false, err
		}
		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {
			return false, nil
		}
		if aLen < chunkSize {
			// EOF
			break
		}
	}

	return true, nil
""","""	const chunkSize = 1024

	readChunk := func(r io.Reader) ([]byte, error) {
		buf := make([]byte, chunkSize)
		n, err := io.ReadFull(r, buf)
		switch {
		case err == nil, errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
			return buf[:n], nil
		default:
			return nil, err
		}
	}
	for more := true; more; {
		aChunk, err := readChunk(a)
		if err != nil {
			return false, err
		}
		bChunk, err := readChunk(b)
		if err != nil {
			return false, err
		}
		if bytes.Compare(aChunk, bChunk) != 0 {
			return false, nil
		}
		more = len(aChunk) == chunkSize
	}

	return true, nil
""")),
("rd-config2","I01+I04",("cmd_image_build.go","""			if !flags.config.IsZero() {
				configFile, err := img.ConfigFile()
				if err != nil {
					return err
				}

				flags.config.ApplyTo(&configFile.Config)

				img, err = mutate.Config(img, configFile.Config)
				if err != nil {
					return err
				}
			}
""","""			img, err = flags.config.applyToImage(img)
			if err != nil {
				return err
			}
"""),("cmd_image_build.go","""func init() {
""","""func (flags configFlags) applyToImage(img ociv1.Image) (ociv1.Image, error) {
	if flags.IsZero() {
		return img, nil
	}
	configFile, err := img.ConfigFile()
	if err != nil {
		return nil, err
	}
	config := *configFile.Config.DeepCopy()
	flags.ApplyTo(&config)
	return mutate.Config(img, config)
}

func init() {
""")),
("rd-env","I03+I05",(FI,"""	prefix := key + "="
	for _, keyval := range environ {
		if strings.HasPrefix(keyval, prefix) {
			// Mimicking syscall.Getenv() (syscall/env_unix.go), first-match wins.
			return strings.TrimPrefix(keyval, prefix), true
		}
	}
	return "", false
""","""	for i := 0; i < len(environ); i++ {
		eq := strings.IndexByte(environ[i], '=')
		if eq == len(key) && environ[i][:eq] == key {
			return environ[i][eq+1:], true
		}
	}
	return "", false
""")),
("rd-getwheel","R06+I10",("cmd_python_getwheel.go","""			for _, link := range links {
				if link.Text == filename {
					content, err := link.Get(ctx)
					if err != nil {
						return err
					}
					if _, err := os.Stdout.Write(content); err != nil {
						return err
					}
					return nil
				}
			}
			return fmt""","""			for i := range links {
				link := &links[i]
				if link.Text != filename {
					continue
				}
				content, err := link.Get(ctx)
				if err != nil {
					return err
				}
				_, err = io.Copy(os.Stdout, bytes.NewReader(content))
				return err
			}
			return fmt"""),("cmd_python_getwheel.go",'	"fmt"\n','	"bytes"\n	"fmt"\n	"io"\n')),
# new areas
("rd-docker","I09+I08",(D,"""	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
	pipe, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	defer func() {
		_ = pipe.Close()
		_ = cmd.Wait()
	}()
	if err := ociv1tarball.Write(tag, img, pipe); err != nil {
		return err
	}
	if err := pipe.Close(); err != nil {
		return err
	}
	if err := cmd.Wait(); err != nil {
		return err
	}
	return fn(ctx, tag)
}""","""	if err := load(ctx, tag, img); err != nil {
		return err
	}
	return fn(ctx, tag)
}

func load(ctx context.Context, tag name.Tag, img ociv1.Image) error {
	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
	stdin, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	werr := ociv1tarball.Write(tag, img, stdin)
	cerr := stdin.Close()
	perr := cmd.Wait()
	for _, err := range []error{werr, cerr, perr} {
		if err != nil {
			return err
		}
	}
	return nil
}""")),
("rd-docker2","I09+I08",(D,"""	maybeSetErr := func(_err error) {
		if _err != nil && err == nil {
			err = _err
		}
	}

""",""),(D,"""		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
""","""		rmErr := dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run()
		if err == nil {
			err = rmErr
		}
"""),(D,"""fmt.Sprintf("ocibuild.local/%s:%d.%d",
		repo, os.Getpid(), time.Now().UnixNano()))""","""strings.Join([]string{
		"ocibuild.local/" + repo + ":" + strconv.Itoa(os.Getpid()),
		strconv.FormatInt(time.Now().UnixNano(), 10),
	}, "."))"""),(D,'	"fmt"\n	"os"\n','	"os"\n	"strconv"\n	"strings"\n')),
("rd-owner","I08",(I,"""			foundOwner := false
			for _, dir := range dirs {
				info, err := sys.Stat(dir)
				if err != nil {
					continue
				}
				plat.UID = info.UID()
				plat.GID = info.GID()
				plat.UName = info.UName()
				plat.GName = info.GName()
				foundOwner = true
				break
			}
			if !foundOwner {
				return""","""			owner := firstOwner(sys, dirs)
			if owner != nil {
				plat.UID, plat.GID = owner.UID(), owner.GID()
				plat.UName, plat.GName = owner.UName(), owner.GName()
			} else {
				return"""),(I,"""func init() {
""","""func firstOwner(sys pyinspect.FS, dirs []string) pyinspect.FileInfo {
	for _, dir := range dirs {
		if info, err := sys.Stat(dir); err == nil {
			return info
		}
	}
	return nil
}

func init() {
""")),
("rd-host","I08",(I,"""				names := []string{
					fmt.Sprintf("python%d.%d", dyn.VersionInfo.Major, dyn.VersionInfo.Minor),
					fmt.Sprintf("python%d", dyn.VersionInfo.Major),
					"python",
				}
""","""				major := strconv.Itoa(dyn.VersionInfo.Major)
				names := make([]string, 0, 3)
				for _, suffix := range []string{major + "." + strconv.Itoa(dyn.VersionInfo.Minor), major, ""} {
					names = append(names, "python"+suffix)
				}
"""),(I,'	"os"\n','	"os"\n	"strconv"\n'),(I,"""			if _, err := os.Stdout.Write(bs); err != nil {
				return err
			}
			return nil
""","""			_, err = os.Stdout.Write(bs)
			return err
""")),
("rd-dyn","I08",(PI,"""	bs, err := cmd.Output()
	if err != nil {""","""	var stdout, stderr bytes.Buffer
	cmd.Stdout = &stdout
	cmd.Stderr = &stderr
	err := cmd.Run()
	bs := stdout.Bytes()
	if err != nil {"""),(PI,"string(exitErr.Stderr)","stderr.String()"),(PI,'import (\n','import (\n	"bytes"\n')),
("rd-native","I08",(FN,"""	usr, err := user.LookupId(fmt.Sprintf("%v", raw.Uid))""","""	usr, err := user.LookupId(strconv.FormatUint(uint64(raw.Uid), 10))"""),(FN,'	"path/filepath"\n','	"path/filepath"\n	"strconv"\n')),
("rd-wheelcmd","W15+I10",(LW,"""			yamlBytes, err := os.ReadFile(platFile)
			if err != nil {
				return err
			}
			var plat struct {
				python.Platform
				PyCompile []string
			}
			if err := yaml.Unmarshal(yamlBytes, &plat, yaml.DisallowUnknownFields); err != nil {
				return fmt.Errorf("%s: %w", platFile, err)
			}
			plat.Platform.PyCompile, err = python.ExternalCompiler(plat.PyCompile...)
			if err != nil {
				return err
			}
""","""			target, err := readPlatform(platFile)
			if err != nil {
				return err
			}
"""),(LW,"""				plat.Platform,
				time""","""				*target,
				time"""),(LW,"CreateScripts(plat.Platform)","CreateScripts(*target)"),(LW,"""			if err := fsutil.WriteLayer(layer, os.Stdout); err != nil {
				return err
			}
			return nil
""","""			return fsutil.WriteLayer(layer, os.Stdout)
"""),(LW,"""func init() {
""","""func readPlatform(filename string) (*python.Platform, error) {
	yamlBytes, err := os.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	type platFile struct {
		python.Platform
		PyCompile []string
	}
	plat := new(platFile)
	if err := yaml.Unmarshal(yamlBytes, plat, yaml.DisallowUnknownFields); err != nil {
		return nil, fmt.Errorf("%s: %w", filename, err)
	}
	compiler, err := python.ExternalCompiler(plat.PyCompile...)
	if err != nil {
		return nil, err
	}
	plat.Platform.PyCompile = compiler
	return &plat.Platform, nil
}

func init() {
""")),
("rd-wheelstrict","W15",(LW,"yaml.Unmarshal(yamlBytes, &plat, yaml.DisallowUnknownFields)","yaml.Unmarshal(yamlBytes, &plat, func(d *json.Decoder) *json.Decoder {\n				d.DisallowUnknownFields()\n				return d\n			})"),(LW,'import (\n','import (\n	"encoding/json"\n')),
("rd-direct","W14+W06",(DU,"""		header := &tar.Header{
			Typeflag: tar.TypeReg,
			Name:     path.Join(installedDistInfoDir, "direct_url.json"),
			Mode:     0o644,
			Size:     int64(len(bs)),
			ModTime:  clampTime,
		}
		vfs[header.Name] = &fsutil.InMemFileReference{
			FileInfo:  header.FileInfo(),
			MFullName: header.Name,
			MContent:  bs,
		}
		return nil
	}
}""","""		addFile(vfs, path.Join(installedDistInfoDir, "direct_url.json"), bs, clampTime)
		return nil
	}
}

func addFile(vfs map[string]fsutil.FileReference, filename string, content []byte, modTime time.Time) {
	header := tar.Header{
		Typeflag: tar.TypeReg,
		Name:     filename,
		Mode:     0o644,
		Size:     int64(len(content)),
		ModTime:  modTime,
	}
	vfs[filename] = &fsutil.InMemFileReference{
		FileInfo:  header.FileInfo(),
		MFullName: filename,
		MContent:  content,
	}
}""")),
("rd-json","W14",(DJ,"""	src, err := json.Marshal(typedObj)
	if err != nil {
		return nil, err
	}
	var untypedObj interface{}
	if err := json.Unmarshal(src, &untypedObj); err != nil {
		return nil, err
	}
""","""	var roundTrip bytes.Buffer
	if err := json.NewEncoder(&roundTrip).Encode(typedObj); err != nil {
		return nil, err
	}
	var untypedObj interface{}
	if err := json.NewDecoder(&roundTrip).Decode(&untypedObj); err != nil {
		return nil, err
	}
"""),(DJ,"""	src, err = json.Marshal(untypedObj)""","""	src, err := json.Marshal(untypedObj)""")),
("rd-wrapn","I11",(BP,"""	nlPos := strings.LastIndex(s[:i], "\\n")
	if nlPos > 0 && nlPos < w {
		return s[:nlPos], s[nlPos+1:]
	}
	return s[:w], s[w+1:]
""","""	cut := w
	if nl := strings.LastIndexByte(s[:w], '\\n'); nl > 0 {
		cut = nl
	}
	return s[:cut], s[cut+1:]
""")),
("rd-wrap","I11",(BP,"""	l, s = wrapN(wrap, slop, s)
	r = r + strings.Replace(l, "\\n", "\\n"+strings.Repeat(" ", i), -1)

	// Now wrap the rest
	for s != "" {
		var t string

		t, s = wrapN(wrap, slop, s)
		r = r + "\\n" + strings.Repeat(" ", i) + strings.Replace(t, "\\n", "\\n"+strings.Repeat(" ", i), -1)
	}

	return r
""","""	newline := "\\n" + strings.Repeat(" ", i)
	var out strings.Builder
	out.WriteString(r)
	for first := true; first || s != ""; first = false {
		if !first {
			out.WriteString(newline)
		}
		l, s = wrapN(wrap, slop, s)
		out.WriteString(strings.ReplaceAll(l, "\\n", newline))
	}
	return out.String()
""")),
("rd-term","I11",(TE,"""	if cols, err := strconv.Atoi(os.Getenv("COLUMNS")); err == nil {
		return cols
	}
""","""	if env, ok := os.LookupEnv("COLUMNS"); ok {
		if cols, err := strconv.ParseInt(env, 10, 0); err == nil {
			return int(cols)
		}
	}
""")),
("rd-cobra","I10",(CO,"""	errStr := strings.TrimRight(err.Error(), "\\n")
	if strings.Contains(errStr, "\\n") {
		errStr += "\\n"
	}

	fmt.Fprintf(cmd.ErrOrStderr(), "%s: %s\\nSee '%s --help' for more information.\\n",
		cmd.CommandPath(), errStr, cmd.CommandPath())
	os.Exit(2)
	return nil
""","""	msg := strings.TrimRight(err.Error(), "\\n")
	sep := "\\n"
	if strings.IndexByte(msg, '\\n') >= 0 {
		sep = "\\n\\n"
	}
	path := cmd.CommandPath()
	w := cmd.ErrOrStderr()
	_, _ = io.WriteString(w, path+": "+msg+sep)
	fmt.Fprintf(w, "See '%s --help' for more information.\\n", path)
	os.Exit(2)
	return nil
"""),(CO,'	"fmt"\n','	"fmt"\n	"io"\n')),
("rd-main","I10",("main.go","""	if err := argparser.ExecuteContext(ctx); err != nil {
		fmt.Fprintf(argparser.ErrOrStderr(), "%s: error: %v\\n", argparser.CommandPath(), err)
		os.Exit(1)
	}
""","""	os.Exit(run(ctx))
}

func run(ctx context.Context) int {
	err := argparser.ExecuteContext(ctx)
	if err == nil {
		return 0
	}
	fmt.Fprintf(os.Stderr, "%s: error: %v\\n", argparser.CommandPath(), err)
	return 1
""")),
("rd-seg","V09",(S,"""	if n < len(ver.Release) {
		return ver.Release[n]
	}
	return 0
""","""	for i, segment := range ver.Release {
		if i == n {
			return segment
		}
	}
	return 0
"""),(S,"	return ver.Pre == nil && ver.Post == nil && ver.Dev == nil\n","	hasSuffix := ver.Pre != nil || ver.Post != nil || ver.Dev != nil\n	return !hasSuffix\n")),
]
