D="pkg/dockerutil/docker.go"; I="cmd_python_inspect.go"; LW="cmd_layer_wheel.go"; PI="pkg/python/pyinspect/pyinspect.go"; FN="pkg/python/pyinspect/fs_native.go"; FI="pkg/python/pyinspect/fs_image.go"
RI="pkg/python/pypa/recording_installs/recording_installs.go"; DU="pkg/python/pypa/direct_url/direct_url.go"; DJ="pkg/python/pypa/direct_url/json.go"
BP="pkg/cliutil/borrowed_pflag.go"; TE="pkg/cliutil/term.go"; CO="pkg/cliutil/cobra.go"; V="pkg/python/pep440/01_version_scheme.go"
FW="pkg/fsutil/write_layer.go"
M=[
("mc-tagsec","I09",D,"time.Now().UnixNano()","time.Now().Unix()"),
("mc-tagnopid","I09",D,"""fmt.Sprintf("ocibuild.local/%s:%d.%d",
		repo, os.Getpid(), time.Now().UnixNano()))""","""fmt.Sprintf("ocibuild.local/%s:%d",
		repo, os.Getpid()))"""),
("mc-rmafter","I09",(D,"""	defer func() {
		// Don't let a canceled ctx keep the image from being removed.
		ctx := dcontext.WithoutCancel(ctx)
		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
	}()
	cmd :=""","	cmd :="),(D,"""	return fn(ctx, tag)""","""	defer func() {
		ctx := dcontext.WithoutCancel(ctx)
		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
	}()
	return fn(ctx, tag)""")),
("mc-nodefer","I09",(D,"""	defer func() {
		// Don't let a canceled ctx keep the image from being removed.
		ctx := dcontext.WithoutCancel(ctx)
		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
	}()
	cmd :=""","	cmd :="),(D,"""	return fn(ctx, tag)""","""	err = fn(ctx, tag)
	maybeSetErr(dexec.CommandContext(dcontext.WithoutCancel(ctx), "docker", "image", "rm", tag.String()).Run())
	return err""")),
("mc-rmerr","I09",D,"maybeSetErr(dexec.CommandContext(ctx, \"docker\", \"image\", \"rm\", tag.String()).Run())","maybeSetErr(nil)\n		_ = dexec.CommandContext(ctx, \"docker\", \"image\", \"rm\", tag.String()).Run()"),
("mc-nowait","I09",D,"""	if err := cmd.Wait(); err != nil {
		return err
	}
	return fn""","	return fn"),
("mc-erroverride","I09",D,"if _err != nil && err == nil","if _err != nil"),
("mc-errdiscard","I09",D,"	return fn(ctx, tag)\n","	if err := fn(ctx, tag); err != nil && ctx.Err() == nil {\n		return err\n	}\n	return nil\n"),
("mc-dirorder","I08",I,"""				dyn.Scheme.PureLib,
				dyn.Scheme.PlatLib,
""","""				dyn.Scheme.PlatLib,
				dyn.Scheme.PureLib,
"""),
("mc-dirlast","I08",I,"""				foundOwner = true
				break
""","""				foundOwner = true
"""),
("mc-dirskip","I08",I,"""				dyn.Scheme.Scripts,
				dyn.Scheme.Data,
""","""				dyn.Scheme.Scripts,
"""),
("mc-gname","I08",I,"plat.GName = info.GName()","plat.GName = info.UName()"),
("mc-magic","I08",I,"if nativeDyn.MagicNumberB64 == dyn.MagicNumberB64 {","if nativeDyn.MagicNumberB64[:4] == dyn.MagicNumberB64[:4] {"),
("mc-minor","I08",I,"""fmt.Sprintf("python%d.%d", dyn.VersionInfo.Major, dyn.VersionInfo.Minor),
					fmt.Sprintf("python%d", dyn.VersionInfo.Major),""","""fmt.Sprintf("python%d", dyn.VersionInfo.Major),
					fmt.Sprintf("python%d.%d", dyn.VersionInfo.Major, dyn.VersionInfo.Minor),"""),
("mc-nobreak","I08",I,"""						plat.PyCompile = []string{name, "-m", "compileall"}
						break
""","""						plat.PyCompile = []string{name, "-m", "compileall"}
						continue
"""),
("mc-hostver","I08",I,"if nativeDyn.MagicNumberB64 == dyn.MagicNumberB64 {","if nativeDyn.VersionInfo.Major == dyn.VersionInfo.Major && nativeDyn.VersionInfo.Minor == dyn.VersionInfo.Minor {"),
("mc-graph","I08",I,"plat.PyCompile = []string{plat.ConsoleShebang,","plat.PyCompile = []string{plat.GraphicalShebang,"),
("mc-entry","I08",I,'"--entrypoint="+plat.ConsoleShebang','"--entrypoint="+flags.Interpreter'),
("mc-decoder2","I08",(PI,"""	if err := json.Unmarshal(bs, &data); err != nil {""","""	if err := json.NewDecoder(bytes.NewReader(bs)).Decode(&data); err != nil {"""),(PI,'import (\n','import (\n	"bytes"\n')),
("mc-outerr","I08",PI,"""	if err != nil {
		var exitErr""","""	if err != nil && len(bs) == 0 {
		var exitErr"""),
("mc-lstat","I08",FN,"os.Stat(name)","os.Lstat(name)"),
("mc-gidu","I08",FN,"user.LookupGroupId(fmt.Sprintf(\"%v\", raw.Gid))","user.LookupGroupId(fmt.Sprintf(\"%v\", raw.Uid))"),
("mc-imggid","I08",FI,"gid:      raw.Gid","gid:      raw.Uid"),
("mc-unkfields","W15",LW,"&plat, yaml.DisallowUnknownFields)","&plat)"),
("mc-hookorder","W15+W06",LW,"""					entry_points.CreateScripts(plat.Platform),
					recording_installs.Record(
						"sha256",
						"ocibuild layer wheel",
						nil, // direct_url
					),
""","""					recording_installs.Record(
						"sha256",
						"ocibuild layer wheel",
						nil, // direct_url
					),
					entry_points.CreateScripts(plat.Platform),
"""),
("mc-noentry","W15",LW,"""					entry_points.CreateScripts(plat.Platform),
""",""),
("mc-compiler","W15",LW,"""			if err != nil {
				return err
			}

			ctx :=""","""			if err != nil && len(plat.PyCompile) > 0 {
				return err
			}

			ctx :="""),
("mc-maxtime","W15",LW,"time.Time{}, // maxTime: zero; auto based on the timestamps in the wheel","time.Now(),"),
("mc-record","W14",RI,"if urlData != nil {","if urlData != nil && urlData.URL != \"\" {"),
("mc-rev","W14",DU,'json:"requested_revision,omitempty"','json:"requested_revision"'),
("mc-arch","W14",DU,'json:"archive_info,omitempty"','json:"archive_info"'),
("mc-edit","W14",DU,'json:"editable,omitempty"','json:"editable"'),
("mc-hashomit","W14",DU,'json:"hash,omitempty"','json:"hash"'),
("mc-comma","W14",DJ,"mapStack[depth] > 1 && mapStack[depth]%2 == 1","mapStack[depth] > 3 && mapStack[depth]%2 == 1"),
("mc-durecorder","W14",RI,"""		// 3. The RECORD file""","""		if f, ok := vfs[path.Join(installedDistInfoDir, "direct_url.json")]; ok && f.Size() > 64 {
			delete(vfs, f.FullName())
		}
		// 3. The RECORD file"""),
("mc-exit1","I10",CO,"""		cmd.CommandPath(), errStr, cmd.CommandPath())
	os.Exit(2)""","""		cmd.CommandPath(), errStr, cmd.CommandPath())
	os.Exit(1)"""),
("mc-posargs","I10","cmd_layer_dir.go","cliutil.WrapPositionalArgs(cobra.ExactArgs(1))","cobra.ExactArgs(1)"),
("mc-sqmin","I10","cmd_layer_squash.go","cobra.MinimumNArgs(2)","cobra.MinimumNArgs(1)"),
("mc-out","I10",CO,"fmt.Fprintf(cmd.ErrOrStderr()","fmt.Fprintf(cmd.OutOrStdout()"),
("mc-helpout","I10",CO,"	cmd.SetOutput(cmd.ErrOrStderr())\n",""),
("mc-onlysub","I10",CO,"if len(args) != 0 {","if len(args) == 1 {"),
("mc-flagerr","I10","main.go","	argparser.SetFlagErrorFunc(cliutil.FlagErrorFunc)\n",""),
("mc-mainerr","I10","main.go","		os.Exit(1)\n",""),
("mc-inspwrite","I10",I,"""			if _, err := os.Stdout.Write(bs); err != nil {
				return err
			}
			return nil""","""			_, _ = os.Stdout.Write(bs)
			return nil"""),
("mc-writel","I10",LW,"""			if err := fsutil.WriteLayer(layer, os.Stdout); err != nil {
				return err
			}
""","""			_ = fsutil.WriteLayer(layer, os.Stdout)
"""),
("mc-wrapnl","I11",BP,"return s[:nlPos], s[nlPos+1:]","return s[:nlPos], s[w+1:]"),
("mc-wrapw","I11",BP,"return s[:w], s[w+1:]","return s[:w], s[w:]"),
("mc-wrapsl","I11",BP,"	wrap = wrap - slop\n",""),
("mc-wrapind","I11",BP,"""		t, s = wrapN(wrap, slop, s)""","""		t, s = wrapN(w-slop, slop, s)"""),
("mc-wrapi","I11",BP,"if i+slop > len(s) {","if i > len(s) {"),
("mc-wrapi2","I11",BP,"if i+slop > len(s) {","if i+2*slop > len(s) {"),
("mc-wrapn0","I11",BP,"strings.Repeat(\" \", i), -1)\n	}\n\n	// space","strings.Repeat(\" \", i), 1)\n	}\n\n	// space"),
("mc-narrow","I11",BP,"		i = 16\n","		i = 4\n"),
("mc-cols","I11",TE,"err == nil {\n		return cols\n	}\n\n	// Try","err == nil && cols > 0 {\n		return cols\n	}\n\n	// Try"),
("mc-80","I11",TE,"	return 0\n","	return 80\n"),
("mc-micro","V09",V,"Micro() int { return ver.releaseSegment(2) }","Micro() int { return ver.releaseSegment(len(ver.Release) - 1) }"),
("mc-final","V09",V,"return ver.Pre == nil && ver.Post == nil && ver.Dev == nil","return ver.Pre == nil && ver.Dev == nil"),
("mc-localfinal","V09",V,"return ver.PublicVersion.IsFinal() && len(ver.Local) == 0","return ver.PublicVersion.IsFinal()"),
("mc-seg","V09",V,"	if n < len(ver.Release) {","	if n < len(ver.Release)-1 || n == 0 {"),
]
