M=[
("rc-config","I01",("cmd_image_build.go","""	if flags.envClear {
		config.Env = nil
	}
	config.Env = append(config.Env, flags.envAppend...)
""","""	env := make([]string, 0, len(config.Env)+len(flags.envAppend))
	if !flags.envClear {
		env = append(env, config.Env...)
	}
	config.Env = append(env, flags.envAppend...)
"""),("cmd_image_build.go","""	return reflect.ValueOf(flags).IsZero()
""","""	return !flags.envClear && flags.envAppend == nil && flags.entrypoint == nil && flags.cmd == nil && flags.workingDir == ""
"""),("cmd_image_build.go",'	"os"\n	"reflect"\n','	"os"\n')),
("rc-config2","I01+I03",("cmd_image_build.go","""			if !flags.config.IsZero() {
				configFile, err := img.ConfigFile()
				if err != nil {
					return err
				}
				flags.config.ApplyTo(&configFile.Config)
				img, err = mutate.Config(img, configFile.Config)
				if err != nil {
					return err
				}
			}
""","""			if img, err = applyConfig(img, flags.config); err != nil {
				return err
			}
"""),("cmd_image_build.go","""func init() {""","""func applyConfig(img ociv1.Image, flags configFlags) (ociv1.Image, error) {
	if flags.IsZero() {
		return img, nil
	}
	configFile, err := img.ConfigFile()
	if err != nil {
		return nil, err
	}
	config := *configFile.Config.DeepCopy()
	flags.ApplyTo(&config)
	return mutate.Config(img, config)
}

func init() {""")),
("rc-layers","I01+I03",("cmd_image_build.go","""			layers := make([]ociv1.Layer, 0, len(args))
			for _, layerpath := range args {
				layer, err := fsutil.OpenLayer(layerpath)
				if err != nil {
					return err
				}
				layers = append(layers, layer)
			}

			img, err""","""			layers := make([]ociv1.Layer, len(args))
			for i := range args {
				var err error
				if layers[i], err = fsutil.OpenLayer(args[i]); err != nil {
					return err
				}
			}

			img, err""")),
("rc-now","I02+I06+L08",("pkg/reproducible/source_date_epoch.go","""		secs, err := strconv.ParseInt(os.Getenv("SOURCE_DATE_EPOCH"), 10, 64)
		if err == nil {
			now = time.Unix(secs, 0)
		} else {
			now = time.Now()
		}
""","""		now = time.Now()
		if env, ok := os.LookupEnv("SOURCE_DATE_EPOCH"); ok {
			if secs, err := strconv.ParseInt(env, 10, 64); err == nil {
				now = time.Unix(secs, 0)
			}
		}
""")),
("rc-gob","I06",("cmd_layer_gobuild.go","""				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {
					return err
				}
				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_WRONLY, 0o666)
""","""				if err := os.RemoveAll(outputFilename); err != nil {
					return err
				}
				outputFile, err := os.Create(outputFilename)
""")),
("rc-gob2","I06",("cmd_layer_gobuild.go","""				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {
					return err
				}
				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_WRONLY, 0o666)
""","""				if err := os.Remove(outputFilename); err != nil && !os.IsNotExist(err) {
					return err
				}
				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o666)
""")),
("rc-gob3","L08+I06",("pkg/gobuild/gobuild.go","""	args := append([]string{
		"go", "build",
		"-trimpath",
		"-o", tmpdir,
		"--",
	}, pkgnames...)
	cmd := dexec.CommandContext(ctx, args[0], args[1:]...)
""","""	cmd := dexec.CommandContext(ctx, "go", append([]string{"build", "-trimpath", "-o", tmpdir, "--"}, pkgnames...)...)
""")),
("rc-env","I04+I05",("pkg/python/pyinspect/fs_image.go","""	prefix := key + "="
	for _, keyval := range environ {
		if strings.HasPrefix(keyval, prefix) {
			return strings.TrimPrefix(keyval, prefix), true
		}
	}
	return "", false
""","""	for _, keyval := range environ {
		if k, v, ok := strings.Cut(keyval, "="); ok && k == key {
			return v, true
		}
	}
	return "", false
"""),("pkg/python/pyinspect/fs_image.go","""	if path == "" {
		return []string{}
	}
	return strings.Split(path, ":")
""","""	list := []string{}
	if len(path) > 0 {
		list = append(list, strings.Split(path, ":")...)
	}
	return list
""")),
("rc-look","I04+I05",("pkg/python/pyinspect/fs_image.go","""	if mode := fileinfo.Mode(); mode.IsDir() || mode&0o111 == 0 {
		return fs.ErrPermission
	}
	return nil
""","""	mode := fileinfo.Mode()
	if fileinfo.IsDir() || mode.Perm()&0o111 == 0 {
		return fmt.Errorf("%s: %w", fullfilename, fs.ErrPermission)
	}
	return nil
"""),("pkg/python/pyinspect/fs_image.go",'	"io/fs"\n','	"fmt"\n	"io/fs"\n')),
("rc-shebang","I05",("pkg/python/pyinspect/pyinspect.go","""	console = generic
	if dirPart, filePart := sys.Split(console); strings.HasPrefix(filePart, "pythonw") {
		withoutW := sys.Join(dirPart, "python"+strings.TrimPrefix(filePart, "pythonw"))
		if withoutW, err := sys.LookPath(withoutW); err == nil {
			console = withoutW
		}
	}
""","""	console = generic
	dirPart, filePart := sys.Split(generic)
	if strings.HasPrefix(filePart, "pythonw") {
		candidate := sys.Join(dirPart, strings.Replace(filePart, "pythonw", "python", 1))
		if found, err := sys.LookPath(candidate); err == nil {
			console = found
		}
	}
""")),
("rc-getwheel","R06",("cmd_python_getwheel.go","""			for _, link := range links {
				if link.Text == filename {
					content, err := link.Get(ctx)
					if err != nil {
						return err
					}
					if _, err := os.Stdout.Write(content); err != nil {
						return err
					}
					return nil
				}
			}

			return fmt""","""			for i := 0; i < len(links); i++ {
				if links[i].Text != filename {
					continue
				}
				content, err := links[i].Get(ctx)
				if err != nil {
					return err
				}
				_, err = io.Copy(os.Stdout, bytes.NewReader(content))
				return err
			}

			return fmt"""),("cmd_python_getwheel.go",'	"fmt"\n','	"bytes"\n	"fmt"\n	"io"\n')),
("rc-write","I07+I06+L08",("pkg/fsutil/write.go","""	if _, err := io.Copy(dst, layerReader); err != nil {
		return err
	}
	return nil
""","""	buf := bufio.NewWriter(dst)
	if _, err := io.Copy(buf, layerReader); err != nil {
		return err
	}
	return buf.Flush()
"""),("pkg/fsutil/write.go",'	"io"\n','	"bufio"\n	"io"\n')),
("rc-stat","I04+I05+W11",("pkg/python/pyinspect/fs_image.go","""	fsName := path.Clean(name)[1:]
	if fsName == "" {
		fsName = "."
	}
""","""	fsName := strings.TrimPrefix(path.Clean(name), "/")
	if len(fsName) == 0 {
		fsName = "."
	}
""")),
]
