// Package dockh checks running something with an image loaded into Docker; the
// docker program is a stand-in that records how it is used.
package dockh

import (
	"context"
	"errors"
	"io"
	"os"
	"strings"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/pkg/dockerutil"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/layh"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

const script = `#!/bin/sh
log() { printf '%s\n' "$*" >>"$0.log"; }
case "$2" in
load) n=1; test ! -e "$0.img1" || n=2; cat >"$0.img$n"; sleep 0.1; log "$@"; test ! -e "$0.noload";;
rm) log "$@"; test ! -e "$0.norm";;
*) log "$@"; exit 9;;
esac
`

func must(err error) {
	if err != nil {
		nd.SymSkip()
	}
}

func slurp(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return string(b)
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

func docker(path string, args, env []string, in []byte) (stdout, stderr []byte, code int) {
	log := slurp(path+".log") + strings.Join(args[1:], " ") + "\n"
	must(os.WriteFile(path+".log", []byte(log), 0o644))
	if len(args) < 3 {
		return nil, nil, 9
	}
	switch args[2] {
	case "load":
		n := "1"
		if exists(path + ".img1") {
			n = "2"
		}
		must(os.WriteFile(path+".img"+n, in, 0o644))
		if exists(path + ".noload") {
			code = 1
		}
	case "rm":
		if exists(path + ".norm") {
			code = 1
		}
	default:
		code = 9
	}
	return nil, nil, code
}

var errAction = errors.New("action")

type badImage struct{ ociv1.Image }

func (badImage) Layers() ([]ociv1.Layer, error)         { return nil, errors.New("no layers") }
func (badImage) ConfigFile() (*ociv1.ConfigFile, error) { return nil, errors.New("no config") }
func (badImage) RawConfigFile() ([]byte, error)         { return nil, errors.New("no config") }
func (badImage) Manifest() (*ociv1.Manifest, error)     { return nil, errors.New("no manifest") }
func (badImage) ConfigName() (ociv1.Hash, error)        { return ociv1.Hash{}, errors.New("no config") }

func opener(p string) ociv1tarball.Opener {
	return func() (io.ReadCloser, error) { return os.Open(p) }
}

// WithImage: load, act, remove.
func WithImage() {
	d, err := os.MkdirTemp("", "zz")
	must(err)
	defer os.RemoveAll(d)
	dk := d + "/docker"
	execw.Proc = docker
	missing := false
	fail := nd.Choose(8)
	if fail == 1 {
		missing = true
	} else {
		must(os.WriteFile(dk, []byte(script), 0o755))
		must(os.Chmod(dk, 0o755))
	}
	must(os.Setenv("PATH", d+":/usr/bin:/bin"))
	norm := nd.Flip()
	if fail == 2 {
		must(os.WriteFile(dk+".noload", nil, 0o644))
	}
	if norm {
		must(os.WriteFile(dk+".norm", nil, 0o644))
	}
	img := ociv1.Image(empty.Image)
	body := nd.Bytes(1)
	img, err = mutate.AppendLayers(img, layh.MkLayer([]layh.Ent{{Name: "f", Kind: '0', Mode: 0o644, Time: 7, Body: body}}))
	must(err)
	img, err = mutate.Config(img, ociv1.Config{WorkingDir: "/wd"})
	must(err)
	if fail == 3 {
		img = badImage{img}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := nd.From(2+nd.Choose(2), "abz0")
	if fail == 7 {
		n = nd.Pick("A", "a b", "a:b:c", "")
	}
	called := 0
	loaded := ""
	panicked := false
	var got error
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); !ok || s != "action" {
					panic(r)
				}
				panicked = true
			}
		}()
		got = dockerutil.WithImage(ctx, n, img, func(c context.Context, tag name.Tag) error {
			called++
			loaded = tag.String()
			nd.Assert(c.Err() == nil, "the action's context is done")
			nd.Assert(slurp(dk+".log") == "image load\n", "the action does not run with exactly the image loaded")
			switch fail {
			case 4:
				return errAction
			case 5:
				panic("action")
			case 6:
				cancel()
				return ctx.Err()
			}
			return nil
		})
	}
	run()
	log := slurp(dk + ".log")
	if missing || fail == 7 {
		nd.Assert(got != nil && called == 0 && log == "", "failing to start docker is not an error")
		nd.Reach("missing")
		return
	}
	if fail == 2 || fail == 3 {
		nd.Assert(got != nil && called == 0, "failing to load the image is not an error")
		nd.Assert(strings.HasPrefix(log, "image load\nimage rm ocibuild.local/"+n+":") && strings.Count(log, "\n") == 2, "a partly loaded image is not removed")
		nd.Reach("notloaded")
		return
	}
	nd.Assert(called == 1, "the action is not run exactly once")
	nd.Assert(log == "image load\nimage rm "+loaded+"\n", "the image is not removed exactly once after the action")
	nd.Assert(strings.HasPrefix(loaded, "ocibuild.local/"+n+":"), "the image is not loaded under the name asked for")
	m, err := ociv1tarball.LoadManifest(opener(dk + ".img1"))
	nd.Assert(err == nil && len(m) == 1 && len(m[0].RepoTags) == 1 && m[0].RepoTags[0] == loaded, "the image is not loaded under the tag that the action is given")
	li, err := ociv1tarball.Image(opener(dk+".img1"), nil)
	nd.Assert(err == nil, "what is loaded is not an image")
	ls, err := li.Layers()
	nd.Assert(err == nil && len(ls) == 1, "another image is loaded")
	cf, err := li.ConfigFile()
	nd.Assert(err == nil && cf.Config.WorkingDir == "/wd", "another image is loaded")
	es := layh.RdLayer(ls[0])
	nd.Assert(len(es) == 1 && es[0].Name == "f" && string(es[0].Body) == string(body), "another image is loaded")
	switch {
	case fail == 5:
		nd.Assert(panicked, "the action's panic is lost")
		nd.Reach("panic")
	case fail == 4 || fail == 6:
		nd.Assert(fail != 4 || got == errAction, "the action's error is lost")
		nd.Assert(got != nil, "the action's error is lost")
		nd.Reach("action")
	case norm:
		nd.Assert(got != nil, "failing to remove the image is not an error")
		nd.Reach("norm")
	default:
		nd.Assert(got == nil, "using an image fails")
		// the same again gets another tag
		first := loaded
		must(os.Remove(dk + ".log"))
		got = dockerutil.WithImage(ctx, n, img, func(c context.Context, tag name.Tag) error {
			nd.Assert(tag.String() != first, "two images get the same tag")
			return nil
		})
		nd.Assert(got == nil, "using an image fails")
		nd.Reach("ok")
	}
}
