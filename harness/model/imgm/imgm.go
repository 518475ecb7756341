// Package imgm models image assembly (mutate, tarball.Write, tarball.Image):
// an image is its configuration and its list of layers, and an image file is a
// token for the image written to it.  Native replay uses the real packages.
package imgm

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/google/go-containerregistry/pkg/name"
	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"github.com/google/go-containerregistry/pkg/v1/types"
)

type image struct {
	cfg    *ociv1.ConfigFile
	layers []ociv1.Layer
}

var errModel = errors.New("not part of the image model")

func (i *image) Layers() ([]ociv1.Layer, error)      { return append([]ociv1.Layer(nil), i.layers...), nil }
func (i *image) MediaType() (types.MediaType, error) { return types.DockerManifestSchema2, nil }
func (i *image) Size() (int64, error)                { return 0, errModel }
func (i *image) ConfigName() (ociv1.Hash, error)     { return ociv1.Hash{}, errModel }
func (i *image) ConfigFile() (*ociv1.ConfigFile, error) {
	if i.cfg == nil {
		return nil, errors.New("the image's configuration is not readable")
	}
	return i.cfg.DeepCopy(), nil
}
func (i *image) RawConfigFile() ([]byte, error)                { return nil, errModel }
func (i *image) Digest() (ociv1.Hash, error)                   { return ociv1.Hash{}, errModel }
func (i *image) Manifest() (*ociv1.Manifest, error)            { return nil, errModel }
func (i *image) RawManifest() ([]byte, error)                  { return nil, errModel }
func (i *image) LayerByDigest(ociv1.Hash) (ociv1.Layer, error) { return nil, errModel }
func (i *image) LayerByDiffID(ociv1.Hash) (ociv1.Layer, error) { return nil, errModel }

// The empty image.

//symgo:replace (*github.com/google/go-containerregistry/pkg/v1/partial.uncompressedImageExtender).ConfigFile
func EmptyConfig(p *int) (*ociv1.ConfigFile, error) {
	return &ociv1.ConfigFile{RootFS: ociv1.RootFS{Type: "layers"}}, nil
}

//symgo:replace (*github.com/google/go-containerregistry/pkg/v1/partial.uncompressedImageExtender).Layers
func EmptyLayers(p *int) ([]ociv1.Layer, error) { return nil, nil }

func load(base ociv1.Image) (*image, error) {
	c, err := base.ConfigFile()
	if err != nil {
		return &image{}, nil // the real package computes the result later
	}
	l, err := base.Layers()
	if err != nil {
		return nil, err
	}
	return &image{c.DeepCopy(), append([]ociv1.Layer(nil), l...)}, nil
}

//symgo:replace github.com/google/go-containerregistry/pkg/v1/mutate.Append
func Append(base ociv1.Image, adds ...mutate.Addendum) (ociv1.Image, error) {
	if len(adds) == 0 {
		return base, nil
	}
	i, err := load(base)
	if err != nil {
		return nil, err
	}
	for _, a := range adds {
		if i.cfg == nil {
			break
		}
		i.cfg.History = append(i.cfg.History, a.History)
		if a.Layer != nil {
			i.layers = append(i.layers, a.Layer)
		}
	}
	return i, nil
}

//symgo:replace github.com/google/go-containerregistry/pkg/v1/mutate.ConfigFile
func ConfigFile(base ociv1.Image, cfg *ociv1.ConfigFile) (ociv1.Image, error) {
	i, err := load(base)
	if err != nil {
		return nil, err
	}
	i.cfg = cfg
	return i, nil
}

type written struct {
	tag    string
	cfg    *ociv1.ConfigFile
	layers [][]byte
}

var files []written

//symgo:replace github.com/google/go-containerregistry/pkg/v1/tarball.MultiRefWrite
func Write(m map[name.Reference]ociv1.Image, w io.Writer, opts ...ociv1tarball.WriteOption) error {
	if len(m) != 1 {
		return errModel
	}
	for ref, img := range m {
		x := written{}
		if t, ok := ref.(name.Tag); ok {
			x.tag = t.String()
			if t.Identifier() == name.DefaultTag && !strings.HasSuffix(x.tag, ":"+name.DefaultTag) {
				x.tag += ":" + name.DefaultTag
			}
		}
		i, err := load(img)
		if err != nil {
			return err
		}
		if i.cfg == nil {
			_, err := i.ConfigFile()
			return err
		}
		x.cfg = i.cfg
		for _, l := range i.layers {
			r, err := l.Uncompressed()
			if err != nil {
				return err
			}
			b, err := io.ReadAll(r)
			if err != nil {
				return err
			}
			x.layers = append(x.layers, b)
		}
		files = append(files, x)
		_, err = w.Write([]byte{'I', 'M', 'G', '1', byte(len(files))})
		return err
	}
	return nil
}

type layer struct{ b []byte }

func (l *layer) Digest() (ociv1.Hash, error)          { return ociv1.Hash{}, errModel }
func (l *layer) DiffID() (ociv1.Hash, error)          { return ociv1.Hash{}, errModel }
func (l *layer) Compressed() (io.ReadCloser, error)   { return l.Uncompressed() }
func (l *layer) Uncompressed() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(l.b)), nil }
func (l *layer) Size() (int64, error)                 { return 0, errModel }
func (l *layer) MediaType() (types.MediaType, error)  { return types.DockerLayer, nil }

func read(o ociv1tarball.Opener) (*written, error) {
	r, err := o()
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if err := r.Close(); err != nil {
		return nil, err
	}
	if string(b) == "IMG-BAD-CONFIG" {
		return nil, nil
	}
	if len(b) != 5 || string(b[:4]) != "IMG1" || int(b[4]) > len(files) {
		return nil, errors.New("not an image file")
	}
	return &files[b[4]-1], nil
}

//symgo:replace github.com/google/go-containerregistry/pkg/v1/tarball.Image
func Image(o ociv1tarball.Opener, tag *name.Tag) (ociv1.Image, error) {
	x, err := read(o)
	if err != nil {
		return nil, err
	}
	if x == nil {
		return &image{}, nil
	}
	i := &image{cfg: x.cfg.DeepCopy()}
	for _, b := range x.layers {
		i.layers = append(i.layers, &layer{b})
	}
	return i, nil
}

//symgo:replace github.com/google/go-containerregistry/pkg/v1/tarball.LoadManifest
func LoadManifest(o ociv1tarball.Opener) (ociv1tarball.Manifest, error) {
	x, err := read(o)
	if err != nil {
		return nil, err
	}
	d := ociv1tarball.Descriptor{}
	if x.tag != "" {
		d.RepoTags = []string{x.tag}
	}
	return ociv1tarball.Manifest{d}, nil
}
