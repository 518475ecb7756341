package pyh

import (
	"context"
	"errors"
	"io"
	"os"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

// ctxSource cancels the context when it is opened.
type ctxSource struct {
	*source
	cancel func()
	at     bool // symbolic
}

func (s *ctxSource) Open() (io.ReadCloser, error) {
	if nd.SymBranch(s.at) {
		s.cancel()
	}
	return s.source.Open()
}

func ran(tool string) bool {
	_, err := os.Stat(tool + ".args")
	return err == nil
}

// CtxRun: no compiler and no interpreter is started for a cancelled call, and nothing comes of it.
func CtxRun() {
	execw.Hook = func(path string, args, env []string) error {
		if args[len(args)-2] == "-c" { // an inspection
			must(os.WriteFile(path+".args", nil, 0o644))
			return errors.New("exit status 9")
		}
		return toolHook(path, args, env)
	}
	d, err := os.MkdirTemp("", "zz")
	must(err)
	defer os.RemoveAll(d)
	must(os.WriteFile(d+"/tool", []byte(tool), 0o755))
	must(os.Chmod(d+"/tool", 0o755))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := int(nd.Byte()) // before the call, at the opening of a source, or never
	nd.Assume(at <= 3)
	if nd.SymBranch(at == 0) {
		cancel()
	}
	n := nd.Choose(3)
	var refs []fsutil.FileReference
	for i := 0; i < n; i++ {
		refs = append(refs, &ctxSource{source: mkSource([]string{"lib/a.py", "b/c.py"}[i], nd.Bytes(nd.Choose(2)), 0), cancel: cancel, at: at == i+1})
	}
	c, err := python.ExternalCompiler(d+"/tool", "ok")
	nd.Assert(err == nil, "a present compiler is refused")
	out, err := c(ctx, time.Time{}, nil, refs)
	cut := at <= n
	nd.Assert((err != nil) == cut, "compiling succeeds exactly when it is cancelled")
	nd.Assert(ran(d+"/tool") == !cut, "the compiler is run exactly when the call is cancelled")
	if err != nil {
		nd.Assert(errors.Is(err, context.Canceled) && len(out) == 0, "a cancelled compilation yields files or another error")
		must(os.RemoveAll(d + "/tool.args"))
		di, err := pyinspect.Dynamic(ctx, d+"/tool", "fail")
		nd.Assert(errors.Is(err, context.Canceled) && di == nil, "a cancelled inspection has a result or another error")
		nd.Assert(!ran(d+"/tool"), "the interpreter is run for a cancelled call")
		nd.Reach("cut")
	} else {
		nd.Assert(len(out) == n, "compiling does not yield its files")
	}
	nd.Reach("end")
}
