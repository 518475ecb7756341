package whlh

import (
	"context"
	"errors"
	"os"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

type ctxKey struct{}

// CtxInstall: the compiler and every hook get the caller's context, and the
// first that gives up because it is cancelled ends the installation.
func CtxInstall() {
	parent := context.WithValue(context.Background(), ctxKey{}, "v")
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	at := int(nd.Byte()) // before the call, or during one of the steps
	n := 0               // steps so far
	step := func(c context.Context) error {
		nd.Assert(c.Value(ctxKey{}) == "v", "a step does not get the caller's context")
		n++
		if nd.SymBranch(at == n) {
			cancel()
		}
		return c.Err()
	}
	if nd.SymBranch(at == 0) {
		cancel()
	}
	p := plat()
	p.PyCompile = func(ctx context.Context, clamp time.Time, pp []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		if err := step(ctx); err != nil {
			return nil, err
		}
		return compile(ctx, clamp, pp, in)
	}
	hook := func(ctx context.Context, clamp time.Time, vfs map[string]fsutil.FileReference, d string) error {
		return step(ctx)
	}
	k := nd.Choose(3)
	var hs []bdist.PostInstallHook
	for i := 0; i < k; i++ {
		hs = append(hs, hook)
	}
	es := []zent{wheelFile("true"), zfile("f.py", nd.Bytes(1))}
	es = append(es, record(es))
	dir, err := os.MkdirTemp("", "verif-whl")
	try(err)
	defer os.RemoveAll(dir)
	l, err := bdist.InstallWheel(ctx, p, time.Time{}, time.Unix(100, 0), pack(dir, es), bdist.PostInstallHooks(hs...))
	cut := at <= k+1
	nd.Assert((err != nil) == cut, "installing succeeds exactly when it is cancelled")
	if err != nil {
		nd.Assert(errors.Is(err, context.Canceled) && l == nil, "a cancelled installation yields a layer or another error")
		want := at
		if at == 0 {
			want = 1
		}
		nd.Assert(n == want, "a step follows the one that was cancelled")
		nd.Reach("cut")
	} else {
		nd.Assert(n == k+1, "a step is left out")
	}
	nd.Reach("end")
}
