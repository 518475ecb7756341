// Package execm models running programs: the harness's hook runs instead.
package execm

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"strings"

	"github.com/datawire/dlib/dexec"

	"github.com/datawire/ocibuild/zz_verif/execw"
	"github.com/datawire/ocibuild/zz_verif/nd"
)

func runnable(p string) bool {
	i, err := os.Stat(p)
	return err == nil && !i.IsDir() && i.Mode()&0o111 != 0
}

//symgo:replace os/exec.LookPath
func LookPath(f string) (string, error) {
	if strings.Contains(f, "/") {
		if runnable(f) {
			return f, nil
		}
		return "", &exec.Error{Name: f, Err: fs.ErrNotExist}
	}
	for _, d := range strings.Split(os.Getenv("PATH"), ":") {
		if d != "" && runnable(d+"/"+f) {
			return d + "/" + f, nil
		}
	}
	return "", &exec.Error{Name: f, Err: exec.ErrNotFound}
}

//symgo:replace github.com/datawire/dlib/dexec.CommandContext
func DCommand(ctx context.Context, name string, arg ...string) *dexec.Cmd {
	return &dexec.Cmd{Cmd: CommandContext(ctx, name, arg...)}
}

//symgo:replace os/exec.CommandContext
func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	c := Command(name, arg...)
	get(c).ctx = ctx
	return c
}

//symgo:replace os/exec.Command
func Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).Run
func DRun(c *dexec.Cmd) error { return Run(c.Cmd) }

//symgo:replace (*os/exec.Cmd).Run
func Run(c *exec.Cmd) error {
	if err := Start(c); err != nil {
		return err
	}
	return Wait(c)
}

type proc struct {
	c    *exec.Cmd
	ctx  context.Context
	path string
	in   *pipe
	done bool
}

var procs []*proc

func get(c *exec.Cmd) *proc {
	for _, p := range procs {
		if p.c == c {
			return p
		}
	}
	p := &proc{c: c}
	procs = append(procs, p)
	return p
}

type pipe struct {
	buf    []byte
	closed bool
}

func (p *pipe) Write(b []byte) (int, error) {
	if p.closed {
		return 0, os.ErrClosed
	}
	p.buf = append(p.buf, b...)
	return len(b), nil
}

func (p *pipe) Close() error {
	if p.closed {
		return os.ErrClosed
	}
	p.closed = true
	return nil
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).Start
func DStart(c *dexec.Cmd) error { return Start(c.Cmd) }

//symgo:replace (*os/exec.Cmd).Start
func Start(c *exec.Cmd) error {
	q := get(c)
	if q.path != "" {
		return errors.New("exec: already started")
	}
	p, err := LookPath(c.Path)
	if err != nil {
		return err
	}
	if q.ctx != nil && q.ctx.Err() != nil {
		return q.ctx.Err()
	}
	q.path = p
	return nil
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).Wait
func DWait(c *dexec.Cmd) error { return Wait(c.Cmd) }

//symgo:replace (*os/exec.Cmd).Wait
func Wait(c *exec.Cmd) error {
	q := get(c)
	if q.path == "" {
		return errors.New("exec: not started")
	}
	if q.done {
		return errors.New("exec: Wait was already called")
	}
	q.done = true
	env := c.Env
	if env == nil {
		env = os.Environ()
	}
	args, env := append([]string(nil), c.Args...), append([]string(nil), env...)
	if execw.Proc == nil {
		return execw.Hook(q.path, args, env)
	}
	var in []byte
	if q.in != nil {
		if !q.in.closed {
			nd.SymUnsupported("a program waits for its input for ever")
		}
		in = q.in.buf
	} else if c.Stdin != nil {
		b, err := io.ReadAll(c.Stdin)
		if err != nil {
			return err
		}
		in = b
	}
	out, er, code := execw.Proc(q.path, args, env, in)
	if c.Stdout != nil {
		if _, err := c.Stdout.Write(out); err != nil {
			return err
		}
	}
	if c.Stderr != nil {
		if _, err := c.Stderr.Write(er); err != nil {
			return err
		}
	}
	if code != 0 {
		return &exec.ExitError{}
	}
	return nil
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).StdinPipe
func DStdinPipe(c *dexec.Cmd) (io.WriteCloser, error) { return StdinPipe(c.Cmd) }

//symgo:replace (*os/exec.Cmd).StdinPipe
func StdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	q := get(c)
	if q.in != nil || c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	q.in = &pipe{}
	return q.in, nil
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).Output
func DOutput(c *dexec.Cmd) ([]byte, error) { return Output(c.Cmd) }

//symgo:replace (*os/exec.Cmd).Output
func Output(c *exec.Cmd) ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, er bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &er
	}
	err := Run(c)
	if ee, ok := err.(*exec.ExitError); ok && capture {
		ee.Stderr = er.Bytes()
	}
	return out.Bytes(), err
}

//symgo:replace (*github.com/datawire/dlib/dexec.Cmd).CombinedOutput
func DCombined(c *dexec.Cmd) ([]byte, error) { return Combined(c.Cmd) }

//symgo:replace (*os/exec.Cmd).CombinedOutput
func Combined(c *exec.Cmd) ([]byte, error) {
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := Run(c)
	return out.Bytes(), err
}
