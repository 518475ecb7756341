package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir     = "/repo"
	verifDir    = "/verif"
	tier        = "quick"
	seed        = 1
	verbose     = false
	debugPanics = false
)

const toolchain = "/root/go/pkg/mod/golang.org/toolchain@v0.0.1-go1.20.14.linux-amd64"

var baseAssumptions = []string{
	"the SSA executor in /verif/engine implements Go's semantics (cross-checked natively on path witnesses in every run)",
	"hash functions are collision-free and preimage-free (uninterpreted, injective)",
	"regular expressions, fmt verbs, strconv and time arithmetic are modelled by the executor or by /verif/harness/model",
	"no allocation failure; one goroutine, except in the harnesses that say so",
}

type HarnessCfg struct {
	Fn       string   `json:"fn"` // "pkgdir.Func"
	Quick    int      `json:"quick_s"`
	Thorough int      `json:"thorough_s"`
	Isolated bool     `json:"isolated"` // each native replay in its own process
	Reach    []string `json:"reach"`    // labels that must be reached
	Repeat   int      `json:"repeat"`   // native repetitions per vector (map order)
	MaxSteps int64    `json:"max_steps"`
	Bounds   string   `json:"bounds"`
	Tier     string   `json:"tier"` // only in this tier
	NoReplay bool     `json:"no_witness"`
	Wit      int      `json:"witnesses"` // native replays of completed paths, at most
	Procs    int      `json:"procs"`     // processes in which a violation is tried (threads)
	Partial  bool     `json:"partial"`   // time-boxed: not expected to be exhaustive
}
type CheckCfg struct {
	Models      []string     `json:"models"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

func setupEnv() {
	os.Setenv("PATH", toolchain+"/bin:"+os.Getenv("PATH"))
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPATH", "/root/go")
	os.Setenv("GOMODCACHE", "/root/go/pkg/mod")
	if os.Getenv("GOCACHE") == "" {
		os.Setenv("GOCACHE", "/root/.cache/go-build")
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	os.Unsetenv("GOROOT")
}

// harnessOverlay maps virtual files under /repo/zz_verif to /verif/harness.
func harnessOverlay() map[string]string {
	r := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			if strings.HasPrefix(rel, "inpkg/") {
				// in-package file: inpkg/<dir with __>/file.go -> /repo/<dir>/file.go
				parts := strings.SplitN(rel[len("inpkg/"):], "/", 2)
				dir := strings.ReplaceAll(parts[0], "__", "/")
				if dir == "root" {
					dir = ""
				}
				r[filepath.Join(repoDir, dir, parts[1])] = p
			} else {
				r[filepath.Join(repoDir, "zz_verif", rel)] = p
			}
		}
		return nil
	})
	return r
}

var reDirective = regexp.MustCompile(`(?m)^//symgo:replace (.+)\n(?://.*\n)*func (\w+)`)

func loadFor(harnessPkgs, models []string) (*Engine, error) {
	ov := map[string][]byte{}
	type ovr struct{ target, pkg, fn string }
	var ovrs []ovr
	for virt, real := range harnessOverlay() {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
		rel, _ := filepath.Rel(repoDir, filepath.Dir(virt))
		for _, mm := range reDirective.FindAllStringSubmatch(string(b), -1) {
			ovrs = append(ovrs, ovr{strings.TrimSpace(mm[1]), modPath + "/" + rel, mm[2]})
		}
	}
	var pats []string
	for _, h := range harnessPkgs {
		pats = append(pats, pkgPattern(h))
	}
	for _, m := range append([]string{"base"}, models...) {
		pats = append(pats, "./zz_verif/model/"+m)
	}
	e, err := loadProgram(ov, pats)
	if err != nil {
		return nil, err
	}
	for _, o := range ovrs {
		p := e.pkgs[o.pkg]
		if p == nil {
			continue
		}
		f := p.Func(o.fn)
		if f == nil {
			return nil, fmt.Errorf("model function %s.%s missing", o.pkg, o.fn)
		}
		for _, t := range strings.Split(o.target, ",") {
			e.overrides[strings.TrimSpace(t)] = f
		}
	}
	return e, nil
}

func pkgPattern(h string) string {
	if strings.HasPrefix(h, "inpkg:") {
		d := strings.TrimPrefix(h, "inpkg:")
		if d == "" {
			return "."
		}
		return "./" + d
	}
	return "./zz_verif/" + h
}

func splitFn(fn string) (string, string) {
	i := strings.LastIndex(fn, ".")
	return fn[:i], fn[i+1:]
}

func (e *Engine) harnessFn(fn string) *ssa.Function {
	p, f := splitFn(fn)
	path := modPath + "/zz_verif/" + p
	if strings.HasPrefix(p, "inpkg:") {
		path = strings.TrimSuffix(modPath+"/"+strings.TrimPrefix(p, "inpkg:"), "/")
	}
	sp := e.pkgs[path]
	if sp == nil {
		return nil
	}
	return sp.Func(f)
}

// ---------- native replay ----------

type Replayer struct {
	dir    string
	bin    string
	err    error
	tested bool
	fns    []string
	pkgs   []string
}

type nativeCase struct {
	Harness  string   `json:"harness"`
	Inputs   []uint64 `json:"inputs"`
	Thorough bool     `json:"thorough"`
	Repeat   int      `json:"repeat"`
}
type nativeResult struct {
	I       int      `json:"i"`
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

const replayMain = `package %s

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
%s
	nd "github.com/datawire/ocibuild/zz_verif/nd"
)

type nativeCase struct {
	Harness  string   ` + "`json:\"harness\"`" + `
	Inputs   []uint64 ` + "`json:\"inputs\"`" + `
	Thorough bool     ` + "`json:\"thorough\"`" + `
	Repeat   int      ` + "`json:\"repeat\"`" + `
}
type nativeResult struct {
	I       int      ` + "`json:\"i\"`" + `
	Outcome string   ` + "`json:\"outcome\"`" + `
	Msg     string   ` + "`json:\"msg\"`" + `
	Obs     []string ` + "`json:\"obs\"`" + `
}

var zzHarness = map[string]func(){
%s}

func zzRun(c nativeCase) (r nativeResult) {
	nd.Reset(c.Inputs, c.Thorough)
	defer func() {
		r.Obs = nd.Obs
		if e := recover(); e != nil {
			switch x := e.(type) {
			case nd.Violation:
				r.Outcome, r.Msg = "assert", x.Msg
			case nd.AssumeFailed:
				r.Outcome = "assume"
			default:
				r.Outcome, r.Msg = "panic", fmt.Sprint(e)+"\n"+string(debug.Stack())
			}
		}
	}()
	zzHarness[c.Harness]()
	r.Outcome = "ok"
	return r
}

func zzMain(in, outp string) {
	f, err := os.Open(in)
	if err != nil {
		panic(err)
	}
	out, err := os.Create(outp)
	if err != nil {
		panic(err)
	}
	debug.SetMaxStack(64 << 20)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	i := 0
	for sc.Scan() {
		if strings.TrimSpace(sc.Text()) == "" {
			continue
		}
		var c nativeCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var r nativeResult
		for k := 0; k < n; k++ {
			r = zzRun(c)
			if r.Outcome != "ok" {
				break
			}
		}
		r.I = i
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		i++
	}
	out.Close()
}
`

func (r *Replayer) build() error {
	if r.tested {
		return r.err
	}
	r.tested = true
	dir, err := os.MkdirTemp("", "symgo-replay-")
	if err != nil {
		r.err = err
		return err
	}
	r.dir = dir
	repl := harnessOverlay()
	imports, table := "", ""
	inpkg := ""
	for i, p := range r.pkgs {
		if strings.HasPrefix(p, "inpkg:") {
			inpkg = p
			continue
		}
		imports += fmt.Sprintf("\th%d %q\n", i, modPath+"/zz_verif/"+p)
	}
	for _, f := range r.fns {
		p, n := splitFn(f)
		if strings.HasPrefix(p, "inpkg:") {
			table += fmt.Sprintf("\t%q: %s,\n", f, n)
			continue
		}
		for i, q := range r.pkgs {
			if q == p {
				table += fmt.Sprintf("\t%q: h%d.%s,\n", f, i, n)
			}
		}
	}
	main := filepath.Join(dir, "main.go")
	var cmd *exec.Cmd
	r.bin = filepath.Join(dir, "replay")
	ovf := filepath.Join(dir, "overlay.json")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	if inpkg == "" {
		src := fmt.Sprintf(replayMain, "main", imports, table) + "\nfunc main() { zzMain(os.Args[1], os.Args[2]) }\n"
		os.WriteFile(main, []byte(src), 0o644)
		repl[filepath.Join(repoDir, "zz_verif", "replay", "main.go")] = main
		cmd = exec.CommandContext(ctx, "go", "build", "-overlay", ovf, "-o", r.bin, "./zz_verif/replay")
	} else {
		d := strings.TrimPrefix(inpkg, "inpkg:")
		name := "main"
		if d != "" {
			name = filepath.Base(d)
		}
		src := fmt.Sprintf(replayMain, name, imports, table) + "\nfunc init() { if len(os.Args) == 4 && os.Args[1] == \"zz-replay\" { zzMain(os.Args[2], os.Args[3]); os.Exit(0) } }\n"
		os.WriteFile(main, []byte(src), 0o644)
		repl[filepath.Join(repoDir, d, "zz_verif_replay.go")] = main
		cmd = exec.CommandContext(ctx, "go", "build", "-overlay", ovf, "-o", r.bin, pkgPattern(inpkg))
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ovf, b, 0o644)
	cmd.Dir = repoDir
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("native build failed: %v\n%s", err, out)
	}
	return r.err
}

func (r *Replayer) run(cases []nativeCase, timeout time.Duration) ([]nativeResult, string) {
	if err := r.build(); err != nil {
		return nil, err.Error()
	}
	sd, _ := os.MkdirTemp(r.dir, "run-")
	in, out := filepath.Join(sd, "in"), filepath.Join(sd, "out")
	var buf bytes.Buffer
	for _, c := range cases {
		b, _ := json.Marshal(c)
		buf.Write(b)
		buf.WriteByte('\n')
	}
	os.WriteFile(in, buf.Bytes(), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args := []string{in, out}
	for _, p := range r.pkgs {
		if strings.HasPrefix(p, "inpkg:") {
			args = []string{"zz-replay", in, out}
		}
	}
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Dir = sd
	tmp := filepath.Join(sd, "tmp")
	os.MkdirAll(tmp, 0o755)
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "HOME="+tmp)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	status := ""
	if ctx.Err() != nil {
		status = "timeout"
	} else if err != nil {
		s := eb.String()
		if len(s) > 600 {
			s = s[:600]
		}
		status = "died: " + err.Error() + ": " + s
	}
	var res []nativeResult
	if f, err := os.Open(out); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var x nativeResult
			if json.Unmarshal(sc.Bytes(), &x) == nil {
				res = append(res, x)
			}
		}
		f.Close()
	}
	os.RemoveAll(sd)
	return res, status
}

func (r *Replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadKnown() []knownFinding {
	var k []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		must(json.Unmarshal(b, &k))
	}
	return k
}

func printRun(r *Run, d time.Duration) {
	fmt.Fprintf(os.Stderr, "%s: paths=%d done=%d assumed=%d unsup=%d steps=%d depth=%d infeas=%d viol=%d asserts=%d (triv %d solver %d inconcl %d) queries=%d solver=%.1fs unk=%d domain=%d merges=%d instrs=%d left=%d timedout=%v wall=%.1fs\n",
		r.harness, r.stats.paths, r.stats.done, r.stats.assumed, r.stats.unsupported, r.stats.steps, r.stats.depth, r.stats.infeasible, r.stats.viol,
		r.stats.asserts, r.stats.assertsTriv, r.stats.assertsSolver, r.stats.inconcl, r.queries, r.solverTime.Seconds(), r.unk, r.stats.domain, r.stats.merges, r.stats.instrs, r.left, r.timedOut, d.Seconds())
	for _, k := range sortedKeys(r.unsup) {
		fmt.Fprintf(os.Stderr, "   unsupported x%d: %s\n", r.unsup[k], k)
	}
	for _, k := range sortedKeys(r.incon) {
		fmt.Fprintf(os.Stderr, "   inconclusive x%d: %s\n", r.incon[k], k)
	}
	for _, k := range sortedKeys(r.reached) {
		fmt.Fprintf(os.Stderr, "   reach %s x%d\n", k, r.reached[k])
	}
	for _, k := range sortedKeys(r.seenMsg) {
		fmt.Fprintf(os.Stderr, "   candidate x%d: %s\n", r.seenMsg[k], k)
	}
	for _, s := range r.solverErrs {
		fmt.Fprintf(os.Stderr, "   solver error: %s\n", s)
	}
}

func main() {
	cpuprof := flag.String("cpuprofile", "", "")
	nworkers := flag.Int("j", runtime.NumCPU(), "")
	budgetF := flag.Int("t", 0, "override time budget per harness (s)")
	only := flag.String("only", "", "run only this harness")
	initNotes := flag.Bool("initnotes", false, "")
	nopath := flag.Int64("maxpaths", 0, "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.BoolVar(&debugPanics, "dp", false, "")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.StringVar(&repoDir, "repo", "/repo", "for experiments: another copy of the repository")
	flag.StringVar(&tier, "tier", "", "")
	flag.Parse()
	_ = nopath
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(1 << 30)
	setupEnv()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	args := flag.Args()
	if len(args) < 2 || args[0] != "check" {
		fmt.Fprintln(os.Stderr, "usage: symgo [flags] check PROPERTY")
		os.Exit(2)
	}
	prop := args[1]
	var cfgs map[string]CheckCfg
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	must(err)
	must(json.Unmarshal(b, &cfgs))
	cfg, ok := cfgs[prop]
	if !ok {
		must(fmt.Errorf("no such check %s", prop))
	}
	code := runCheck(prop, cfg, *nworkers, *budgetF, *only, *initNotes)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(prop string, cfg CheckCfg, nw, budgetOverride int, only string, initNotes bool) int {
	t0 := time.Now()
	pkgset := map[string]bool{}
	var fns []string
	for _, h := range cfg.Harnesses {
		p, _ := splitFn(h.Fn)
		pkgset[p] = true
		fns = append(fns, h.Fn)
	}
	pkgs := sortedKeys(pkgset)
	eng, err := loadFor(pkgs, cfg.Models)
	must(err)
	loadT := time.Since(t0)
	rep := &Replayer{fns: fns, pkgs: pkgs}
	defer rep.close()
	// build the native replayer concurrently with exploration
	built := make(chan error, 1)
	go func() { built <- rep.build() }()

	known := loadKnown()
	type hres struct {
		cfg HarnessCfg
		run *Run
		d   time.Duration
	}
	var results []hres
	var confirmed []Violation
	var knownHit = map[string]bool{}
	var notes []string
	spurious := 0
	natOK, natMismatch := 0, 0
	var samples []interface{}
	for _, h := range cfg.Harnesses {
		if only != "" && !strings.HasSuffix(h.Fn, only) {
			continue
		}
		if h.Tier != "" && h.Tier != tier {
			continue
		}
		fn := eng.harnessFn(h.Fn)
		if fn == nil {
			must(fmt.Errorf("harness %s not found", h.Fn))
		}
		budget := h.Quick
		if budget == 0 {
			budget = 60
		}
		if tier == "thorough" {
			budget = h.Thorough
			if budget == 0 {
				budget = 600
			}
		}
		if budgetOverride > 0 {
			budget = budgetOverride
		}
		eng.maxSteps = 5_000_000
		if h.MaxSteps > 0 {
			eng.maxSteps = h.MaxSteps
		}
		ht := time.Now()
		run := eng.explore(h.Fn, fn, time.Duration(budget)*time.Second, nw)
		d := time.Since(ht)
		printRun(run, d)
		results = append(results, hres{h, run, d})
		for _, l := range h.Reach {
			if run.reached[l] == 0 && !run.timedOut {
				notes = append(notes, fmt.Sprintf("%s: label %q not reached", h.Fn, l))
			}
		}
	}
	if initNotes {
		for _, n := range eng.initNotes {
			fmt.Fprintln(os.Stderr, "initnote:", n)
		}
	}
	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, err)
		must(fmt.Errorf("native replay build failed"))
	}
	thorough := tier == "thorough"
	isKnown := func(h, msg string) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.Status == "known" && k.Property == prop && k.Harness == h && (k.Msg == msg || (strings.HasSuffix(k.Msg, "*") && strings.HasPrefix(msg, strings.TrimSuffix(k.Msg, "*")))) {
				return k
			}
		}
		return nil
	}
	replayOne := func(h HarnessCfg, v Violation) (bool, string) {
		n := h.Repeat
		if n > 0 {
			n *= 10
		}
		to := 60 * time.Second
		if v.Kind == "hang" {
			to = 20 * time.Second
		}
		var res []nativeResult
		var status string
		for i := 0; ; i++ {
			res, status = rep.run([]nativeCase{{h.Fn, v.Inputs, thorough, n}}, to)
			if status != "" {
				return true, status
			}
			if i+1 >= h.Procs || len(res) != 1 || res[0].Outcome != "ok" {
				break
			}
		}
		if len(res) == 1 && (res[0].Outcome == "assert" || res[0].Outcome == "panic") {
			return true, res[0].Outcome + ": " + res[0].Msg
		}
		if len(res) == 1 {
			return false, res[0].Outcome
		}
		return false, "no result"
	}
	for _, hr := range results {
		byMsg := map[string]bool{}
		for _, v := range hr.run.violations {
			if byMsg[v.Msg] {
				continue
			}
			ok, det := replayOne(hr.cfg, v)
			if !ok {
				spurious++
				fmt.Fprintf(os.Stderr, "   NOT REPRODUCED natively (%s): %s %v\n", det, v.Msg, v.Inputs)
				continue
			}
			byMsg[v.Msg] = true
			v.Detail = det
			if k := isKnown(hr.cfg.Fn, v.Msg); k != nil {
				if !knownHit[k.ID] {
					knownHit[k.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				continue
			}
			confirmed = append(confirmed, v)
		}
		// witnesses: run completed paths natively (translator conformance)
		if hr.cfg.NoReplay {
			continue
		}
		wit := hr.run.witnesses
		max := 120
		if thorough {
			max = 400
		}
		if hr.cfg.Wit > 0 {
			max = hr.cfg.Wit
		}
		if len(wit) > max {
			// deterministic spread
			var w2 []Witness
			for i := 0; i < max; i++ {
				w2 = append(w2, wit[i*len(wit)/max])
			}
			wit = w2
		}
		var all []nativeResult
		var cases []nativeCase
		for _, w := range wit {
			cases = append(cases, nativeCase{hr.cfg.Fn, w.Inputs, thorough, hr.cfg.Repeat})
		}
		if hr.cfg.Isolated {
			if len(cases) > 24 {
				cases = cases[:24]
				wit = wit[:24]
			}
			for i, c := range cases {
				res, st := rep.run([]nativeCase{c}, 30*time.Second)
				if len(res) == 1 {
					res[0].I = i
					all = append(all, res[0])
				} else {
					all = append(all, nativeResult{I: i, Outcome: "panic", Msg: st})
				}
			}
		} else if len(cases) > 0 {
			off := 0
			for off < len(cases) {
				res, st := rep.run(cases[off:], 120*time.Second)
				for _, x := range res {
					x.I += off
					all = append(all, x)
				}
				off += len(res)
				if st != "" && off < len(cases) {
					all = append(all, nativeResult{I: off, Outcome: "panic", Msg: st})
					off++
					if strings.HasPrefix(st, "timeout") {
						break
					}
				}
				if st == "" {
					break
				}
			}
		}
		for _, x := range all {
			w := wit[x.I]
			switch x.Outcome {
			case "assert", "panic":
				v := Violation{Harness: hr.cfg.Fn, Msg: x.Msg, Kind: x.Outcome, Inputs: w.Inputs, Detail: "found by native replay of a solver-generated path witness: " + x.Msg}
				if k := isKnown(hr.cfg.Fn, v.Msg); k != nil {
					if !knownHit[k.ID] {
						knownHit[k.ID] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					}
				} else if len(confirmed) < 40 {
					// a witness must fail twice before it is believed
					if ok, _ := replayOne(hr.cfg, v); ok {
						confirmed = append(confirmed, v)
					}
				}
			case "ok":
				if w.Kind == "done" && strings.Join(w.Obs, "\n") != strings.Join(x.Obs, "\n") {
					natMismatch++
					if natMismatch <= 5 {
						notes = append(notes, fmt.Sprintf("%s: native observation differs: engine %q native %q inputs %v", hr.cfg.Fn, w.Obs, x.Obs, w.Inputs))
					}
				} else {
					natOK++
					if len(samples) < 6 {
						samples = append(samples, map[string]interface{}{"harness": hr.cfg.Fn, "inputs": w.Inputs, "observed": x.Obs})
					}
				}
			case "assume":
				natMismatch++
				if natMismatch <= 5 {
					notes = append(notes, fmt.Sprintf("%s: native run rejected an assumption the engine accepted: inputs %v", hr.cfg.Fn, w.Inputs))
				}
			}
		}
	}
	for _, n := range notes {
		fmt.Fprintln(os.Stderr, "NOTE:", n)
	}
	// evidence
	var agg Stats
	var queries, sat, unsat, unk int64
	var st time.Duration
	funcs := map[string]bool{}
	var hs []interface{}
	var unsup []string
	exhaustive := true
	for _, hr := range results {
		r := hr.run
		agg.add(&r.stats)
		queries += r.queries
		sat += r.sat
		unsat += r.unsat
		unk += r.unk
		st += r.solverTime
		for f := range r.covered {
			funcs[f] = true
		}
		for _, k := range sortedKeys(r.unsup) {
			unsup = append(unsup, fmt.Sprintf("%s x%d: %s", hr.cfg.Fn, r.unsup[k], k))
		}
		complete := !r.timedOut && r.left == 0 && r.stats.unsupported == 0 && r.unk == 0 && r.stats.inconcl == 0
		if !complete {
			exhaustive = false
		}
		hs = append(hs, map[string]interface{}{"harness": hr.cfg.Fn, "bounds": hr.cfg.Bounds, "paths": r.stats.paths, "paths_completed": r.stats.done, "paths_cut_by_assumption": r.stats.assumed,
			"paths_unsupported": r.stats.unsupported, "unwinding_or_depth_exceeded": r.stats.steps + r.stats.depth, "assertions": r.stats.asserts, "assertions_by_solver": r.stats.assertsSolver,
			"assertions_by_simplification": r.stats.assertsTriv, "inconclusive": r.stats.inconcl, "queries": r.queries, "solver_s": r.solverTime.Seconds(), "branches_decided_by_byte_domain": r.stats.domain,
			"merged_branches": r.stats.merges, "complete_within_bounds": complete, "time_boxed": r.timedOut, "frontier_left": r.left, "reached": r.reached, "wall_s": hr.d.Seconds()})
	}
	vac, answered := 0, 0
	for _, hr := range results {
		if hr.run.stats.done > 0 || hr.run.stats.viol > 0 {
			answered++
		}
		if hr.run.stats.done == 0 && len(confirmed) == 0 && hr.run.stats.viol == 0 {
			vac++
			fmt.Fprintf(os.Stderr, "VACUOUS: %s completed no path\n", hr.cfg.Fn)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path was replayed")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": len(confirmed),
		"assumptions": append(append([]string{}, baseAssumptions...), cfg.Assumptions...),
		"coverage": map[string]interface{}{
			"states": agg.paths, "transitions": agg.instrs, "traces_validated_against_impl": natOK, "samples": samples, "exhaustive": exhaustive,
			"explanation":       "states = symbolic paths explored (each stands for all values satisfying its path condition); transitions = SSA instructions executed symbolically; every assertion was decided for all values on its path; traces validated = path witnesses re-run natively on the real build with matching observations",
			"functions_encoded": sortedKeys(funcs), "harnesses": hs, "queries_discharged": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk, "solver_time_s": st.Seconds(), "solver": "z3-new (5.3.2) bit-vectors, incremental",
			"counterexamples_not_reproduced": spurious, "native_observation_mismatches": natMismatch, "unsupported": unsup, "load_s": loadT.Seconds(), "notes": notes, "outside_bounds": cfg.Outside,
		},
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), eb, 0o644))
	fmt.Fprintf(os.Stderr, "%s: load %.1fs total %.1fs, native ok=%d mismatch=%d spurious=%d\n", prop, loadT.Seconds(), time.Since(t0).Seconds(), natOK, natMismatch, spurious)
	if len(confirmed) > 0 {
		sort.SliceStable(confirmed, func(i, j int) bool { return len(confirmed[i].Inputs) < len(confirmed[j].Inputs) })
		p := filepath.Join(verifDir, "evidence", prop+".violation.json")
		vb, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "violations": confirmed, "how": "inputs are the values returned in order by the nondeterministic primitives of the named harness (see /verif/harness); each was re-run natively against the real build"}, "", " ")
		os.WriteFile(p, vb, 0o644)
		for i, v := range confirmed {
			if i < 10 {
				d := v.Detail
				if len(d) > 400 {
					d = d[:400]
				}
				fmt.Printf("  %s: %s\n    inputs=%v\n    native: %s\n", v.Harness, v.Msg, v.Inputs, strings.ReplaceAll(d, "\n", " | "))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	if vac > 0 && (answered == 0 || os.Getenv("VERIF_STRICT") != "") {
		return 2 // nothing at all was decided
	}
	return 0
}
