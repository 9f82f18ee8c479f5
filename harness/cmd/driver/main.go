// driver builds the check programs of one property against the current tree and runs them.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/v/instr"
	"verif.local/v/run"
)

var (
	root    = "/verif"
	repo    = "/repo"
	harness string
	work    string
	env     []string
	verbose *bool
)

const goroot = "/opt/veriftools/go1.27.3"

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var keep *bool

func cleanup() {
	if work != "" && !*keep {
		os.RemoveAll(work)
	}
}

func main() {
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	secs := flag.Float64("secs", 0, "time budget")
	only := flag.String("only", "", "only scenarios containing this")
	maxb := flag.Int("bound", -1, "highest bound")
	procs := flag.Int("procs", 8, "processes")
	rep := flag.String("replay", "", "replay a recorded violation")
	part := flag.String("part", "", "ctl or nat only")
	repoF := flag.String("repo", "/repo", "tree to check (development)")
	keep = flag.Bool("keep", false, "keep the work directory")
	verbose = flag.Bool("v", false, "")
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: check [flags] PROPERTY")
		os.Exit(2)
	}
	id := flag.Arg(0)
	pl, ok := plans[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *secs == 0 {
		*secs = 75
		if *tier == "thorough" {
			*secs = 800
		}
	}
	repo = *repoF
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		root = r
	}
	harness = filepath.Join(root, "harness")
	var err error
	if work, err = os.MkdirTemp("", "verif-"+id+"-"); err != nil {
		fatal("%v", err)
	}
	defer cleanup()
	start := time.Now()
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOENV", "GO111MODULE", "PATH", "GOMAXPROCS", "GOROOT", "GOGC", "GODEBUG", "HOME", "GOPATH", "GOMODCACHE":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "HOME=/root", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "PATH="+goroot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOENV=off",
		"GOFLAGS=-mod=mod", "VERIF_TMP="+work, "VERIF_KNOWN="+filepath.Join(root, "known-findings.txt"))

	if *rep != "" {
		os.Exit(replay(pl, id, *rep, *tier))
	}
	ev := newEvidence(id, *tier)
	natBin, ctlBin := "", ""
	note := ""
	type built struct {
		bin, note string
		err       error
	}
	natC, ctlC := make(chan built, 1), make(chan built, 1)
	go func() {
		if pl.nat == "" || *part == "ctl" {
			natC <- built{}
			return
		}
		b, err := buildNat(pl.nat)
		natC <- built{b, "", err}
	}()
	go func() {
		if pl.ctl == "" || *part == "nat" {
			ctlC <- built{}
			return
		}
		b, n, err := buildCtl(pl.ctl)
		ctlC <- built{b, n, err}
	}()
	nb, cb := <-natC, <-ctlC
	natBin, ctlBin = nb.bin, cb.bin
	note = cb.note
	if nb.err != nil {
		if cb.err != nil || cb.bin == "" {
			fatal("building the native part: %v", nb.err)
		}
		note += fmt.Sprintf("native part not built: %v; ", nb.err)
	}
	if cb.err != nil {
		if natBin == "" {
			// the tree builds, but cannot be brought under the controlled scheduler: nothing is decided
			fatal("the controlled part cannot be built: %v", cb.err)
		}
		note += fmt.Sprintf("controlled part not built: %v; ", cb.err)
	}
	buildS := time.Since(start).Seconds()
	if note != "" {
		fmt.Println("note:", note)
	}
	var viols []run.Violation
	runPart := func(kind, bin string, secs float64, gomaxprocs int) {
		items, vs, crash := runProgs(kind, bin, id, *tier, secs, *procs, *only, *maxb, gomaxprocs)
		ev.add(kind, items)
		viols = append(viols, vs...)
		if crash != "" {
			note += crash
		}
	}
	budget := *secs
	if natBin != "" {
		s := budget
		if ctlBin != "" {
			s = budget * 0.5
		}
		t0 := time.Now()
		runPart("nat", natBin, s, 4)
		budget -= time.Since(t0).Seconds()
	}
	known := run.LoadKnown(filepath.Join(root, "known-findings.txt"), id)
	unknown := 0
	for _, v := range viols {
		if known.Match(v) == "" {
			unknown++
		}
	}
	if ctlBin != "" && unknown == 0 {
		runPart("ctl", ctlBin, max(budget, 5), 1)
	}
	exit := 0
	n := 0
	reported := map[string]bool{}
	for _, v := range viols {
		if k := known.Match(v); k != "" {
			if !reported[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				reported[k] = true
			}
			continue
		}
		n++
		f := filepath.Join(root, "evidence", fmt.Sprintf("%s-violation-%d.json", id, n))
		os.MkdirAll(filepath.Dir(f), 0777)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0666)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		fmt.Printf("  scenario %s (%s)\n  %s\n", v.Scenario, v.Kind, strings.ReplaceAll(clip(v.Msg, 3000), "\n", "\n  "))
		for _, l := range tail(v.Trace, 60) {
			fmt.Println("    ", l)
		}
		exit = 1
	}
	ev.write(note, buildS, time.Since(start).Seconds(), n, natBin != "" || pl.nat == "", ctlBin != "" || pl.ctl == "")
	cleanup()
	os.Exit(exit)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func goCmd(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command(goroot+"/bin/go", args...)
	cmd.Dir = dir
	cmd.Env = env
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if *verbose {
		fmt.Fprintf(os.Stderr, "go %s\n", strings.Join(args, " "))
	}
	if err != nil {
		return b.Bytes(), fmt.Errorf("go %s: %v\n%s", args[0], err, clip(b.String(), 6000))
	}
	return b.Bytes(), nil
}

// modFile writes a module file for the harness with gofer replaced by dir.
func modFile(name, dir string) (string, error) {
	mod := filepath.Join(work, name+".mod")
	b, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	if err != nil {
		return "", err
	}
	out, err := goCmd(repo, "mod", "edit", "-json", filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	var m struct {
		Require []struct{ Path, Version string }
	}
	if err := json.Unmarshal(out, &m); err != nil {
		return "", err
	}
	var s strings.Builder
	s.Write(b)
	s.WriteString("\nrequire github.com/donnie4w/gofer v0.0.0\nreplace github.com/donnie4w/gofer => " + dir + "\n")
	for _, r := range m.Require {
		fmt.Fprintf(&s, "require %s %s\n", r.Path, r.Version)
	}
	if err := os.WriteFile(mod, []byte(s.String()), 0666); err != nil {
		return "", err
	}
	return mod, copyFile(filepath.Join(harness, "deps.sum"), filepath.Join(work, name+".sum"))
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(to), 0777); err != nil {
		return err
	}
	return os.WriteFile(to, b, 0666)
}

func buildNat(prog string) (string, error) {
	mod, err := modFile("nat", repo)
	if err != nil {
		return "", err
	}
	if prog == "image" {
		// the icon encoder is not in the offline module cache
		b, err := os.ReadFile(mod)
		if err != nil {
			return "", err
		}
		b = append(b, "replace github.com/donnie4w/ico => "+filepath.Join(harness, "stubs/ico")+"\n"...)
		if err := os.WriteFile(mod, b, 0666); err != nil {
			return "", err
		}
	}
	bin := filepath.Join(work, "nat-"+prog)
	if _, err = goCmd(harness, "build", "-modfile="+mod, "-o", bin, "./nat/"+prog); err != nil {
		return "", err
	}
	return bin, nil
}

func buildCtl(prog string) (bin, note string, err error) {
	rmod := filepath.Join(work, "repo.mod")
	if err = copyFile(filepath.Join(repo, "go.mod"), rmod); err != nil {
		return
	}
	if err = copyFile(filepath.Join(harness, "deps.sum"), filepath.Join(work, "repo.sum")); err != nil {
		return
	}
	bin = filepath.Join(work, "ctl-"+prog)
	try := func(name string, plain bool) error {
		gen := filepath.Join(work, name)
		pkgs := rewritten(prog)
		if plain {
			for i := range pkgs {
				pkgs[i].Plain = true
			}
		}
		c := &instr.Config{Repo: repo, Out: gen, ModFile: rmod, Env: env, Pkgs: pkgs, Common: common, Log: os.Stderr}
		if err := instr.Generate(c); err != nil {
			return fmt.Errorf("rewriting: %w", err)
		}
		if err := copyRest(gen, pkgs); err != nil {
			return err
		}
		mod, err := modFile(name, gen)
		if err != nil {
			return err
		}
		_, err = goCmd(harness, "build", "-modfile="+mod, "-o", bin, "./ctl/"+prog)
		return err
	}
	if err = try("gen", false); err != nil {
		e1 := err
		if err = try("genplain", true); err == nil {
			note = fmt.Sprintf("rewritten without race detection (%v); ", e1)
		}
	}
	if err != nil {
		bin = ""
	}
	return
}

// copyRest copies the packages that are not rewritten.
func copyRest(gen string, pkgs []instr.Pkg) error {
	done := map[string]bool{"image": true}
	for _, p := range pkgs {
		done[p.Out] = true
	}
	if err := copyFile(filepath.Join(repo, "go.mod"), filepath.Join(gen, "go.mod")); err != nil {
		return err
	}
	return filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || done[rel] && rel == "image" {
				return filepath.SkipDir
			}
			return nil
		}
		if done[filepath.Dir(rel)] || strings.HasSuffix(rel, "_test.go") || !strings.HasSuffix(rel, ".go") {
			return nil
		}
		return copyFile(p, filepath.Join(gen, rel))
	})
}

func runProgs(kind, bin, id, tier string, secs float64, procs int, only string, maxb, gomaxprocs int) (items []run.Item, viols []run.Violation, note string) {
	dir := filepath.Join(work, "claims-"+kind)
	os.MkdirAll(dir, 0777)
	type proc struct {
		cmd  *exec.Cmd
		out  string
		buf  *tailBuf
		done chan error
	}
	var ps []*proc
	for i := 0; i < procs; i++ {
		out := filepath.Join(work, fmt.Sprintf("%s-%d.json", kind, i))
		args := []string{"-prop", id, "-tier", tier, "-secs", fmt.Sprint(secs), "-dir", dir, "-tag", kind, "-out", out, "-bound", strconv.Itoa(maxb)}
		if only != "" {
			args = append(args, "-only", only)
		}
		if *verbose {
			args = append(args, "-q=false")
		}
		cmd := exec.Command(bin, args...)
		cmd.Dir = work
		cmd.Env = append(append([]string(nil), env...), "GOMAXPROCS="+strconv.Itoa(gomaxprocs), "GOTRACEBACK=all")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		tb := &tailBuf{}
		cmd.Stdout, cmd.Stderr = tb, tb
		if *verbose {
			cmd.Stderr = os.Stderr
		}
		p := &proc{cmd: cmd, out: out, buf: tb, done: make(chan error, 1)}
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		go func() { p.done <- cmd.Wait() }()
		ps = append(ps, p)
	}
	grace := 120.0
	if kind == "nat" {
		grace = 300
	}
	limit := time.After(time.Duration((secs + grace) * float64(time.Second)))
	// once a process reports a violation the others get a moment and are ended
	found, over := make(chan struct{}), make(chan struct{})
	defer close(over)
	go func() {
		for {
			select {
			case <-over:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if _, err := os.Stat(filepath.Join(dir, "stop")); err == nil {
				time.Sleep(8 * time.Second)
				close(found)
				return
			}
		}
	}()
	for _, p := range ps {
		var err error
		select {
		case err = <-p.done:
		case <-found:
			p.cmd.Process.Kill()
			err = <-p.done
			os.WriteFile(p.out+".limit", nil, 0666)
		case <-limit:
			p.cmd.Process.Signal(syscall.SIGQUIT)
			select {
			case err = <-p.done:
			case <-time.After(5 * time.Second):
				p.cmd.Process.Kill()
				err = <-p.done
			}
			note += kind + " process ended at its time limit; "
			os.WriteFile(p.out+".limit", nil, 0666)
			limit = time.After(0)
		}
		var o run.Out
		if b, e := os.ReadFile(p.out); e == nil {
			json.Unmarshal(b, &o)
		}
		items = append(items, o.Items...)
		viols = append(viols, o.Violations...)
		_, lim := os.Stat(p.out + ".limit")
		if err != nil && len(o.Violations) == 0 && !o.Finished && lim != nil {
			sc, _ := os.ReadFile(p.out + ".cur")
			text := p.buf.String()
			ee, _ := err.(*exec.ExitError)
			switch {
			case id == "C31" && ee != nil && strings.Contains("hangup user defined signal 1 user defined signal 2", ee.Sys().(syscall.WaitStatus).Signal().String()):
				viols = append(viols, run.Violation{Scenario: string(sc), Kind: "killed", Msg: fmt.Sprintf("a signal with a registered listener ended the process (%v)", err)})
			case ee != nil && ee.Sys().(syscall.WaitStatus).Signaled() || strings.Contains(text, "out of memory"):
				note += fmt.Sprintf("a %s process was ended (%v) in scenario %s; ", kind, err, sc)
			case ee != nil && ee.ExitCode() == 3:
				fatal("%s", text)
			default:
				viols = append(viols, run.Violation{Scenario: string(sc), Kind: "crash", Msg: fmt.Sprintf("the process died (%v) in scenario %s:\n%s", err, sc, text)})
				os.WriteFile(filepath.Join(dir, "stop"), nil, 0666)
			}
		}
	}
	if len(items) == 0 && len(viols) == 0 && only == "" {
		fatal("%s part covered nothing: %s", kind, note)
	}
	return
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func replay(pl plan, id, file, tier string) int {
	var bins []string
	if pl.nat != "" {
		if b, err := buildNat(pl.nat); err == nil {
			bins = append(bins, b)
		}
	}
	if pl.ctl != "" {
		if b, _, err := buildCtl(pl.ctl); err == nil {
			bins = append(bins, b)
		}
	}
	abs, _ := filepath.Abs(file)
	defer cleanup()
	code := 0
	for _, b := range bins {
		cmd := exec.Command(b, "-prop", id, "-tier", "thorough", "-replay", abs)
		cmd.Dir = work
		cmd.Env = append(append([]string(nil), env...), "GOMAXPROCS=1")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			code = 1
		}
	}
	return code
}

// ---- evidence ----

type evidence struct {
	id, tier string
	items    []run.Item
	kinds    map[string][]run.Item
}

func newEvidence(id, tier string) *evidence {
	return &evidence{id: id, tier: tier, kinds: map[string][]run.Item{}}
}

func (e *evidence) add(kind string, it []run.Item) {
	e.items = append(e.items, it...)
	e.kinds[kind] = append(e.kinds[kind], it...)
}

func (e *evidence) write(note string, buildS, wall float64, viols int, natOk, ctlOk bool) {
	var states, steps, execs int64
	nondet := 0
	var samples []any
	full := natOk && ctlOk && len(e.items) > 0
	summary := map[string]any{}
	for kind, items := range e.kinds {
		best := map[string]run.Item{}
		byBound := map[int][2]int{}
		for _, it := range items {
			states += it.States
			steps += it.Steps
			execs += it.Execs
			nondet += it.Nondet
			c := byBound[it.Bound]
			c[0]++
			if it.Complete {
				c[1]++
			}
			byBound[it.Bound] = c
			if o, ok := best[it.Name]; !ok || it.Bound > o.Bound || it.Full {
				best[it.Name] = it
			}
		}
		var names []string
		nfull := 0
		for n, it := range best {
			names = append(names, n)
			if it.Full {
				nfull++
			} else {
				full = false
			}
		}
		sort.Strings(names)
		bb := map[string]string{}
		for b, c := range byBound {
			bb[strconv.Itoa(b)] = fmt.Sprintf("%d scenarios, %d explored completely", c[0], c[1])
		}
		summary[kind] = map[string]any{"scenarios": len(best), "scenarios_without_anything_left_out": nfull, "by_deviation_bound": bb}
		for i, n := range names {
			if i%max(1, len(names)/3) == 0 && len(samples) < 8 {
				it := best[n]
				samples = append(samples, map[string]any{"part": kind, "scenario": n, "bound": it.Bound, "executions": it.Execs, "steps": it.Steps, "complete": it.Complete, "cases": it.Samples})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	out := map[string]any{
		"property": e.id, "tier": e.tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": viols,
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": execs, "samples": samples, "exhaustive": full,
			"parts": summary, "nondeterministic_executions": nondet, "build_s": buildS, "note": note,
			"meaning": "states: distinct decision points (scheduling, data and fault choices) or enumerated cases; transitions: visible operations or calls executed; traces: complete executions of the real code (the rewritten sources of the current tree in part ctl, the packages as they are in part nat)",
		},
		"assumptions": []string{"sequentially consistent interleavings of synchronisation operations; plain accesses are covered by the race detector of the scheduler", "bounds as listed in DESIGN.md for this property"},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0777)
	os.WriteFile(filepath.Join(root, "evidence", e.id+".json"), b, 0666)
}
