package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"golang.org/x/tools/go/ssa"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

type jobT struct {
	H      string   `json:"h"`
	Inputs []input  `json:"inputs"`
	Known  []string `json:"known"`
	Tier   int      `json:"tier"`
}

type resultT struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Where  string   `json:"where,omitempty"`
	Obs    []string `json:"obs"`
}

func (r *resultT) bad() bool {
	switch r.Status {
	case "violation", "panic", "hang", "crash":
		return true
	}
	return false
}

// replayer runs the natively built harness binary.
type replayer struct {
	bin   string
	ready chan error
	dir   string
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	errb  *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 8192 {
		t.b = append([]byte(nil), t.b[:4096]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (r *replayer) start() error {
	r.cmd = exec.Command(r.bin)
	r.cmd.Dir = r.dir
	r.cmd.Env = append(repoEnv(), "TZ=UTC")
	r.in, _ = r.cmd.StdinPipe()
	o, _ := r.cmd.StdoutPipe()
	r.out = bufio.NewReaderSize(o, 1<<20)
	r.errb = &tailBuf{}
	r.cmd.Stderr = r.errb
	return r.cmd.Start()
}

func (r *replayer) run(j jobT) (res resultT, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.ready != nil {
		if e := <-r.ready; e != nil {
			return res, e
		}
		r.ready = nil
	}
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return res, err
		}
	}
	b, _ := json.Marshal(j)
	if _, err := r.in.Write(append(b, '\n')); err != nil {
		r.kill()
		return resultT{Status: "crash", Msg: "replay process died: " + err.Error()}, nil
	}
	line, err := r.out.ReadBytes('\n')
	if err != nil {
		time.Sleep(50 * time.Millisecond)
		r.errb.mu.Lock()
		msg := string(r.errb.b)
		r.errb.mu.Unlock()
		r.kill()
		if len(msg) > 600 {
			msg = msg[:600]
		}
		return resultT{Status: "crash", Msg: msg}, nil
	}
	if err := json.Unmarshal(line, &res); err != nil {
		return res, err
	}
	if res.Status == "hang" {
		r.kill()
	}
	return res, nil
}

func (r *replayer) kill() {
	if r.cmd != nil {
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

var harnessRE = regexp.MustCompile(`(?m)^func ([CSK]\d\d_\w+)\(\)`)

// The packages with harnesses.
var harnessPkgs = []string{"h", "cli"}

func harnessNames(harnessDir, pkg string) ([]string, error) {
	fs, _ := filepath.Glob(filepath.Join(harnessDir, pkg, "*.go"))
	var names []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, m := range harnessRE.FindAllSubmatch(b, -1) {
			names = append(names, string(m[1]))
		}
	}
	sort.Strings(names)
	return names, nil
}

// writeRegistry generates the name tables of the harness packages.
func writeRegistry(harnessDir, scratch string) (string, error) {
	for _, pkg := range harnessPkgs {
		names, err := harnessNames(harnessDir, pkg)
		if err != nil {
			return "", err
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\n// Registry is generated.\nvar Registry = map[string]func(){\n", pkg)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
		}
		sb.WriteString("}\n")
		if err := os.WriteFile(filepath.Join(scratch, "registry_"+pkg+".go"), []byte(sb.String()), 0o644); err != nil {
			return "", err
		}
	}
	return scratch, nil
}

// pkgsOf lists the harness packages with harnesses of the property.
func pkgsOf(harnessDir, prop string) []string {
	var out []string
	for _, pkg := range harnessPkgs {
		names, _ := harnessNames(harnessDir, pkg)
		for _, n := range names {
			if strings.HasPrefix(n, prop+"_") {
				out = append(out, pkg)
				break
			}
		}
	}
	return out
}

func buildReplay(repo, harnessDir, scratch, reg string) (string, error) {
	ov := overlayFiles(harnessDir, repo)
	for _, pkg := range harnessPkgs {
		ov[filepath.Join(repo, "pkg", "zz_verif", pkg, "registry_gen.go")] = filepath.Join(reg, "registry_"+pkg+".go")
	}
	n := 0
	for dst, b := range withoutDrivers(repo) {
		n++
		src := filepath.Join(scratch, fmt.Sprintf("nodriver%d.go", n))
		if err := os.WriteFile(src, b, 0o644); err != nil {
			return "", err
		}
		ov[dst] = src
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	oj := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(oj, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "replay.bin")
	c := exec.Command("/opt/veriftools/go1.23.12/bin/go", "build", "-overlay", oj, "-o", bin, "./pkg/zz_verif/replay")
	c.Dir = repo
	c.Env = repoEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

type knownFinding struct {
	ID       string  `json:"id"`
	Property string  `json:"property"`
	Status   string  `json:"status"` // open | fixed
	Commit   string  `json:"commit,omitempty"`
	Harness  string  `json:"harness"`
	Inputs   []input `json:"inputs"`
	What     string  `json:"what"`
}

func loadKnown(p string) []knownFinding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			continue
		}
		out = append(out, k)
	}
	return out
}

func mainCLI() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|replay")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	scratch, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(scratch)
	hd := filepath.Join(*verif, "harness")
	reg, err := writeRegistry(hd, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildReplay(*repo, hd, scratch, reg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &replayer{bin: bin, dir: scratch}
	defer r.kill()
	rc := 0
	for _, f := range fs.Args() {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v violationRec
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		res, err := r.run(jobT{H: v.Harness, Inputs: v.Inputs, Tier: v.Tier})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s %s %s\n", f, res.Status, res.Msg, res.Where)
		for _, o := range res.Obs {
			fmt.Printf("  %s\n", o)
		}
		if res.bad() {
			rc = 1
		}
	}
	return rc
}

type violationRec struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tier     int      `json:"tier"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where,omitempty"`
	Inputs   []input  `json:"inputs"`
	Obs      []string `json:"observed"`
	Engine   string   `json:"engine_message"`
}

func (e *Engine) harnessDocs() map[string]string {
	m := map[string]string{}
	packages.Visit(e.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, vPkg+"/") {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					m[fd.Name.Name] = strings.TrimSpace(strings.Join(strings.Fields(fd.Doc.Text()), " "))
				}
			}
		}
	})
	return m
}

func cmdCheck(args []string) int {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tierS := fs.String("tier", "", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "regexp of harness names (debugging; writes no evidence)")
	budget := fs.Int("budget", 0, "seconds of exploration")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	noMerge := fs.Bool("nomerge", false, "")
	maxCand := fs.Int("maxcand", 60, "")
	verbose := fs.Bool("v", false, "")
	prof := fs.String("prof", "", "")
	keepGoing := fs.Bool("k", false, "keep exploring after a confirmed violation")
	fs.Parse(args)
	tier := 0
	ts := *tierS
	if ts == "" {
		ts = os.Getenv("VERIF_TIER")
	}
	if ts == "thorough" {
		tier = 1
	} else {
		ts = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	if *budget == 0 {
		*budget = 420
		if tier == 1 {
			*budget = 720
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	hd := filepath.Join(*verif, "harness")
	reg, err := writeRegistry(hd, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ready := make(chan error, 1)
	r := &replayer{dir: scratch, ready: ready}
	go func() {
		bin, err := buildReplay(*repo, hd, scratch, reg)
		r.bin = bin
		ready <- err
	}()
	defer r.kill()
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	var knownIDs []string
	knownSet := map[string]bool{}
	for _, k := range known {
		if k.Status == "open" {
			knownIDs = append(knownIDs, k.ID)
			knownSet[k.ID] = true
		}
	}

	var patterns []string
	for _, pkg := range pkgsOf(hd, *prop) {
		patterns = append(patterns, "./pkg/zz_verif/"+pkg)
	}
	if len(patterns) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	eng, err := newEngine(*repo, hd, patterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	eng.tier = tier
	eng.noMerge = *noMerge
	eng.known = knownSet
	eng.rnd = rand.New(rand.NewSource(int64(seed)))
	eng.sampCap = 12
	eng.cross = os.Getenv("SYMGO_CROSS") != ""
	fns := map[string]*ssa.Function{}
	var names []string
	for _, pkg := range harnessPkgs {
		hp := eng.prog.ImportedPackage(vPkg + "/" + pkg)
		if hp == nil {
			continue
		}
		for n := range hp.Members {
			if strings.HasPrefix(n, *prop+"_") && hp.Func(n) != nil {
				names = append(names, n)
				fns[n] = hp.Func(n)
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if *only != "" && !regexp.MustCompile(*only).MatchString(n) {
			continue
		}
		eng.harnesses = append(eng.harnesses, &harness{name: n, fn: fns[n], st: hstats{Reached: map[string]int64{}}})
	}
	if len(eng.harnesses) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}

	// online confirmation of candidates against the compiled code
	var viols []violationRec
	var unconfirmed []string
	seenV := map[string]int{}
	validated, mismatch := 0, 0
	var mismatches []string
	candCh := make(chan *candidate, 10000)
	eng.onCand = func(c *candidate) { candCh <- c }
	var cwg sync.WaitGroup
	cwg.Add(1)
	var replayErr error
	addV := func(h, kind, msg, where, em string, in []input, ob []string) {
		k := h + "|" + kind + "|" + digits.ReplaceAllString(msg, "N") + "|" + where
		seenV[k]++
		if seenV[k] > 1 {
			return
		}
		viols = append(viols, violationRec{*prop, h, tier, kind, msg, where, in, ob, em})
		if len(viols) >= 3 && !*keepGoing {
			eng.queue.halt()
		} else if len(viols) == 1 && !*keepGoing {
			time.AfterFunc(4*time.Second, eng.queue.halt)
		}
	}
	go func() {
		defer cwg.Done()
		for c := range candCh {
			res, err := r.run(jobT{c.Harness, c.Inputs, knownIDs, tier})
			if err != nil {
				replayErr = err
				continue
			}
			validated++
			if res.bad() {
				addV(c.Harness, res.Status, res.Msg, res.Where, c.Kind+": "+c.Msg, c.Inputs, res.Obs)
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %s -> native %s %s", c.Harness, c.Kind, c.Msg, res.Status, res.Msg))
				mismatch++
			}
		}
	}()
	left := eng.explore(*workers, t0.Add(time.Duration(*budget)*time.Second), *maxCand)
	exploreS := time.Since(t0).Seconds() - loadS
	close(candCh)
	cwg.Wait()
	if replayErr != nil {
		fmt.Fprintln(os.Stderr, "replay:", replayErr)
		return 2
	}
	// native validation of sampled complete paths and of paths the engine could not finish
	for _, s := range eng.samples {
		res, err := r.run(jobT{s.harness, s.inputs, knownIDs, tier})
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			return 2
		}
		validated++
		switch {
		case res.bad():
			addV(s.harness, res.Status, res.Msg, res.Where, "sampled path", s.inputs, res.Obs)
		case res.Status != "ok" && res.Status != "stop":
			mismatch++
			mismatches = append(mismatches, fmt.Sprintf("%s: engine completed, native %s %s", s.harness, res.Status, res.Msg))
		default:
			if strings.Join(res.Obs, "\x00") != strings.Join(s.obs, "\x00") {
				mismatch++
				mismatches = append(mismatches, fmt.Sprintf("%s: engine %q native %q", s.harness, s.obs, res.Obs))
			}
		}
	}
	incReplayed := 0
	tInc := time.Now()
	for _, s := range eng.incSamples {
		if time.Since(tInc) > 30*time.Second {
			break
		}
		res, err := r.run(jobT{s.harness, s.inputs, knownIDs, tier})
		if err != nil {
			break
		}
		incReplayed++
		if res.bad() {
			addV(s.harness, res.Status, res.Msg, res.Where, "path outside the engine's reach, replayed natively", s.inputs, res.Obs)
		}
	}
	var knownLines []string
	for _, k := range known {
		if k.Property != *prop || k.Status != "open" {
			continue
		}
		var others []string
		for _, o := range knownIDs {
			if o != k.ID {
				others = append(others, o)
			}
		}
		res, err := r.run(jobT{k.Harness, k.Inputs, others, tier})
		if err == nil && res.bad() {
			knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", *prop, k.ID, k.What))
		} else if *verbose {
			fmt.Fprintln(os.Stderr, "known finding no longer fails:", k.ID, res, err)
		}
	}

	// report
	fmt.Printf("%s %s: %d harnesses, paths=%d pruned=%d incomplete=%d unexplored=%d branches=%d merges=%d asserts=%d (solver %d) load=%.1fs explore=%.1fs\n",
		*prop, ts, len(eng.harnesses), eng.stats.paths.Load(), eng.stats.pruned.Load(), eng.stats.incomplete.Load(), left,
		eng.stats.forks.Load(), eng.stats.merges.Load(), eng.stats.asserts.Load(), eng.stats.assertsSolver.Load(), loadS, exploreS)
	fmt.Printf("  solver: %s; native replays=%d mismatches=%d\n", solverTotals.String(), validated, mismatch)
	for _, h := range eng.harnesses {
		fmt.Printf("  %-32s paths=%d pruned=%d incomplete=%d maxsteps=%d reached=%v t=%.1fs\n", h.name, h.st.Paths, h.st.Pruned, h.st.Incomplete, h.st.MaxSteps, h.st.Reached, float64(h.st.Nanos)/1e9)
	}
	type kv struct {
		k string
		n int64
	}
	var incs []kv
	for k, n := range eng.incMsgs {
		incs = append(incs, kv{k, n})
	}
	sort.Slice(incs, func(i, j int) bool { return incs[i].n > incs[j].n })
	for i, k := range incs {
		if i >= 12 && !*verbose {
			break
		}
		fmt.Printf("  incomplete x%d: %s\n", k.n, k.k)
	}
	for i, m := range append(append([]string{}, unconfirmed...), mismatches...) {
		if i < 8 || *verbose {
			fmt.Println("  MISMATCH (not reported):", m)
		}
	}
	for _, l := range knownLines {
		fmt.Println(l)
	}
	rdir := filepath.Join(*verif, "evidence", "replay", *prop)
	if *only != "" {
		rdir = filepath.Join("/tmp", "symgo-replay", *prop)
	}
	os.RemoveAll(rdir)
	if len(viols) > 0 {
		os.MkdirAll(rdir, 0o755)
	}
	for i, v := range viols {
		p := filepath.Join(rdir, fmt.Sprintf("%d.json", i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("  %s: %s %s %s\n", v.Harness, v.Kind, v.Msg, v.Where)
		for _, o := range v.Obs {
			fmt.Printf("    %s\n", o)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
	}
	if *only == "" {
		docs := eng.harnessDocs()
		var hs []map[string]any
		for _, h := range eng.harnesses {
			hs = append(hs, map[string]any{"harness": h.name, "checks_and_bounds": docs[h.name], "paths": h.st.Paths,
				"discarded_by_assumption": h.st.Pruned, "incomplete": h.st.Incomplete, "max_steps": h.st.MaxSteps, "reached": h.st.Reached})
		}
		var samples []map[string]any
		for i, s := range eng.samples {
			if i%((len(eng.samples)/10)+1) == 0 {
				samples = append(samples, map[string]any{"harness": s.harness, "inputs": compact(s.inputs), "observed": s.obs})
			}
		}
		incList := map[string]int64{}
		for i, k := range incs {
			if i < 20 {
				incList[k.k] = k.n
			}
		}
		fns := eng.functionsSeen()
		cov := map[string]any{
			"states":                                 eng.stats.paths.Load(),
			"transitions":                            eng.stats.forks.Load(),
			"traces_validated_against_impl":          validated,
			"samples":                                samples,
			"paths_explored":                         eng.stats.paths.Load(),
			"branch_decisions_forked":                eng.stats.forks.Load(),
			"regions_merged_into_formulas":           eng.stats.merges.Load(),
			"instructions_executed":                  eng.stats.steps.Load(),
			"assertions":                             eng.stats.asserts.Load(),
			"assertions_sent_to_solver":              eng.stats.assertsSolver.Load(),
			"solver_queries":                         solverTotals.Queries,
			"solver_cache_hits":                      solverTotals.CacheHits,
			"decided_on_byte_tables":                 solverTotals.DomDecided,
			"byte_tables_proved_by_solver":           solverTotals.Tables,
			"solver_unknown":                         eng.stats.unknown.Load(),
			"solver_time_s":                          solverTotals.Time.Seconds(),
			"functions_encoded_count":                len(fns),
			"functions_encoded":                      fns,
			"harnesses":                              hs,
			"unexplored_prefixes_at_budget":          left,
			"exhaustive":                             left == 0 && eng.stats.incomplete.Load() == 0 && eng.stats.unknown.Load() == 0,
			"paths_outside_engine":                   incList,
			"paths_outside_engine_replayed_natively": incReplayed,
			"native_mismatches":                      len(mismatches) + len(unconfirmed),
			"known_findings_seen":                    knownLines,
		}
		ev := map[string]any{"property": *prop, "tier": ts, "seed": seed, "level": "model_checking", "coverage": cov,
			"wall_s": time.Since(t0).Seconds(), "violations": len(viols),
			"assumptions": []string{
				"holds within the bounds given in each harness's checks_and_bounds text; inputs outside them are not decided by this run",
				"the SSA form of go/ssa and the engine's model of Go semantics and of the intercepted library functions are trusted, and are cross-checked by native replay of sampled paths",
				"z3 4.8.12 is trusted for unsatisfiable answers; satisfiable answers are replayed on the compiled code",
			}}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(viols) > 0 {
		return 1
	}
	return 0
}

// compact groups byte inputs name.0, name.1, ... into one string.
func compact(in []input) map[string]any {
	m := map[string]any{}
	strs := map[string][]byte{}
	for _, i := range in {
		if k := strings.LastIndexByte(i.Name, '.'); k > 0 {
			if n, err := strconv.Atoi(i.Name[k+1:]); err == nil && n < 4096 {
				b := strs[i.Name[:k]]
				for len(b) <= n {
					b = append(b, 0)
				}
				b[n] = byte(i.Val)
				strs[i.Name[:k]] = b
				continue
			}
		}
		m[i.Name] = i.Val
	}
	for k, b := range strs {
		m[k] = string(b)
	}
	return m
}
