package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kunitsucom/ddlctl"
const vPkg = modPath + "/pkg/zz_verif"

type candidate struct {
	Harness string  `json:"harness"`
	Kind    string  `json:"kind"`
	Msg     string  `json:"msg"`
	Inputs  []input `json:"inputs"`
}

type stats struct {
	forks, merges, asserts, assertsConcrete, assertsSolver, goroutines atomic.Int64
	paths, pruned, incomplete, limits, steps, stopped                  atomic.Int64
	unknown                                                            atomic.Int64
}

type harness struct {
	name string
	fn   *ssa.Function
	st   hstats
}

type hstats struct {
	Paths, Pruned, Incomplete, Limits, Panics int64
	Asserts                                   int64
	MaxSteps                                  int64
	Nanos                                     int64
	Reached                                   map[string]int64
	mu                                        sync.Mutex
}

type sample struct {
	harness  string
	inputs   []input
	obs      []string
	complete bool
}

type Engine struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	progMu    sync.Mutex
	redirect  map[string]*ssa.Function
	stepLimit int64
	noMerge   bool
	cross     bool
	queue     *workQueue
	stats     stats
	harnesses []*harness
	mutCache  sync.Map
	fnSeen    sync.Map

	candMu     sync.Mutex
	candidates []*candidate
	candKeys   map[string]int
	maxCand    int

	sampMu     sync.Mutex
	samples    []sample
	sampSeen   map[string]int
	incSamples []sample
	incMsgs    map[string]int64
	rnd        *rand.Rand
	sampCap    int

	typeMu sync.Mutex
	named  map[string]types.Type
	rtypeT types.Type
	tier   int
	dl     time.Time
	known  map[string]bool
	onCand func(*candidate)
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "CGO_ENABLED", "GOROOT", "HOME", "GOPATH", "GOMODCACHE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
}

// overlayFiles maps files of /verif/harness into the repository module.
func overlayFiles(harnessDir, repo string) map[string]string {
	m := map[string]string{}
	filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, p)
		m[filepath.Join(repo, "pkg", "zz_verif", rel)] = p
		return nil
	})
	return m
}

var driverImport = regexp.MustCompile(`(?m)^(import\s+)?\s*_\s+"github.com/(lib/pq|go-sql-driver/mysql|googleapis/go-sql-spanner)[^"]*".*$`)

// withoutDrivers maps the files that register the real database drivers to copies that do not.
func withoutDrivers(repo string) map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if b, err := os.ReadFile(p); err == nil && driverImport.Match(b) {
			m[p] = driverImport.ReplaceAll(b, []byte("//"))
		}
		return nil
	})
	return m
}

func newEngine(repo, harnessDir string, patterns []string) (*Engine, error) {
	ov := withoutDrivers(repo)
	for dst, src := range overlayFiles(harnessDir, repo) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: repoEnv(), Overlay: ov}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Fprintln(os.Stderr, "load:", e)
				bad++
			}
		}
	})
	if bad > 0 {
		return nil, fmt.Errorf("%d load errors", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	e := &Engine{prog: prog, pkgs: pkgs, redirect: map[string]*ssa.Function{}, stepLimit: 4000000,
		candKeys: map[string]int{}, maxCand: 12, sampSeen: map[string]int{}, incMsgs: map[string]int64{}, named: map[string]types.Type{}}
	e.loadRedirects()
	return e, nil
}

func (e *Engine) loadRedirects() {
	packages.Visit(e.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, vPkg) {
			return
		}
		sp := e.prog.Package(p.Types)
		if sp == nil {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//symgo:replace "); ok {
						e.redirect[strings.TrimSpace(t)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
}

func (e *Engine) mutablePkg(p *ssa.Package) bool {
	if v, ok := e.mutCache.Load(p); ok {
		return v.(bool)
	}
	m := strings.HasPrefix(p.Pkg.Path(), "github.com/kunitsucom/")
	e.mutCache.Store(p, m)
	return m
}

func (e *Engine) lookupFunc(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return f
}

func (e *Engine) namedType(pkg, name string) types.Type {
	k := pkg + "." + name
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	if t, ok := e.named[k]; ok {
		return t
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	m := p.Type(name)
	if m == nil {
		panic(unsupported("no type " + k))
	}
	e.named[k] = m.Type()
	return m.Type()
}

func (e *Engine) ptrTo(pkg, name string) types.Type {
	t := e.namedType(pkg, name)
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	k := "*" + pkg + "." + name
	if p, ok := e.named[k]; ok {
		return p
	}
	p := types.NewPointer(t)
	e.named[k] = p
	return p
}

func (e *Engine) runtimeError(msg string) value {
	return iface{t: e.namedType("runtime", "errorString"), v: msg}
}
func (e *Engine) plainError(msg string) value { return e.plainErrorV(msg) }
func (e *Engine) plainErrorV(msg value) value {
	var st value = structure{msg}
	return iface{t: e.ptrTo("errors", "errorString"), v: &st}
}
func (e *Engine) rtypeIface(t types.Type) value {
	e.typeMu.Lock()
	if e.rtypeT == nil {
		for _, pn := range []string{"reflect", "internal/reflectlite"} {
			if p := e.prog.ImportedPackage(pn); p != nil {
				if m := p.Type("rtype"); m != nil {
					e.rtypeT = types.NewPointer(m.Type())
					break
				}
			}
		}
	}
	rt := e.rtypeT
	e.typeMu.Unlock()
	return iface{t: rt, v: rtype{t}}
}

func (e *Engine) noteUnknown() { e.stats.unknown.Add(1) }
func (e *Engine) noteFn(f *ssa.Function) {
	if _, ok := e.fnSeen.Load(f); !ok {
		e.fnSeen.Store(f, true)
	}
}

func (e *Engine) addCandidate(c *candidate) {
	e.candMu.Lock()
	defer e.candMu.Unlock()
	k := c.Harness + "|" + c.Kind + "|" + c.Msg
	if len(k) > 400 {
		k = k[:400]
	}
	e.candKeys[k]++
	if e.candKeys[k] > 4 {
		return
	}
	e.candidates = append(e.candidates, c)
	if e.onCand != nil {
		e.onCand(c)
	}
}

func (e *Engine) numCand() int {
	e.candMu.Lock()
	defer e.candMu.Unlock()
	return len(e.candidates)
}

// ---- work queue ----

type workQueue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	stacks [][]*item
	n      int
	next   int
	busy   int
	stop   bool
}

func newQueue(nh int) *workQueue {
	q := &workQueue{stacks: make([][]*item, nh)}
	q.cond = sync.NewCond(&q.mu)
	return q
}
func (q *workQueue) push(it *item) {
	q.mu.Lock()
	q.stacks[it.h] = append(q.stacks[it.h], it)
	q.n++
	q.mu.Unlock()
	q.cond.Signal()
}

// pop takes the next path, serving the harnesses in turn.
func (q *workQueue) pop() *item {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.stop {
			return nil
		}
		if q.n > 0 {
			for {
				st := q.stacks[q.next]
				if n := len(st); n > 0 {
					it := st[n-1]
					st[n-1] = nil
					q.stacks[q.next] = st[:n-1]
					q.next = (q.next + 1) % len(q.stacks)
					q.n--
					q.busy++
					return it
				}
				q.next = (q.next + 1) % len(q.stacks)
			}
		}
		if q.busy == 0 {
			q.cond.Broadcast()
			return nil
		}
		q.cond.Wait()
	}
}
func (q *workQueue) done() {
	q.mu.Lock()
	q.busy--
	if q.busy == 0 && q.n == 0 {
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}
func (q *workQueue) left() int {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.n
}
func (q *workQueue) halt() {
	q.mu.Lock()
	q.stop = true
	q.mu.Unlock()
	q.cond.Broadcast()
}

// runPath executes one path of a harness.
func (x *Exec) runPath(it *item) {
	h := x.eng.harnesses[it.h]
	x.resetPath(it)
	tStart := time.Now()
	complete := false
	stopped := false
	pruned := false
	incMsg := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch p := r.(type) {
			case pathAbort:
				switch p.kind {
				case abAssume:
					pruned = true
				case abStop:
					stopped = true
				case abLimit:
					x.violationH(h, "hang", "no termination within the step limit at "+firstFrames(p.msg, 2), nil)
					stopped = true
					x.eng.stats.limits.Add(1)
				default:
					incMsg = p.msg + " @ " + firstFrames(x.stackStr(), 3)
				}
			case targetPanic:
				msg := x.panicText(p.v)
				x.violationH(h, "panic", msg+" @ "+firstFrames(p.where, 3), nil)
				stopped = true
			case forkNeeded:
				incMsg = "internal: fork in no-fork region"
			default:
				incMsg = fmt.Sprintf("internal: %v @ %s", r, firstFrames(x.stackStr(), 3))
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, incMsg, string(debug.Stack()))
				}
			}
		}()
		x.curH = h
		x.callSSA(h.fn, nil, nil)
		complete = true
	}()
	e := x.eng
	e.stats.steps.Add(x.steps)
	h.st.mu.Lock()
	h.st.Nanos += int64(time.Since(tStart))
	if x.steps > h.st.MaxSteps {
		h.st.MaxSteps = x.steps
	}
	switch {
	case pruned:
		h.st.Pruned++
		e.stats.pruned.Add(1)
	case incMsg != "":
		h.st.Incomplete++
		e.stats.incomplete.Add(1)
	default:
		h.st.Paths++
		e.stats.paths.Add(1)
	}
	for l := range x.reached {
		h.st.Reached[l]++
	}
	h.st.mu.Unlock()
	if pruned {
		return
	}
	if incMsg != "" {
		e.sampMu.Lock()
		e.incMsgs[h.name+": "+incMsg]++
		if len(e.incSamples) < 500 {
			e.incSamples = append(e.incSamples, sample{harness: h.name, inputs: x.inputsUnder(nil)})
		}
		e.sampMu.Unlock()
		return
	}
	if complete || stopped {
		e.sampMu.Lock()
		e.sampSeen[h.name]++
		n := e.sampSeen[h.name]
		keep := false
		slot := -1
		if n <= e.sampCap {
			keep = true
		} else if k := e.rnd.Intn(n); k < e.sampCap {
			keep = true
			// replace the k-th sample of this harness
			c := 0
			for i := range e.samples {
				if e.samples[i].harness == h.name {
					if c == k {
						slot = i
						break
					}
					c++
				}
			}
		}
		e.sampMu.Unlock()
		if keep && complete {
			s := sample{harness: h.name, inputs: x.inputsUnder(nil), complete: complete}
			for _, o := range x.observed {
				v := x.modelStr(o.v)
				if o.str {
					v = strconv.QuoteToASCII(v)
				}
				s.obs = append(s.obs, o.label+"="+v)
			}
			e.sampMu.Lock()
			if slot >= 0 && slot < len(e.samples) {
				e.samples[slot] = s
			} else {
				e.samples = append(e.samples, s)
			}
			e.sampMu.Unlock()
		}
	}
}

func firstFrames(s string, n int) string {
	p := strings.Split(s, " < ")
	if len(p) > n {
		p = p[:n]
	}
	r := strings.Join(p, " < ")
	r = strings.ReplaceAll(r, modPath+"/", "")
	return r
}

func (x *Exec) violationH(h *harness, kind, msg string, up map[int32]uint64) {
	x.eng.addCandidate(&candidate{Harness: h.name, Kind: kind, Msg: msg, Inputs: x.inputsUnder(up)})
}

func (x *Exec) panicText(v value) string {
	i, ok := v.(iface)
	if !ok {
		return describe(v)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	func() {
		defer func() { recover() }()
		r := x.fmtArg(nil, "%", 'v', i, 0)
		v = x.modelStr(r)
	}()
	if s, ok := v.(string); ok {
		return s
	}
	return describe(v)
}

func (e *Engine) explore(workers int, deadline time.Time, maxCand int) (left int) {
	e.queue = newQueue(len(e.harnesses))
	for i := range e.harnesses {
		e.queue.push(&item{h: i})
	}
	e.dl = deadline
	var wg sync.WaitGroup
	execs := make([]*Exec, workers)
	stopT := time.AfterFunc(time.Until(deadline), e.queue.halt)
	defer stopT.Stop()
	for w := 0; w < workers; w++ {
		x := newExec(e, w)
		execs[w] = x
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it := e.queue.pop()
				if it == nil {
					return
				}
				x.runPath(it)
				e.queue.done()
				if e.numCand() >= maxCand {
					e.queue.halt()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(10 * time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			n := e.queue.left()
			fmt.Fprintf(os.Stderr, "[%s] paths=%d pruned=%d incomplete=%d queue=%d cand=%d\n", time.Now().Format("15:04:05"),
				e.stats.paths.Load(), e.stats.pruned.Load(), e.stats.incomplete.Load(), n, e.numCand())
		}
	}
	for _, x := range execs {
		solverTotals.add(&x.sol.st)
		x.sol.close()
	}
	return e.queue.left()
}

var solverTotals SolverStats

func (e *Engine) functionsSeen() []string {
	var out []string
	e.fnSeen.Range(func(k, v any) bool {
		f := k.(*ssa.Function)
		n := f.String()
		if strings.Contains(n, "zz_verif") || strings.Contains(n, "$") && strings.Contains(n, "zz_verif") {
			return true
		}
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/kunitsucom/") || strings.Contains(n, "kunitsucom") {
			out = append(out, strings.ReplaceAll(n, modPath+"/", ""))
		}
		return true
	})
	sort.Strings(out)
	return out
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
