// gosstatic decides the properties of /verif/properties.jsonl from the source
// of iomz/gosstrak, by abstract interpretation of its SSA form and by
// structural dataflow rules. It never runs the program it analyses.
package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Finding is one reported construct.
type Finding struct {
	key string // rule and construct, stable over edits elsewhere
	pos string
	msg string
}

// Check is the state of one property check.
type Check struct {
	pr       *Prog
	id       string
	tier     string
	mu       sync.Mutex
	repMu    sync.Mutex
	finds    []Finding
	seen     map[string]bool
	cover    map[string]int64
	funcs    map[string]bool
	expl     string
	assum    []string
	tasks    []task
	stats    map[string]int
	dumps    []func(r *Run) // histories of C36
	hist     bool           // see hist.go
	twinFrom time.Time
}
type task struct {
	name string
	f    func(m *Machine)
}

func (c *Check) thorough() bool { return c.tier == "thorough" }

// fail reports a violation of the property.
func (c *Check) fail(key, pos, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.finds = append(c.finds, Finding{key, pos, fmt.Sprintf(f, a...)})
}

// count adds to a coverage measure.
func (c *Check) count(name string, n int) {
	c.mu.Lock()
	c.cover[name] += int64(n)
	c.mu.Unlock()
}

// expect fails the check when fewer instances than known were analysed.
func (c *Check) expect(what string, got, atLeast int) {
	if got < atLeast {
		c.fail("instances:"+what, "-", "only %d instances of %s were found to analyse, expected at least %d: the code the rule is about is missing or no longer recognised", got, what, atLeast)
	}
}

// context queues one analysis context.
func (c *Check) context(name string, f func(m *Machine)) {
	c.tasks = append(c.tasks, task{name, f})
}

// run analyses all queued contexts.
func (c *Check) run() {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan task)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				c.runTask(t)
			}
		}()
	}
	for _, t := range c.tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
	c.tasks = nil
}
func (c *Check) runTask(t task) {
	m := newMachine(c.pr, t.name)
	if c.hist {
		m.hist = histRecord
	}
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 40 {
				st = st[:40]
			}
			c.fail("internal:"+t.name, "-", "the analysis of %s failed (%v), so the property is undecided\n%s", t.name, e, strings.Join(st, "\n"))
		}
	}()
	t0 := time.Now()
	t.f(m)
	if m.keeps && len(m.problems) == 0 {
		c.twin(t)
	}
	if os.Getenv("GOSSTATIC_SLOW") != "" && time.Since(t0) > time.Second {
		fmt.Fprintf(os.Stderr, "slow %s %v paths=%d steps=%d\n", t.name, time.Since(t0), m.Paths, m.Steps)
	}
	for _, p := range m.problems {
		c.fail("undecided:"+stripLines(p), "-", "undecided: %s", p)
	}
	c.mu.Lock()
	c.cover["contexts"]++
	c.cover["paths"] += int64(m.Paths)
	c.cover["abstract_steps"] += m.Steps
	for f := range m.funcs {
		if p := fnPkg(f); p != nil && c.pr.isRepo(p.Path()) {
			c.funcs[fnName(f)] = true
		}
	}
	c.mu.Unlock()
}

// stripLines removes line numbers so that keys survive edits.
func stripLines(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == ':' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func (c *Check) pos(p token.Pos) string { return c.pr.pos(p) }

// fn resolves an anchor function; a missing anchor leaves the property
// undecided, which is a violation.
func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.pr.fn(rel, name)
	if f == nil {
		c.fail("anchor:"+rel+"."+name, "-", "function %s.%s is not in the program, so the property cannot be established", rel, name)
	}
	return f
}
func (c *Check) meth(rel, typ, name string) *ssa.Function {
	f := c.pr.meth(rel, typ, name)
	if f == nil {
		c.fail("anchor:"+rel+"."+typ+"."+name, "-", "method %s.%s.%s is not in the program, so the property cannot be established", rel, typ, name)
	}
	return f
}

type rule struct {
	pkgs  []string
	f     func(c *Check)
	expl  string
	assum []string
}

var rules = map[string]rule{}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosstatic check ID")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	id := os.Args[2]
	root := envOr("GOSSTATIC_REPO", "/repo")
	verif := envOr("GOSSTATIC_VERIF", "/verif")
	tier := envOr("VERIF_TIER", "quick")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	setExplanations()
	ru, ok := rules[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if pf := os.Getenv("GOSSTATIC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("GOSSTATIC_POS") != "" {
		posLog = new(sync.Map)
	}
	t0 := time.Now()
	c := &Check{id: id, tier: tier, seen: map[string]bool{}, cover: map[string]int64{}, funcs: map[string]bool{}, stats: map[string]int{}, hist: histRules[id]}
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.fail("internal", "-", "the analysis failed (%v), so the property is undecided\n%s", e, debug.Stack())
			}
		}()
		pk := ru.pkgs
		if len(pk) == 0 {
			pk = []string{"./..."}
		}
		pr, err := loadProg(root, pk...)
		if err != nil {
			c.fail("load", "-", "the source could not be loaded for analysis: %v", err)
			return
		}
		c.pr = pr
		go c.watch(ru, verif, t0)
		ru.f(c)
		c.run()
		if c.cover["contexts"] == 0 && c.cover["obligations"] == 0 {
			c.fail("empty", "-", "nothing was analysed")
		}
	}()
	if pf := os.Getenv("GOSSTATIC_POS"); pf != "" {
		writePos(pf, c.pr)
	}
	c.repMu.Lock() // never released: one report
	rc := c.report(ru, verif, time.Since(t0))
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// known reads the committed list of known findings of this property.
func (c *Check) known(verif string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+c.id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+c.id+" ")
		if i := strings.Index(l, " :: "); i > 0 {
			out[strings.TrimPrefix(l[:i], "key=")] = l[i+4:]
		}
	}
	return out
}

// watch ends the analysis early: some time after a violation was found, and when
// it does not end in the time a check has.
func (c *Check) watch(ru rule, verif string, t0 time.Time) {
	known := c.known(verif)
	for {
		time.Sleep(time.Second)
		d := time.Since(t0)
		bad := false
		c.mu.Lock()
		for _, f := range c.finds {
			if _, ok := known[f.key]; !ok {
				bad = true
			}
		}
		c.mu.Unlock()
		if d > 780*time.Second && c.tier == "quick" || d > time.Hour {
			c.fail("time", "-", "the analysis did not end within %v, so the property is undecided", d.Round(time.Second))
			bad = true
		} else if d < 60*time.Second {
			continue
		}
		if bad {
			c.repMu.Lock()
			c.mu.Lock()
			os.Exit(c.report(ru, verif, d))
		}
	}
}

func (c *Check) report(ru rule, verif string, d time.Duration) int {
	known := c.known(verif)
	var bad []Finding
	for _, f := range c.finds {
		if w, ok := known[f.key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, w, f.pos)
			continue
		}
		bad = append(bad, f)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	var fl []string
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{"explanation": ru.expl, "functions_analysed": len(fl)}
	if len(fl) > 0 {
		cov["functions"] = fl
	}
	for k, v := range c.cover {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": float64(d.Milliseconds()) / 1000,
		"violations": len(bad), "assumptions": append([]string{}, ru.assum...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	vp := filepath.Join(verif, "evidence", c.id+".violation.txt")
	if len(bad) == 0 {
		os.Remove(vp)
		fmt.Printf("%s held: %d contexts, %d paths, %d obligations, %d functions, %.1fs\n", c.id, c.cover["contexts"], c.cover["paths"], c.cover["obligations"], len(fl), d.Seconds())
		return 0
	}
	var sb strings.Builder
	for i, f := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", f.pos, f.key, f.msg)
		if i < 12 {
			fmt.Printf("%s: [%s] %s\n", f.pos, f.key, f.msg)
		}
	}
	os.WriteFile(vp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, vp)
	return 1
}

// posLog collects the positions interpreted when GOSSTATIC_POS names a file for
// them; used to find code of /repo no rule reaches.
var posLog *sync.Map

func writePos(file string, pr *Prog) {
	var b strings.Builder
	if pr != nil {
		posLog.Range(func(k, _ any) bool {
			fmt.Fprintln(&b, "seen", pr.fset.Position(k.(token.Pos)))
			return true
		})
		for fn := range ssautil.AllFunctions(pr.ssa) {
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if in.Pos().IsValid() {
						fmt.Fprintln(&b, "all", pr.fset.Position(in.Pos()))
					}
				}
			}
		}
	}
	os.WriteFile(file, []byte(b.String()), 0o644)
}
