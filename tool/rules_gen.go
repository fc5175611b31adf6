package main

import (
	"fmt"
	"go/token"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C20"] = rule{pkgs: []string{"./filtering"}, f: ruleC20}
	rules["C21"] = rule{pkgs: []string{"./filtering"}, f: ruleC21}
	rules["C23"] = rule{pkgs: []string{"./filtering"}, f: ruleC23}
}

func (s *sys) genPos(n string) string {
	return s.c.pos(s.c.meth("filtering", "EngineGenerator", n).Pos())
}

// ---- C21

// watch checks every announcement when it is sent.
func (s *sys) watch() map[string]int {
	c := s.c
	ann := map[string]int{}
	s.onSent = func(e sentEvent, co *coro) {
		if e.ch == s.main || !s.isType(e.v, "OnEngineGenerated") {
			return
		}
		c.count("obligations", 1)
		p, ok := s.mf(e.v, "EngineGeneratorInstance").(Ptr)
		var own *genInfo
		known := false
		for _, n := range s.names() {
			known = known || s.gens[n].ch == e.ch
			if ok && s.gens[n].eg == p && s.gens[n].ch == e.ch {
				own = s.gens[n]
			}
		}
		if !known { // passed on inside the factory
			return
		}
		if own == nil {
			c.fail("announce:instance", c.pos(e.pos), "an engine is announced with another generator than its own")
			return
		}
		ann[own.name]++
		if st := s.state(own); st != "ready" {
			c.fail("announce:state", c.pos(e.pos), "the engine of %s is announced in the state %q", own.name, st)
		}
		s.engineInPlace(own, e.pos, "announced")
	}
	return ann
}

// engineInPlace checks the engine of a generator.
func (s *sys) engineInPlace(g *genInfo, pos token.Pos, what string) {
	c := s.c
	c.count("obligations", 1)
	var last *buildEvent
	for i := range s.builds {
		if s.builds[i].kind == g.name {
			last = &s.builds[i]
		}
	}
	v := s.c.fieldOf(s.r, g.eg, "Engine")
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		c.fail("engine:missing", c.pos(pos), "the generator of %s is %s before its engine is in place", g.name, what)
		return
	}
	if last == nil {
		c.fail("engine:kind", c.pos(pos), "the generator of %s is %s with an engine that %s's constructor did not build", g.name, what, g.name)
		return
	}
	if vkey(last.ev) != vkey(v) {
		c.fail("engine:kind", c.pos(pos), "the generator of %s is %s with another engine than the one built for it", g.name, what)
	}
}

func (s *sys) watchEvents() {
	c := s.c
	for _, e := range s.events {
		c.count("obligations", 1)
		if !e.ok {
			c.fail("event:"+e.event, c.pos(e.pos), "the event %q is requested in the state %q of %s, which does not allow it", e.event, e.before, e.gen)
		}
	}
}

// checkBuilt checks that every generator is ready with one build and n
// announcements.
func (s *sys) checkBuilt(ann map[string]int, n map[string]int, builds map[string]int, what string) {
	c := s.c
	s.watchEvents()
	for _, name := range s.names() {
		g := s.gens[name]
		c.count("obligations", 1)
		if st := s.state(g); st != "ready" {
			c.fail("ready:"+name, s.genPos("Search"), "the generator of %s stays in the state %q after %s", name, st, what)
			continue
		}
		s.engineInPlace(g, s.c.meth("filtering", "EngineGenerator", "Search").Pos(), "ready")
		if ann[name] != n[name] {
			c.fail("announcements:"+name, s.genPos("Search"), "the generator of %s announces its engine %d times, want %d, after %s", name, ann[name], n[name], what)
		}
		k := 0
		for _, b := range s.builds {
			if b.kind == name {
				k++
				if d := s.r.graphDiff(b.sub, s.snapshot(s.sub), "subscriptions", map[string]bool{}); d != "" {
					c.fail("subscriptions:"+name, s.genPos("Search"), "the engine of %s is built from other subscriptions than given: %s", name, d)
				}
			}
		}
		if k != builds[name] {
			c.fail("builds:"+name, s.genPos("Search"), "the engine of %s is built %d times, want %d, after %s", name, k, builds[name], what)
		}
	}
}

// request performs a lifecycle event from outside.
func (s *sys) request(g *genInfo, event string, args ...any) *coro {
	fn := s.fsmMeth("Event")
	ctx := &Opaque{"context", fn.Signature.Params().At(0).Type()}
	sl := s.r.newSlice(emptyIface, args)
	return s.w.spawn(event+" "+g.name, 0, func() any { return s.r.call(fn, []any{s.fsmOf(g), ctx, lit(event), sl}, nil, nil) })
}

func ruleC21(c *Check) {
	names := c.engineNames()
	one := func() map[string]int {
		m := map[string]int{}
		for _, n := range names {
			m[n] = 1
		}
		return m
	}
	n := 0
	for _, order := range []string{"fifo", "lifo"} {
		for _, eager := range []bool{false, true} {
			order, eager := order, eager
			mode := fmt.Sprintf("%s eager=%v", order, eager)
			n++
			c.withSys("start "+mode, func(s *sys) {
				s.w.order, s.w.eager = order, eager
				s.r.user["ann"] = s.watch()
				s.deployCheck()
			}, func(s *sys) {
				ann := s.r.user["ann"].(map[string]int)
				s.alive("starting the factory")
				init := map[string]int{}
				for _, e := range s.events {
					if e.event == "init" {
						init[e.gen]++
						if len(e.args) == 0 {
							c.fail("init:args", c.pos(e.pos), "init is requested without subscriptions")
							return
						}
						if i, ok := e.args[0].(Iface); !ok || s.r.graphDiff(s.snapshot(i.v), s.snapshot(s.sub), "subscriptions", map[string]bool{}) != "" {
							c.fail("init:args", c.pos(e.pos), "init of %s is requested with other subscriptions than the factory was given", e.gen)
						}
					}
				}
				for _, name := range names {
					if s.gens[name] == nil {
						c.fail("generator:"+name, s.runPos(), "no generator is made for %s", name)
						return
					}
					if init[name] != 1 {
						c.fail("init:"+name, s.runPos(), "the generator of %s is initialised %d times by Run", name, init[name])
					}
				}
				want, builds := one(), one()
				s.checkBuilt(ann, want, builds, "the start")
				// rebuilding
				for _, typ := range []string{"AddSubscription", "DeleteSubscription", "AddSubscription"} {
					for _, name := range names {
						msg := s.msg(map[string]any{"Type": s.kind(typ), "Pattern": opqStr("pattern"), "ReportURI": opqStr("uri")})
						p := Ptr{obj: s.r.newObj(s.mm, msg)}
						co := s.request(s.gens[name], "update", Iface{ptrTo(s.mm), p})
						s.w.settle()
						s.alive("an update of " + name)
						if !co.done {
							c.fail("update:blocked", c.pos(co.op.pos), "an update of %s never ends", name)
							return
						}
						want[name]++
						n0 := 0
						for _, b := range s.builds {
							if b.kind == name {
								n0++
							}
						}
						builds[name] = n0
						s.checkBuilt(ann, want, builds, "an update of "+name)
					}
				}
			})
		}
	}
	// every schedule of one generator
	for _, name := range names {
		name := name
		n++
		c.context("schedules of "+name, func(m *Machine) {
			c.sysHooks(m)
			m.explore(func(r *Run) {
				c.withWorld(r, func(w *world) {
					s := c.newSys(r, w, func(s *sys) { s.noRun = true; s.deployCheck() })
					g := s.gens[name]
					if g == nil {
						return
					}
					for _, x := range s.names() {
						w.sink[s.gens[x].ch] = func(v any, co *coro, pos token.Pos) {}
					}
					ann := s.watch()
					w.order, w.preempt = "choose", 1
					if c.thorough() {
						w.preempt = 3
					}
					sub := s.sub
					t := c.typeOf("filtering", "Subscriptions")
					if t == nil {
						return
					}
					co := s.request(g, "init", Iface{t, sub})
					w.settle()
					s.alive("init of " + name)
					if !co.done {
						c.fail("init:blocked", c.pos(co.op.pos), "init of %s never ends", name)
						return
					}
					w.preempt = 0
					for _, x := range s.names() {
						if x != name {
							delete(s.gens, x)
						}
					}
					s.checkBuilt(ann, map[string]int{name: 1}, map[string]int{name: 1}, "init")
				})
			})
			c.mu.Lock()
			c.cover["schedules"] += int64(m.Paths)
			c.mu.Unlock()
		})
	}
	c.expect("lifecycle scenarios", n, 8)
}

// deployCheck checks that the engine is in place when ready is requested.
func (s *sys) deployCheck() {
	s.onEvent = func(g *genInfo, event string, pos token.Pos) {
		if event == "deploy" && g != nil {
			s.engineInPlace(g, pos, "declared ready")
		}
	}
}

// ---- C23

// us is the time in whole microseconds per search, ns the exact time.
type expGen struct{ events, matches, us, ns int }

// reports checks the reports sent since index n0 for one generator.
func (s *sys) reports(name string, l []sentEvent, want expGen, what string) {
	c := s.c
	tr, th := 0, 0
	pos := s.genPos("Search")
	for _, e := range l {
		if s.isType(e.v, "SelectedEngine") {
			continue
		}
		if x, ok := s.mf(e.v, "EngineName").(*Str); !ok || !x.isLit() || x.lit != name {
			c.fail("report:name", c.pos(e.pos), "the report of %s carries the name %s", name, showVal(s.mf(e.v, "EngineName")))
		}
		switch {
		case s.isType(e.v, "TrafficStatus"):
			tr++
			if k, ok := s.mf(e.v, "EventCount").(KI); !ok || int(k) != want.events {
				c.fail("report:events", pos, "%s reports %s searches instead of %d after %s", name, showVal(s.mf(e.v, "EventCount")), want.events, what)
			}
			if k, ok := s.mf(e.v, "MatchedCount").(KI); !ok || int(k) != want.matches {
				c.fail("report:matches", pos, "%s reports %s matched events instead of %d after %s", name, showVal(s.mf(e.v, "MatchedCount")), want.matches, what)
			}
		case s.isType(e.v, "EngineStatus"):
			th++
			f, ok := evalNum(s.mf(e.v, "CurrentThroughput"), nil)
			if !ok || math.IsNaN(f) {
				c.fail("report:throughput", pos, "%s reports an undefined throughput after %s", name, what)
				continue
			}
			// the time may be accumulated exactly or in whole microseconds
			// per search
			hi, lo := math.Inf(1), 0.0
			if want.us != 0 {
				hi = float64(want.events) / float64(want.us)
			}
			if want.ns != 0 {
				lo = float64(want.events) * 1000 / float64(want.ns)
			}
			if f > hi+1e-9 || f < lo-1e-9 || want.events == 0 {
				c.fail("report:throughput", pos, "%s reports a throughput of %v instead of %v per microsecond after %s", name, f, hi, what)
			}
		}
	}
	c.count("obligations", 1)
	if tr != 1 {
		c.fail("report:missing", pos, "%s sends %d traffic reports for one interval after %s", name, tr, what)
	}
	if want.events > 0 && want.us > 0 && th != 1 {
		c.fail("report:throughput", pos, "%s sends %d throughput reports for one interval after %s", name, th, what)
	}
}

type oneSearch struct {
	uris  int
	fails bool
}

// factorySearch checks one search of the factory.
func (s *sys) factorySearch(cur string, ready map[string]bool, out map[string]oneSearch, acc map[string]*expGen, i int) {
	c := s.c
	s.outcome = func(kind string) (int, bool) { return out[kind].uris, out[kind].fails }
	// which engine a duration belongs to: the goroutine's last engine search
	lastN := len(s.searches)
	s.dur = func() any {
		k := ""
		if n := len(s.searches); n > lastN {
			k = s.searches[n-1].kind
		}
		ns := (3 + 2*i + len(k)) * 1000
		switch (i + s.durSeed) % 5 {
		case 0:
			ns = []int{0, 1, 300, 999}[(i+s.durSeed+len(k))%4]
		case 1:
			ns = 1000
		case 2:
			ns += 700
		case 3:
			if s.slow && i%9 == 4 {
				ns += []int{2000000000, 70000000000, 5000000000000}[i/9%3]
			}
		}
		if a := acc[k]; a != nil {
			a.us += ns / 1000
			a.ns += ns
		}
		return KI(ns)
	}
	n0 := len(s.searches)
	re := s.readEvent(fmt.Sprint(i))
	res := s.search(re)
	pos := s.c.pos(s.c.meth("filtering", "EngineFactory", "Search").Pos())
	seen := map[string]int{}
	for _, x := range s.searches[n0:] {
		seen[x.kind]++
		c.count("obligations", 1)
		if x.kind != cur && !ready[x.kind] {
			c.fail("search:notready", c.pos(x.pos), "the engine of %s is searched while its generator is not ready (%s)", x.kind, s.state(s.gens[x.kind]))
		}
		if vkey(x.re) != vkey(re) {
			c.fail("search:event", c.pos(x.pos), "the engine of %s searches another event than the one given", x.kind)
		}
		if a := acc[x.kind]; a != nil {
			a.events++
			if out[x.kind].uris > 0 {
				a.matches++
			}
		}
	}
	c.count("obligations", 1)
	if cur == "" {
		if s.r.decide(s.r.errNil(res[2]), "search error") {
			c.fail("search:none", pos, "a search without any engine returns no error")
		}
		return
	}
	if seen[cur] == 0 {
		c.fail("search:current", pos, "a search does not ask the current engine %s", cur)
		return
	}
	if vkey(res[0]) != vkey(opqStr("identity of "+cur)) {
		c.fail("search:identity", pos, "a search returns the identity %s although %s is current", showVal(res[0]), cur)
	}
	o := out[cur]
	isNil := s.r.decide(s.r.errNil(res[2]), "search error")
	if isNil == o.fails {
		c.fail("search:error", pos, "a search returns error=%v although the search of the current engine returns error=%v", !isNil, o.fails)
	}
	var got []any
	if sl, ok := res[1].(SliceV); ok && sl.obj != nil {
		s.quiet(func() { got = s.r.elemsOf(sl) })
	}
	okU := len(got) == o.uris
	for j := range got {
		if vkey(got[j]) != vkey(opqStr(fmt.Sprintf("uri%d of %s", j, cur))) {
			okU = false
		}
	}
	if !okU {
		c.fail("search:uris", pos, "a search returns other report URIs than the current engine %s", cur)
	}
}

func ruleC23(c *Check) {
	names := c.engineNames()
	outs := []oneSearch{{0, true}, {0, false}, {1, false}, {2, false}, {1, true}, {3, true}, {4, false}}
	n := 0
	// accounting over several intervals, in every combination of outcomes
	for i, a := range outs {
		for j, b := range outs {
			for _, cur := range names {
				i, j, a, b, cur := i, j, a, b, cur
				n++
				c.withSys(fmt.Sprintf("accounting of %v and %v with %s", a, b, cur), func(s *sys) { s.hold = true }, func(s *sys) {
					s.durSeed = i + 2*j
					s.release(cur)
					ready := map[string]bool{cur: true}
					acc := map[string]*expGen{}
					for _, x := range names {
						acc[x] = &expGen{}
					}
					// the later ones have a lower or higher priority: select cur by throughput
					if (i+j)%2 == 0 {
						for _, x := range names {
							if x != cur {
								s.release(x)
								ready[x] = true
							}
						}
						s.alive("the announcements")
						s.status(cur, KF(5), cur)
						s.interval()
					}
					out := map[string]oneSearch{}
					for k, x := range names {
						out[x] = outs[(i+k+1)%len(outs)]
					}
					k := 0
					round := func(l ...oneSearch) {
						for _, o := range l {
							out[cur] = o
							s.factorySearch(cur, ready, out, acc, k)
							k++
						}
						for _, x := range names {
							n0 := len(s.toMain)
							if nt := s.genInterval(s.gens[x]); nt != 1 {
								c.fail("interval", s.genPos("Search"), "the generator of %s waits on %d tickers", x, nt)
								s.r.stop("infeasible", "-")
							}
							s.reports(x, s.toMain[n0:], *acc[x], fmt.Sprintf("%d searches", k))
							acc[x] = &expGen{}
						}
					}
					round(a, b)
					round()
					round(b)
					round(b, a, a)
					round(a)
				})
			}
		}
	}
	// many searches in an interval, and many intervals
	for _, long := range []struct{ intervals, searches int }{{60, 3}, {3, 300}, {1, 66000}} {
		for _, cur := range names {
			long, cur := long, cur
			if long.searches > 1000 && cur != names[0] {
				continue
			}
			n++
			c.withSys(fmt.Sprintf("%d intervals of %d searches with %s", long.intervals, long.searches, cur), func(s *sys) { s.hold = true }, func(s *sys) {
				s.slow = true
				s.w.noRace = true
				s.r.m.maxSteps = 20000000
				s.durSeed = long.searches
				s.release(cur)
				ready := map[string]bool{cur: true}
				acc := map[string]*expGen{}
				out := map[string]oneSearch{}
				for _, x := range names {
					if x != cur && long.searches < 1000 {
						s.release(x)
						ready[x] = true
					}
					acc[x] = &expGen{}
				}
				s.alive("the announcements")
				s.status(cur, KF(math.Inf(1)), cur)
				s.interval()
				more := append(append([]oneSearch{}, outs...), oneSearch{17, false}, oneSearch{40, true}, oneSearch{300, false})
				k := 0
				for i := 0; i < long.intervals; i++ {
					l := drawn(i, long.searches, len(more))
					if i%7 == 5 {
						l = nil
					}
					for j, o := range l {
						if more[o].uris > 100 && j > 60 {
							o = 3
						}
						for q, x := range names {
							out[x] = more[(o+q)%len(outs)]
						}
						out[cur] = more[o]
						s.factorySearch(cur, ready, out, acc, k)
						k++
					}
					for _, x := range names {
						n0 := len(s.toMain)
						if nt := s.genInterval(s.gens[x]); nt != 1 {
							c.fail("interval", s.genPos("Search"), "the generator of %s waits on %d tickers", x, nt)
							s.r.stop("infeasible", "-")
						}
						s.reports(x, s.toMain[n0:], *acc[x], fmt.Sprintf("%d searches and %d intervals", k, i))
						acc[x] = &expGen{}
					}
				}
			})
		}
	}
	// generators in other states
	states := []string{"unavailable", "generating", "ready", "pending", "rebuilding"}
	var rec func(st []string)
	var combos [][]string
	rec = func(st []string) {
		if len(st) == len(names)-1 {
			combos = append(combos, append([]string{}, st...))
			return
		}
		for _, x := range states {
			rec(append(st, x))
		}
	}
	if len(names) > 0 {
		rec(nil)
	}
	for _, cur := range names {
		for i, st := range combos {
			if !c.thorough() && i%5 != len(cur)%5 && strings.Count(strings.Join(st, ","), "ready") > 0 {
				continue
			}
			cur, st := cur, st
			n++
			c.withSys(fmt.Sprintf("search with %s current and others %v", cur, st), func(s *sys) { s.hold = true }, func(s *sys) {
				s.release(cur)
				ready := map[string]bool{cur: true}
				set := s.fsmMeth("SetState")
				k := 0
				for _, x := range names {
					if x == cur {
						continue
					}
					switch st[k] {
					case "ready":
						s.release(x)
						ready[x] = true
					case "pending", "rebuilding":
						s.release(x)
						s.quiet(func() { s.r.call(set, []any{s.fsmOf(s.gens[x]), lit(st[k])}, nil, nil) })
					default:
						s.quiet(func() { s.r.call(set, []any{s.fsmOf(s.gens[x]), lit(st[k])}, nil, nil) })
					}
					k++
				}
				s.alive("the announcements")
				s.status(cur, KF(5), cur)
				s.interval()
				acc := map[string]*expGen{}
				out := map[string]oneSearch{}
				for k, x := range names {
					acc[x] = &expGen{}
					out[x] = outs[(k+i)%len(outs)]
				}
				for q := 0; q < 2; q++ {
					s.factorySearch(cur, ready, out, acc, q)
				}
				for _, x := range names {
					n0 := len(s.toMain)
					if s.genInterval(s.gens[x]) == 1 {
						s.reports(x, s.toMain[n0:], *acc[x], "two searches")
					}
				}
			})
		}
	}
	// no engine at all
	for _, st := range states {
		st := st
		n++
		c.withSys("search without an engine, generators "+st, func(s *sys) { s.hold = true }, func(s *sys) {
			if st == "ready" {
				return // a ready engine has been announced
			}
			set := s.fsmMeth("SetState")
			for _, x := range names {
				s.quiet(func() { s.r.call(set, []any{s.fsmOf(s.gens[x]), lit(st)}, nil, nil) })
			}
			s.factorySearch("", map[string]bool{}, map[string]oneSearch{}, map[string]*expGen{}, 0)
		})
	}
	// searches and intervals interleaved
	srch := c.meth("filtering", "EngineGenerator", "Search")
	if srch == nil {
		return
	}
	for _, name := range names[:1] {
		for nS := 1; nS <= 2; nS++ {
			name, nS := name, nS
			n++
			c.context(fmt.Sprintf("%d searches during an interval of %s", nS, name), func(m *Machine) {
				c.sysHooks(m)
				m.maxPaths = 200000
				m.explore(func(r *Run) { c.withWorld(r, func(w *world) { c.interleaved(r, w, name, nS, srch) }) })
				c.mu.Lock()
				c.cover["schedules"] += int64(m.Paths)
				c.mu.Unlock()
			})
		}
	}
	c.expect("search scenarios", n, 150)
}

// interleaved checks that no search and no match is lost between reports.
func (c *Check) interleaved(r *Run, w *world, name string, nS int, srch *ssa.Function) {
	s := c.newSys(r, w, func(s *sys) { s.noRun = true })
	g := s.gens[name]
	if g == nil {
		return
	}
	var reps []sentEvent
	w.sink[g.ch] = func(v any, co *coro, pos token.Pos) {
		if x, ok := v.(*StructV); ok {
			reps = append(reps, sentEvent{g.ch, x, pos})
		}
	}
	t := c.typeOf("filtering", "Subscriptions")
	if t == nil {
		return
	}
	s.request(g, "init", Iface{t, s.sub})
	w.settle()
	s.alive("init")
	reps = nil
	s.dur = func() any { return KI(2000) }
	s.outcome = func(string) (int, bool) { return 1, false }
	w.order, w.preempt = "choose", 1
	if c.thorough() {
		w.preempt = 2
	}
	own := map[*coro]bool{}
	r.m.hooks.onAccess = func(r *Run, p Ptr, write, atomic bool, pos token.Pos) {
		if p.obj == g.eg.obj && w.cur != nil && (write || atomic || own[w.cur] || within(w.cur, g.cos)) {
			w.interrupt()
		}
	}
	defer func() { r.m.hooks.onAccess = nil }()
	re := s.readEvent("x")
	var cos []*coro
	cos = append(cos, w.spawn("search", 0, func() any {
		for i := 0; i < nS; i++ {
			r.call(srch, []any{g.eg, re}, nil, nil)
		}
		return nil
	}))
	own[cos[0]] = true
	for _, tk := range w.tickers {
		if tk := tk; tk.co != nil && within(tk.co, g.cos) && w.waiting(tk.ch) != nil {
			var now any
			for _, b := range w.waiting(tk.ch).op.alts {
				if b.ch == tk.ch && b.elem != nil {
					now = r.zero(b.elem)
				}
			}
			w.spawn("the interval", 0, func() any {
				w.chanOp(&blockOp{kind: "chan", alts: []opAlt{{ch: tk.ch, send: true, val: now}}})
				return nil
			})
		}
	}
	w.settle()
	s.alive("searches during an interval")
	w.preempt = 0
	for _, co := range cos {
		if !co.done {
			c.fail("interleaved:blocked", c.pos(co.op.pos), "a search blocks for ever when the interval ends at the same time")
			return
		}
	}
	s.genInterval(g)
	s.genInterval(g)
	ev, ma := 0, 0
	for _, e := range reps {
		if s.isType(e.v, "TrafficStatus") {
			a, ok1 := s.mf(e.v, "EventCount").(KI)
			b, ok2 := s.mf(e.v, "MatchedCount").(KI)
			if !ok1 || !ok2 {
				c.fail("interleaved:counts", c.pos(e.pos), "the reported counts are not known")
				return
			}
			ev, ma = ev+int(a), ma+int(b)
		}
	}
	c.count("obligations", 1)
	if ev != nS || ma != nS {
		c.fail("interleaved", s.genPos("Search"), "%d searches with a match that happen while an interval ends are reported as %d searches and %d matches", nS, ev, ma)
	}
}

// ---- C20

func ruleC20(c *Check) {
	names := c.engineNames()
	n := 0
	var mu = map[string]bool{}
	for _, order := range []string{"fifo", "lifo"} {
		for _, eager := range []bool{false, true} {
			for v := 0; v < 4; v++ {
				order, eager, v := order, eager, v
				n++
				c.context(fmt.Sprintf("races %s eager=%v %d", order, eager, v), func(m *Machine) {
					c.sysHooks(m)
					raceHooks(m)
					m.explore(func(r *Run) {
						c.withWorld(r, func(w *world) {
							w.order, w.eager = order, eager
							w.race = newRaceLog()
							s := c.newSys(r, w, func(s *sys) {
								s.hold = v > 1
								s.dur = func() any { return KI(2000) }
							})
							c.raceScenario(s, names, v)
							c.mu.Lock()
							for l := range w.race.Locs {
								mu[l] = true
							}
							c.cover["memory_accesses"] += int64(w.race.Count)
							for k, msg := range w.race.Reports {
								c.mu.Unlock()
								c.fail("race:"+k, w.race.Pos[k], "%s", msg)
								c.mu.Lock()
							}
							c.mu.Unlock()
						})
					})
				})
			}
		}
	}
	c.expect("race scenarios", n, 8)
	c.run()
	c.expect("shared locations", len(mu), 10)
}

// raceScenario exercises every entry of the factory from its own goroutine.
func (c *Check) raceScenario(s *sys, names []string, v int) {
	w, r := s.w, s.r
	act := c.meth("filtering", "EngineFactory", "IsActive")
	srch := c.meth("filtering", "EngineFactory", "Search")
	if act == nil || srch == nil {
		r.stop("infeasible", "anchor")
	}
	// a goroutine that polls and one that searches, as in gosstrak-fc
	trig := map[string]*ChanV{}
	loop := func(name string, f func()) {
		ch := &ChanV{id: -3, name: "trigger " + name, cap: KI(0)}
		trig[name] = ch
		w.spawn(name, 0, func() any {
			for {
				op := &blockOp{kind: "chan", alts: []opAlt{{ch: ch}}}
				w.chanOp(op)
				f()
			}
		})
		w.settle()
	}
	loop("poller", func() { r.call(act, []any{s.ef}, nil, nil) })
	re := s.readEvent("x")
	loop("searcher", func() { r.call(srch, []any{s.ef, re}, nil, nil) })
	both := func() {
		// the triggers carry no ordering of their own
		w.deliver(trig["poller"], nil)
		w.deliver(trig["searcher"], nil)
		s.alive("searches")
	}
	both()
	if s.hold {
		for i := range names {
			k := i
			if v == 3 {
				k = len(names) - 1 - i
			}
			s.release(names[k])
			both()
			if (i+v)%2 == 0 {
				s.interval()
			} else {
				s.genInterval(s.gens[names[k]])
			}
		}
	}
	for round := 0; round < 2; round++ {
		both()
		both()
		for i, x := range names {
			if (i+round+v)%2 == 0 {
				s.genInterval(s.gens[x])
			}
			both()
		}
		s.interval()
		both()
		for _, x := range names {
			s.genInterval(s.gens[x])
		}
		both()
		s.interval()
		both()
		for _, t := range []string{"AddSubscription", "DeleteSubscription"} {
			w.deliver(s.gens[names[0]].ch, s.msg(map[string]any{"Type": s.kind(t), "Pattern": lit("urn:epc:pat:sgtin-96:3.9"), "ReportURI": lit("http://dest9")}))
			both()
		}
	}
	s.alive("the scenario")
}
