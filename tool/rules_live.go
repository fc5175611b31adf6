package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C35"] = rule{pkgs: []string{"./cmd/gosstrak-fc", "./filtering", "./monitoring"}, f: ruleC35}
}

// live is the collector with its factory, generators and statistics manager.
type live struct {
	c      *Check
	r      *Run
	w      *world
	f      *fcSys
	s      *sys
	d      *statDB
	slow   bool // the database does not answer
	ended  bool
	refuse bool // the database refuses what is written
	own    map[*coro]bool
	msgs   int
	what   string
}

func (c *Check) withLive(name string, cfg func(l *live), body func(l *live)) {
	const rel = "cmd/gosstrak-fc"
	c.context(name, func(m *Machine) {
		c.sysHooks(m)
		sysExt := m.hooks.extern
		c.statHooks(m, statOf)
		statExt, statInv := m.hooks.extern, m.hooks.invoke
		m.hooks.extern = func(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
			if v, ok := fcExtern(r, fn, name, a, site); ok {
				return v, true
			}
			if v, ok := sysExt(r, fn, name, a, site); ok {
				return v, true
			}
			return statExt(r, fn, name, a, site)
		}
		m.hooks.invoke = func(r *Run, recv *Opaque, mt *types.Func, a []any, site ssa.Instruction) (any, bool) {
			if v, ok := fcInvoke(r, recv, mt, a, site); ok {
				return v, true
			}
			v, ok := statInv(r, recv, mt, a, site)
			if l, _ := r.user["live"].(*live); ok && l != nil && l.refuse && recv.name == "client" && mt.Name() == "Write" {
				v = r.newErr(lit("the database refuses the points"))
			}
			if l, _ := r.user["live"].(*live); ok && l != nil && l.slow && recv.name == "client" && mt.Name() == "Write" {
				l.w.block(&blockOp{kind: "db", pos: r.cur})
			}
			return v, ok
		}
		m.hooks.onGlobal = func(r *Run, g *ssa.Global) (any, bool) {
			if g.String() == "os.Args" {
				return r.strSlice([]*Str{opqStr("program"), opqStr("argument")}), true
			}
			return nil, false
		}
		m.explore(func(r *Run) {
			c.withWorld(r, func(w *world) {
				l := &live{c: c, r: r, w: w, d: statOf(r), own: map[*coro]bool{}, what: name}
				l.f = &fcSys{c: c, r: r, w: w, rel: rel, opts: map[string]any{}, asked: map[string]bool{}, cmd: "start", failAt: -1,
					readers: map[*Obj]bool{}, whole: true}
				r.user["fc"] = l.f
				l.f.opts["enableStat"] = r.p.B1
				l.f.opts["statInterval"] = KI(5)
				l.s = &sys{c: c, r: r, w: w, gens: map[string]*genInfo{}, byPtr: map[*Obj]*genInfo{}, held: map[string]func(){}, heldGo: map[string]func(){}, heldN: map[string]int{},
					ctors: map[*ssa.Function]string{}, kinds: map[string]string{}, dur: func() any { return KI(2000) }}
				r.user["sys"] = l.s
				r.user["live"] = l
				w.maxRes = 20000
				if l.s.mm = c.typeOf("filtering", "ManagementMessage"); l.s.mm == nil {
					return
				}
				l.s.registry()
				fn := c.fn(rel, "main")
				if fn == nil {
					return
				}
				if cfg != nil {
					cfg(l)
				}
				w.pauses = true
				w.callFn("main", fn)
				l.settle()
				if w.dead == "" && !l.f.ready() && !l.slow {
					c.fail("start", c.pos(fn.Pos()), "the collector does not come to read tags after its start (%s)", name)
					return
				}
				body(l)
			})
		})
	})
}

// ready tells that the program waits for LLRP messages.
func (f *fcSys) ready() bool {
	if f.dials == 0 {
		return false
	}
	for _, co := range f.w.cos {
		if !co.done && co.op != nil && co.op.kind == "net" {
			return true
		}
	}
	return false
}

// settle lets everything run, sleeps included, until nothing more happens.
func (l *live) settle() {
	l.w.settle()
	for i := 0; i < 12 && l.w.dead == "" && l.f.sleeping(); i++ {
		l.w.wake()
	}
}

// answer lets the database answer one write.
func (l *live) answer() bool {
	for _, co := range l.w.cos {
		if !co.done && co.op != nil && co.op.kind == "db" {
			co.op.kind = "matched"
			l.settle()
			return true
		}
	}
	return false
}

// net makes what was added to the stream readable.
func (l *live) net(run bool) {
	for _, co := range l.w.cos {
		if !co.done && co.op != nil && co.op.kind == "net" {
			co.op.kind = "matched"
		}
	}
	if run {
		l.settle()
	}
}

// push sends one LLRP message.
func (l *live) push(kind, hdr string, events int, run bool) {
	h, ok := l.c.libConst(llrpPkg, hdr)
	if !ok {
		l.r.stop("infeasible", "anchor")
	}
	l.msgs++
	l.f.push(l.msgs, llrpMsg{kind, h, 10 + 3*events})
	l.net(run)
}
func (l *live) report(events int, run bool) { l.push(kROAR, "ROAccessReportHeader", events, run) }
func (l *live) keepalive(run bool)          { l.push(kKA, "KeepaliveHeader", 0, run) }

// tick ends the interval of the i-th ticker when its owner waits for it.
func (l *live) tick(i int, run bool) bool {
	t := l.w.tickers[i]
	if l.w.off[t.ch] || l.w.waiting(t.ch) == nil {
		return false
	}
	ok := l.w.offer(t.ch, nil)
	if ok && run {
		l.settle()
	}
	return ok
}
func (l *live) tickAll(run bool) int {
	n := 0
	for i := range l.w.tickers {
		if l.tick(i, run) {
			n++
		}
	}
	return n
}

// atRest checks that every goroutine waits for an input from outside only.
func (l *live) atRest(what string) {
	c, w := l.c, l.w
	what += " (" + l.what + ")"
	l.slow = false
	for i := 0; i < 4000 && w.dead == "" && l.answer(); i++ {
	}
	l.settle()
	c.count("obligations", 1)
	if w.dead != "" {
		c.fail("ended", c.pos(w.deadAt), "the collector ends with %s after %s", w.dead, what)
		l.r.stop("infeasible", "-")
	}
	restCheck(c, w, what)
	if l.f.rpos != len(l.f.stream) {
		c.fail("llrp", c.pos(c.fn("cmd/gosstrak-fc", "main").Pos()), "%d of %d bytes from the reader stay unread after %s", len(l.f.stream)-l.f.rpos, len(l.f.stream), what)
		l.r.stop("infeasible", "-")
	}
}

// restCheck reports goroutines that wait for another part of the program.
func restCheck(c *Check, w *world, what string) {
	for _, co := range w.cos {
		if co.done || co.op == nil {
			continue
		}
		op := co.op
		c.count("goroutines_at_rest", 1)
		switch op.kind {
		case "lock":
			c.fail("waits:lock:"+w.c.pos(op.pos), c.pos(op.pos), "%s waits for ever for a lock after %s", co.name, what)
			w.r.stop("infeasible", "-")
		case "chan":
			recv, send := false, false
			for _, a := range op.alts {
				if a.ch != nil {
					recv, send = recv || !a.send, send || a.send
				}
			}
			if send && !recv {
				c.fail("waits:send:"+w.c.pos(op.pos), c.pos(op.pos), "%s waits for ever to send after %s", co.name, what)
				w.r.stop("infeasible", "-")
			}
		}
	}
}

// probe checks that every part still takes and serves its inputs.
func (l *live) probe(what string) {
	c, w := l.c, l.w
	l.atRest(what)
	what2 := what + " (" + l.what + ")"
	for i, t := range w.tickers {
		if w.off[t.ch] || t.kind != "NewTicker" && t.kind != "Tick" {
			continue
		}
		n := len(l.d.writes)
		c.count("obligations", 2)
		if !l.tick(i, true) {
			c.fail("interval", c.pos(t.pos), "the end of an interval is no longer taken after %s", what2)
			l.r.stop("infeasible", "-")
		}
		l.atRest("an interval after " + what)
		if len(l.d.writes) == n {
			c.fail("interval:silent", c.pos(t.pos), "nothing is published any more at the end of an interval after %s", what2)
			l.r.stop("infeasible", "-")
		}
	}
	ns, na := len(l.s.searches), len(l.f.answers)
	l.report(2, true)
	l.keepalive(true)
	l.atRest("further messages after " + what)
	if len(l.s.searches) < ns+2 {
		c.fail("searches", c.pos(c.fn("cmd/gosstrak-fc", "main").Pos()), "the tags of an access report are no longer searched after %s", what2)
	}
	if len(l.f.answers) != na+1 {
		c.fail("answers", c.pos(c.fn("cmd/gosstrak-fc", "main").Pos()), "a keep-alive is no longer answered after %s", what2)
	}
}

type schedule struct {
	order   string
	eager   bool
	preempt int
	seed    uint64
}

func (s schedule) String() string {
	if s.seed != 0 {
		return fmt.Sprintf("drawn schedule %d", s.seed)
	}
	return fmt.Sprintf("%s schedule, eager=%v", s.order, s.eager)
}
func (s schedule) set(w *world) {
	w.order, w.eager, w.preempt, w.seed = s.order, s.eager, s.preempt, s.seed
}

func schedules(n int) []schedule {
	var out []schedule
	for _, o := range []string{"fifo", "lifo"} {
		for _, e := range []bool{false, true} {
			out = append(out, schedule{order: o, eager: e})
		}
	}
	for i := 1; i <= n; i++ {
		out = append(out, schedule{order: "choose", eager: i%3 == 0, preempt: 1 << 30, seed: uint64(i) * 7919})
	}
	return out
}

func ruleC35(c *Check) {
	n := 0
	drawn := 20
	if c.thorough() {
		drawn = 1200
	}
	for _, sc := range schedules(drawn) {
		sc := sc
		scen := func(name string, slow bool, body func(l *live)) {
			n++
			nm := name + ", " + sc.String()
			c.withLive(nm, func(l *live) { sc.set(l.w); l.slow = slow }, func(l *live) {
				body(l)
				l.w.preempt = 0
				if !l.ended {
					l.probe(name)
				}
			})
		}
		scen("the start", false, func(l *live) {})
		scen("a start with a late database", true, func(l *live) {})
		for k := 0; k < 3; k++ {
			k := k
			scen(fmt.Sprintf("reports that arrive while intervals end (%d)", k), false, func(l *live) {
				l.report(2, true)
				for i := 0; i < 4; i++ {
					switch k {
					case 0:
						l.report(1+i%3, false)
						l.tickAll(false)
					case 1:
						l.tickAll(false)
						l.report(3, false)
						l.keepalive(false)
					case 2:
						l.tick(i%len(l.w.tickers), false)
						l.report(2, false)
						l.tick((i+2)%len(l.w.tickers), false)
					}
					l.settle()
				}
			})
		}
		scen("a database that answers late", false, func(l *live) {
			l.slow = true
			for i := 0; i < 4; i++ {
				l.report(2, false)
				l.tickAll(false)
				l.settle()
				if i%2 == 1 {
					l.answer()
				}
			}
		})
		scen("many intervals with searches too fast to measure", false, func(l *live) {
			l.s.dur = func() any { return KI(400) }
			for i := 0; i < 24; i++ {
				l.report(1+i%3, i%2 == 0)
				l.tickAll(i%2 == 1)
				l.settle()
			}
			l.s.dur = func() any { return KI(2000) }
		})
		scen("many messages", false, func(l *live) {
			num := 40
			if sc.seed == 0 {
				num = 1600
			}
			for i := 0; i < num; i++ {
				l.report(i%4, i%3 == 0)
				l.keepalive(i%5 == 0)
				if i%4 == 0 {
					l.tickAll(i%8 == 0)
				}
				l.settle()
			}
		})
		scen("a database that refuses a report", false, func(l *live) {
			l.report(2, true)
			l.refuse = true
			for i := len(l.w.tickers) - 1; i >= 0 && l.w.dead == ""; i-- {
				l.tick(i, true)
			}
			if strings.HasPrefix(l.w.dead, "exit") {
				l.ended = true // giving up is no waiting
				return
			}
			l.refuse = false
		})
		scen("full queues", false, func(l *live) {
			l.slow = true
			for i := 0; i < 300; i++ {
				l.report(1, true)
				if l.tickAll(true) == 0 {
					break
				}
			}
			l.report(2, true)
			l.keepalive(true)
			l.tickAll(true)
		})
	}
	c.locks()
	c.expect("scenarios of the collector", n, 80)
	c.run()
}

// locks explores concurrent calls, intervals and announcements of the factory.
func (c *Check) locks() {
	act := c.meth("filtering", "EngineFactory", "IsActive")
	srch := c.meth("filtering", "EngineFactory", "Search")
	if act == nil || srch == nil {
		return
	}
	drawn := 100
	if c.thorough() {
		drawn = 12000
	}
	var ss []schedule
	for _, o := range []string{"fifo", "lifo"} {
		for _, e := range []bool{false, true} {
			ss = append(ss, schedule{order: o, eager: e, preempt: 1})
		}
	}
	ss = append(ss, schedules(drawn)[4:]...)
	n := 0
	for _, scn := range []string{"switch", "announce", "start"} {
		for _, sc := range ss {
			scn, sc := scn, sc
			n++
			c.withSys2("calls during a "+scn+", "+sc.String(), scn != "switch", func(s *sys) {
				w, r := s.w, s.r
				names := s.names()
				if scn != "start" {
					for i, x := range names {
						if scn == "announce" && i > 0 {
							break
						}
						if s.hold {
							s.release(x)
						}
					}
					s.alive("the start")
				}
				if scn == "switch" {
					// a report makes another engine the fastest
					v := s.msg(map[string]any{"Type": s.kind("EngineStatus"), "EngineName": lit(names[0]), "CurrentThroughput": KF(0.5)})
					w.deliver(s.gens[names[0]].ch, v)
				}
				sc.set(w)
				var cos []*coro
				re := s.readEvent("x")
				fire := func(set map[*coro]bool) {
					for _, t := range w.tickers {
						if t.co != nil && within(t.co, set) && w.waiting(t.ch) != nil {
							w.offer(t.ch, nil)
						}
					}
				}
				start := func() {
					fire(map[*coro]bool{s.runCo: true})
					if scn != "switch" {
						for _, x := range names[1:3] {
							if s.held[x] != nil {
								s.heldGo[x]()
								delete(s.held, x)
							}
						}
					}
				}
				call := func() {
					cos = append(cos, w.spawn("search", 0, func() any { return r.call(srch, []any{s.ef, re}, nil, nil) }),
						w.spawn("IsActive", 0, func() any { return r.call(act, []any{s.ef}, nil, nil) }))
				}
				if sc.order == "lifo" {
					start()
					call()
				} else {
					call()
					start()
				}
				fire(s.gens[names[1]].cos)
				if scn != "switch" {
					fire(s.gens[names[2]].cos)
				}
				w.settle()
				w.preempt = 0
				what := "searches and queries during a " + scn
				s.alive(what)
				for _, co := range cos {
					c.count("obligations", 1)
					if !co.done {
						c.fail("call:"+co.name, c.pos(co.op.pos), "%s does not return in %s", co.name, what)
						r.stop("infeasible", "-")
					}
				}
				restCheck(c, w, what)
				for k := 0; k < 2; k++ {
					s.search(re)
					if s.interval() != 1 {
						c.fail("interval", s.runPos(), "the factory no longer takes the end of an interval after %s", what)
						r.stop("infeasible", "-")
					}
					for _, x := range names {
						if s.genInterval(s.gens[x]) != 1 {
							c.fail("interval:generator", s.genPos("NewEngineGenerator"), "the generator of %s no longer takes the end of an interval after %s", x, what)
							r.stop("infeasible", "-")
						}
					}
				}
				s.alive(what)
				restCheck(c, w, what)
			})
		}
	}
	c.expect("scenarios of the factory", n, 60)
}

// withSys2 explores a factory whose messages a slow main program reads.
func (c *Check) withSys2(name string, hold bool, body func(s *sys)) {
	c.withSys(name, func(s *sys) { s.hold = hold; s.dur = func() any { return KI(2000) } }, func(s *sys) {
		w := s.w
		delete(w.sink, s.main)
		w.spawn("the main program", 0, func() any {
			for {
				op := &blockOp{kind: "chan", alts: []opAlt{{ch: s.main}}}
				w.chanOp(op)
				if x, ok := op.val.(*StructV); ok {
					s.toMain = append(s.toMain, sentEvent{s.main, x, op.pos})
				}
			}
		})
		w.settle()
		body(s)
	})
}
