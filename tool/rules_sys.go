package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOf reads a named field of the struct a pointer refers to.
func (c *Check) fieldOf(r *Run, p Ptr, name string) any {
	i := fieldIndex(p.obj.typ, name)
	if i < 0 {
		c.fail("anchor:"+typeStr(p.obj.typ)+"."+name, "-", "%s has no field %s", typeStr(p.obj.typ), name)
		r.stop("infeasible", "anchor")
	}
	return *r.slot(Ptr{p.obj, addPath(p.path, i)})
}
func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

const fsmPkg = "github.com/looplab/fsm"

// genInfo is one engine generator of the system.
type genInfo struct {
	name string
	eg   Ptr
	ch   *ChanV
	cos  map[*coro]bool // goroutines started by its constructor
	from int            // index of the first of its tickers
}

type fsmEvent struct {
	gen    string
	event  string
	before string
	args   []any
	ok     bool
	pos    token.Pos
}
type buildEvent struct {
	kind string
	sub  any
	ev   any // the engine
	co   *coro
}
type searchEvent struct {
	kind string
	re   any
	pos  token.Pos
}
type sentEvent struct {
	ch  *ChanV
	v   *StructV
	pos token.Pos
}

// sys is the engine factory with its goroutines.
type sys struct {
	c        *Check
	r        *Run
	w        *world
	ef       Ptr
	gens     map[string]*genInfo
	byPtr    map[*Obj]*genInfo
	main     *ChanV
	toMain   []sentEvent
	sent     []sentEvent // every management message sent by a goroutine
	events   []fsmEvent
	builds   []buildEvent
	searches []searchEvent
	hold     bool // keep the init events back
	held     map[string]func()
	heldGo   map[string]func() // the same without letting it run
	heldN    map[string]int
	outcome  func(kind string) (uris int, fails bool)
	onSent   func(e sentEvent, co *coro)
	onBuilt  func(kind string)
	dur      func() any // duration of a search
	durSeed  int
	slow     bool // some searches take very long
	runCo    *coro
	mm       types.Type
	sub      MapV
	pass     string
	ctors    map[*ssa.Function]string
	kinds    map[string]string // receiver type -> engine name
	noRun    bool
	onEvent  func(g *genInfo, event string, pos token.Pos)
}

func sysOf(r *Run) *sys {
	s, _ := r.user["sys"].(*sys)
	return s
}

// sysHooks installs the models of the environment of the factory.
func (c *Check) sysHooks(m *Machine) {
	worldHooks(m)
	m.hooks.extern = func(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
		s := sysOf(r)
		if s == nil {
			return nil, false
		}
		if s.pass == name {
			s.pass = ""
			return nil, false
		}
		switch name {
		case modPath + "/tdt.MakePrefixFilterString":
			if r.spec != nil {
				panic(specAbort{})
			}
			return Tuple{lit("00110000"), Iface{}}, true
		case "time.Since", "(time.Time).Sub":
			if s.dur != nil {
				return s.dur(), true
			}
		case modPath + "/filtering.NewEngineGenerator":
			return s.newGen(fn, name, a, site), true
		case "(*" + fsmPkg + ".FSM).Event":
			return s.event(fn, name, a, site), true
		}
		if k := s.ctors[fn]; k != "" {
			if r.spec != nil {
				panic(specAbort{})
			}
			b := buildEvent{kind: k, co: s.w.cur}
			if len(a) > 0 {
				b.sub = s.snapshot(a[0])
			}
			s.pass = name
			res := r.call(fn, a, nil, site)
			b.ev = res
			s.builds = append(s.builds, b)
			if s.onBuilt != nil {
				s.onBuilt(k)
			}
			return res, true
		}
		if fn.Name() == "Search" && fn.Signature.Recv() != nil {
			if k := s.kinds[typeStr(fn.Signature.Recv().Type())]; k != "" {
				if r.spec != nil {
					panic(specAbort{})
				}
				return s.engineSearch(k, fn, a), true
			}
		}
		return nil, false
	}
}

// engineSearch is the search of one engine.
func (s *sys) engineSearch(k string, fn *ssa.Function, a []any) any {
	s.searches = append(s.searches, searchEvent{k, a[len(a)-1], s.r.cur})
	n, fails := 1, false
	if s.outcome != nil {
		n, fails = s.outcome(k)
	}
	var l []*Str
	for i := 0; i < n; i++ {
		l = append(l, opqStr(fmt.Sprintf("uri%d of %s", i, k)))
	}
	u := SliceV{}
	if n > 0 {
		u = s.r.strSlice(l)
	}
	res := Tuple{opqStr("identity of " + k), u, Iface{}}
	if fails {
		res[2] = s.r.newErr(opqStr("error of " + k))
	}
	return res
}

// snapshot is the content of subscriptions at this time.
func (s *sys) snapshot(v any) any {
	mv, ok := v.(MapV)
	if !ok || mv.m == nil {
		return v
	}
	sv, sw := s.r.m.hooks.onAccess, s.r.m.hooks.onMapAcc
	s.r.m.hooks.onAccess, s.r.m.hooks.onMapAcc = nil, nil
	defer func() { s.r.m.hooks.onAccess, s.r.m.hooks.onMapAcc = sv, sw }()
	out := s.r.newMap()
	for i, k := range mv.m.keys {
		x := cloneV(mv.m.vals[i])
		if sl, ok := x.(SliceV); ok && sl.obj != nil {
			x = s.r.newSlice(types.Typ[types.String], s.r.elemsOf(sl))
		}
		out.keys, out.vals = append(out.keys, k), append(out.vals, x)
	}
	return MapV{out}
}

func (s *sys) newGen(fn *ssa.Function, name string, a []any, site ssa.Instruction) any {
	g := &genInfo{cos: map[*coro]bool{}, from: len(s.w.tickers)}
	for _, x := range a {
		switch y := x.(type) {
		case *Str:
			if y.isLit() {
				g.name = y.lit
			}
		case *ChanV:
			g.ch = y
		}
	}
	n := len(s.w.cos)
	s.pass = name
	v := s.r.call(fn, a, nil, site)
	for _, co := range s.w.cos[n:] {
		g.cos[co] = true
	}
	p, ok := v.(Ptr)
	if !ok || p.obj == nil || g.name == "" || g.ch == nil {
		s.c.fail("generator", s.c.pos(fn.Pos()), "NewEngineGenerator makes no generator with its name and channel")
		s.r.stop("infeasible", "-")
	}
	g.eg = p
	if s.gens[g.name] != nil {
		s.c.fail("generator:"+g.name, s.c.pos(fn.Pos()), "two generators are made for %s", g.name)
	}
	s.gens[g.name] = g
	s.byPtr[p.obj] = g
	return v
}

// fsmOf is the state machine of a generator.
func (s *sys) fsmOf(g *genInfo) Ptr {
	p, ok := s.c.fieldOf(s.r, g.eg, "FSM").(Ptr)
	if !ok || p.obj == nil {
		s.c.fail("fsm:"+g.name, "-", "the generator of %s has no state machine", g.name)
		s.r.stop("infeasible", "-")
	}
	return p
}

func (s *sys) genOfFSM(v any) *genInfo {
	p, ok := v.(Ptr)
	if !ok {
		return nil
	}
	for _, n := range sortedKeys(s.gens) {
		if i := fieldIndex(s.gens[n].eg.obj.typ, "FSM"); i >= 0 {
			if q, ok := (*s.r.slot(Ptr{s.gens[n].eg.obj, addPath(s.gens[n].eg.path, i)})).(Ptr); ok && q == p {
				return s.gens[n]
			}
		}
	}
	return nil
}

// quiet runs f without access hooks.
func (s *sys) quiet(f func()) {
	h := s.r.m.hooks
	a, b, l := h.onAccess, h.onMapAcc, h.onLock
	h.onAccess, h.onMapAcc, h.onLock = nil, nil, nil
	defer func() { h.onAccess, h.onMapAcc, h.onLock = a, b, l }()
	f()
}

// state is the lifecycle state of a generator.
func (s *sys) state(g *genInfo) string {
	out := "?"
	s.quiet(func() {
		if v, ok := s.r.call(s.fsmMeth("Current"), []any{s.fsmOf(g)}, nil, nil).(*Str); ok && v.isLit() {
			out = v.lit
		}
	})
	return out
}
func (s *sys) fsmMeth(n string) *ssa.Function {
	p := s.c.pr.pkgs[fsmPkg]
	if p != nil {
		if t, ok := p.Members["FSM"].(*ssa.Type); ok {
			if f := s.c.pr.ssa.LookupMethod(types.NewPointer(t.Type()), p.Pkg, n); f != nil {
				return f
			}
		}
	}
	s.c.fail("anchor:fsm", "-", "the state machine library %s is not in the program", fsmPkg)
	s.r.stop("infeasible", "anchor")
	return nil
}

func (s *sys) event(fn *ssa.Function, name string, a []any, site ssa.Instruction) any {
	r := s.r
	ev := fsmEvent{pos: r.cur}
	if x, ok := a[2].(*Str); ok && x.isLit() {
		ev.event = x.lit
	}
	g := s.genOfFSM(a[0])
	if g != nil {
		ev.gen = g.name
		ev.before = s.state(g)
	}
	if sl, ok := a[3].(SliceV); ok && sl.obj != nil {
		s.quiet(func() { ev.args = r.elemsOf(sl) })
	}
	do := func() any {
		if s.onEvent != nil {
			s.onEvent(g, ev.event, ev.pos)
		}
		s.pass = name
		v := r.call(fn, a, nil, site)
		ev.ok = r.decide(r.errNil(v), "state machine error")
		s.events = append(s.events, ev)
		return v
	}
	if s.hold && ev.event == "init" && g != nil {
		s.heldN[g.name]++
		by := s.w.cur
		s.held[g.name] = func() { s.w.root = by; s.w.call("init "+g.name, func() any { do(); return nil }) }
		s.heldGo[g.name] = func() {
			root := s.w.root
			s.w.root = by
			s.w.spawn("init "+g.name, 0, func() any { do(); return nil })
			s.w.root = root
		}
		return Iface{}
	}
	return do()
}

// release performs the init event that was held back.
func (s *sys) release(name string) {
	f := s.held[name]
	if f == nil {
		s.c.fail("init:"+name, "-", "EngineFactory.Run does not initialise the generator of %s", name)
		s.r.stop("infeasible", "-")
	}
	delete(s.held, name)
	root := s.w.root
	f()
	s.w.root = root
}

// newSys interprets NewEngineFactory and Run.
func (c *Check) newSys(r *Run, w *world, cfg func(s *sys)) *sys {
	s := &sys{c: c, r: r, w: w, gens: map[string]*genInfo{}, byPtr: map[*Obj]*genInfo{}, held: map[string]func(){}, heldGo: map[string]func(){}, heldN: map[string]int{},
		ctors: map[*ssa.Function]string{}, kinds: map[string]string{}}
	r.user["sys"] = s
	s.mm = c.typeOf("filtering", "ManagementMessage")
	fn := c.fn("filtering", "NewEngineFactory")
	run := c.meth("filtering", "EngineFactory", "Run")
	if s.mm == nil || fn == nil || run == nil {
		r.stop("infeasible", "anchor")
	}
	s.registry()
	s.sub = MapV{r.newMap()}
	s.sub.m.label = "the subscriptions"
	for i := 0; i < 2; i++ {
		r.mapSet(s.sub.m, lit(fmt.Sprintf("http://dest%d", i)), r.strSlice([]*Str{lit(fmt.Sprintf("urn:epc:pat:sgtin-96:3.%d", i))}))
	}
	if cfg != nil {
		cfg(s)
	}
	s.main = &ChanV{id: -1, name: "main", cap: KI(0)}
	w.sink[s.main] = func(v any, co *coro, pos token.Pos) {
		if x, ok := v.(*StructV); ok {
			s.toMain = append(s.toMain, sentEvent{s.main, x, pos})
		}
	}
	w.onSend = func(co *coro, ch *ChanV, v any, pos token.Pos) {
		x, ok := v.(*StructV)
		if !ok || len(x.f) != s.mm.Underlying().(*types.Struct).NumFields() {
			return
		}
		e := sentEvent{ch, cloneV(x).(*StructV), pos}
		s.sent = append(s.sent, e)
		if s.onSent != nil {
			s.onSent(e, co)
		}
	}
	var args []any
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		t := fn.Signature.Params().At(i).Type()
		switch t.Underlying().(type) {
		case *types.Map:
			args = append(args, s.sub)
		case *types.Chan:
			args = append(args, s.main)
		default:
			args = append(args, KI(statSeconds))
		}
	}
	co := w.callFn("main", fn, args...)
	p, ok := co.ret.(Ptr)
	if w.dead != "" || !co.done || !ok || p.obj == nil {
		c.fail("NewEngineFactory", c.pos(fn.Pos()), "NewEngineFactory makes no factory (%s)", w.dead)
		r.stop("infeasible", "-")
	}
	s.ef = p
	w.root = co
	if !s.noRun {
		s.runCo = w.callFn("Run", run, p)
		s.alive("starting the factory")
	}
	return s
}

// registry finds the constructors and the types of the engines.
func (s *sys) registry() {
	c, r := s.c, s.r
	pk := c.pr.pkg("filtering")
	g, ok := pk.Members["AvailableEngines"].(*ssa.Global)
	if !ok {
		c.fail("anchor:AvailableEngines", "-", "the engine registry filtering.AvailableEngines is not in the program")
		r.stop("infeasible", "anchor")
	}
	var mv MapV
	s.quiet(func() {
		mv, _ = r.load(r.globalAddr(g).(Ptr)).(MapV)
		if mv.m == nil {
			return
		}
		for i, k := range mv.m.keys {
			n, ok := k.(*Str)
			f, ok2 := mv.m.vals[i].(*FuncV)
			if !ok || !n.isLit() || !ok2 || f.fn == nil {
				r.unsupported("entry of the engine registry")
			}
			e := r.callFunc(f, []any{MapV{r.newMap()}}, nil)
			if ie, ok := e.(Iface); ok && ie.t != nil {
				s.kinds[typeStr(ie.t)] = n.lit
				if pt, ok := ie.t.(*types.Pointer); ok {
					s.kinds[typeStr(pt.Elem())] = n.lit
				}
			}
		}
		for i, k := range mv.m.keys {
			s.ctors[mv.m.vals[i].(*FuncV).fn] = k.(*Str).lit
		}
	})
	c.expect("registered engines", len(s.ctors), 4)
}

// alive reports a factory that ended or blocked on a lock.
func (s *sys) alive(after string) {
	c := s.c
	c.count("obligations", 1)
	if s.w.dead != "" {
		c.fail("ended", c.pos(s.w.deadAt), "the program ends with %s after %s", s.w.dead, after)
		s.r.stop("infeasible", "-")
	}
	for _, co := range s.w.stuck() {
		c.fail("deadlock", c.pos(co.op.pos), "%s waits for ever for a lock after %s", co.name, after)
		s.r.stop("infeasible", "-")
	}
}

// field of a management message.
func (s *sys) mf(v *StructV, name string) any {
	i := fieldIndex(s.mm, name)
	if i < 0 {
		s.c.fail("anchor:ManagementMessage."+name, "-", "ManagementMessage has no field %s", name)
		s.r.stop("infeasible", "anchor")
	}
	return v.f[i]
}
func (s *sys) isType(v *StructV, name string) bool {
	k, ok := s.c.constOf("filtering", name)
	if !ok {
		s.r.stop("infeasible", "anchor")
	}
	x, isK := s.mf(v, "Type").(KI)
	return isK && x == k
}
func (s *sys) msg(f map[string]any) any { return s.c.mkStruct(s.r, s.mm, f) }
func (s *sys) kind(name string) KI {
	k, ok := s.c.constOf("filtering", name)
	if !ok {
		s.r.stop("infeasible", "anchor")
	}
	return k
}

func (s *sys) names() []string { return sortedKeys(s.gens) }

// within tells whether a goroutine descends from one of a set.
func within(co *coro, set map[*coro]bool) bool {
	for ; co != nil; co = co.parent {
		if set[co] {
			return true
		}
	}
	return false
}

// statSeconds is the configured statistics interval.
const statSeconds = 7

// fire ends one interval of the tickers of a set of goroutines.
func (s *sys) fire(set map[*coro]bool) int {
	n, have := 0, false
	for _, t := range append([]*tickerInfo{}, s.w.tickers...) {
		if t.co == nil || !within(t.co, set) {
			continue
		}
		have = true
		if s.w.off[t.ch] {
			continue
		}
		s.c.count("obligations", 1)
		if d, ok := t.dur.(KI); !ok || int64(d) != statSeconds*1e9 {
			s.c.fail("interval:length", s.c.pos(t.pos), "an interval lasts %s ns instead of the configured %d seconds", showVal(t.dur), statSeconds)
		}
		if s.w.deliver(t.ch, nil) {
			n++
		}
		s.alive("an interval")
	}
	if !have {
		for _, co := range s.w.cos {
			if !co.done && co.op != nil && co.op.kind == "sleep" && within(co, set) {
				co.op.kind = "matched"
				n++
			}
		}
		s.w.settle()
		s.alive("an interval")
	}
	return n
}

func (s *sys) interval() int { return s.fire(map[*coro]bool{s.runCo: true}) }
func (s *sys) genInterval(g *genInfo) int {
	return s.fire(g.cos)
}

// search calls EngineFactory.Search; the outcome is nil when it blocks.
func (s *sys) search(re any) []any {
	fn := s.c.meth("filtering", "EngineFactory", "Search")
	if fn == nil {
		s.r.stop("infeasible", "anchor")
	}
	co := s.w.callFn("search", fn, s.ef, re)
	s.alive("a search")
	if !co.done {
		s.c.fail("search:blocked", s.c.pos(co.op.pos), "EngineFactory.Search does not return")
		s.r.stop("infeasible", "-")
	}
	return tupleOf(co.ret)
}

func (s *sys) readEvent(id string) any {
	fn := s.c.meth("filtering", "EngineFactory", "Search")
	if fn == nil {
		s.r.stop("infeasible", "anchor")
	}
	return s.r.havoc("event "+id, fn.Signature.Params().At(fn.Signature.Params().Len()-1).Type())
}

// current is the engine that answers searches.
func (s *sys) current() string {
	sv := s.outcome
	s.outcome = func(kind string) (int, bool) { return 1, false }
	defer func() { s.outcome = sv }()
	res := s.search(s.readEvent("probe"))
	if id, ok := res[0].(*Str); ok {
		for _, n := range s.names() {
			if vkey(id) == vkey(opqStr("identity of "+n)) {
				return n
			}
		}
	}
	if s.r.decide(s.r.errNil(res[2]), "search error") {
		return "?"
	}
	return ""
}

func (s *sys) active() bool {
	fn := s.c.meth("filtering", "EngineFactory", "IsActive")
	if fn == nil {
		s.r.stop("infeasible", "anchor")
	}
	co := s.w.callFn("IsActive", fn, s.ef)
	s.alive("a call of IsActive")
	if !co.done {
		s.c.fail("isactive:blocked", s.c.pos(co.op.pos), "EngineFactory.IsActive does not return")
		s.r.stop("infeasible", "-")
	}
	return s.r.decide(co.ret.(Bit), "active")
}

func showMsg(s *sys, v *StructV) string {
	st := s.mm.Underlying().(*types.Struct)
	var l []string
	for i := range v.f {
		if x := v.f[i]; vkey(x) != vkey(s.r.zero(st.Field(i).Type())) || st.Field(i).Name() == "Type" {
			l = append(l, st.Field(i).Name()+":"+showVal(x))
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

func permutations(l []string) [][]string {
	if len(l) <= 1 {
		return [][]string{append([]string{}, l...)}
	}
	var out [][]string
	for i := range l {
		rest := append(append([]string{}, l[:i]...), l[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]string{l[i]}, p...))
		}
	}
	return out
}

var emptyIface = types.NewInterfaceType(nil, nil)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// rank orders the engines by their documented deployment priority.
var rank = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

// withSys explores a scenario of the factory.
func (c *Check) withSys(name string, cfg func(s *sys), body func(s *sys)) {
	c.context(name, func(m *Machine) {
		c.sysHooks(m)
		m.explore(func(r *Run) {
			c.withWorld(r, func(w *world) {
				s := c.newSys(r, w, cfg)
				if s == nil {
					return
				}
				body(s)
			})
		})
	})
}

// ---- C22

// checkSelected checks the selection messages since index n0.
func (s *sys) checkSelected(n0 int, cur string, need bool, what string) {
	c := s.c
	n := 0
	for _, e := range s.toMain[n0:] {
		if !s.isType(e.v, "SelectedEngine") {
			continue
		}
		n++
		if x, ok := s.mf(e.v, "EngineName").(*Str); !ok || !x.isLit() || x.lit != cur {
			c.fail("selected", c.pos(e.pos), "the main program is told that %s is selected instead of %q after %s", showVal(s.mf(e.v, "EngineName")), cur, what)
		}
	}
	c.count("obligations", 1)
	if need && n == 0 {
		c.fail("selected:missing", s.runPos(), "the main program is not told which engine is selected after %s", what)
	}
}
func (s *sys) runPos() string { return s.c.pos(s.c.meth("filtering", "EngineFactory", "Run").Pos()) }

// checkOnly fails when other messages than selections went to main.
func (s *sys) checkOnly(n0 int, what string) {
	for _, e := range s.toMain[n0:] {
		if !s.isType(e.v, "SelectedEngine") {
			s.c.fail("extra", s.c.pos(e.pos), "the main program receives %s after %s", showMsg(s, e.v), what)
		}
	}
}

// announce lets a generator build its engine and checks the switch.
func (s *sys) announce(name, cur, hist string) string {
	c := s.c
	n0 := len(s.toMain)
	s.release(name)
	what := "the announcement of " + name + hist
	s.alive(what)
	want := cur
	if cur == "" || rank[cur] < rank[name] {
		want = name
	}
	c.count("obligations", 1)
	s.checkOnly(n0, what)
	s.checkSelected(n0, want, want != cur, what)
	got := s.current()
	s.alive(what)
	if got != want {
		c.fail("switch", s.runPos(), "the current engine is %q instead of %q after %s", got, want, what)
		s.r.stop("infeasible", "-")
	}
	if s.active() != (want != "") {
		c.fail("active", s.runPos(), "IsActive does not tell that %q is current after %s", want, what)
	}
	return want
}

// status passes a throughput report through the factory.
func (s *sys) status(name string, v any, cur string) {
	s.forward(name, map[string]any{"Type": s.kind("EngineStatus"), "EngineName": lit(name), "CurrentThroughput": v}, "a throughput report", cur)
}

// forward delivers a message of a generator and checks that main receives it.
func (s *sys) forward(name string, f map[string]any, what, cur string) {
	c := s.c
	n0 := len(s.toMain)
	v := s.msg(f).(*StructV)
	c.count("obligations", 1)
	if !s.w.deliver(s.gens[name].ch, v) {
		c.fail("listener", s.runPos(), "the factory does not take %s from the generator of %s", what, name)
		s.r.stop("infeasible", "-")
	}
	s.alive(what)
	if s.w.waiting(s.gens[name].ch) == nil {
		c.fail("listener", s.runPos(), "the factory takes no further messages after %s", what)
		s.r.stop("infeasible", "-")
	}
	l := s.toMain[n0:]
	if len(l) != 1 {
		c.fail("forward", s.runPos(), "%s reaches the main program %d times, want once", what, len(l))
		return
	}
	if d := s.r.graphDiff(l[0].v, v, "message", map[string]bool{}); d != "" {
		c.fail("forward:changed", c.pos(l[0].pos), "%s reaches the main program changed: %s", what, d)
	}
}

// tickCheck ends an interval and checks the selection.
func (s *sys) tickCheck(perf map[string]float64, cur, hist string) string {
	c := s.c
	best := map[string]bool{}
	max := 0.0
	for _, p := range perf {
		if p > max {
			max = p
		}
	}
	for n, p := range perf {
		if p == max && max > 0 {
			best[n] = true
		}
	}
	if len(best) == 0 {
		best[cur] = true
	}
	n0 := len(s.toMain)
	what := "an interval with the recorded throughputs " + fmt.Sprint(perf) + " and current engine \"" + cur + "\"" + hist
	c.count("obligations", 1)
	if n := s.interval(); n != 1 {
		c.fail("interval", s.runPos(), "the factory waits on %d tickers after %s", n, what)
		s.r.stop("infeasible", "-")
	}
	s.alive(what)
	sel := append([]sentEvent{}, s.toMain[n0:]...)
	s.checkOnly(n0, what)
	got := s.current()
	if !best[got] {
		c.fail("best", s.runPos(), "the current engine is %q after %s", got, what)
		s.r.stop("infeasible", "-")
	}
	_ = sel
	s.checkSelected(n0, got, got != "", what)
	return got
}

func ruleC22(c *Check) {
	names := c.engineNames()
	sort.Strings(names)
	for _, n := range names {
		if _, ok := rank[n]; !ok {
			c.fail("rank:"+n, "-", "%s has no documented deployment priority, so the order of deployment is undecided", n)
		}
	}
	n := 0
	// the order of the announcements
	for _, p := range permutations(names) {
		p := p
		n++
		c.withSys("announcements "+strings.Join(p, ", "), func(s *sys) { s.hold = true }, func(s *sys) {
			cur, hist := "", ""
			if s.active() {
				c.fail("active", s.runPos(), "IsActive is true before an engine is announced")
			}
			if x := s.current(); x != "" {
				c.fail("switch", s.runPos(), "%q answers searches before an engine is announced", x)
			}
			cur = s.tickCheck(nil, "", " before any announcement")
			for _, e := range p {
				cur = s.announce(e, cur, hist)
				hist = " after " + e + hist
			}
			s.tickCheck(nil, cur, "")
		})
	}
	// announcements while another engine was selected by its throughput
	for _, a := range names {
		for _, b := range names {
			if a == b {
				continue
			}
			a, b := a, b
			n++
			c.withSys("announcement of "+b+" while "+a+" is selected by throughput", func(s *sys) { s.hold = true }, func(s *sys) {
				cur := ""
				for _, e := range names {
					if e != b {
						cur = s.announce(e, cur, "")
					}
				}
				s.status(a, KF(0.3), cur)
				cur = s.tickCheck(map[string]float64{a: 0.3}, cur, "")
				s.announce(b, cur, " while "+a+" is selected by throughput")
			})
		}
	}
	// the choice by throughput
	vals := []float64{0, 0.2, 0.25, 0.7, 1.9}
	var rec func(i int, perf []float64)
	var all [][]float64
	rec = func(i int, perf []float64) {
		if i == len(names) {
			// one representative of each order type: the ranks used are contiguous
			used := map[float64]bool{}
			for _, p := range perf {
				used[p] = true
			}
			gap := false
			for k := 1; k < len(vals); k++ {
				if !used[vals[k]] {
					gap = true
				} else if gap {
					return
				}
			}
			all = append(all, append([]float64{}, perf...))
			return
		}
		for _, v := range vals {
			rec(i+1, append(perf, v))
		}
	}
	rec(0, nil)
	for i, perf := range all {
		perf := perf
		n++
		first := names[i%len(names)]
		c.withSys(fmt.Sprintf("throughputs %v from %s", perf, first), func(s *sys) { s.hold = true }, func(s *sys) {
			cur := ""
			order := append([]string{first}, names...)
			for _, e := range order {
				if s.held[e] != nil {
					cur = s.announce(e, cur, "")
				}
			}
			// an earlier, different report of each is replaced
			rec := map[string]float64{}
			for k, e := range names {
				s.status(e, KF(3-float64(k)/8), cur)
				rec[e] = 3 - float64(k)/8
			}
			cur = s.tickCheck(rec, cur, "")
			for k, e := range names {
				s.status(e, KF(perf[k]), cur)
				rec[e] = perf[k]
			}
			if c.thorough() {
				s.r.m.mapOrder = 2
			}
			cur = s.tickCheck(rec, cur, "")
			s.r.m.mapOrder = 0
			s.tickCheck(rec, cur, "")
		})
	}
	c.expect("throughput orders", len(all), 100)
	// forwarded and ignored messages
	for _, e := range names {
		e := e
		n++
		c.withSys("messages of "+e, func(s *sys) { s.hold = true }, func(s *sys) {
			cur := ""
			for _, x := range names {
				cur = s.announce(x, cur, "")
			}
			full := func(t string) map[string]any {
				return map[string]any{"Type": s.kind(t), "EngineName": lit(e), "EventCount": &Term{key: "events", lo: 0, hi: 1 << 40, op: "var"},
					"MatchedCount": &Term{key: "matches", lo: 0, hi: 1 << 40, op: "var"}, "CurrentThroughput": &Term{key: "thr", lo: 0, hi: 1e15, op: "fvar"}}
			}
			s.forward(e, full("TrafficStatus"), "a traffic report", cur)
			s.forward(e, full("TrafficStatus"), "a second traffic report", cur)
			s.status(e, KF(0.5), cur)
			s.status(e, KF(0.5), cur)
			for _, t := range []string{"AddSubscription", "DeleteSubscription", "DeployEngine"} {
				n0 := len(s.toMain)
				if !s.w.deliver(s.gens[e].ch, s.msg(map[string]any{"Type": s.kind(t), "Pattern": opqStr("pattern"), "ReportURI": opqStr("uri")})) {
					c.fail("listener", s.runPos(), "the factory takes no %s message", t)
					return
				}
				s.alive("a message of type " + t)
				s.checkOnly(n0, "a message of type "+t)
				if got := s.current(); got != cur {
					c.fail("switch", s.runPos(), "the current engine becomes %q after a message of type %s", got, t)
				}
				s.forward(e, full("TrafficStatus"), "a traffic report after a "+t+" message", cur)
			}
			s.tickCheck(map[string]float64{e: 0.5}, cur, "")
		})
	}
	// long histories of announcements, reports and intervals
	for seed := 0; seed < 4; seed++ {
		seed := seed
		n++
		c.withSys(fmt.Sprintf("history %d of 240 reports and intervals", seed), func(s *sys) { s.hold = true }, func(s *sys) {
			cur := ""
			left := append(append([]string{}, names[seed%len(names):]...), names[:seed%len(names)]...)
			cur = s.announce(left[0], cur, "")
			left = left[1:]
			known := []string{cur}
			rec := map[string]float64{}
			vals := []float64{0, 1e-12, 1e-7, 0.004, 0.2, 0.25, 1, 3, 7.5, 1e3, 1e7, 1e12, math.Inf(1)}
			for i, x := range drawn(seed, 240, 10*len(vals)) {
				v := x % len(vals)
				e := known[x/len(vals)%len(known)]
				what := fmt.Sprintf(" (step %d of history %d)", i, seed)
				switch {
				case i%50 == 30 && len(left) > 0:
					cur = s.announce(left[0], cur, what)
					known = append(known, left[0])
					left = left[1:]
				case x%4 == 0:
					cur = s.tickCheck(rec, cur, what)
				case x%4 == 1:
					s.forward(e, map[string]any{"Type": s.kind("TrafficStatus"), "EngineName": lit(e), "EventCount": KI(x * x * x), "MatchedCount": KI(x), "CurrentThroughput": KF(0)}, "a traffic report"+what, cur)
				default:
					s.status(e, KF(vals[v]), cur)
					rec[e] = vals[v]
				}
			}
			s.tickCheck(rec, cur, "")
		})
	}
	c.expect("factory scenarios", n, 100)
}

// priorities decides that every registered engine has its own deployment
// priority: of any two engines the same one is deployed in both orders.
func (c *Check) priorities(names []string) {
	for i, a := range names {
		for _, b := range names[i+1:] {
			a, b := a, b
			win := map[string]string{}
			for _, l := range [][]string{{a, b}, {b, a}} {
				l := l
				c.withSys("priority of "+l[0]+" and "+l[1], func(s *sys) { s.hold = true }, func(s *sys) {
					s.release(l[0])
					s.alive("an announcement")
					s.release(l[1])
					s.alive("an announcement")
					c.count("obligations", 1)
					got := s.current()
					c.mu.Lock()
					win[l[0]] = got
					o, ok := win[l[1]]
					c.mu.Unlock()
					if got != a && got != b {
						c.fail("priority:"+a+","+b, s.runPos(), "%q is deployed after the announcements of %s and %s", got, l[0], l[1])
					} else if ok && o != got {
						c.fail("priority:"+a+","+b, s.runPos(), "%s and %s have the same deployment priority", a, b)
					}
				})
			}
		}
	}
}

func init() {
	rules["C22"] = rule{pkgs: []string{"./filtering"}, f: ruleC22}
}
