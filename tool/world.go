package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A world interprets several goroutines of the program under analysis. They
// are interpreted one at a time, switching only where a goroutine blocks; the
// rule plays the environment: it delivers messages, fires tickers and takes
// what is sent to it.

type opAlt struct {
	ch   *ChanV
	send bool
	val  any
	elem types.Type
}

type blockOp struct {
	kind string // chan, sleep, lock, wait
	alts []opAlt
	lock *lockState
	read bool
	wg   *int
	pos  token.Pos
	// set when the operation is matched
	chosen int
	val    any
	ok     bool
}

type coro struct {
	id      int
	name    string
	parent  *coro
	w       *world
	in, out chan any
	op      *blockOp
	done    bool
	ret     any
	started bool
	start   func() any
	stack   []*frame
	depth   int
	cur     token.Pos
	vc      map[int]int
	locks   map[*lockState]bool // held: true for writing
	pos     token.Pos
}

type lockState struct {
	name    string
	writer  *coro
	readers map[*coro]int
}

type wevent struct {
	co   *coro
	kind string
	ch   *ChanV
	val  any
	pos  token.Pos
}

type world struct {
	nextID  int
	noRace  bool // the order of accesses is not recorded
	c       *Check
	r       *Run
	cos     []*coro
	cur     *coro
	locks   map[string]*lockState
	wgs     map[string]*int
	queue   map[*ChanV][]qitem
	closed  map[*ChanV]bool
	sink    map[*ChanV]func(v any, co *coro, pos token.Pos)
	dead    string // how the program ended: exit or panic
	deadAt  token.Pos
	deadCo  *coro
	kill    bool
	race    *raceLog
	onGo    func(fn *FuncV, args []any, pos token.Pos) bool
	maxRes  int
	tickers []*tickerInfo
	order   string // which runnable goroutine is next: fifo, lifo or choose
	eager   bool   // a new goroutine runs at once
	preempt int    // how many more times a goroutine may be interrupted
	avoid   *coro
	onSend  func(co *coro, ch *ChanV, v any, pos token.Pos)
	ending  bool
	off     map[*ChanV]bool
	wgVC    map[*int]map[int]int
	root    *coro  // goroutines started by the rule come after it
	pauses  bool   // main may pause with a timer instead of a sleep
	seed    uint64 // not 0: scheduling decisions are drawn from it
}

// pick is one of n scheduling decisions.
func (w *world) pick(n int, what string) int {
	if w.seed == 0 || n <= 1 {
		return w.r.choose(n, what)
	}
	w.seed = w.seed*6364136223846793005 + 1442695040888963407
	return int((w.seed >> 33) % uint64(n))
}

// stopped records that a ticker was stopped or started again.
func (w *world) stopped(ch *ChanV, off bool) { w.off[ch] = off }

// wgvc publishes what a goroutine did before it left a wait group.
func (w *world) wgvc(n *int, co *coro) {
	if w.wgVC[n] == nil {
		w.wgVC[n] = map[int]int{}
	}
	joinVC(w.wgVC[n], co.vc)
	co.vc[co.id]++
}

type qitem struct {
	v  any
	vc map[int]int
}

type killT struct{}

// withWorld runs body with an empty world.
func (c *Check) withWorld(r *Run, body func(w *world)) {
	w := &world{c: c, r: r, locks: map[string]*lockState{}, wgs: map[string]*int{}, queue: map[*ChanV][]qitem{}, closed: map[*ChanV]bool{},
		sink: map[*ChanV]func(v any, co *coro, pos token.Pos){}, maxRes: 2000, off: map[*ChanV]bool{}, wgVC: map[*int]map[int]int{}}
	r.user["world"] = w
	defer w.stopAll()
	body(w)
}

func worldOf(r *Run) *world {
	w, _ := r.user["world"].(*world)
	return w
}

// worldHooks installs the concurrency model into a machine.
func worldHooks(m *Machine) {
	m.hooks.onGo = func(r *Run, fn *FuncV, args []any, pos token.Pos) {
		w := worldOf(r)
		if w.onGo != nil && w.onGo(fn, args, pos) {
			return
		}
		name := fn.name
		if fn.fn != nil {
			name = fnName(fn.fn)
		}
		args = append([]any{}, args...)
		for i := range args {
			args[i] = cloneV(args[i])
		}
		w.spawn(name+"@"+r.m.prog.posShort(pos), pos, func() any { return r.callFunc(fn, args, nil) })
		if w.eager && w.cur != nil {
			w.yield()
		}
	}
	m.hooks.onSend = func(r *Run, ch any, v any, pos token.Pos) {
		w := worldOf(r)
		w.interrupt()
		if w.onSend != nil {
			w.onSend(w.cur, chanOf(r, ch), v, pos)
		}
		w.chanOp(&blockOp{kind: "chan", pos: pos, alts: []opAlt{{ch: chanOf(r, ch), send: true, val: cloneV(v)}}})
	}
	m.hooks.onRecv = func(r *Run, ch any, elem types.Type, pos token.Pos) (any, bool, bool) {
		w := worldOf(r)
		op := &blockOp{kind: "chan", pos: pos, alts: []opAlt{{ch: chanOf(r, ch), elem: elem}}}
		w.chanOp(op)
		return op.val, op.ok, true
	}
	m.hooks.onSelect = func(r *Run, sel *ssa.Select, chans []any, sends []any) (int, any, bool, bool) {
		w := worldOf(r)
		op := &blockOp{kind: "chan", pos: r.cur}
		for i, s := range sel.States {
			a := opAlt{ch: chanOf(r, chans[i]), elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if s.Dir == types.SendOnly {
				a.send, a.val = true, cloneV(sends[i])
			}
			op.alts = append(op.alts, a)
		}
		if !sel.Blocking {
			if !w.tryMatch(w.me(), op) {
				return -1, nil, false, true
			}
		} else {
			w.chanOp(op)
		}
		if a := op.alts[op.chosen]; a.send && w.onSend != nil {
			w.onSend(w.cur, a.ch, a.val, r.cur)
		}
		return op.chosen, op.val, op.ok, true
	}
	m.hooks.rselect = func(r *Run, chans []any) (int, any, bool, bool) {
		w := worldOf(r)
		op := &blockOp{kind: "chan", pos: r.cur}
		for _, c := range chans {
			op.alts = append(op.alts, opAlt{ch: chanOf(r, c)})
		}
		w.chanOp(op)
		return op.chosen, op.val, op.ok, true
	}
	m.hooks.onClose = func(r *Run, ch any, pos token.Pos) {
		w := worldOf(r)
		c := chanOf(r, ch)
		if w.closed[c] {
			r.gopanic("close of closed channel")
		}
		w.closed[c] = true
	}
	m.hooks.onSleep = func(r *Run, d any) {
		w := worldOf(r)
		w.block(&blockOp{kind: "sleep", pos: r.cur})
	}
	m.hooks.onLock = func(r *Run, kind string, p Ptr, pos token.Pos) {
		w := worldOf(r)
		w.interrupt()
		w.lockOp(kind, p, pos)
	}
}

func chanOf(r *Run, v any) *ChanV {
	switch c := v.(type) {
	case *ChanV:
		return c
	case nil:
		return nil
	case *Opaque:
		w := worldOf(r)
		k := "opaque:" + c.name
		if x, ok := r.user[k].(*ChanV); ok {
			return x
		}
		x := &ChanV{id: -2, name: c.name}
		r.user[k] = x
		_ = w
		return x
	}
	r.unsupported("channel %T", v)
	return nil
}

func (w *world) me() *coro {
	if w.cur == nil {
		w.r.unsupported("a blocking operation outside a goroutine")
	}
	return w.cur
}

func (w *world) spawn(name string, pos token.Pos, f func() any) *coro {
	w.nextID++
	co := &coro{id: w.nextID, name: name, w: w, in: make(chan any), out: make(chan any), start: f, vc: map[int]int{}, locks: map[*lockState]bool{}, pos: pos, parent: w.cur}
	p := w.cur
	if p == nil {
		p = w.root
	}
	if p != nil && !w.noRace {
		w.joinVC(co.vc, p.vc)
		p.vc[p.id]++
	}
	co.vc[co.id] = 1
	w.cos = append(w.cos, co)
	return co
}

// call runs f as a goroutine until everything is blocked.
func (w *world) call(name string, f func() any) *coro {
	co := w.spawn(name, 0, f)
	w.settle()
	if n := len(w.cos) - 1; w.noRace && co.done && w.cos[n] == co {
		w.cos = w.cos[:n]
	}
	return co
}

func (w *world) callFn(name string, fn *ssa.Function, args ...any) *coro {
	return w.call(name, func() any { return w.r.call(fn, args, nil, nil) })
}

func (w *world) resume(co *coro) {
	r := w.r
	st, d, cur := r.stack, r.depth, r.cur
	r.stack, r.depth, r.cur = co.stack, co.depth, co.cur
	w.cur = co
	if !co.started {
		co.started = true
		go func() {
			var res any
			func() {
				defer func() {
					if e := recover(); e != nil {
						res = e
						if _, ok := e.(killT); ok {
							res = nil
						}
					}
				}()
				co.ret = co.start()
			}()
			co.done = true
			co.out <- res
		}()
	} else {
		co.in <- nil
	}
	res := <-co.out
	co.stack, co.depth, co.cur = r.stack, r.depth, r.cur
	r.stack, r.depth, r.cur = st, d, cur
	w.cur = nil
	switch e := res.(type) {
	case nil:
	case goPanic:
		w.dead, w.deadAt, w.deadCo = "panic: "+e.msg, e.pos, co
	case stopT:
		if e.kind == "exit" || e.kind == "horizon" {
			w.dead, w.deadAt, w.deadCo = e.kind+": "+e.msg, e.pos, co
			return
		}
		panic(e)
	default:
		panic(e)
	}
}

// yield lets the other goroutines run.
func (w *world) yield() {
	w.avoid = w.cur
	w.block(&blockOp{kind: "matched", pos: w.r.cur})
}

// interrupt is a point where the scheduler may switch to another goroutine.
func (w *world) interrupt() {
	if w == nil || w.cur == nil || w.preempt == 0 || w.r.spec != nil {
		return
	}
	for _, co := range w.cos {
		if co != w.cur && w.runnable(co) {
			if w.pick(2, "interruption") == 1 {
				w.preempt--
				w.yield()
			}
			return
		}
	}
}

// others tells whether another goroutine can run.
func (w *world) others() bool {
	for _, co := range w.cos {
		if co != w.cur && w.runnable(co) {
			return true
		}
	}
	return false
}

func (w *world) runnable(co *coro) bool {
	switch {
	case co.done:
		return false
	case co.op == nil || co.op.kind == "matched":
		return true
	case co.op.kind == "lock":
		return w.free(co, co.op.lock, co.op.read)
	case co.op.kind == "wait":
		return *co.op.wg <= 0
	}
	return false
}

// block suspends the current goroutine until its operation is matched.
func (w *world) block(op *blockOp) {
	if w.r.spec != nil {
		panic(specAbort{})
	}
	co := w.me()
	co.op = op
	co.out <- nil
	<-co.in
	if w.kill {
		panic(killT{})
	}
}

func (w *world) stopAll() {
	w.kill = true
	w.r.spec = nil
	for _, co := range w.cos {
		if co.started && !co.done {
			co.in <- nil
			<-co.out
		}
	}
}

func joinVC(a, b map[int]int) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}
func (w *world) joinVC(a, b map[int]int) {
	if !w.noRace {
		joinVC(a, b)
	}
}
func (w *world) copyVC(a map[int]int) map[int]int {
	if w.noRace {
		return nil
	}
	return copyVC(a)
}
func copyVC(a map[int]int) map[int]int {
	b := map[int]int{}
	joinVC(b, a)
	return b
}

func (w *world) chanOp(op *blockOp) {
	co := w.me()
	if w.r.spec != nil {
		panic(specAbort{})
	}
	for _, a := range op.alts {
		if a.send && a.ch != nil && w.closed[a.ch] {
			w.r.gopanic("send on closed channel")
		}
	}
	if w.tryMatch(co, op) {
		return
	}
	if w.pauses && len(op.alts) == 1 && !op.alts[0].send && co.name == "main" {
		for _, t := range w.tickers {
			if t.ch == op.alts[0].ch && (t.kind == "After" || t.kind == "NewTimer") {
				// the main function waits for a time to pass
				w.block(&blockOp{kind: "sleep", pos: op.pos})
				op.chosen, op.ok = 0, true
				return
			}
		}
	}
	w.block(op)
}

func (w *world) capOf(ch *ChanV) int {
	if k, ok := ch.cap.(KI); ok {
		return int(k)
	}
	return 0
}

// ready tells whether one alternative of an operation can proceed.
func (w *world) ready(co *coro, a opAlt) bool {
	if a.ch == nil {
		return false
	}
	if w.closed[a.ch] || a.send && (w.sink[a.ch] != nil || len(w.queue[a.ch]) < w.capOf(a.ch)) || !a.send && len(w.queue[a.ch]) > 0 {
		return true
	}
	for _, o := range w.cos {
		if o == co || o.done || o.op == nil || o.op.kind != "chan" {
			continue
		}
		for _, b := range o.op.alts {
			if b.ch == a.ch && b.send != a.send {
				return true
			}
		}
	}
	return false
}

// tryMatch completes an operation when a partner is waiting.
func (w *world) tryMatch(co *coro, op *blockOp) bool {
	idx := make([]int, len(op.alts))
	for i := range idx {
		idx[i] = i
	}
	if w.order == "choose" && len(idx) > 1 {
		var l []int
		for i, a := range op.alts {
			if w.ready(co, a) {
				l = append(l, i)
			}
		}
		if len(l) > 1 {
			l = l[w.pick(len(l), "select"):][:1]
		}
		idx = l
	}
	for _, i := range idx {
		a := op.alts[i]
		if a.ch == nil {
			continue
		}
		if a.send {
			if f := w.sink[a.ch]; f != nil {
				co.vc[co.id]++
				op.chosen, op.ok = i, true
				f(a.val, co, op.pos)
				return true
			}
			if w.closed[a.ch] {
				continue
			}
			for _, o := range w.cos {
				if o == co || o.done || o.op == nil || o.op.kind != "chan" {
					continue
				}
				for j, b := range o.op.alts {
					if b.ch == a.ch && !b.send {
						o.op.chosen, o.op.val, o.op.ok = j, a.val, true
						o.op.kind = "matched"
						op.chosen, op.ok = i, true
						vc := w.copyVC(co.vc)
						w.joinVC(o.vc, vc)
						if w.capOf(a.ch) == 0 {
							w.joinVC(co.vc, o.vc)
						}
						co.vc[co.id]++
						o.vc[o.id]++
						return true
					}
				}
			}
			if len(w.queue[a.ch]) < w.capOf(a.ch) {
				w.queue[a.ch] = append(w.queue[a.ch], qitem{a.val, w.copyVC(co.vc)})
				co.vc[co.id]++
				op.chosen, op.ok = i, true
				return true
			}
			continue
		}
		if q := w.queue[a.ch]; len(q) > 0 {
			op.chosen, op.val, op.ok = i, q[0].v, true
			w.joinVC(co.vc, q[0].vc)
			co.vc[co.id]++
			w.queue[a.ch] = q[1:]
			// a waiting sender moves up
			for _, o := range w.cos {
				if o == co || o.done || o.op == nil || o.op.kind != "chan" {
					continue
				}
				for j, b := range o.op.alts {
					if b.ch == a.ch && b.send {
						w.queue[a.ch] = append(w.queue[a.ch], qitem{b.val, w.copyVC(o.vc)})
						o.op.chosen, o.op.ok, o.op.kind = j, true, "matched"
						o.vc[o.id]++
						return true
					}
				}
			}
			return true
		}
		for _, o := range w.cos {
			if o == co || o.done || o.op == nil || o.op.kind != "chan" {
				continue
			}
			for j, b := range o.op.alts {
				if b.ch == a.ch && b.send {
					op.chosen, op.val, op.ok = i, b.val, true
					o.op.chosen, o.op.ok, o.op.kind = j, true, "matched"
					vc := w.copyVC(o.vc)
					if w.capOf(a.ch) == 0 {
						w.joinVC(o.vc, co.vc)
					}
					w.joinVC(co.vc, vc)
					co.vc[co.id]++
					o.vc[o.id]++
					return true
				}
			}
		}
		if w.closed[a.ch] {
			op.chosen, op.ok = i, false
			if a.elem != nil {
				op.val = w.r.zero(a.elem)
			}
			return true
		}
	}
	return false
}

// deliver offers v on ch to a goroutine that is waiting for it and lets
// everything run.
func (w *world) deliver(ch *ChanV, v any) bool {
	if !w.offer(ch, v) {
		return false
	}
	w.settle()
	return true
}

// offer hands v to a goroutine waiting on ch without running it.
func (w *world) offer(ch *ChanV, v any) bool {
	if w.dead != "" {
		return false
	}
	for _, o := range w.cos {
		if o.done || o.op == nil || o.op.kind != "chan" {
			continue
		}
		for j, b := range o.op.alts {
			if b.ch == ch && !b.send {
				if v == nil && b.elem != nil {
					v = w.r.zero(b.elem)
				}
				o.op.chosen, o.op.val, o.op.ok, o.op.kind = j, cloneV(v), true, "matched"
				o.vc[o.id]++
				return true
			}
		}
	}
	if len(w.queue[ch]) < w.capOf(ch) {
		w.queue[ch] = append(w.queue[ch], qitem{cloneV(v), map[int]int{}})
		return true
	}
	return false
}

// waiting is the goroutine blocked receiving from ch.
func (w *world) waiting(ch *ChanV) *coro {
	for _, o := range w.cos {
		if !o.done && o.op != nil && o.op.kind == "chan" {
			for _, b := range o.op.alts {
				if b.ch == ch && !b.send {
					return o
				}
			}
		}
	}
	return nil
}

// settle runs every goroutine until all are blocked or done.
func (w *world) settle() {
	for n := 0; ; n++ {
		if n > w.maxRes {
			w.r.stop("budget", "the goroutines do not come to rest")
		}
		if w.dead != "" {
			return
		}
		var l []*coro
		for _, co := range w.cos {
			if w.runnable(co) {
				l = append(l, co)
			}
		}
		if len(l) > 1 && w.avoid != nil {
			for i, co := range l {
				if co == w.avoid {
					l = append(append([]*coro{}, l[:i]...), l[i+1:]...)
					break
				}
			}
		}
		w.avoid = nil
		if len(l) == 0 {
			return
		}
		next := l[0]
		switch w.order {
		case "lifo":
			next = l[len(l)-1]
		case "choose":
			next = l[w.pick(len(l), "schedule")]
		}
		next.op = nil
		w.resume(next)
	}
}

// wake ends the sleeps.
func (w *world) wake() {
	for _, co := range w.cos {
		if !co.done && co.op != nil && co.op.kind == "sleep" {
			co.op.kind = "matched"
		}
	}
	w.settle()
}

// stuck lists goroutines which wait for a lock.
func (w *world) stuck() []*coro {
	var out []*coro
	for _, co := range w.cos {
		if !co.done && co.op != nil && co.op.kind == "lock" {
			out = append(out, co)
		}
	}
	return out
}

func (w *world) lockOf(p Ptr) *lockState {
	k := lockKey(p)
	l := w.locks[k]
	if l == nil {
		l = &lockState{name: typeStr(p.obj.typ), readers: map[*coro]int{}}
		w.locks[k] = l
	}
	return l
}

func (w *world) free(co *coro, l *lockState, read bool) bool {
	if l.writer != nil {
		return false
	}
	if read {
		// a waiting writer keeps new readers out
		if len(l.readers) > 0 {
			for _, o := range w.cos {
				if o != co && !o.done && o.op != nil && o.op.kind == "lock" && o.op.lock == l && !o.op.read {
					return false
				}
			}
		}
		return true
	}
	return len(l.readers) == 0
}

func (w *world) lockOp(kind string, p Ptr, pos token.Pos) {
	if w == nil {
		return
	}
	co := w.cur
	if co == nil {
		return // the rule's own start-up code
	}
	l := w.lockOf(p)
	switch kind {
	case "lock", "rlock":
		read := kind == "rlock"
		for !w.free(co, l, read) {
			w.block(&blockOp{kind: "lock", lock: l, read: read, pos: pos})
		}
		if read {
			l.readers[co]++
			if !co.locks[l] {
				co.locks[l] = false
			}
		} else {
			l.writer = co
			co.locks[l] = true
		}
	case "unlock":
		if l.writer == nil {
			w.r.stop("exit", "fatal error: unlock of unlocked mutex")
		}
		delete(l.writer.locks, l)
		l.writer = nil
	case "runlock":
		if l.readers[co] == 0 {
			w.r.stop("exit", "fatal error: unlock of unlocked mutex")
		}
		if l.readers[co]--; l.readers[co] == 0 {
			delete(l.readers, co)
			delete(co.locks, l)
		}
	}
}

// ---- races

type raceLog struct {
	acc     map[string]map[string]*accRec
	last    map[string]*accRec
	skip    func(t types.Type) bool
	name    func(p Ptr) string
	Reports map[string]string
	Pos     map[string]string
	Count   int
	Locs    map[string]bool
}

type accRec struct {
	co     *coro
	clock  int
	vc     map[int]int
	write  bool
	atomic bool
	locks  map[*lockState]bool
	pos    token.Pos
	fn     string
}

func newRaceLog() *raceLog {
	return &raceLog{acc: map[string]map[string]*accRec{}, last: map[string]*accRec{}, Reports: map[string]string{}, Pos: map[string]string{}, Locs: map[string]bool{}}
}

// raceHooks reports conflicting accesses which nothing orders. Two accesses
// are ordered by goroutine start, by a message, or when the later one reads a
// value that the earlier goroutine published under a common lock or atomically.
func raceHooks(m *Machine) {
	m.hooks.onAccess = func(r *Run, p Ptr, write, atomic bool, pos token.Pos) {
		w := worldOf(r)
		if w == nil || w.race == nil || w.cur == nil || p.obj == nil {
			return
		}
		w.race.access(w, fmt.Sprintf("%p%x", p.obj, p.path), func() string { return locName(p) }, p.obj.typ, write, atomic, pos)
	}
	m.hooks.onMapAcc = func(r *Run, mo *MapObj, write bool, pos token.Pos) {
		w := worldOf(r)
		if w == nil || w.race == nil || w.cur == nil {
			return
		}
		w.race.access(w, fmt.Sprintf("%p", mo), func() string { return "the map " + mo.label }, nil, write, false, pos)
	}
}

// foreign tells whether a type belongs to a library.
func foreign(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != modPath && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/")
}

func locName(p Ptr) string {
	t := p.obj.typ
	s := typeStr(t)
	path := p.path
	for len(path) >= 3 {
		i := int(path[0])<<16 | int(path[1])<<8 | int(path[2])
		path = path[3:]
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i < u.NumFields() {
				s += "." + u.Field(i).Name()
				t = u.Field(i).Type()
				continue
			}
		case *types.Array:
			s += "[]"
			t = u.Elem()
			continue
		}
		break
	}
	return s
}

func common(a, b map[*lockState]bool) bool {
	for l, aw := range a {
		if bw, ok := b[l]; ok && (aw || bw) {
			return true
		}
	}
	return false
}

func (l *raceLog) access(w *world, key string, name func() string, t types.Type, write, atomic bool, pos token.Pos) {
	co := w.cur
	l.Count++
	l.Locs[name()] = true
	rec := &accRec{co: co, clock: co.vc[co.id], write: write, atomic: atomic, pos: pos, locks: map[*lockState]bool{}}
	for k, v := range co.locks {
		rec.locks[k] = v
	}
	if !write {
		if lw := l.last[key]; lw != nil && lw.co != co && (lw.atomic && atomic || common(lw.locks, rec.locks)) {
			w.joinVC(co.vc, lw.vc)
		}
	}
	m := l.acc[key]
	if m == nil {
		m = map[string]*accRec{}
		l.acc[key] = m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := m[k]
		if o.co == co || !(o.write || write) || o.atomic && atomic || common(o.locks, rec.locks) {
			continue
		}
		if co.vc[o.co.id] >= o.clock {
			continue
		}
		n := name()
		if t != nil && foreign(t) {
			continue
		}
		rk := n
		if l.Reports[rk] == "" {
			l.Pos[rk] = w.c.pos(pos)
			l.Reports[rk] = fmt.Sprintf("%s is %s by %s at %s and %s by %s at %s, with no common lock, no atomic access and no message or start ordering them",
				n, verb(o), o.co.name, w.c.pos(o.pos), verb(rec), co.name, w.c.pos(pos))
		}
	}
	k := fmt.Sprintf("%d/%v/%v/%d", co.id, write, atomic, pos)
	m[k] = rec
	if write {
		rec.vc = copyVC(co.vc)
		l.last[key] = rec
		if atomic {
			co.vc[co.id]++
			rec.vc = copyVC(rec.vc)
		}
	}
}

func verb(a *accRec) string {
	if a.write {
		return "written"
	}
	return "read"
}
