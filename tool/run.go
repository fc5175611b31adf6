package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- heap values

// Obj is a memory cell.
type Obj struct {
	id    int
	typ   types.Type
	v     any
	nat   map[string]any // native state of library objects by path
	label string
}

// Ptr is an address inside an object; the path holds two bytes per index.
type Ptr struct {
	obj  *Obj
	path string
}

// StructV and ArrV are mutable only while inside an object.
type StructV struct{ f []any }
type ArrV struct{ e []any }

// SliceV is a window of an array object.
type SliceV struct {
	obj        *Obj
	path       string
	off, n, cp int
}

// MapObj is a mutable map.
type MapObj struct {
	id    int
	keys  []any
	vals  []any
	label string
}
type MapV struct{ m *MapObj }

// Iface is an interface value; t == nil is the nil interface.
type Iface struct {
	t types.Type
	v any
}

// FuncV is a function value.
type FuncV struct {
	fn   *ssa.Function
	bind []any
	nat  func(r *Run, args []any, site ssa.Instruction) any
	name string
}

// ChanV is a channel.
type ChanV struct {
	id   int
	name string
	cap  any
}

// Opaque is a value about which nothing is known.
type Opaque struct {
	name string
	typ  types.Type
}

// Opt is a slice element present only under a condition.
type Opt struct {
	g Bit
	v any
}

// Blob is an opaque []byte made of encoded tokens.
type Blob struct{ parts []any }

func addPath(p string, i int) string { return p + string([]byte{byte(i >> 16), byte(i >> 8), byte(i)}) }

// ---- machine

// Machine is one context: a symbol pool and exploration limits.
type Machine struct {
	prog     *Prog
	p        *Pool
	maxPaths int
	maxSteps int
	name     string
	hooks    *Hooks
	noMerge  bool
	mapOrder int // 0 insertion, 1 both directions, 2 all permutations
	fields   map[*Sym]*NumField
	rnd      map[string]*Str
	Paths    int
	Steps    int64
	funcs    map[*ssa.Function]bool
	problems []string
	dd       *mdd
	ddGen    int
	hist     histMode
	maxTotal int64 // steps after which the exploration ends
	keeps    bool  // a call wrote memory that outlives it
}

// Hooks lets a rule observe and steer effects.
type Hooks struct {
	onSend   func(r *Run, ch any, v any, pos token.Pos)
	onRecv   func(r *Run, ch any, elem types.Type, pos token.Pos) (any, bool, bool) // value, ok, handled
	onSelect func(r *Run, sel *ssa.Select, chans []any, sends []any) (int, any, bool, bool)
	onGo     func(r *Run, fn *FuncV, args []any, pos token.Pos)
	onAccess func(r *Run, p Ptr, write bool, atomic bool, pos token.Pos)
	onMapAcc func(r *Run, m *MapObj, write bool, pos token.Pos)
	extern   func(r *Run, fn *ssa.Function, name string, args []any, site ssa.Instruction) (any, bool)
	invoke   func(r *Run, recv *Opaque, m *types.Func, args []any, site ssa.Instruction) (any, bool)
	onLock   func(r *Run, kind string, p Ptr, pos token.Pos)
	onClose  func(r *Run, ch any, pos token.Pos)
	onSleep  func(r *Run, d any)
	rselect  func(r *Run, chans []any) (int, any, bool, bool)
	onGlobal func(r *Run, g *ssa.Global) (any, bool)
}

// NumField is a decimal field of known digit count and known bit length.
type NumField struct {
	name   string
	digits int
	syms   []*Sym
	val    *BV
}

func newMachine(pr *Prog, name string) *Machine {
	return &Machine{prog: pr, p: newPool(), maxPaths: 20000, maxSteps: 3000000, name: name, hooks: &Hooks{}, fields: map[*Sym]*NumField{}, funcs: map[*ssa.Function]bool{}}
}

// numField declares a decimal field of L digits whose value has n bits.
func (m *Machine) numField(name string, L, n int) (*Str, *BV) {
	f := &NumField{name: name, digits: L}
	var e []SE
	for i := 0; i < L; i++ {
		s := m.p.sym(fmt.Sprintf("%s.digit%d", name, i), setOf("0123456789"))
		f.syms = append(f.syms, s)
		m.fields[s] = f
		e = append(e, SE{c: m.p.charBV(s)})
	}
	b := make([]Bit, 63)
	for i := range b {
		switch {
		case i >= n:
			b[i] = m.p.B0
		case i == n-1:
			b[i] = m.p.B1
		default:
			b[i] = m.p.bitSym(fmt.Sprintf("%s[%d]", name, i))
		}
	}
	f.val = &BV{b}
	return mkStr(e), f.val
}

// Event is an observable effect.
type Event struct {
	kind string
	name string
	args []any
	pos  token.Pos
}

// Run is one path.
type Run struct {
	normMemo  map[Bit]Bit // during norm of a deep gate
	m         *Machine
	p         *Pool
	dec       []int
	width     []int
	pos       int
	domF      map[int]Set
	subst     map[int]Bit
	facts     map[int]bool
	falses    []Bit // And nodes known false
	noAnd     int
	conds     []Bit // every condition assumed
	pc        *mdNode
	pcN       int
	pcGen     int
	lb        map[string][2]int64
	objN      int
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]bool
	steps     int
	depth     int
	trace     []Event
	log       []string
	spec      *specLog
	specDepth int
	opq       map[string]*Obj
	nameN     map[string]int
	stack     []*frame
	user      map[string]any
	cur       token.Pos
	wlog      func(slot *any, obj *Obj)
	mutated   map[*Obj]token.Pos
	maplog    map[*MapObj]token.Pos
	mark      int      // objects up to this one existed before the analysed call
	inits     [][2]int // objects made by package initialisers
	inInit    int
	topCall   bool
	twinned   bool
}

type stopT struct {
	kind string // infeasible, unsupported, horizon, exit, budget
	msg  string
	pos  token.Pos
}
type goPanic struct {
	msg   string
	pos   token.Pos
	val   any
	stack []string
}
type specAbort struct{}
type specLog struct {
	undo []undoE
}
type undoE struct {
	slot *any
	old  any
	obj  *Obj
}

func (r *Run) unsupported(f string, a ...any) {
	if r.spec != nil {
		panic(specAbort{})
	}
	panic(stopT{"unsupported", fmt.Sprintf(f, a...), r.cur})
}
func (r *Run) stop(kind, f string, a ...any) {
	if r.spec != nil {
		panic(specAbort{})
	}
	panic(stopT{kind, fmt.Sprintf(f, a...), r.cur})
}
func (r *Run) gopanic(f string, a ...any) {
	if r.spec != nil {
		panic(specAbort{})
	}
	var st []string
	for i := len(r.stack) - 1; i >= 0 && len(st) < 8; i-- {
		st = append(st, fnName(r.stack[i].fn))
	}
	panic(goPanic{msg: fmt.Sprintf(f, a...), pos: r.cur, stack: st})
}

// choose picks one of n alternatives.
func (r *Run) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if r.spec != nil {
		panic(specAbort{})
	}
	if r.pos < len(r.dec) {
		k := r.dec[r.pos]
		r.pos++
		return k
	}
	r.dec = append(r.dec, 0)
	r.width = append(r.width, n)
	r.pos++
	return 0
}

// explore runs body once per feasible path.
func (m *Machine) explore(body func(r *Run)) {
	var dec, width []int
	for {
		if m.Paths >= m.maxPaths {
			m.problems = append(m.problems, fmt.Sprintf("path budget of %d exhausted in %s", m.maxPaths, m.name))
			return
		}
		r := &Run{m: m, p: m.p, dec: dec, width: width, domF: map[int]Set{}, subst: map[int]Bit{}, facts: map[int]bool{},
			lb: map[string][2]int64{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, opq: map[string]*Obj{},
			nameN: map[string]int{}, user: map[string]any{}, mutated: map[*Obj]token.Pos{}, maplog: map[*MapObj]token.Pos{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch s := e.(type) {
					case stopT:
						if s.kind == "infeasible" {
							return
						}
						m.problems = append(m.problems, fmt.Sprintf("%s: %s at %s (%s)%s", s.kind, s.msg, m.prog.pos(s.pos), m.name, r.where()))
					case goPanic:
						m.problems = append(m.problems, fmt.Sprintf("uncaught panic: %s at %s (%s) via %v", s.msg, m.prog.pos(s.pos), m.name, s.stack))
					case specAbort:
						m.problems = append(m.problems, "internal: speculation escaped")
					default:
						panic(e)
					}
				}
			}()
			body(r)
		}()
		m.Paths++
		m.Steps += int64(r.steps)
		dec, width = r.dec, r.width
		if r.pos < len(dec) {
			dec, width = dec[:r.pos], width[:r.pos]
		}
		for len(dec) > 0 && dec[len(dec)-1]+1 >= width[len(width)-1] {
			dec, width = dec[:len(dec)-1], width[:len(width)-1]
		}
		if len(dec) == 0 {
			return
		}
		dec = append([]int{}, dec...)
		width = append([]int{}, width...)
		dec[len(dec)-1]++
		if m.maxTotal > 0 && m.Steps > m.maxTotal {
			m.problems = append(m.problems, "path budget: too many steps")
			return
		}
		if len(m.problems) > 20 {
			return
		}
	}
}

func (r *Run) where() string {
	if len(r.log) == 0 {
		return ""
	}
	l := r.log
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	return " under " + strings.Join(l, "; ")
}

// Outcome of a call.
type Outcome struct {
	kind string // return, panic, or a stop kind
	ret  []any
	msg  string
	pos  token.Pos
}

func (o Outcome) String(pr *Prog) string {
	if o.kind == "return" {
		return "return"
	}
	return fmt.Sprintf("%s: %s at %s", o.kind, o.msg, pr.pos(o.pos))
}

// try calls f and catches panics, exits and horizons.
func (r *Run) try(fn *ssa.Function, args []any, bind []any) (o Outcome) {
	depth, nst := r.depth, len(r.stack)
	defer func() {
		if e := recover(); e != nil {
			r.depth = depth
			r.stack = r.stack[:nst]
			switch s := e.(type) {
			case goPanic:
				o = Outcome{kind: "panic", msg: s.msg, pos: s.pos}
			case stopT:
				if s.kind == "exit" || s.kind == "horizon" {
					o = Outcome{kind: s.kind, msg: s.msg, pos: s.pos}
					return
				}
				panic(e)
			default:
				panic(e)
			}
		}
	}()
	v := r.call(fn, args, bind, nil)
	return Outcome{kind: "return", ret: tupleOf(v)}
}
func tupleOf(v any) []any {
	if t, ok := v.(Tuple); ok {
		return t
	}
	if v == nil {
		return nil
	}
	return []any{v}
}

// Tuple is a multi value result.
type Tuple []any

// ---- facts

func (r *Run) dom(s *Sym) Set {
	if d, ok := r.domF[s.id]; ok {
		return d
	}
	return s.dom
}

// norm simplifies a condition under the facts of the path.
func (r *Run) norm(b Bit) Bit {
	n := b.n
	switch n.kind {
	case nkConst:
		return b
	case nkFn:
		if len(r.subst) > 0 {
			if s, ok := r.subst[n.sym.id]; ok {
				x := r.norm(s)
				if n.set.has(1) == b.neg {
					return r.p.not(x)
				}
				return x
			}
		}
		d := r.dom(n.sym)
		set := n.set
		if b.neg {
			set = n.sym.dom.minus(set)
		}
		i := set.and(d)
		if i.empty() {
			return r.p.B0
		}
		if i == d {
			return r.p.B1
		}
		return r.p.fnBit(n.sym, i)
	case nkOpaque:
		if v, ok := r.facts[n.id]; ok {
			return r.p.konst(v != b.neg)
		}
		return b
	case nkLinLe:
		if v, ok := r.facts[n.id]; ok {
			return r.p.konst(v != b.neg)
		}
		lo, hi := n.lin.bounds(r)
		if hi <= 0 {
			return r.p.konst(!b.neg)
		}
		if lo > 0 {
			return r.p.konst(b.neg)
		}
		return b
	case nkXor, nkAnd:
		if n.deep < 4 {
			return r.normGate(b)
		}
		// shared parts of a deep gate are visited once
		if r.normMemo == nil {
			r.normMemo = map[Bit]Bit{}
			defer func() { r.normMemo = nil }()
		}
		x, ok := r.normMemo[b]
		if !ok {
			x = r.normGate(b)
			r.normMemo[b] = x
		}
		return x
	}
	return b
}

// normGate normalises a gate from its operands.
func (r *Run) normGate(b Bit) Bit {
	n := b.n
	x := Bit{n, false}
	for i, a := range n.args {
		y := r.norm(a)
		if y == a {
			continue
		}
		args := make([]Bit, len(n.args))
		copy(args, n.args[:i])
		args[i] = y
		for j := i + 1; j < len(args); j++ {
			args[j] = r.norm(n.args[j])
		}
		if n.kind == nkAnd {
			x = r.p.and(args...)
		} else {
			x = r.p.xorAll(args)
		}
		break
	}
	if n.kind == nkAnd {
		if !b.neg {
			return r.andFacts(x)
		}
		return r.p.not(r.andFacts(x))
	}
	if b.neg {
		x = r.p.not(x)
	}
	if v, ok := r.facts[x.n.id]; ok && x.n.kind == nkXor {
		return r.p.konst(v != x.neg)
	}
	return x
}

// andFacts: an And including a known false And is false.
func (r *Run) andFacts(x Bit) Bit {
	if r.noAnd > 0 || len(r.falses) == 0 || x.neg || x.n.kind != nkAnd {
		return x
	}
	if v, ok := r.facts[x.n.id]; ok {
		return r.p.konst(v)
	}
	for _, f := range r.falses {
		if f.n.kind != nkAnd {
			continue
		}
		sub := true
		for _, a := range f.n.args {
			a = r.norm0(a)
			if v, ok := isConst(a); ok {
				if v {
					continue
				}
				sub = false
				break
			}
			found := false
			for _, b := range x.n.args {
				if a == b {
					found = true
					break
				}
				if a.n.kind == nkFn && b.n.kind == nkFn && a.n.sym == b.n.sym && !a.neg && !b.neg && b.n.set.minus(a.n.set).empty() {
					found = true
					break
				}
			}
			if !found {
				sub = false
				break
			}
		}
		if sub {
			return r.p.B0
		}
	}
	return x
}

// norm0 is norm without the And facts.
func (r *Run) norm0(b Bit) Bit {
	r.noAnd++
	x := r.norm(b)
	r.noAnd--
	return x
}

func (r *Run) nbv(x *BV) *BV {
	changed := false
	b := make([]Bit, len(x.b))
	for i, a := range x.b {
		b[i] = r.norm(a)
		if b[i] != a {
			changed = true
		}
	}
	if !changed {
		return x
	}
	return &BV{b}
}

// assume adds b == val; false means the path is infeasible.
func (r *Run) assume(b Bit, val bool) bool {
	if val {
		r.conds = append(r.conds, b)
	} else {
		r.conds = append(r.conds, r.p.not(b))
	}
	if !r.assume1(b, val) {
		return false
	}
	return r.propagate()
}
func (r *Run) assume1(b Bit, val bool) bool {
	b = r.norm(b)
	if v, ok := isConst(b); ok {
		return v == val
	}
	if b.neg {
		val = !val
	}
	n := b.n
	switch n.kind {
	case nkFn:
		d := r.dom(n.sym)
		if val {
			d = d.and(n.set)
		} else {
			d = d.minus(n.set)
		}
		if d.empty() {
			return false
		}
		r.domF[n.sym.id] = d
		return true
	case nkAnd:
		if val {
			for _, a := range n.args {
				if !r.assume1(a, true) {
					return false
				}
			}
			return true
		}
		r.falses = append(r.falses, Bit{n, false})
		return true
	case nkXor:
		if len(n.args) == 2 {
			x, y := n.args[0], n.args[1]
			if x.n.kind == nkFn && y.n.kind == nkFn && x.n.sym.bit && y.n.sym.bit {
				// x = y ^ val
				if x.n.sym.id < y.n.sym.id {
					x, y = y, x
				}
				v := y
				if val {
					v = r.p.not(y)
				}
				// x is the literal of its symbol, set {1} by canonical polarity
				if !x.n.set.has(1) != x.neg {
					v = r.p.not(v)
				}
				r.subst[x.n.sym.id] = v
				return true
			}
		}
		r.facts[n.id] = val
		return true
	case nkOpaque:
		r.facts[n.id] = val
		return true
	case nkLinLe:
		r.facts[n.id] = val
		l := n.lin
		if len(l.t) == 1 && !strings.HasPrefix(n.key, "f") {
			t := l.t[0]
			lo, hi := atomBounds(r, t.atom)
			// c + k*a <= 0 (val) or >= 1
			c := l.c
			if val {
				if t.k > 0 {
					hi = math.Min(hi, math.Floor(-c/t.k))
				} else {
					lo = math.Max(lo, math.Ceil(-c/t.k))
				}
			} else {
				if t.k > 0 {
					lo = math.Max(lo, math.Ceil((1-c)/t.k))
				} else {
					hi = math.Min(hi, math.Floor((1-c)/t.k))
				}
			}
			if lo > hi {
				return false
			}
			if _, isBV := t.atom.(*BV); !isBV {
				clamp := func(f float64) int64 {
					if f > 1e15 {
						return 1e15
					}
					if f < -1e15 {
						return -1e15
					}
					return int64(f)
				}
				r.lb[t.key] = [2]int64{clamp(lo), clamp(hi)}
			}
		}
		return true
	}
	return true
}
func (r *Run) propagate() bool {
	for again := true; again; {
		again = false
		fs := r.falses
		r.falses = nil
		var keep []Bit
		for i, f := range fs {
			x := r.norm0(f)
			if v, ok := isConst(x); ok {
				if v {
					return false
				}
				continue
			}
			if x.n.kind == nkAnd && !x.neg {
				keep = append(keep, x)
				continue
			}
			r.falses = nil
			if !r.assume1(x, false) {
				return false
			}
			again = true
			keep = append(keep, r.falses...)
			keep = append(keep, fs[i+1:]...)
			break
		}
		r.falses = keep
	}
	return true
}

// decide resolves a condition, forking when both values are possible.
func (r *Run) decide(b Bit, what string) bool {
	b = r.norm(b)
	if v, ok := isConst(b); ok {
		return v
	}
	k := r.choose(2, what)
	val := k == 0
	if !r.assume(b, val) {
		panic(stopT{kind: "infeasible"})
	}
	if len(r.log) < 200 {
		s := bstr(b)
		if len(s) > 160 {
			s = s[:160] + "..."
		}
		if !val {
			s = "not " + s
		}
		r.log = append(r.log, s+" @"+r.m.prog.posShort(r.cur))
	}
	return val
}

// known evaluates a condition without forking.
func (r *Run) known(b Bit) (val, ok bool) { return isConst(r.norm(b)) }

// ---- heap

func (r *Run) newObj(t types.Type, v any) *Obj {
	r.objN++
	return &Obj{id: r.objN, typ: t, v: v}
}

func cloneV(v any) any {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{make([]any, len(x.f))}
		for i, f := range x.f {
			n.f[i] = cloneV(f)
		}
		return n
	case *ArrV:
		n := &ArrV{make([]any, len(x.e))}
		for i, f := range x.e {
			n.e[i] = cloneV(f)
		}
		return n
	}
	return v
}

func (r *Run) slot(p Ptr) *any {
	if p.obj == nil {
		r.gopanic("nil pointer dereference")
	}
	s := &p.obj.v
	for i := 0; i+2 < len(p.path); i += 3 {
		k := int(p.path[i])<<16 | int(p.path[i+1])<<8 | int(p.path[i+2])
		switch x := (*s).(type) {
		case *StructV:
			s = &x.f[k]
		case *ArrV:
			if k >= len(x.e) {
				r.gopanic("index out of range [%d] with length %d", k, len(x.e))
			}
			s = &x.e[k]
		case *Opaque:
			hv := r.havocDeep(x.name, x.typ)
			if o, ok := hv.(*Opaque); ok {
				r.unsupported("field of opaque %s", o.name)
			}
			*s = hv
			i -= 3
		default:
			r.unsupported("address path through %T", *s)
		}
	}
	return s
}

func (r *Run) load(p Ptr) any {
	s := r.slot(p)
	if h := r.m.hooks.onAccess; h != nil {
		h(r, p, false, false, r.cur)
	}
	return cloneV(*s)
}
func (r *Run) store(p Ptr, v any) {
	s := r.slot(p)
	if h := r.m.hooks.onAccess; h != nil {
		h(r, p, true, false, r.cur)
	}
	r.setSlot(s, p.obj, v)
}
func (r *Run) setSlot(s *any, o *Obj, v any) {
	if r.spec != nil {
		r.spec.undo = append(r.spec.undo, undoE{s, *s, o})
	}
	if o != nil {
		r.noteWrite(o.id, o.label)
		if _, ok := r.mutated[o]; !ok && r.spec == nil {
			r.mutated[o] = r.cur
		}
	}
	*s = cloneV(v)
}

// zero value of a type.
func (r *Run) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return r.p.B0
		case i&types.IsString != 0:
			return lit("")
		case i&types.IsInteger != 0:
			return KI(0)
		case i&types.IsFloat != 0:
			return KF(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Struct:
		s := &StructV{make([]any, u.NumFields())}
		for i := range s.f {
			s.f[i] = r.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrV{make([]any, u.Len())}
		for i := range a.e {
			a.e[i] = r.zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = r.zero(u.At(i).Type())
		}
		return tp
	}
	r.unsupported("zero value of %v", t)
	return nil
}

// fresh returns a unique name within the path.
func (r *Run) fresh(name string) string {
	n := r.nameN[name]
	r.nameN[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// havoc is an unknown value of a type.
func (r *Run) havoc(name string, t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return r.p.opaque(name)
		case i&types.IsString != 0:
			return opqStr(name)
		case i&types.IsInteger != 0:
			return &Term{key: name, lo: -1e15, hi: 1e15, op: "var"}
		case i&types.IsFloat != 0:
			return &Term{key: name, lo: -1e15, hi: 1e15, op: "fvar"}
		}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = r.havoc(fmt.Sprintf("%s.%d", name, i), u.At(i).Type())
		}
		return tp
	}
	return &Opaque{name, t}
}

// havocDeep expands an opaque struct or array one level.
func (r *Run) havocDeep(name string, t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{make([]any, u.NumFields())}
		for i := range s.f {
			s.f[i] = r.havoc(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() <= 256 {
			a := &ArrV{make([]any, u.Len())}
			for i := range a.e {
				a.e[i] = r.havoc(fmt.Sprintf("%s[%d]", name, i), u.Elem())
			}
			return a
		}
	}
	return r.havoc(name, t)
}

// deref gives the object behind an opaque pointer.
func (r *Run) asPtr(v any) Ptr {
	switch x := v.(type) {
	case Ptr:
		return x
	case *Opaque:
		if o := r.opq[x.name]; o != nil {
			return Ptr{obj: o}
		}
		pt, ok := x.typ.Underlying().(*types.Pointer)
		if !ok {
			r.unsupported("dereference of opaque %s", x.name)
		}
		o := r.newObj(pt.Elem(), r.havocDeep("*"+x.name, pt.Elem()))
		o.label = "opaque:" + x.name
		r.opq[x.name] = o
		return Ptr{obj: o}
	case *Sym:
	}
	r.unsupported("pointer expected, got %T", v)
	return Ptr{}
}

func (r *Run) newSlice(elem types.Type, e []any) SliceV {
	o := r.newObj(types.NewArray(elem, int64(len(e))), &ArrV{e})
	return SliceV{obj: o, n: len(e), cp: len(e)}
}

// arr returns the element storage of a slice.
func (r *Run) arr(s SliceV) []any {
	if s.obj == nil {
		return nil
	}
	a, ok := (*r.slot(Ptr{s.obj, s.path})).(*ArrV)
	if !ok {
		r.unsupported("slice over %T", *r.slot(Ptr{s.obj, s.path}))
	}
	return a.e[s.off : s.off+s.n]
}
func (r *Run) elemsOf(v any) []any {
	switch x := v.(type) {
	case SliceV:
		e := r.arr(x)
		if h := r.m.hooks.onAccess; h != nil && x.obj != nil {
			for i := range e {
				h(r, Ptr{x.obj, addPath(x.path, x.off+i)}, false, false, r.cur)
			}
		}
		out := make([]any, len(e))
		for i := range e {
			out[i] = cloneV(e[i])
		}
		return out
	}
	r.unsupported("elements of %T", v)
	return nil
}

func (r *Run) mkBytes(e []any) SliceV { return r.newSlice(types.Typ[types.Uint8], e) }

// ---- maps

func (r *Run) newMap() *MapObj {
	r.objN++
	return &MapObj{id: r.objN}
}

// mapFind returns the index of a key, forking on symbolic equality.
func (r *Run) mapFind(m *MapObj, k any) int {
	if m == nil {
		return -1
	}
	for i, x := range m.keys {
		c := r.norm(r.eqVal(x, k))
		if v, ok := isConst(c); ok {
			if v {
				return i
			}
			continue
		}
	}
	for i, x := range m.keys {
		if r.decide(r.eqVal(x, k), "map key") {
			return i
		}
	}
	return -1
}
func (r *Run) mapTouch(m *MapObj, write bool) {
	if r.spec != nil && write {
		panic(specAbort{})
	}
	if write {
		r.noteWrite(m.id, m.label)
		if _, ok := r.maplog[m]; !ok {
			r.maplog[m] = r.cur
		}
	}
	if h := r.m.hooks.onMapAcc; h != nil {
		h(r, m, write, r.cur)
	}
}
func (r *Run) mapSet(m *MapObj, k, v any) {
	if m == nil {
		r.gopanic("assignment to entry in nil map")
	}
	r.mapTouch(m, true)
	i := r.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = cloneV(v)
		return
	}
	m.keys = append(append([]any{}, m.keys...), cloneV(k))
	m.vals = append(append([]any{}, m.vals...), cloneV(v))
}
func (r *Run) mapDel(m *MapObj, k any) {
	if m == nil {
		return
	}
	i := r.mapFind(m, k)
	r.mapTouch(m, true)
	if i < 0 {
		return
	}
	m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]any{}, m.vals[:i]...), m.vals[i+1:]...)
}

// ---- program

var fnInfoMu sync.Mutex
var fnInfos = map[*ssa.Function]*fnInfo{}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	merge map[*ssa.BasicBlock]*mergeInfo
}

func infoOf(fn *ssa.Function) *fnInfo {
	fnInfoMu.Lock()
	defer fnInfoMu.Unlock()
	fi := fnInfos[fn]
	if fi != nil {
		return fi
	}
	fi = &fnInfo{idx: map[ssa.Value]int{}, merge: map[*ssa.BasicBlock]*mergeInfo{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.merge = mergeRegions(fn)
	fnInfos[fn] = fi
	return fi
}

func pureArm(b *ssa.BasicBlock, ret bool) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.Store, *ssa.Jump, *ssa.If, *ssa.Phi, *ssa.TypeAssert, *ssa.DebugRef, *ssa.Alloc, *ssa.Slice, *ssa.MakeInterface, *ssa.Lookup, *ssa.Extract:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return false
			}
		case *ssa.Return:
			if !ret {
				return false
			}
		case *ssa.Call:
			if c := x.Common().StaticCallee(); c != nil && len(c.Blocks) > 0 && len(c.Blocks) <= 24 && len(c.FreeVars) == 0 {
				continue
			}
			if c := x.Common().StaticCallee(); c != nil && pureName(c.String()) {
				continue
			}
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if b, ok := x.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					continue
				}
				return false
			}
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "min" || bi.Name() == "max") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

var pureCalls = map[string]bool{"math.Pow": true, "math.Floor": true, "math.Abs": true, "strings.Repeat": true, "math.IsNaN": true,
	"(*strings.Builder).WriteByte": true, "(*strings.Builder).WriteRune": true, "(*strings.Builder).WriteString": true,
	"(*bytes.Buffer).WriteByte": true, "(*bytes.Buffer).WriteRune": true, "(*bytes.Buffer).WriteString": true}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, "github.com/iomz/gosstrak/", "")
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
