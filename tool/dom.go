package main

// Abstract domain: finite symbols, boolean functions over them (hash-consed),
// fixed width integers as vectors of such functions, linear forms and
// uninterpreted terms, and byte strings as element lists.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Set is a set of byte values.
type Set [4]uint64

func (s Set) has(v byte) bool { return s[v>>6]>>(v&63)&1 == 1 }
func (s *Set) add(v byte)     { s[v>>6] |= 1 << (v & 63) }
func (s Set) and(t Set) Set   { return Set{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]} }
func (s Set) or(t Set) Set    { return Set{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s Set) xor(t Set) Set   { return Set{s[0] ^ t[0], s[1] ^ t[1], s[2] ^ t[2], s[3] ^ t[3]} }
func (s Set) minus(t Set) Set { return Set{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]} }
func (s Set) empty() bool     { return s == Set{} }
func (s Set) size() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) each(f func(v byte)) {
	for w := 0; w < 4; w++ {
		x := s[w]
		for x != 0 {
			i := bits.TrailingZeros64(x)
			x &= x - 1
			f(byte(w*64 + i))
		}
	}
}
func (s Set) first() byte {
	for w := 0; w < 4; w++ {
		if s[w] != 0 {
			return byte(w*64 + bits.TrailingZeros64(s[w]))
		}
	}
	return 0
}
func setOf(s string) (r Set) {
	for i := 0; i < len(s); i++ {
		r.add(s[i])
	}
	return
}

// Sym is a symbol with a finite domain of byte values; a bit has domain {0,1}.
type Sym struct {
	id   int
	name string
	dom  Set
	bit  bool
}

const (
	nkConst = iota
	nkFn
	nkAnd
	nkXor
	nkOpaque
	nkLinLe
)

// BNode is a hash-consed boolean function.
type BNode struct {
	id   int
	kind uint8
	sym  *Sym
	set  Set
	args []Bit
	key  string
	lin  *Lin
	deep int // gates on the longest way to a leaf
}

// Bit is a possibly negated node.
type Bit struct {
	n   *BNode
	neg bool
}

// Pool interns symbols and nodes; one pool per context.
type Pool struct {
	syms   map[string]*Sym
	symsL  []*Sym
	fn     map[fnKey]*BNode
	gate   map[string]*BNode
	nextID int
	tru    *BNode
	B0, B1 Bit
	byteB  [256]*BV
}
type fnKey struct {
	s   *Sym
	set Set
}

// constNode is the true function, shared by all pools.
var constNode = &BNode{id: 0, kind: nkConst}

func newPool() *Pool {
	p := &Pool{syms: map[string]*Sym{}, fn: map[fnKey]*BNode{}, gate: map[string]*BNode{}}
	p.tru = constNode
	p.nextID = 1
	p.B1 = Bit{p.tru, false}
	p.B0 = Bit{p.tru, true}
	return p
}

func (p *Pool) sym(name string, dom Set) *Sym {
	if s := p.syms[name]; s != nil {
		if s.dom != dom {
			panic("symbol redeclared with another domain: " + name)
		}
		return s
	}
	s := &Sym{id: len(p.symsL), name: name, dom: dom, bit: dom == Set{3}}
	p.symsL = append(p.symsL, s)
	p.syms[name] = s
	return s
}
func (p *Pool) bitSym(name string) Bit { return p.fnBit(p.sym(name, Set{3}), Set{2}) }

func (p *Pool) konst(v bool) Bit {
	if v {
		return p.B1
	}
	return p.B0
}

// fnBit is the boolean "sym in set".
func (p *Pool) fnBit(s *Sym, set Set) Bit {
	set = set.and(s.dom)
	if set.empty() {
		return p.B0
	}
	if set == s.dom {
		return p.B1
	}
	k := fnKey{s, set}
	n := p.fn[k]
	if n == nil {
		n = &BNode{id: p.nextID, kind: nkFn, sym: s, set: set}
		p.nextID++
		p.fn[k] = n
	}
	return Bit{n, false}
}
func (p *Pool) gateNode(kind uint8, key string, mk func() *BNode) *BNode {
	key = string('0'+rune(kind)) + key
	n := p.gate[key]
	if n == nil {
		n = mk()
		n.kind = kind
		n.id = p.nextID
		for _, a := range n.args {
			n.deep = max(n.deep, a.n.deep+1)
		}
		p.nextID++
		p.gate[key] = n
	}
	return n
}
func (p *Pool) opaque(key string) Bit {
	return Bit{p.gateNode(nkOpaque, key, func() *BNode { return &BNode{key: key} }), false}
}

func (p *Pool) not(b Bit) Bit {
	if b.n.kind == nkFn {
		if b.neg {
			return Bit{b.n, false}
		}
		return p.fnBit(b.n.sym, b.n.sym.dom.minus(b.n.set))
	}
	return Bit{b.n, !b.neg}
}
func isConst(b Bit) (bool, bool) {
	if b.n.kind == nkConst {
		return !b.neg, true
	}
	return false, false
}

func (p *Pool) and(args ...Bit) Bit {
	var lits []Bit
	var add func(b Bit) bool
	add = func(b Bit) bool {
		if v, ok := isConst(b); ok {
			return v
		}
		if b.n.kind == nkAnd && !b.neg {
			for _, a := range b.n.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if b.n.kind == nkFn {
			for i, l := range lits {
				if l.n.kind == nkFn && l.n.sym == b.n.sym {
					m := p.fnBit(b.n.sym, l.n.set.and(b.n.set))
					if v, ok := isConst(m); ok {
						return v
					}
					lits[i] = m
					return true
				}
			}
			lits = append(lits, b)
			return true
		}
		for _, l := range lits {
			if l.n == b.n {
				return l.neg == b.neg
			}
		}
		lits = append(lits, b)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return p.B0
		}
	}
	if len(lits) == 0 {
		return p.B1
	}
	if len(lits) == 1 {
		return lits[0]
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].n.id < lits[j].n.id })
	// absorption: And(a, Or(a, ...)) where Or = !And(!a, ...)
	if len(lits) <= 8 {
		for i := 0; i < len(lits); i++ {
			l := lits[i]
			if l.n.kind != nkAnd || !l.neg {
				continue
			}
			// l = Or of negated args
			var rest []Bit
			drop, changed := false, false
			for _, a := range l.n.args {
				na := p.not(a)
				subsumed, contra := false, false
				for j, o := range lits {
					if j == i {
						continue
					}
					if o == na {
						subsumed = true
					}
					if o == a {
						contra = true
					}
					if o.n.kind == nkFn && na.n.kind == nkFn && o.n.sym == na.n.sym {
						if o.n.set.minus(na.n.set).empty() {
							subsumed = true
						} else if o.n.set.and(na.n.set).empty() {
							contra = true
						}
					}
				}
				if subsumed {
					drop = true
					break
				}
				if contra {
					changed = true
					continue
				}
				rest = append(rest, a)
			}
			if drop {
				nl := append(append([]Bit{}, lits[:i]...), lits[i+1:]...)
				return p.and(nl...)
			}
			if changed {
				nl := append(append([]Bit{}, lits[:i]...), lits[i+1:]...)
				nl = append(nl, p.not(p.and(rest...)))
				return p.and(nl...)
			}
		}
	}
	var sb strings.Builder
	for _, l := range lits {
		if l.neg {
			sb.WriteByte('-')
		}
		sb.WriteString(strconv.Itoa(l.n.id))
		sb.WriteByte(',')
	}
	return Bit{p.gateNode(nkAnd, sb.String(), func() *BNode { return &BNode{args: lits} }), false}
}
func (p *Pool) or(args ...Bit) Bit {
	n := make([]Bit, len(args))
	for i, a := range args {
		n[i] = p.not(a)
	}
	return p.not(p.and(n...))
}
func (p *Pool) xor(a, b Bit) Bit {
	if v, ok := isConst(a); ok {
		if v {
			return p.not(b)
		}
		return b
	}
	if v, ok := isConst(b); ok {
		if v {
			return p.not(a)
		}
		return a
	}
	if a.n.kind == nkFn && b.n.kind == nkFn && a.n.sym == b.n.sym {
		return p.fnBit(a.n.sym, a.n.set.xor(b.n.set))
	}
	return p.xorAll([]Bit{a, b})
}

// xorAll is the exclusive or of a list.
func (p *Pool) xorAll(l []Bit) Bit {
	neg := false
	cn := func(x Bit) Bit {
		if x.neg {
			neg = !neg
			x.neg = false
		}
		if x.n.kind == nkFn {
			// canonical polarity: the set containing the first domain value is negated
			if x.n.set.has(x.n.sym.dom.first()) {
				neg = !neg
				x = p.not(x)
			}
		}
		return x
	}
	// flatten nested xors so that the operands cancel; at finds the operand of a
	// symbol or gate, dead operands are nil
	var ops []Bit
	var at map[any]int
	key := func(x Bit) any {
		if x.n.kind == nkFn {
			return x.n.sym
		}
		return x.n
	}
	find := func(k any) int {
		if at == nil {
			for i, o := range ops {
				if o.n != nil && key(o) == k {
					return i
				}
			}
			if len(ops) > 24 {
				at = map[any]int{}
				for i, o := range ops {
					if o.n != nil {
						at[key(o)] = i
					}
				}
			}
			return -1
		}
		if i, ok := at[k]; ok {
			return i
		}
		return -1
	}
	var fl func(x Bit)
	fl = func(x Bit) {
		if v, ok := isConst(x); ok {
			neg = neg != v
			return
		}
		if x.neg {
			neg = !neg
			x.neg = false
		}
		if x.n.kind == nkXor {
			for _, y := range x.n.args {
				fl(y)
			}
			return
		}
		x = cn(x)
		k := key(x)
		i := find(k)
		if i < 0 {
			if at != nil {
				at[k] = len(ops)
			}
			ops = append(ops, x)
			return
		}
		if x.n.kind == nkFn && ops[i] != x {
			m := p.fnBit(x.n.sym, ops[i].n.set.xor(x.n.set))
			if v, ok := isConst(m); !ok {
				ops[i] = cn(m)
				return
			} else if v {
				neg = !neg
			}
		}
		ops[i] = Bit{}
		if at != nil {
			delete(at, k)
		}
	}
	for _, x := range l {
		fl(x)
	}
	live := ops[:0]
	for _, o := range ops {
		if o.n != nil {
			live = append(live, o)
		}
	}
	ops = live
	if len(ops) == 0 {
		return p.konst(neg)
	}
	if len(ops) == 1 {
		if neg {
			return p.not(ops[0])
		}
		return ops[0]
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].n.id < ops[j].n.id })
	var sb strings.Builder
	for _, l := range ops {
		sb.WriteString(strconv.Itoa(l.n.id))
		sb.WriteByte(',')
	}
	return Bit{p.gateNode(nkXor, sb.String(), func() *BNode { return &BNode{args: ops} }), neg}
}
func (p *Pool) eq(a, b Bit) Bit { return p.not(p.xor(a, b)) }
func (p *Pool) ite(c, a, b Bit) Bit {
	if v, ok := isConst(c); ok {
		if v {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return p.or(p.and(c, a), p.and(p.not(c), b))
}

// ---- integers

// KI is a constant integer.
type KI int64

// KF is a constant float.
type KF float64

// BV is an integer given bit by bit, least significant first.
type BV struct{ b []Bit }

// Lin is c + sum k_i*a_i over atoms; float lins are used for float64 values.
type Lin struct {
	c float64
	t []LinTerm
}

// LinTerm is one summand.
type LinTerm struct {
	key  string
	atom any // *LSym, *Term or *BV
	k    float64
}

// LSym is an integer symbol with bounds (a length).
type LSym struct {
	name   string
	lo, hi int64
}

// Term is an uninterpreted application.
type Term struct {
	key    string
	lo, hi int64
	op     string
	args   []any
}

const maxI = int64(math.MaxInt32)

func mkTerm(op string, lo, hi int64, args ...any) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(vkey(a))
	}
	sb.WriteByte(')')
	return &Term{key: sb.String(), lo: lo, hi: hi, op: op, args: args}
}

// vkey is a structural key of a value.
func vkey(v any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case KI:
		return strconv.FormatInt(int64(x), 10)
	case KF:
		return strconv.FormatFloat(float64(x), 'g', -1, 64) + "f"
	case Bit:
		return bkey(x)
	case *BV:
		var sb strings.Builder
		n := len(x.b)
		for n > 0 {
			if c, ok := isConst(x.b[n-1]); !ok || c {
				break
			}
			n--
		}
		sb.WriteString("[")
		for i := n - 1; i >= 0; i-- {
			sb.WriteString(bkey(x.b[i]))
			sb.WriteByte(' ')
		}
		sb.WriteString("]")
		return sb.String()
	case *Lin:
		s := strconv.FormatFloat(x.c, 'g', -1, 64)
		for _, t := range x.t {
			s += "+" + strconv.FormatFloat(t.k, 'g', -1, 64) + "*" + t.key
		}
		return "(" + s + ")"
	case *LSym:
		return x.name
	case *Term:
		return x.key
	case *Str:
		return x.key()
	case string:
		return strconv.Quote(x)
	case *Opaque:
		return "?" + x.name
	case Ptr:
		if x.obj == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%d%v", x.obj.id, x.path)
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += vkey(f) + ";"
		}
		return s + "}"
	case *ArrV:
		s := "["
		for _, f := range x.e {
			s += vkey(f) + ";"
		}
		return s + "]"
	case Iface:
		if x.t == nil {
			return "niliface"
		}
		return "i:" + x.t.String() + ":" + vkey(x.v)
	case MapV:
		if x.m == nil {
			return "nilmap"
		}
		return fmt.Sprintf("map%d", x.m.id)
	case SliceV:
		if x.obj == nil {
			return "nilslice"
		}
		return fmt.Sprintf("sl%d:%d:%d", x.obj.id, x.off, x.n)
	case *ChanV:
		return "chan:" + x.name
	case *FuncV:
		if x == nil {
			return "nilfunc"
		}
		return "func"
	}
	return fmt.Sprintf("%T", v)
}

func bkey(b Bit) string {
	if v, ok := isConst(b); ok {
		if v {
			return "1"
		}
		return "0"
	}
	s := ""
	if b.neg {
		s = "!"
	}
	n := b.n
	switch n.kind {
	case nkFn:
		if n.sym.bit {
			if n.set.has(1) {
				return s + n.sym.name
			}
			return s + "~" + n.sym.name
		}
		return s + n.sym.name + "in" + fmt.Sprintf("%x", n.set)
	case nkOpaque:
		return s + n.key
	}
	return s + "g" + strconv.Itoa(n.id)
}

// bstr renders a boolean for reports.
func bstr(b Bit) string {
	if v, ok := isConst(b); ok {
		if v {
			return "1"
		}
		return "0"
	}
	s := ""
	if b.neg {
		s = "!"
	}
	n := b.n
	switch n.kind {
	case nkFn:
		if n.sym.bit {
			if n.set.has(1) {
				return s + n.sym.name
			}
			return s + "!" + n.sym.name
		}
		var l []byte
		n.set.each(func(v byte) { l = append(l, v) })
		if len(l) > 12 {
			return s + fmt.Sprintf("%s in %d-set(%q..)", n.sym.name, len(l), string(l[:8]))
		}
		return s + fmt.Sprintf("%s in %q", n.sym.name, string(l))
	case nkOpaque:
		return s + n.key
	case nkLinLe:
		return s + "(" + vkey(n.lin) + " <= 0)"
	case nkAnd, nkXor:
		op := " & "
		if n.kind == nkXor {
			op = " ^ "
		}
		var l []string
		for i, a := range n.args {
			if i == 6 {
				l = append(l, "...")
				break
			}
			l = append(l, bstr(a))
		}
		return s + "(" + strings.Join(l, op) + ")"
	}
	return s + "?"
}

func (p *Pool) bvConst(v int64, w int) *BV {
	b := make([]Bit, w)
	for i := range b {
		if i < 64 {
			b[i] = p.konst(uint64(v)>>uint(i)&1 == 1)
		} else {
			b[i] = p.konst(v < 0)
		}
	}
	return &BV{b}
}
func (p *Pool) simp(x *BV, w int, signed bool) any {
	if len(x.b) > w {
		x = &BV{x.b[:w]}
	}
	var v uint64
	for i, b := range x.b {
		c, ok := isConst(b)
		if !ok {
			return x
		}
		if c {
			v |= 1 << uint(i)
		}
	}
	return KI(wrapInt(int64(v), w, signed))
}

func wrapInt(v int64, w int, signed bool) int64 {
	if w >= 64 {
		return v
	}
	m := uint64(1)<<uint(w) - 1
	u := uint64(v) & m
	if signed && u>>(uint(w)-1)&1 == 1 {
		return int64(u | ^m)
	}
	return int64(u)
}

// charBV is the 8-bit vector of a byte symbol.
func (p *Pool) charBV(s *Sym) *BV {
	b := make([]Bit, 8)
	for i := range b {
		var set Set
		s.dom.each(func(v byte) {
			if v>>uint(i)&1 == 1 {
				set.add(v)
			}
		})
		b[i] = p.fnBit(s, set)
	}
	return &BV{b}
}

// tabulate builds the w-bit vector of f(sym).
func (p *Pool) tabulate(s *Sym, dom Set, w int, f func(v byte) int64) *BV {
	sets := make([]Set, w)
	dom.each(func(v byte) {
		r := uint64(f(v))
		for i := 0; i < w; i++ {
			if r>>uint(i)&1 == 1 {
				sets[i].add(v)
			}
		}
	})
	b := make([]Bit, w)
	for i := range b {
		b[i] = p.fnBit(s, sets[i])
	}
	return &BV{b}
}

// single reports the only symbol x depends on.
func (x *BV) single() *Sym {
	var s *Sym
	for _, b := range x.b {
		switch b.n.kind {
		case nkConst:
		case nkFn:
			if s == nil {
				s = b.n.sym
			} else if s != b.n.sym {
				return nil
			}
		default:
			return nil
		}
	}
	return s
}
func evalBit(b Bit, v byte) bool {
	if c, ok := isConst(b); ok {
		return c
	}
	return b.n.set.has(v) != b.neg
}
func (x *BV) at(v byte) uint64 {
	var r uint64
	for i, b := range x.b {
		if i < 64 && evalBit(b, v) {
			r |= 1 << uint(i)
		}
	}
	return r
}

// bounds of an unsigned reading.
func (x *BV) ubounds() (lo, hi uint64) {
	for i, b := range x.b {
		if c, ok := isConst(b); ok {
			if c {
				lo |= 1 << uint(i)
				hi |= 1 << uint(i)
			}
		} else {
			hi |= 1 << uint(i)
		}
	}
	return
}

// ---- linear forms

func linOf(v any) *Lin {
	switch x := v.(type) {
	case KI:
		return &Lin{c: float64(x)}
	case KF:
		return &Lin{c: float64(x)}
	case *Lin:
		return x
	case *LSym:
		return &Lin{t: []LinTerm{{x.name, x, 1}}}
	case *Term:
		return &Lin{t: []LinTerm{{x.key, x, 1}}}
	case *BV:
		// factor out the low zero bits so that shifts and products agree
		z, n := 0, len(x.b)
		for n > 0 {
			if c, ok := isConst(x.b[n-1]); !ok || c {
				break
			}
			n--
		}
		for z < n {
			if c, ok := isConst(x.b[z]); !ok || c {
				break
			}
			z++
		}
		if n == 0 {
			return &Lin{}
		}
		t := &BV{x.b[z:n]}
		return &Lin{t: []LinTerm{{vkey(t), t, math.Pow(2, float64(z))}}}
	}
	return nil
}
func linAdd(a, b *Lin, kb float64) *Lin {
	r := &Lin{c: a.c + kb*b.c}
	m := map[string]LinTerm{}
	for _, t := range a.t {
		m[t.key] = t
	}
	for _, t := range b.t {
		u := m[t.key]
		u.key, u.atom = t.key, t.atom
		u.k += kb * t.k
		m[t.key] = u
	}
	for _, t := range m {
		if t.k != 0 {
			r.t = append(r.t, t)
		}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].key < r.t[j].key })
	return linMod(r)
}
func linScale(a *Lin, k float64) *Lin {
	r := &Lin{c: a.c * k}
	for _, t := range a.t {
		t.k *= k
		if t.k != 0 {
			r.t = append(r.t, t)
		}
	}
	return r
}

// linMod rewrites X - k*(X div k) to X mod k.
func linMod(l *Lin) *Lin {
	for i, t := range l.t {
		if d, ok := t.atom.(*Term); ok && d.op == "idiv" {
			k := float64(d.args[1].(KI))
			if t.k == -k {
				rest := &Lin{c: l.c, t: append(append([]LinTerm{}, l.t[:i]...), l.t[i+1:]...)}
				x := linOf(d.args[0])
				if x != nil && vkey(rest) == vkey(x) {
					return linOf(mkTerm("imod", 0, int64(k)-1, linVal(x), KI(int64(k))))
				}
			}
		}
	}
	return l
}

// linVal simplifies a linear form to a constant or atom when it is one.
func linVal(l *Lin) any {
	if len(l.t) == 0 {
		return KI(int64(l.c))
	}
	if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
		if _, ok := l.t[0].atom.(*LSym); !ok {
			return l.t[0].atom
		}
	}
	if len(l.t) == 1 && l.c == 0 && l.t[0].k > 1 && l.t[0].k < 1<<50 {
		if bv, ok := l.t[0].atom.(*BV); ok {
			if z := math.Log2(l.t[0].k); z == math.Trunc(z) && len(bv.b)+int(z) < 63 {
				b := make([]Bit, int(z), int(z)+len(bv.b))
				for i := range b {
					b[i] = Bit{constNode, true}
				}
				return &BV{append(b, bv.b...)}
			}
		}
	}
	return l
}
func atomBounds(r *Run, a any) (float64, float64) {
	switch x := a.(type) {
	case *LSym:
		if r != nil {
			if b, ok := r.lb[x.name]; ok {
				return float64(b[0]), float64(b[1])
			}
		}
		return float64(x.lo), float64(x.hi)
	case *Term:
		if r != nil {
			if b, ok := r.lb[x.key]; ok {
				return float64(b[0]), float64(b[1])
			}
		}
		return float64(x.lo), float64(x.hi)
	case *BV:
		lo, hi := x.ubounds()
		return float64(lo), float64(hi)
	}
	return math.Inf(-1), math.Inf(1)
}
func (l *Lin) bounds(r *Run) (lo, hi float64) {
	lo, hi = l.c, l.c
	for _, t := range l.t {
		a, b := atomBounds(r, t.atom)
		if t.k >= 0 {
			lo += t.k * a
			hi += t.k * b
		} else {
			lo += t.k * b
			hi += t.k * a
		}
	}
	return
}
