package main

import (
	"strconv"
	"strings"
)

// A decision diagram over the finite symbols gives boolean functions a
// canonical form, so that equality of two of them under the facts of a path
// is decided exactly.

type mdNode struct {
	id    int
	v     int // variable, terminals: big
	edges []mdEdge
}
type mdEdge struct {
	set Set
	to  *mdNode
}

const mdTerm = 1 << 30

type mdd struct {
	uniq   map[string]*mdNode
	t, f   *mdNode
	cache  map[[2]int]*mdNode
	neg    map[int]*mdNode
	bits   map[int]*mdNode
	dom    map[int]Set
	limit  int
	next   int
	freeID map[int]int
}
type mddFull struct{}

func newMDD() *mdd {
	d := &mdd{uniq: map[string]*mdNode{}, cache: map[[2]int]*mdNode{}, neg: map[int]*mdNode{}, bits: map[int]*mdNode{}, dom: map[int]Set{}, limit: 2000000, freeID: map[int]int{}}
	d.f = &mdNode{id: 0, v: mdTerm}
	d.t = &mdNode{id: 1, v: mdTerm}
	d.next = 2
	return d
}

func (d *mdd) mk(v int, edges []mdEdge) *mdNode {
	// merge edges with the same target
	var m []mdEdge
	for _, e := range edges {
		if e.set.empty() {
			continue
		}
		hit := false
		for i := range m {
			if m[i].to == e.to {
				m[i].set = m[i].set.or(e.set)
				hit = true
				break
			}
		}
		if !hit {
			m = append(m, e)
		}
	}
	if len(m) == 1 {
		return m[0].to
	}
	// order by least element
	for i := 1; i < len(m); i++ {
		for j := i; j > 0 && m[j].set.first() < m[j-1].set.first(); j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(v))
	for _, e := range m {
		sb.WriteByte('|')
		for _, w := range e.set {
			sb.WriteString(strconv.FormatUint(w, 36))
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.Itoa(e.to.id))
	}
	k := sb.String()
	if n := d.uniq[k]; n != nil {
		return n
	}
	if d.next > d.limit {
		panic(mddFull{})
	}
	n := &mdNode{id: d.next, v: v, edges: m}
	d.next++
	d.uniq[k] = n
	return n
}

func (d *mdd) not(a *mdNode) *mdNode {
	if a == d.t {
		return d.f
	}
	if a == d.f {
		return d.t
	}
	if n := d.neg[a.id]; n != nil {
		return n
	}
	es := make([]mdEdge, len(a.edges))
	for i, e := range a.edges {
		es[i] = mdEdge{e.set, d.not(e.to)}
	}
	n := d.mk(a.v, es)
	d.neg[a.id] = n
	return n
}

func (d *mdd) and(a, b *mdNode) *mdNode {
	if a == d.f || b == d.f {
		return d.f
	}
	if a == d.t || a == b {
		return b
	}
	if b == d.t {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := [2]int{a.id, b.id}
	if n := d.cache[k]; n != nil {
		return n
	}
	var n *mdNode
	switch {
	case a.v < b.v:
		es := make([]mdEdge, len(a.edges))
		for i, e := range a.edges {
			es[i] = mdEdge{e.set, d.and(e.to, b)}
		}
		n = d.mk(a.v, es)
	case a.v > b.v:
		es := make([]mdEdge, len(b.edges))
		for i, e := range b.edges {
			es[i] = mdEdge{e.set, d.and(a, e.to)}
		}
		n = d.mk(b.v, es)
	default:
		var es []mdEdge
		for _, x := range a.edges {
			for _, y := range b.edges {
				if s := x.set.and(y.set); !s.empty() {
					es = append(es, mdEdge{s, d.and(x.to, y.to)})
				}
			}
		}
		n = d.mk(a.v, es)
	}
	d.cache[k] = n
	return n
}
func (d *mdd) xor(a, b *mdNode) *mdNode {
	return d.not(d.and(d.not(d.and(a, d.not(b))), d.not(d.and(b, d.not(a)))))
}

// of builds the diagram of a bit.
func (d *mdd) of(b Bit) *mdNode {
	n := b.n
	x := d.bits[n.id]
	if x == nil {
		switch n.kind {
		case nkConst:
			x = d.t
		case nkFn:
			x = d.mk(1<<27-n.sym.id, []mdEdge{{n.set, d.t}, {n.sym.dom.minus(n.set), d.f}})
		case nkAnd:
			x = d.t
			for i := len(n.args) - 1; i >= 0; i-- {
				x = d.and(x, d.of(n.args[i]))
			}
		case nkXor:
			x = d.f
			for _, a := range n.args {
				x = d.xor(x, d.of(a))
			}
		default:
			// an uninterpreted condition is a free boolean
			x = d.mk(1<<28+n.id, []mdEdge{{Set{2}, d.t}, {Set{1}, d.f}})
		}
		d.bits[n.id] = x
	}
	if b.neg {
		return d.not(x)
	}
	return x
}

// pathMDD is the condition of the path.
func (r *Run) pathMDD() *mdNode {
	d := r.m.diagram()
	for ; r.pcN < len(r.conds); r.pcN++ {
		if r.pc == nil {
			r.pc = d.t
		}
		r.pc = d.and(r.pc, d.of(r.conds[r.pcN]))
	}
	if r.pc == nil {
		r.pc = d.t
	}
	return r.pc
}

func (m *Machine) diagram() *mdd {
	if m.dd == nil || m.dd.next > m.dd.limit/2 {
		m.dd = newMDD()
		m.ddGen++
	}
	return m.dd
}

// implied decides exactly whether the facts of the path determine b.
func (r *Run) implied(b Bit) (val, ok bool) {
	if v, ok := r.known(b); ok {
		return v, true
	}
	defer func() {
		if e := recover(); e != nil {
			if _, full := e.(mddFull); full {
				r.m.dd, r.pc, r.pcN = nil, nil, 0
				val, ok = false, false
				return
			}
			panic(e)
		}
	}()
	d := r.m.diagram()
	if r.pcGen != r.m.ddGen {
		r.pc, r.pcN, r.pcGen = nil, 0, r.m.ddGen
	}
	pc := r.pathMDD()
	x := d.of(b)
	if d.and(pc, x) == d.f {
		return false, true
	}
	if d.and(pc, d.not(x)) == d.f {
		return true, true
	}
	return false, false
}

// feasible is false when the facts of the path contradict each other.
func (r *Run) feasible() (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, full := e.(mddFull); full {
				r.m.dd, r.pc, r.pcN = nil, nil, 0
				ok = true
				return
			}
			panic(e)
		}
	}()
	d := r.m.diagram()
	if r.pcGen != r.m.ddGen {
		r.pc, r.pcN, r.pcGen = nil, 0, r.m.ddGen
	}
	return r.pathMDD() != d.f
}
