package main

// Functions of few symbols, by their value table.

const smallLimit = 1 << 12

// support collects the symbols a bit depends on.
func support(b Bit, seen map[int]bool, syms map[*Sym]bool) bool {
	n := b.n
	if seen[n.id] {
		return true
	}
	seen[n.id] = true
	switch n.kind {
	case nkConst:
		return true
	case nkFn:
		syms[n.sym] = true
		return len(syms) <= 12
	case nkAnd, nkXor:
		for _, a := range n.args {
			if !support(a, seen, syms) {
				return false
			}
		}
		return true
	}
	return false
}

// multi reports the symbols x depends on, in order, when their combined
// domain is small.
func (r *Run) multi(x *BV) ([]*Sym, []Set, bool) {
	seen, m := map[int]bool{}, map[*Sym]bool{}
	for _, b := range x.b {
		if !support(b, seen, m) {
			return nil, nil, false
		}
	}
	var l []*Sym
	for s := range m {
		l = append(l, s)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].id < l[j-1].id; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	n := 1
	doms := make([]Set, len(l))
	for i, s := range l {
		doms[i] = r.dom(s)
		if n *= doms[i].size(); n > smallLimit || n == 0 {
			return nil, nil, false
		}
	}
	return l, doms, true
}

// evalAt is the value of a bit under an assignment.
func evalAt(b Bit, at map[*Sym]byte, memo map[int]bool) bool {
	n := b.n
	v, ok := memo[n.id]
	if !ok {
		switch n.kind {
		case nkConst:
			v = true
		case nkFn:
			v = n.set.has(at[n.sym])
		case nkAnd:
			v = true
			for _, a := range n.args {
				if !evalAt(a, at, memo) {
					v = false
					break
				}
			}
		case nkXor:
			for _, a := range n.args {
				v = v != evalAt(a, at, memo)
			}
		}
		memo[n.id] = v
	}
	return v != b.neg
}

// smallFn is f(x) in w bits, tabulated over the few symbols x depends on.
func (r *Run) smallFn(x *BV, w int, f func(v uint64) uint64) (*BV, bool) {
	syms, doms, ok := r.multi(x)
	if !ok {
		return nil, false
	}
	at := map[*Sym]byte{}
	var rec func(i int) []Bit
	rec = func(i int) []Bit {
		out := make([]Bit, w)
		if i == len(syms) {
			memo := map[int]bool{}
			var u uint64
			for k, b := range x.b {
				if k < 64 && evalAt(b, at, memo) {
					u |= 1 << uint(k)
				}
			}
			v := f(u)
			for k := range out {
				out[k] = r.p.konst(v>>uint(k)&1 == 1)
			}
			return out
		}
		type grp struct {
			b   Bit
			set Set
		}
		gs := make([][]grp, w)
		doms[i].each(func(v byte) {
			at[syms[i]] = v
			sub := rec(i + 1)
			for k := range sub {
				hit := false
				for j := range gs[k] {
					if gs[k][j].b == sub[k] {
						gs[k][j].set.add(v)
						hit = true
						break
					}
				}
				if !hit {
					var s Set
					s.add(v)
					gs[k] = append(gs[k], grp{sub[k], s})
				}
			}
		})
		for k := range out {
			if len(gs[k]) == 1 {
				out[k] = gs[k][0].b
				continue
			}
			if len(gs[k]) == 2 {
				a, b := gs[k][0], gs[k][1]
				// the two halves are opposite: an exclusive or
				if a.b == r.p.not(b.b) {
					if _, c := isConst(a.b); !c {
						out[k] = r.p.xor(a.b, r.p.fnBit(syms[i], b.set))
						continue
					}
				}
			}
			var l []Bit
			for _, g := range gs[k] {
				l = append(l, r.p.and(r.p.fnBit(syms[i], g.set), g.b))
			}
			out[k] = r.p.or(l...)
		}
		return out
	}
	return &BV{rec(0)}, true
}
