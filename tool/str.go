package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Str is a byte string: a literal, or a list of elements.
type Str struct {
	lit string
	e   []SE // non-nil when not a literal
}

// SE is one element: a byte (c: KI or *BV) or a segment.
type SE struct {
	c   any
	seg *Seg
}

// Seg is a piece of a string of unknown content and maybe unknown length.
type Seg struct {
	kind string // dec, rep, atom, opq, paddec
	name string // atom, opq
	idx  int    // order of atoms
	bv   any    // dec: the number
	ch   any    // rep
	n    any    // rep: count; paddec: width
	g    Bit    // opt: the character ch is present when g holds
}

func lit(s string) *Str { return &Str{lit: s} }

func (s *Seg) key() string {
	switch s.kind {
	case "dec":
		return "dec" + vkey(s.bv)
	case "rep":
		return "rep(" + vkey(s.ch) + "," + vkey(s.n) + ")"
	case "paddec":
		return "paddec(" + vkey(s.bv) + "," + vkey(s.n) + ")"
	case "opt":
		return "opt(" + vkey(s.ch) + "," + bkey(s.g) + ")"
	}
	return s.kind + ":" + s.name
}
func (s *Str) key() string {
	if s.e == nil {
		return strconv.Quote(s.lit)
	}
	var sb strings.Builder
	var run []byte
	fl := func() {
		if len(run) > 0 {
			sb.WriteString(strconv.Quote(string(run)))
			run = nil
		}
	}
	for _, e := range s.e {
		if k, ok := e.c.(KI); ok && e.seg == nil {
			run = append(run, byte(k))
			continue
		}
		fl()
		if e.seg != nil {
			sb.WriteString("<" + e.seg.key() + ">")
		} else {
			sb.WriteString("<" + vkey(e.c) + ">")
		}
	}
	fl()
	if sb.Len() == 0 {
		return `""`
	}
	return sb.String()
}

func showStr(s *Str) string {
	if s.e == nil {
		return strconv.Quote(s.lit)
	}
	var sb strings.Builder
	for _, e := range s.e {
		if e.seg != nil {
			switch e.seg.kind {
			case "dec":
				sb.WriteString("<decimal of " + showVal(e.seg.bv) + ">")
			case "rep":
				sb.WriteString("<" + showVal(e.seg.ch) + " x " + showVal(e.seg.n) + ">")
			case "opt":
				sb.WriteString("<" + showVal(e.seg.ch) + " if " + bstr(e.seg.g) + ">")
			case "paddec":
				sb.WriteString("<decimal of " + showVal(e.seg.bv) + " padded to " + showVal(e.seg.n) + ">")
			default:
				sb.WriteString("<" + e.seg.name + ">")
			}
			continue
		}
		switch c := e.c.(type) {
		case KI:
			sb.WriteByte(byte(c))
		case *BV:
			if s := c.single(); s != nil {
				if len(s.name) > 0 {
					same := true
					s.dom.each(func(v byte) {
						if c.at(v) != uint64(v) {
							same = false
						}
					})
					if same {
						sb.WriteString("<" + s.name + ">")
						continue
					}
					if c.b[0].n.kind == nkFn {
						sb.WriteString("<bit " + bstr(c.b[0]) + ">")
						continue
					}
				}
				sb.WriteString("<f(" + s.name + ")>")
			} else {
				sb.WriteString("<?>")
			}
		default:
			sb.WriteString("<?>")
		}
	}
	return sb.String()
}

func showVal(v any) string {
	switch x := v.(type) {
	case *Str:
		return showStr(x)
	case *BV:
		var l []string
		n := len(x.b)
		for n > 0 {
			if c, ok := isConst(x.b[n-1]); !ok || c {
				break
			}
			n--
		}
		for i := n - 1; i >= 0; i-- {
			l = append(l, bstr(x.b[i]))
		}
		return "[" + strings.Join(l, " ") + "]"
	case Bit:
		return bstr(x)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return showVal(x.v)
	case *Opaque:
		return "<" + x.name + ">"
	}
	return vkey(v)
}

func (s *Str) elems() []SE {
	if s.e != nil {
		return s.e
	}
	e := make([]SE, len(s.lit))
	for i := range e {
		e[i].c = KI(s.lit[i])
	}
	return e
}
func mkStr(e []SE) *Str {
	for _, x := range e {
		if x.seg != nil {
			return &Str{e: e}
		}
		if _, ok := x.c.(KI); !ok {
			return &Str{e: e}
		}
	}
	b := make([]byte, len(e))
	for i, x := range e {
		b[i] = byte(x.c.(KI))
	}
	return lit(string(b))
}

// concrete reports whether the length is known.
func (s *Str) concrete() bool {
	for _, e := range s.e {
		if e.seg != nil {
			return false
		}
	}
	return true
}
func (s *Str) isLit() bool { return s.e == nil }

func catStr(a, b *Str) *Str {
	if a.e == nil && b.e == nil {
		return lit(a.lit + b.lit)
	}
	ea, eb := a.elems(), b.elems()
	if len(ea) == 0 {
		return b
	}
	if len(eb) == 0 {
		return a
	}
	e := make([]SE, 0, len(ea)+len(eb))
	e = append(e, ea...)
	e = append(e, eb...)
	return &Str{e: e}
}

func atomStr(name string, idx int) *Str {
	return &Str{e: []SE{{seg: &Seg{kind: "atom", name: fmt.Sprint(name, idx), idx: idx}}}}
}
func opqStr(name string) *Str {
	return &Str{e: []SE{{seg: &Seg{kind: "opq", name: name}}}}
}
func (s *Str) atom() *Seg {
	if len(s.e) == 1 && s.e[0].seg != nil && s.e[0].seg.kind == "atom" {
		return s.e[0].seg
	}
	return nil
}

// maxDec is the number of decimal digits of 2^n-1.
func maxDec(n int) int64 {
	if n == 0 {
		return 1
	}
	d := int64(1)
	// digits of 2^n-1
	x := []int{1}
	for i := 0; i < n; i++ {
		c := 0
		for j := range x {
			v := x[j]*2 + c
			x[j] = v % 10
			c = v / 10
		}
		if c > 0 {
			x = append(x, c)
		}
	}
	d = int64(len(x)) // digits of 2^n; 2^n is never a power of ten for n>0
	return d
}

func trimBV(x *BV) *BV {
	n := len(x.b)
	for n > 0 {
		if c, ok := isConst(x.b[n-1]); !ok || c {
			break
		}
		n--
	}
	return &BV{x.b[:n]}
}

// decStr is the decimal rendering of a non-negative integer value.
func (r *Run) decStr(v any) *Str {
	switch x := v.(type) {
	case KI:
		return lit(strconv.FormatInt(int64(x), 10))
	case *BV:
		t := trimBV(r.nbv(x))
		if len(t.b) == 0 {
			return lit("0")
		}
		if k, ok := r.p.simp(t, 64, false).(KI); ok && len(t.b) < 64 {
			return lit(strconv.FormatInt(int64(k), 10))
		}
		if s := t.single(); s != nil {
			// constant length rendering of a one symbol value
			d := r.dom(s)
			l := -1
			ok := true
			d.each(func(v byte) {
				n := len(strconv.FormatUint(t.at(v), 10))
				if l >= 0 && n != l {
					ok = false
				}
				l = n
			})
			if ok && l > 0 {
				e := make([]SE, l)
				for i := 0; i < l; i++ {
					i := i
					e[i].c = r.p.simp(r.p.tabulate(s, d, 8, func(v byte) int64 {
						return int64(strconv.FormatUint(t.at(v), 10)[i])
					}), 8, false)
				}
				return mkStr(e)
			}
		}
		return &Str{e: []SE{{seg: &Seg{kind: "dec", bv: t}}}}
	case *Term:
		if x.lo >= 0 && x.hi <= 9 {
			s := r.p.sym("digit("+x.key+")", setOf("0123456789"[x.lo:x.hi+1]))
			return mkStr([]SE{{c: r.p.charBV(s)}})
		}
		return &Str{e: []SE{{seg: &Seg{kind: "dec", bv: x}}}}
	case *Lin:
		if lv := linVal(x); vkey(lv) != vkey(x) {
			return r.decStr(lv)
		}
		return &Str{e: []SE{{seg: &Seg{kind: "dec", bv: x}}}}
	}
	return &Str{e: []SE{{seg: &Seg{kind: "dec", bv: v}}}}
}

func (r *Run) segLen(s *Seg) any {
	switch s.kind {
	case "dec":
		if bv, ok := s.bv.(*BV); ok {
			lo, _ := bv.ubounds()
			return &LSym{"declen" + vkey(bv), int64(len(strconv.FormatUint(lo, 10))), maxDec(len(trimBV(bv).b))}
		}
		return &LSym{"declen" + vkey(s.bv), 1, 20}
	case "rep":
		return s.n
	case "atom":
		return &LSym{"len:" + s.name, 1, maxI}
	case "opt":
		return &LSym{"has" + bkey(s.g), 0, 1}
	case "paddec":
		return &LSym{"padlen" + s.key(), int64(s.n.(KI)), maxI}
	}
	return &LSym{"len:" + s.name, 0, maxI}
}

func (r *Run) strLen(s *Str) any {
	if s.e == nil {
		return KI(len(s.lit))
	}
	l := &Lin{}
	for _, e := range s.e {
		if e.seg == nil {
			l = linAdd(l, &Lin{c: 1}, 1)
			continue
		}
		l = linAdd(l, linOf(r.segLen(e.seg)), 1)
	}
	return linVal(l)
}

// chEq is the condition that two byte values are equal.
func (r *Run) chEq(a, b any) Bit { return r.eqInt(a, b) }

func (r *Run) strEq(a, b *Str) Bit {
	if a.e == nil && b.e == nil {
		return r.p.konst(a.lit == b.lit)
	}
	ea, eb := a.elems(), b.elems()
	if a.concrete() && b.concrete() {
		if len(ea) != len(eb) {
			return r.p.B0
		}
		var l []Bit
		for i := range ea {
			c := r.chEq(ea[i].c, eb[i].c)
			if v, ok := isConst(c); ok {
				if !v {
					return r.p.B0
				}
				continue
			}
			l = append(l, c)
		}
		return r.p.and(l...)
	}
	a, b = r.normStr(a), r.normStr(b)
	if a.key() == b.key() {
		return r.p.B1
	}
	ea, eb = a.elems(), b.elems()
	// cut equal ends
	var l []Bit
	for len(ea) > 0 && len(eb) > 0 && ea[0].seg == nil && eb[0].seg == nil {
		l = append(l, r.chEq(ea[0].c, eb[0].c))
		ea, eb = ea[1:], eb[1:]
	}
	for len(ea) > 0 && len(eb) > 0 && ea[len(ea)-1].seg == nil && eb[len(eb)-1].seg == nil {
		l = append(l, r.chEq(ea[len(ea)-1].c, eb[len(eb)-1].c))
		ea, eb = ea[:len(ea)-1], eb[:len(eb)-1]
	}
	pre := r.p.and(l...)
	if v, ok := isConst(pre); ok && !v {
		return pre
	}
	ra, rb := mkStr(ea), mkStr(eb)
	// lengths that cannot agree
	la, lb := linOf(r.strLen(ra)), linOf(r.strLen(rb))
	d := linAdd(la, lb, -1)
	lo, hi := d.bounds(r)
	if lo > 0 || hi < 0 {
		return r.p.B0
	}
	ka, kb := ra.key(), rb.key()
	if ka == kb {
		return pre
	}
	aa, ab := ra.atom(), rb.atom()
	if aa != nil && (ab != nil || rb.e == nil) || ab != nil && ra.e == nil {
		return r.p.B0 // distinct atoms; an atom is no literal of the program
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return r.p.and(pre, r.p.opaque("streq("+ka+","+kb+")"))
}

// normStr simplifies the parts of a string under the facts of the path.
func (r *Run) normStr(s *Str) *Str {
	if s.e == nil {
		return s
	}
	var out []SE
	ch := func(c any) any {
		if bv, ok := c.(*BV); ok {
			return r.p.simp(r.nbv(bv), 8, false)
		}
		return c
	}
	for _, e := range s.e {
		if e.seg == nil {
			out = append(out, SE{c: ch(e.c)})
			continue
		}
		switch e.seg.kind {
		case "opt":
			g := r.norm(e.seg.g)
			if v, ok := isConst(g); ok {
				if v {
					out = append(out, SE{c: ch(e.seg.ch)})
				}
				continue
			}
			out = append(out, SE{seg: &Seg{kind: "opt", ch: ch(e.seg.ch), g: g}})
		case "dec":
			if bv, ok := e.seg.bv.(*BV); ok {
				out = append(out, r.decStr(bv).elems()...)
				continue
			}
			out = append(out, e)
		case "rep":
			n := e.seg.n
			if l := linOf(n); l != nil {
				if lo, hi := l.bounds(r); lo == hi && lo >= 0 && lo < 4096 {
					for i := 0; i < int(lo); i++ {
						out = append(out, SE{c: ch(e.seg.ch)})
					}
					continue
				}
			}
			out = append(out, e)
		default:
			out = append(out, e)
		}
	}
	return mkStr(out)
}

// strLess decides a < b, forking where needed.
func (r *Run) strLess(a, b *Str) bool {
	if a.e == nil && b.e == nil {
		return a.lit < b.lit
	}
	ea, eb := a.elems(), b.elems()
	for i := 0; ; i++ {
		if i >= len(ea) {
			return i < len(eb)
		}
		if i >= len(eb) {
			return false
		}
		x, y := ea[i], eb[i]
		if x.seg != nil || y.seg != nil {
			if x.seg != nil && y.seg != nil {
				if x.seg.key() == y.seg.key() {
					continue
				}
				if x.seg.kind == "atom" && y.seg.kind == "atom" {
					return x.seg.idx < y.seg.idx
				}
			}
			ka, kb := mkStr(ea[i:]).key(), mkStr(eb[i:]).key()
			if ka < kb {
				return r.decide(r.p.opaque("strlt("+ka+","+kb+")"), "string order")
			}
			return !r.decide(r.p.opaque("strlt("+kb+","+ka+")"), "string order")
		}
		if r.decide(r.chEq(x.c, y.c), "string order") {
			continue
		}
		return r.decide(r.intLess(x.c, y.c, 8, false), "string order")
	}
}

// sub slices a string at constant positions.
func (r *Run) substr(s *Str, lo, hi int) *Str {
	if s.e == nil {
		return lit(s.lit[lo:hi])
	}
	return mkStr(append([]SE{}, s.e[lo:hi]...))
}

func (r *Run) hasPrefix(s, pre *Str) Bit {
	if s.e == nil && pre.e == nil {
		return r.p.konst(strings.HasPrefix(s.lit, pre.lit))
	}
	es, ep := s.elems(), pre.elems()
	var l []Bit
	for i := range ep {
		if i >= len(es) {
			if mkStr(ep[i:]).concrete() {
				return r.p.B0
			}
			return r.p.and(append(l, r.p.opaque("hasprefix("+s.key()+","+pre.key()+")"))...)
		}
		if es[i].seg != nil || ep[i].seg != nil {
			if es[i].seg != nil && ep[i].seg != nil && es[i].seg.key() == ep[i].seg.key() {
				continue
			}
			if es[i].seg != nil && es[i].seg.kind == "dec" && ep[i].seg == nil {
				if c, ok := ep[i].c.(KI); ok && (c < '0' || c > '9') {
					return r.p.B0
				}
			}
			return r.p.and(append(l, r.p.opaque("hasprefix("+mkStr(es[i:]).key()+","+mkStr(ep[i:]).key()+")"))...)
		}
		c := r.chEq(es[i].c, ep[i].c)
		if v, ok := isConst(c); ok {
			if !v {
				return r.p.B0
			}
			continue
		}
		l = append(l, c)
	}
	return r.p.and(l...)
}

func (r *Run) needLit(s *Str, what string) string {
	if s.e != nil {
		r.unsupported("%s of a symbolic string %s", what, showStr(s))
	}
	return s.lit
}

var _ = fmt.Sprint
