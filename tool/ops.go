package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// toBV gives the w low bits of an integer value.
func (r *Run) toBV(v any, w int) (*BV, bool) {
	switch x := v.(type) {
	case KI:
		return r.p.bvConst(int64(x), w), true
	case *BV:
		if len(x.b) == w {
			return x, true
		}
		b := make([]Bit, w)
		for i := range b {
			if i < len(x.b) {
				b[i] = x.b[i]
			} else {
				b[i] = r.p.B0
			}
		}
		return &BV{b}, true
	}
	return nil, false
}

// zext widens an unsigned value.
func (r *Run) zext(v any, from, to int) any {
	switch x := v.(type) {
	case KI:
		return KI(wrapInt(int64(x), from, false))
	case *BV:
		y, _ := r.toBV(x, to)
		return y
	}
	return v
}

func (r *Run) sym2(x, y *BV) *Sym {
	a, b := x.single(), y.single()
	allConst := func(v *BV) bool {
		for _, q := range v.b {
			if _, ok := isConst(q); !ok {
				return false
			}
		}
		return true
	}
	switch {
	case a != nil && b != nil && a == b:
		return a
	case a != nil && b == nil && allConst(y):
		return a
	case b != nil && a == nil && allConst(x):
		return b
	}
	return nil
}

// linLe is the condition l <= 0 over integers.
func (r *Run) linLe(l *Lin) Bit {
	lo, hi := l.bounds(r)
	if hi <= 0 {
		return r.p.B1
	}
	if lo > 0 {
		return r.p.B0
	}
	neg := false
	if len(l.t) > 0 && l.t[0].k < 0 {
		l = linScale(l, -1)
		l = &Lin{c: l.c + 1, t: l.t}
		neg = true
	}
	n := r.p.gateNode(nkLinLe, vkey(l), func() *BNode { return &BNode{lin: l, key: vkey(l)} })
	return Bit{n, neg}
}

func (r *Run) eqInt(a, b any) Bit {
	ka, ok1 := a.(KI)
	kb, ok2 := b.(KI)
	if ok1 && ok2 {
		return r.p.konst(ka == kb)
	}
	w := 8
	if x, ok := a.(*BV); ok && len(x.b) > w {
		w = len(x.b)
	}
	if x, ok := b.(*BV); ok && len(x.b) > w {
		w = len(x.b)
	}
	x, ok1 := r.toBV(a, w)
	y, ok2 := r.toBV(b, w)
	if ok1 && ok2 {
		l := make([]Bit, 0, w)
		for i := range x.b {
			e := r.p.eq(x.b[i], y.b[i])
			if v, ok := isConst(e); ok {
				if !v {
					return r.p.B0
				}
				continue
			}
			l = append(l, e)
		}
		return r.p.and(l...)
	}
	la, lb := linOf(a), linOf(b)
	if la == nil || lb == nil {
		r.unsupported("comparison of %T and %T", a, b)
	}
	d := linAdd(la, lb, -1)
	lo, hi := d.bounds(r)
	if lo > 0 || hi < 0 {
		return r.p.B0
	}
	return r.p.and(r.linLe(d), r.linLe(linScale(d, -1)))
}

func (r *Run) intLess(a, b any, w int, signed bool) Bit {
	ka, ok1 := a.(KI)
	kb, ok2 := b.(KI)
	if ok1 && ok2 {
		if signed || w < 64 {
			return r.p.konst(ka < kb)
		}
		return r.p.konst(uint64(ka) < uint64(kb))
	}
	x, ok1 := r.toBV(a, w)
	y, ok2 := r.toBV(b, w)
	if ok1 && ok2 {
		x, y = r.nbv(x), r.nbv(y)
		if s := r.sym2(x, y); s != nil {
			var set Set
			s.dom.each(func(v byte) {
				p, q := wrapInt(int64(x.at(v)), w, signed), wrapInt(int64(y.at(v)), w, signed)
				if p < q {
					set.add(v)
				}
			})
			return r.p.fnBit(s, set)
		}
		lt := r.p.B0
		for i := 0; i < w; i++ { // from the least significant bit
			p, q := x.b[i], y.b[i]
			if i == w-1 && signed {
				p, q = q, p
			}
			lt = r.p.ite(r.p.eq(p, q), lt, q)
		}
		return lt
	}
	la, lb := linOf(a), linOf(b)
	if la == nil || lb == nil {
		r.unsupported("comparison of %T and %T", a, b)
	}
	d := linAdd(la, lb, -1) // a-b < 0
	return r.linLe(&Lin{c: d.c + 1, t: d.t})
}

func asFloatLin(v any) *Lin { return linOf(v) }

func (r *Run) binop(op token.Token, x, y any, tx, ty types.Type) any {
	switch op {
	case token.EQL:
		return r.eqVal(x, y)
	case token.NEQ:
		return r.p.not(r.eqVal(x, y))
	}
	if isString(tx) {
		a, ok1 := x.(*Str)
		b, ok2 := y.(*Str)
		if !ok1 || !ok2 {
			r.unsupported("string operation on %T, %T", x, y)
		}
		switch op {
		case token.ADD:
			return catStr(a, b)
		case token.LSS:
			return r.p.konst(r.strLess(a, b))
		case token.GTR:
			return r.p.konst(r.strLess(b, a))
		case token.LEQ:
			return r.p.konst(!r.strLess(b, a))
		case token.GEQ:
			return r.p.konst(!r.strLess(a, b))
		}
	}
	if isFloat(tx) {
		return r.floatop(op, x, y)
	}
	if bx, ok := x.(Bit); ok {
		by := y.(Bit)
		switch op {
		case token.AND, token.LAND:
			return r.p.and(bx, by)
		case token.OR, token.LOR:
			return r.p.or(bx, by)
		}
	}
	w, signed, ok := intInfo(tx)
	if !ok {
		r.unsupported("operation %s on %v", op, tx)
	}
	switch op {
	case token.LSS:
		return r.intLess(x, y, w, signed)
	case token.GTR:
		return r.intLess(y, x, w, signed)
	case token.LEQ:
		return r.p.not(r.intLess(y, x, w, signed))
	case token.GEQ:
		return r.p.not(r.intLess(x, y, w, signed))
	}
	if b, ok := x.(*BV); ok {
		x = r.p.simp(r.nbv(b), w, signed)
	}
	if b, ok := y.(*BV); ok && op != token.SHL && op != token.SHR {
		y = r.p.simp(r.nbv(b), w, signed)
	}
	kx, xk := x.(KI)
	ky, yk := y.(KI)
	if op == token.SHL || op == token.SHR {
		s := r.constInt(y, "shift amount")
		if s < 0 {
			r.gopanic("negative shift amount")
		}
		if xk {
			if op == token.SHL {
				if s >= 64 {
					return KI(0)
				}
				return KI(wrapInt(int64(kx)<<uint(s), w, signed))
			}
			if signed {
				if s > 63 {
					s = 63
				}
				return KI(int64(kx) >> uint(s))
			}
			if s >= 64 {
				return KI(0)
			}
			if w == 64 {
				return KI(int64(uint64(kx) >> uint(s)))
			}
			return KI(int64(kx) >> uint(s))
		}
		if op == token.SHL {
			if _, isBV := x.(*BV); !isBV {
				if s < 50 {
					return r.linWrap(linScale(linOf(x), math.Pow(2, float64(s))), w, signed)
				}
			}
		} else if _, isBV := x.(*BV); !isBV && s < 50 {
			return r.binop(token.QUO, x, KI(int64(1)<<uint(s)), tx, tx)
		}
		bx, ok := r.toBV(x, w)
		if !ok {
			r.unsupported("shift of %s", showVal(x))
		}
		b := make([]Bit, w)
		for i := range b {
			j := i + s
			if op == token.SHL {
				j = i - s
			}
			switch {
			case j >= 0 && j < w:
				b[i] = bx.b[j]
			case op == token.SHR && signed:
				b[i] = bx.b[w-1]
			default:
				b[i] = r.p.B0
			}
		}
		return r.p.simp(&BV{b}, w, signed)
	}
	if xk && yk {
		a, b := int64(kx), int64(ky)
		var v int64
		switch op {
		case token.ADD:
			v = a + b
		case token.SUB:
			v = a - b
		case token.MUL:
			v = a * b
		case token.QUO, token.REM:
			if b == 0 {
				r.gopanic("integer divide by zero")
			}
			if signed || w < 64 {
				if op == token.QUO {
					v = a / b
				} else {
					v = a % b
				}
			} else if op == token.QUO {
				v = int64(uint64(a) / uint64(b))
			} else {
				v = int64(uint64(a) % uint64(b))
			}
		case token.AND:
			v = a & b
		case token.OR:
			v = a | b
		case token.XOR:
			v = a ^ b
		case token.AND_NOT:
			v = a &^ b
		default:
			r.unsupported("operation %s", op)
		}
		return KI(wrapInt(v, w, signed))
	}
	bx, ok1 := r.toBV(x, w)
	by, ok2 := r.toBV(y, w)
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if !ok1 || !ok2 {
			break
		}
		b := make([]Bit, w)
		for i := range b {
			switch op {
			case token.AND:
				b[i] = r.p.and(bx.b[i], by.b[i])
			case token.OR:
				b[i] = r.p.or(bx.b[i], by.b[i])
			case token.XOR:
				b[i] = r.p.xor(bx.b[i], by.b[i])
			default:
				b[i] = r.p.and(bx.b[i], r.p.not(by.b[i]))
			}
		}
		return r.p.simp(&BV{b}, w, signed)
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
		if ok1 && ok2 {
			if v, ok := r.bvArith(op, bx, by, kx, xk, ky, yk, w, signed); ok {
				return v
			}
		}
		la, lb := linOf(x), linOf(y)
		if la == nil || lb == nil {
			break
		}
		if signed {
			// a signed vector with an unknown sign bit has no linear reading
			for _, v := range []any{x, y} {
				if b, ok := v.(*BV); ok && len(b.b) == w {
					if c, ok := isConst(b.b[w-1]); !ok || c {
						r.unsupported("arithmetic on possibly negative %s", showVal(v))
					}
				}
			}
		}
		switch op {
		case token.ADD:
			return r.linWrap(linAdd(la, lb, 1), w, signed)
		case token.SUB:
			return r.linWrap(linAdd(la, lb, -1), w, signed)
		case token.MUL:
			if yk {
				return r.linWrap(linScale(la, float64(ky)), w, signed)
			}
			if xk {
				return r.linWrap(linScale(lb, float64(kx)), w, signed)
			}
			return mkTerm("mul", -1e15, 1e15, x, y)
		case token.QUO, token.REM:
			if yk && ky > 0 {
				lo, hi := la.bounds(r)
				if lo >= 0 {
					if op == token.QUO {
						return mkTerm("idiv", int64(lo)/int64(ky), int64(math.Min(hi, 1e15))/int64(ky), linVal(la), ky)
					}
					if int64(hi) < int64(ky) {
						return x
					}
					return mkTerm("imod", 0, int64(ky)-1, linVal(la), ky)
				}
			}
			if yk && ky == 0 {
				r.gopanic("integer divide by zero")
			}
			if !yk {
				if r.decide(r.eqInt(y, KI(0)), "division by zero") {
					r.gopanic("integer divide by zero")
				}
			}
			nm := "quo"
			if op == token.REM {
				nm = "rem"
			}
			return mkTerm(nm, -1e15, 1e15, x, y)
		}
	}
	r.unsupported("operation %s on %s and %s", op, showVal(x), showVal(y))
	return nil
}

// linWrap checks a linear result against the range of its type.
func (r *Run) linWrap(l *Lin, w int, signed bool) any {
	lo, hi := l.bounds(r)
	max := math.Pow(2, float64(w))
	if signed {
		max /= 2
	}
	min := 0.0
	if signed {
		min = -max
	}
	if (lo < min || hi >= max) && w < 64 {
		return mkTerm(fmt.Sprintf("wrap%d", w), int64(math.Max(min, -1e15)), int64(math.Min(max, 1e15)), linVal(l))
	}
	if lo < 0 && !signed {
		return mkTerm(fmt.Sprintf("wrap%d", w), 0, 1e15, linVal(l))
	}
	return linVal(l)
}

func (r *Run) bvArith(op token.Token, x, y *BV, kx KI, xk bool, ky KI, yk bool, w int, signed bool) (any, bool) {
	if yk && ky == 0 {
		switch op {
		case token.ADD, token.SUB:
			return x, true
		case token.MUL:
			return KI(0), true
		case token.QUO, token.REM:
			r.gopanic("integer divide by zero")
		}
	}
	if xk && kx == 0 {
		switch op {
		case token.ADD:
			return y, true
		case token.MUL, token.QUO, token.REM:
			if op == token.MUL || yk {
				return KI(0), true
			}
		}
	}
	if s := r.sym2(x, y); s != nil {
		bad := false
		t := r.p.tabulate(s, s.dom, w, func(v byte) int64 {
			a, b := wrapInt(int64(x.at(v)), w, signed), wrapInt(int64(y.at(v)), w, signed)
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			}
			if b == 0 {
				bad = true
				return 0
			}
			if op == token.QUO {
				return a / b
			}
			return a % b
		})
		if bad {
			if r.decide(r.eqInt(y, KI(0)), "division by zero") {
				r.gopanic("integer divide by zero")
			}
		}
		return r.p.simp(t, w, signed), true
	}
	shl := func(v *BV, k int) any {
		b := make([]Bit, w)
		for i := range b {
			if i >= k {
				b[i] = v.b[i-k]
			} else {
				b[i] = r.p.B0
			}
		}
		return r.p.simp(&BV{b}, w, signed)
	}
	log2 := func(k KI) int {
		for i := 0; i < 63; i++ {
			if int64(k) == 1<<uint(i) {
				return i
			}
		}
		return -1
	}
	switch op {
	case token.MUL:
		if yk && log2(ky) >= 0 {
			return shl(x, log2(ky)), true
		}
		if xk && log2(kx) >= 0 {
			return shl(y, log2(kx)), true
		}
		one := func(v *BV) bool { // a single bit value
			for _, b := range v.b[1:] {
				if c, ok := isConst(b); !ok || c {
					return false
				}
			}
			return true
		}
		scale := func(c Bit, k *BV) any {
			b := make([]Bit, w)
			for i := range b {
				b[i] = r.p.and(c, k.b[i])
			}
			return r.p.simp(&BV{b}, w, signed)
		}
		if one(x) {
			return scale(x.b[0], y), true
		}
		if one(y) {
			return scale(y.b[0], x), true
		}
	case token.QUO, token.REM:
		if yk && log2(ky) >= 0 {
			if c, ok := isConst(x.b[w-1]); !signed || ok && !c {
				k := log2(ky)
				b := make([]Bit, w)
				for i := range b {
					b[i] = r.p.B0
					if op == token.QUO && i+k < w {
						b[i] = x.b[i+k]
					}
					if op == token.REM && i < k {
						b[i] = x.b[i]
					}
				}
				return r.p.simp(&BV{b}, w, signed), true
			}
		}
	case token.ADD:
		disjoint := true
		for i := range x.b {
			a, ok1 := isConst(x.b[i])
			b, ok2 := isConst(y.b[i])
			if !(ok1 && !a || ok2 && !b) {
				disjoint = false
				break
			}
		}
		if disjoint {
			b := make([]Bit, w)
			for i := range b {
				b[i] = r.p.or(x.b[i], y.b[i])
			}
			return r.p.simp(&BV{b}, w, signed), true
		}
		if w <= 16 || (xk || yk) && nonConst(x) <= 10 && nonConst(y) <= 10 {
			z := r.ripple(x, y, r.p.B0)
			if xk && kx == 1 || yk && ky == 1 {
				r.trim(z)
			}
			return r.p.simp(z, w, signed), true
		}
	case token.SUB:
		// removing bits that are certainly present
		if w <= 16 || (xk || yk) && nonConst(x) <= 10 && nonConst(y) <= 10 {
			n := make([]Bit, w)
			for i := range n {
				n[i] = r.p.not(y.b[i])
			}
			return r.p.simp(r.ripple(x, &BV{n}, r.p.B1), w, signed), true
		}
	}
	return nil, false
}

// trim clears high bits of a counter that are certainly zero.
func (r *Run) trim(z *BV) {
	for i := len(z.b) - 1; i >= 3; i-- {
		if v, ok := isConst(z.b[i]); ok {
			if v {
				return
			}
			continue
		}
		if z.b[i].n.kind == nkFn {
			return
		}
		if v, ok := r.implied(z.b[i]); !ok || v {
			return
		}
		z.b[i] = r.p.B0
	}
}

func nonConst(x *BV) int {
	n := 0
	for _, b := range x.b {
		if _, ok := isConst(b); !ok {
			n++
		}
	}
	return n
}
func (r *Run) ripple(x, y *BV, c Bit) *BV {
	n := make([]Bit, len(x.b))
	for i := range n {
		a, b := x.b[i], y.b[i]
		n[i] = r.p.xor(r.p.xor(a, b), c)
		c = r.p.or(r.p.and(a, b), r.p.and(c, r.p.xor(a, b)))
	}
	return &BV{n}
}

func floatVal(l *Lin) any {
	if len(l.t) == 0 {
		return KF(l.c)
	}
	return l
}

func (r *Run) floatop(op token.Token, x, y any) any {
	fx, xk := x.(KF)
	fy, yk := y.(KF)
	if k, ok := x.(KI); ok {
		fx, xk = KF(k), true
	}
	if k, ok := y.(KI); ok {
		fy, yk = KF(k), true
	}
	if xk && yk {
		switch op {
		case token.ADD:
			return fx + fy
		case token.SUB:
			return fx - fy
		case token.MUL:
			return fx * fy
		case token.QUO:
			return fx / fy
		case token.LSS:
			return r.p.konst(fx < fy)
		case token.LEQ:
			return r.p.konst(fx <= fy)
		case token.GTR:
			return r.p.konst(fx > fy)
		case token.GEQ:
			return r.p.konst(fx >= fy)
		}
	}
	la, lb := linOf(x), linOf(y)
	if la == nil || lb == nil {
		r.unsupported("float operation on %T, %T", x, y)
	}
	switch op {
	case token.ADD:
		return floatVal(linAdd(la, lb, 1))
	case token.SUB:
		return floatVal(linAdd(la, lb, -1))
	case token.MUL:
		if yk {
			return floatVal(linScale(la, float64(fy)))
		}
		if xk {
			return floatVal(linScale(lb, float64(fx)))
		}
		return mkTerm("fmul", -1e15, 1e15, x, y)
	case token.QUO:
		return mkTerm("fdiv", -1e15, 1e15, floatVal(la), y)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := linAdd(la, lb, -1)
		strict := op == token.LSS || op == token.GTR
		if op == token.GTR || op == token.GEQ {
			d = linScale(d, -1)
		}
		lo, hi := d.bounds(r)
		if strict && hi < 0 || !strict && hi <= 0 {
			return r.p.B1
		}
		if strict && lo >= 0 || !strict && lo > 0 {
			return r.p.B0
		}
		// d < 0 is the negation of -d <= 0
		if strict {
			d = linScale(d, -1)
		}
		k := "f" + vkey(d)
		n := r.p.gateNode(nkOpaque, k+"<=0", func() *BNode { return &BNode{key: "(" + vkey(d) + "<=0)"} })
		return Bit{n, strict}
	}
	r.unsupported("float operation %s", op)
	return nil
}

func isNilConst(v any) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj == nil
	case Iface:
		return x.t == nil
	case SliceV:
		return x.obj == nil
	case MapV:
		return x.m == nil
	case *FuncV:
		return x == nil
	case *ChanV:
		return x == nil
	}
	return false
}

// nilBit is the condition that an unknown value is nil.
func (r *Run) nilBit(o *Opaque) Bit {
	if len(o.name) > 7 && o.name[:7] == "global " {
		return r.p.B0
	}
	switch o.typ.Underlying().(type) {
	case *types.Interface:
		if isErrorType(o.typ) || len(o.name) > 6 && o.name[:6] == "maybe " {
			return r.p.opaque("isnil:" + o.name)
		}
		return r.p.B0
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		if len(o.name) > 6 && o.name[:6] == "maybe " {
			return r.p.opaque("isnil:" + o.name)
		}
	}
	return r.p.B0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// eqVal is the condition that two values are ==.
func (r *Run) eqVal(a, b any) Bit {
	if oa, ok := a.(*Opaque); ok {
		if isNilConst(b) {
			return r.nilBit(oa)
		}
		if ob, ok := b.(*Opaque); ok && ob.name == oa.name {
			return r.p.B1
		}
		k1, k2 := vkey(a), vkey(b)
		if k1 > k2 {
			k1, k2 = k2, k1
		}
		c := r.p.and(r.p.opaque("eq("+k1+","+k2+")"), r.p.not(r.nilBit(oa)))
		if ob, ok := b.(*Opaque); ok {
			c = r.p.and(c, r.p.not(r.nilBit(ob)))
		}
		return c
	}
	if _, ok := b.(*Opaque); ok {
		return r.eqVal(b, a)
	}
	switch x := a.(type) {
	case Bit:
		return r.p.eq(x, b.(Bit))
	case KI, *BV:
		return r.eqInt(a, b)
	case *Lin, *Term, *LSym:
		if _, ok := b.(KF); ok {
			return r.floatEq(a, b)
		}
		return r.eqInt(a, b)
	case KF:
		if y, ok := b.(KF); ok {
			return r.p.konst(x == y)
		}
		return r.floatEq(a, b)
	case *Str:
		if y, ok := b.(*Str); ok {
			return r.strEq(x, y)
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return r.p.konst(x == y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			if x.t == nil && y.t == nil {
				return r.p.B1
			}
			return r.p.B0
		}
		if !types.Identical(x.t, y.t) {
			return r.p.B0
		}
		return r.eqVal(x.v, y.v)
	case SliceV:
		if y, ok := b.(SliceV); ok && (x.obj == nil || y.obj == nil) {
			return r.p.konst(x.obj == nil && y.obj == nil)
		}
		if _, ok := b.(*Blob); ok {
			return r.p.B0
		}
	case *Blob:
		return r.p.B0
	case MapV:
		if y, ok := b.(MapV); ok {
			return r.p.konst(x.m == y.m)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			return r.p.konst((x == nil) == (y == nil))
		}
	case *ChanV:
		if y, ok := b.(*ChanV); ok {
			return r.p.konst(x == y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			c := r.p.B1
			for i := range x.f {
				c = r.p.and(c, r.eqVal(x.f[i], y.f[i]))
			}
			return c
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.e) == len(y.e) {
			c := r.p.B1
			for i := range x.e {
				c = r.p.and(c, r.eqVal(x.e[i], y.e[i]))
			}
			return c
		}
	}
	r.unsupported("comparison of %T and %T", a, b)
	return r.p.B0
}
func (r *Run) floatEq(a, b any) Bit {
	k1, k2 := vkey(a), vkey(b)
	if k1 == k2 {
		return r.p.B1
	}
	la, lb := linOf(a), linOf(b)
	if la != nil && lb != nil {
		lo, hi := linAdd(la, lb, -1).bounds(r)
		if lo > 0 || hi < 0 {
			return r.p.B0
		}
	}
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return r.p.opaque("feq(" + k1 + "," + k2 + ")")
}

func asciiVal(r *Run, v any) bool {
	switch x := v.(type) {
	case KI:
		return x >= 0 && x < 128
	case *BV:
		for i := 7; i < len(x.b); i++ {
			if c, ok := r.known(x.b[i]); !ok || c {
				return false
			}
		}
		return true
	}
	return false
}

func (r *Run) convert(v any, from, to types.Type) any {
	if p, ok := v.(Ptr); ok { // address as a number
		return p
	}
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	if fi && ti {
		switch x := v.(type) {
		case KI:
			return KI(wrapInt(int64(x), tw, ts))
		case *BV:
			b := make([]Bit, tw)
			for i := range b {
				switch {
				case i < len(x.b) && i < fw:
					b[i] = x.b[i]
				case fs && fw <= tw && len(x.b) >= fw:
					b[i] = x.b[fw-1]
				default:
					b[i] = r.p.B0
				}
			}
			return r.p.simp(&BV{b}, tw, ts)
		case *Lin, *Term, *LSym:
			if tw >= fw && ts == fs {
				return v
			}
			return r.linWrap(linOf(v), tw, ts)
		}
		r.unsupported("conversion of %T", v)
	}
	if fi && isFloat(to) {
		switch x := v.(type) {
		case KI:
			return KF(x)
		case *BV:
			y := r.nbv(x)
			if fs && len(y.b) == fw {
				if c, ok := isConst(y.b[fw-1]); !ok || c {
					// possibly negative one symbol value
					if s := y.single(); s != nil {
						neg := false
						r.dom(s).each(func(v byte) {
							if wrapInt(int64(y.at(v)), fw, true) < 0 {
								neg = true
							}
						})
						if neg {
							k := -1
							_ = k
							return KF(float64(r.constInt(y, "signed value")))
						}
					} else {
						r.unsupported("float of possibly negative value")
					}
				}
			}
			return floatVal(linOf(trimBV(y)))
		}
		return v
	}
	if isFloat(from) && isFloat(to) {
		return v
	}
	if isFloat(from) && ti {
		switch x := v.(type) {
		case KF:
			return KI(wrapInt(int64(x), tw, ts))
		case *Term:
			if x.op == "fdiv" {
				return r.fdivFloor(x)
			}
			if x.op == "fvar" {
				return mkTerm("trunc", -1e15, 1e15, x)
			}
			return x
		case *Lin:
			integral := x.c == math.Trunc(x.c)
			for _, t := range x.t {
				if tt, ok := t.atom.(*Term); ok && (tt.op == "fdiv" || tt.op == "fvar" || tt.op == "fmul") {
					integral = false
				}
				if t.k != math.Trunc(t.k) {
					integral = false
				}
			}
			if integral {
				return r.linWrap(x, tw, ts)
			}
			return mkTerm("trunc", -1e15, 1e15, x)
		}
	}
	// strings
	if isString(to) {
		if fi { // rune to string
			switch x := v.(type) {
			case KI:
				return lit(string(rune(x)))
			case *BV:
				y := r.nbv(x)
				if asciiVal(r, y) {
					b, _ := r.toBV(y, 8)
					return mkStr([]SE{{c: r.p.simp(b, 8, false)}})
				}
				if s := y.single(); s != nil {
					// a byte value above 127 becomes two bytes
					hi := Set{}
					s.dom.each(func(c byte) {
						if y.at(c) >= 128 {
							hi.add(c)
						}
					})
					if !r.decide(r.p.fnBit(s, hi), "non-ASCII character") {
						b, _ := r.toBV(y, 8)
						return mkStr([]SE{{c: r.p.simp(b, 8, false)}})
					}
					small := true
					hi.each(func(c byte) {
						if y.at(c) >= 2048 {
							small = false
						}
					})
					if small {
						e := make([]SE, 2)
						for k := 0; k < 2; k++ {
							k := k
							e[k].c = r.p.simp(r.p.tabulate(s, s.dom, 8, func(c byte) int64 {
								var bb [4]byte
								n := utf8.EncodeRune(bb[:], rune(y.at(c)))
								if n != 2 {
									return 0
								}
								return int64(bb[k])
							}), 8, false)
						}
						return mkStr(e)
					}
				}
			}
			r.unsupported("string of rune %s", showVal(v))
		}
		if isString(from) {
			return v
		}
		if st, ok := from.Underlying().(*types.Slice); ok {
			et := st.Elem()
			w, _, _ := intInfo(et)
			switch s := v.(type) {
			case SliceV:
				var e []SE
				for _, x := range r.elemsOf(s) {
					if o, ok := x.(*Opt); ok {
						c := o.v
						if w != 8 {
							c = r.narrow8(c)
						}
						e = append(e, SE{seg: &Seg{kind: "opt", ch: c, g: o.g}})
						continue
					}
					if w == 8 {
						e = append(e, SE{c: x})
						continue
					}
					c := r.convert(x, types.Typ[types.Rune], types.Typ[types.String]).(*Str)
					e = append(e, c.elems()...)
				}
				return mkStr(e)
			case *Blob:
				return &Str{e: []SE{{seg: &Seg{kind: "opq", name: fmt.Sprintf("blob%p", s)}}}}
			case *Opaque:
				return opqStr("string(" + s.name + ")")
			}
		}
		r.unsupported("conversion of %T to string", v)
	}
	if st, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		s, ok := v.(*Str)
		if !ok {
			r.unsupported("conversion of %T", v)
		}
		w, _, _ := intInfo(st.Elem())
		if !s.concrete() {
			if len(s.e) == 1 && s.e[0].seg != nil {
				return &Opaque{fmt.Sprintf("%v(%s)", to, s.key()), to}
			}
			r.unsupported("conversion of %s to a slice", showStr(s))
		}
		var e []any
		if w == 8 {
			for _, x := range s.elems() {
				e = append(e, x.c)
			}
		} else if s.isLit() {
			for _, c := range s.lit {
				e = append(e, KI(c))
			}
		} else {
			for _, x := range s.elems() {
				if !asciiVal(r, x.c) {
					bv, ok := x.c.(*BV)
					if !ok || len(bv.b) < 8 {
						r.unsupported("runes of %s", showStr(s))
					}
					if r.decide(bv.b[7], "non-ASCII byte") {
						r.unsupported("runes of non-ASCII %s", showStr(s))
					}
				}
				e = append(e, r.zext(x.c, 8, 32))
			}
		}
		return r.newSlice(st.Elem(), e)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	switch to.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Signature, *types.Chan, *types.Struct:
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	r.unsupported("conversion from %v to %v", from, to)
	return nil
}

func (r *Run) fdivFloor(x *Term) any {
	k, ok := x.args[1].(KF)
	if !ok || float64(k) != math.Trunc(float64(k)) || k <= 0 {
		return mkTerm("trunc", -1e15, 1e15, x)
	}
	l := linOf(x.args[0])
	lo, hi := l.bounds(r)
	if lo < 0 {
		return mkTerm("trunc", -1e15, 1e15, x)
	}
	return mkTerm("idiv", int64(lo)/int64(k), int64(math.Min(hi, 1e15))/int64(k), linVal(l), KI(int64(k)))
}

func (r *Run) zeroOrNative(t types.Type) any { return r.zero(t) }

// newErr is a fresh error with a message.
func (r *Run) newErr(msg *Str) any {
	t := r.m.prog.errT
	if t == nil {
		return &Opaque{"global error " + msg.key(), types.Universe.Lookup("error").Type()}
	}
	o := r.newObj(t.(*types.Pointer).Elem(), &StructV{[]any{msg}})
	o.label = "error"
	return Iface{t, Ptr{obj: o}}
}

func (r *Run) zeroErr() any { return Iface{} }

// errNil is the condition that an error value is nil.
func (r *Run) errNil(v any) Bit { return r.eqVal(v, Iface{}) }

var _ ssa.Value
