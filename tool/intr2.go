package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- formatting

func initFmtIntr() {
	reg := func(n string, f intrinsic) { intrinsics["fmt."+n] = f }
	reg("Sprintf", func(r *Run, fn *ssa.Function, a []any) any { return r.format(str(a[0]), r.varargs(a[1])) })
	reg("Errorf", func(r *Run, fn *ssa.Function, a []any) any { return r.newErr(r.format(str(a[0]), r.varargs(a[1]))) })
	reg("Sprint", func(r *Run, fn *ssa.Function, a []any) any { return r.sprint(r.varargs(a[0]), false) })
	reg("Sprintln", func(r *Run, fn *ssa.Function, a []any) any { return r.sprint(r.varargs(a[0]), true) })
	reg("Fprintf", func(r *Run, fn *ssa.Function, a []any) any {
		s := r.format(str(a[1]), r.varargs(a[2]))
		return r.writeStr(a[0], s)
	})
	reg("Fprint", func(r *Run, fn *ssa.Function, a []any) any { return r.writeStr(a[0], r.sprint(r.varargs(a[1]), false)) })
	reg("Fprintln", func(r *Run, fn *ssa.Function, a []any) any { return r.writeStr(a[0], r.sprint(r.varargs(a[1]), true)) })
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg(n, func(r *Run, fn *ssa.Function, a []any) any { return Tuple{KI(0), Iface{}} })
	}
}

func (r *Run) varargs(v any) []any {
	if v == nil {
		return nil
	}
	if s, ok := v.(SliceV); ok {
		return r.elemsOf(s)
	}
	if o, ok := v.(*Opaque); ok {
		return []any{o}
	}
	r.unsupported("variadic %T", v)
	return nil
}

func (r *Run) sprint(args []any, ln bool) *Str {
	out := lit("")
	prevStr := true
	for i, a := range args {
		_, isS := a.(Iface)
		s := false
		if isS {
			if t := a.(Iface).t; t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					s = true
				}
			}
		}
		if i > 0 && (ln || !s && !prevStr) {
			out = catStr(out, lit(" "))
		}
		out = catStr(out, r.fmtVerb(a, 'v', fmtFlags{prec: -1, width: -1}))
		prevStr = s
	}
	if ln {
		out = catStr(out, lit("\n"))
	}
	return out
}

type fmtFlags struct {
	zero, minus, plus, sharp, space bool
	width, prec                     int
}

func (r *Run) format(f *Str, args []any) *Str {
	if !f.isLit() {
		// no verb can hide in the symbolic parts unless they may hold '%'
		out := lit("")
		var cur []byte
		ai := 0
		fl := func() {
			if len(cur) > 0 {
				n := strings.Count(strings.ReplaceAll(string(cur), "%%", ""), "%")
				out = catStr(out, r.format(lit(string(cur)), args[min(ai, len(args)):]))
				ai += n
				cur = nil
			}
		}
		for _, e := range f.elems() {
			if k, ok := e.c.(KI); ok && e.seg == nil {
				cur = append(cur, byte(k))
				continue
			}
			fl()
			if e.seg == nil {
				if r.decide(r.charIn(e.c, setOf("%")), "percent in format") {
					return opqStr(r.fresh("format(" + f.key() + ")"))
				}
			} else if e.seg.kind == "opq" || e.seg.kind == "atom" {
				if !segLacks(e.seg, '%') {
					return opqStr(r.fresh("format(" + f.key() + ")"))
				}
			}
			out = catStr(out, mkStr([]SE{e}))
		}
		fl()
		return out
	}
	s := f.lit
	out := lit("")
	ai := 0
	next := func() (any, bool) {
		if ai < len(args) {
			ai++
			return args[ai-1], true
		}
		return nil, false
	}
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = catStr(out, lit(s[i:]))
			break
		}
		out = catStr(out, lit(s[i:i+j]))
		i += j + 1
		fl := fmtFlags{width: -1, prec: -1}
		for ; i < len(s); i++ {
			switch s[i] {
			case '0':
				fl.zero = true
				continue
			case '-':
				fl.minus = true
				continue
			case '+':
				fl.plus = true
				continue
			case '#':
				fl.sharp = true
				continue
			case ' ':
				fl.space = true
				continue
			}
			break
		}
		num := func() int {
			if i < len(s) && s[i] == '*' {
				i++
				a, ok := next()
				if !ok {
					return -1
				}
				if x, ok := a.(Iface); ok {
					a = x.v
				}
				return r.constInt(a, "format width")
			}
			n, any := 0, false
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				n = n*10 + int(s[i]-'0')
				any = true
				i++
			}
			if !any {
				return -1
			}
			return n
		}
		if i < len(s) && s[i] == '[' {
			r.unsupported("indexed format %q", s)
		}
		fl.width = num()
		if i < len(s) && s[i] == '.' {
			i++
			fl.prec = num()
			if fl.prec < 0 {
				fl.prec = 0
			}
		}
		if i >= len(s) {
			out = catStr(out, lit("%!(NOVERB)"))
			break
		}
		v := s[i]
		i++
		if v == '%' {
			out = catStr(out, lit("%"))
			continue
		}
		a, ok := next()
		if !ok {
			out = catStr(out, lit("%!"+string(v)+"(MISSING)"))
			continue
		}
		out = catStr(out, r.fmtVerb(a, v, fl))
	}
	if ai < len(args) {
		out = catStr(out, lit("%!(EXTRA)"))
	}
	return out
}

func (r *Run) pad(s *Str, fl fmtFlags) *Str {
	if fl.width < 0 {
		return s
	}
	n := r.strLen(s)
	l := linOf(n)
	if l == nil {
		return s
	}
	d := linAdd(&Lin{c: float64(fl.width)}, l, -1)
	lo, hi := d.bounds(r)
	if hi <= 0 {
		return s
	}
	if lo < 0 {
		if r.decide(r.linLe(d), "field wider than format") {
			return s
		}
	}
	ch := " "
	if fl.zero && !fl.minus {
		ch = "0"
	}
	p := r.strRepeat(lit(ch), linVal(d))
	if fl.minus {
		return catStr(s, p)
	}
	return catStr(p, s)
}

func (r *Run) fmtVerb(a any, v byte, fl fmtFlags) *Str {
	o := func() *Str {
		return r.pad(opqStr(fmt.Sprintf("fmt%%%c(%s)", v, vkey(a))), fl)
	}
	i, ok := a.(Iface)
	if !ok {
		return o()
	}
	if v == 'T' {
		if i.t == nil {
			return r.pad(lit("<nil>"), fl)
		}
		return r.pad(lit(types.TypeString(i.t, func(p *types.Package) string { return p.Name() })), fl)
	}
	if i.t == nil {
		if v == 'v' || v == 's' {
			return r.pad(lit("<nil>"), fl)
		}
		return o()
	}
	if v == 'w' {
		v = 'v'
	}
	// *big.Int and big.Int
	if p, ok := i.v.(Ptr); ok && p.obj != nil && strings.Contains(i.t.String(), "math/big.Int") {
		bv := bigVal(r, p)
		return r.fmtInt(bv, 0, false, v, fl)
	}
	if _, isO := i.v.(*Opaque); isO {
		return o()
	}
	// errors and stringers
	if (v == 'v' && !fl.sharp) || v == 's' || v == 'q' {
		for _, m := range []string{"Error", "String"} {
			sel := r.m.prog.methodByName(i.t, m)
			if sel == nil || sel.Signature.Params().Len() != 0 || sel.Signature.Results().Len() != 1 || !isString(sel.Signature.Results().At(0).Type()) {
				continue
			}
			if p, ok := i.v.(Ptr); ok && p.obj == nil {
				return r.pad(lit("<nil>"), fl)
			}
			s, ok := r.call(sel, []any{cloneV(i.v)}, nil, nil).(*Str)
			if !ok {
				return o()
			}
			if v == 'q' {
				s = r.quote(s)
			}
			return r.pad(s, fl)
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			if r.decide(i.v.(Bit), "bool") {
				return r.pad(lit("true"), fl)
			}
			return r.pad(lit("false"), fl)
		case info&types.IsString != 0:
			s, ok := i.v.(*Str)
			if !ok {
				return o()
			}
			switch v {
			case 's', 'v':
				if fl.prec >= 0 {
					if !s.concrete() {
						return o()
					}
					if len(s.elems()) > fl.prec {
						s = r.substr(s, 0, fl.prec)
					}
				}
				if v == 'v' && fl.sharp {
					s = r.quote(s)
				}
				return r.pad(s, fl)
			case 'q':
				return r.pad(r.quote(s), fl)
			case 'x', 'X':
				if s.isLit() {
					return r.pad(lit(fmt.Sprintf("%"+string(v), s.lit)), fl)
				}
				if s.concrete() {
					var e []SE
					for _, c := range s.elems() {
						e = append(e, r.hexByte(c.c)...)
					}
					return r.pad(mkStr(e), fl)
				}
			}
			return o()
		case info&types.IsInteger != 0:
			w, sg, _ := intInfo(i.t)
			return r.fmtInt(i.v, w, sg, v, fl)
		case info&types.IsFloat != 0:
			if k, ok := i.v.(KF); ok {
				f := "%"
				if fl.plus {
					f += "+"
				}
				if fl.zero {
					f += "0"
				}
				if fl.minus {
					f += "-"
				}
				if fl.width >= 0 {
					f += fmt.Sprint(fl.width)
				}
				if fl.prec >= 0 {
					f += "." + fmt.Sprint(fl.prec)
				}
				return lit(fmt.Sprintf(f+string(v), float64(k)))
			}
			// an integral value prints as an integer at precision 0
			if v == 'f' && fl.prec == 0 {
				if s, ok := r.integralStr(i.v); ok {
					fl.prec = -1
					return r.pad(s, fl)
				}
			}
			return o()
		}
	case *types.Slice:
		sv, ok := i.v.(SliceV)
		if !ok {
			return o()
		}
		eb, isB := u.Elem().Underlying().(*types.Basic)
		if isB && eb.Kind() == types.Uint8 {
			switch v {
			case 's':
				return r.pad(mkStr(bytesSE(r.elemsOf(sv))), fl)
			case 'x', 'X':
				var e []SE
				for _, c := range r.elemsOf(sv) {
					e = append(e, r.hexByte(c)...)
				}
				s := mkStr(e)
				if v == 'X' {
					s = r.mapStr(s, "upper", upperB, strings.ToUpper)
				}
				return r.pad(s, fl)
			}
		}
		if v == 'v' || v == 's' || v == 'd' || v == 'x' || v == 'q' || v == 'b' {
			out := lit("[")
			for k, x := range r.elemsOf(sv) {
				if k > 0 {
					out = catStr(out, lit(" "))
				}
				out = catStr(out, r.fmtVerb(r.boxed(x, u.Elem()), v, fl))
			}
			return catStr(out, lit("]"))
		}
	case *types.Struct:
		sv, ok := i.v.(*StructV)
		if ok && v == 'v' {
			out := lit("{")
			for k, x := range sv.f {
				if k > 0 {
					out = catStr(out, lit(" "))
				}
				if fl.plus {
					out = catStr(out, lit(u.Field(k).Name()+":"))
				}
				out = catStr(out, r.fmtVerb(r.boxed(x, u.Field(k).Type()), v, fmtFlags{plus: fl.plus, width: -1, prec: -1}))
			}
			return catStr(out, lit("}"))
		}
	case *types.Map:
		mv, ok := i.v.(MapV)
		if ok && v == 'v' {
			if mv.m == nil {
				return lit("map[]")
			}
			r.mapTouch(mv.m, false)
			// fmt prints maps in sorted key order
			idx := r.sortedMapIdx(mv.m)
			out := lit("map[")
			for k, ix := range idx {
				if k > 0 {
					out = catStr(out, lit(" "))
				}
				out = catStr(out, r.fmtVerb(r.boxed(mv.m.keys[ix], u.Key()), v, fmtFlags{width: -1, prec: -1}))
				out = catStr(out, lit(":"))
				out = catStr(out, r.fmtVerb(r.boxed(mv.m.vals[ix], u.Elem()), v, fmtFlags{width: -1, prec: -1}))
			}
			return catStr(out, lit("]"))
		}
	case *types.Pointer:
		if p, ok := i.v.(Ptr); ok && p.obj != nil && v == 'v' && !fl.sharp {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return catStr(lit("&"), r.fmtVerb(Iface{u.Elem(), r.load(p)}, v, fl))
			}
		}
	}
	return o()
}

func (r *Run) sortedMapIdx(m *MapObj) []int {
	idx := make([]int, len(m.keys))
	for i := range idx {
		idx[i] = i
	}
	for i := 1; i < len(idx); i++ {
		for j := i; j > 0; j-- {
			a, ok1 := m.keys[idx[j-1]].(*Str)
			b, ok2 := m.keys[idx[j]].(*Str)
			if !ok1 || !ok2 {
				ka, ok3 := m.keys[idx[j-1]].(KI)
				kb, ok4 := m.keys[idx[j]].(KI)
				if !ok3 || !ok4 {
					r.unsupported("order of map keys")
				}
				if kb >= ka {
					break
				}
			} else if !r.strLess(b, a) {
				break
			}
			idx[j-1], idx[j] = idx[j], idx[j-1]
		}
	}
	return idx
}

func (r *Run) boxed(v any, t types.Type) any {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{t, v}
}

// integralStr renders a float which is a whole number.
func (r *Run) integralStr(v any) (*Str, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == "fdiv" || x.op == "fvar" || x.op == "fmul" || strings.HasPrefix(x.op, "math.") || x.lo < 0 {
			return nil, false
		}
		return r.decStr(x), true
	case *Lin:
		iv := r.convert(x, types.Typ[types.Float64], types.Typ[types.Int64])
		if t, ok := iv.(*Term); ok && t.op == "trunc" {
			return nil, false
		}
		return r.fmtDec(iv, 64, true), true
	}
	return nil, false
}

func (r *Run) fmtInt(v any, w int, sg bool, verb byte, fl fmtFlags) *Str {
	var s *Str
	switch verb {
	case 'd', 'v':
		s = r.fmtDec(v, w, sg)
	case 'b':
		p := fl.prec
		if p < 0 {
			p = 0
			if fl.zero && !fl.minus && fl.width > 0 {
				p = fl.width
			}
		}
		if k, ok := v.(KI); ok {
			s = lit(fmt.Sprintf("%b", int64(k)))
			if !sg && w > 0 {
				s = lit(fmt.Sprintf("%b", uint64(k)))
			}
		} else {
			s = r.binStr(v, w, sg, p)
		}
	case 'x', 'X':
		p := fl.prec
		if p < 0 {
			p = 0
			if fl.zero && !fl.minus && fl.width > 0 {
				p = fl.width
			}
		}
		if k, ok := v.(KI); ok {
			s = lit(fmt.Sprintf("%"+string(verb), int64(k)))
			if !sg {
				s = lit(fmt.Sprintf("%"+string(verb), uint64(k)))
			}
		} else {
			s = r.hexStr(v, w, sg, p, verb == 'X')
		}
		if fl.sharp {
			s = catStr(lit("0"+string(verb)), s)
		}
	case 'c':
		s = r.convert(v, types.Typ[types.Int64], types.Typ[types.String]).(*Str)
	case 'q':
		s = r.convert(v, types.Typ[types.Int64], types.Typ[types.String]).(*Str)
		s = catStr(catStr(lit("'"), s), lit("'"))
	default:
		return r.pad(opqStr(fmt.Sprintf("fmt%%%c(%s)", verb, vkey(v))), fl)
	}
	if fl.plus && verb != 'c' {
		s = catStr(lit("+"), s)
	}
	if fl.prec > 0 && verb != 'c' {
		f2 := fmtFlags{zero: true, width: fl.prec, prec: -1}
		s = r.pad(s, f2)
		fl.zero = false
	}
	return r.pad(s, fl)
}

func (pr *Prog) methodByName(t types.Type, name string) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	ms := pr.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return pr.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- byte streams

// bufState is the content of a bytes.Buffer or bytes.Reader: bytes and tokens.
type bufState struct{ p any }

// BufV is the immutable content of a buffer.
type BufV struct{ parts []any }

func (b *bufState) get() []any          { return b.p.(*BufV).parts }
func (b *bufState) set(r *Run, p []any) { r.setSlot(&b.p, nil, &BufV{p}) }

func mkBuf() *bufState { return &bufState{&BufV{}} }

func (b *bufState) bytes(r *Run) any {
	tok := false
	for _, p := range b.get() {
		if _, ok := p.(*Tok); ok {
			tok = true
		}
	}
	if !tok {
		return r.mkBytes(append([]any{}, b.get()...))
	}
	return &Blob{parts: append([]any{}, b.get()...)}
}
func (r *Run) partsOf(v any) []any {
	switch x := v.(type) {
	case *Blob:
		return append([]any{}, x.parts...)
	case *Opaque:
		return []any{&Tok{kind: "garbage", name: x.name}}
	}
	return append([]any{}, r.bytesOf(v)...)
}

// writeTo writes bytes to an io.Writer value.
func (r *Run) writeTo(w any, data any) any {
	i, ok := w.(Iface)
	if ok && i.t != nil {
		if m := r.m.prog.methodByName(i.t, "Write"); m != nil {
			if _, isO := i.v.(*Opaque); !isO {
				return r.call(m, []any{cloneV(i.v), data}, nil, nil)
			}
		}
	}
	r.trace = append(r.trace, Event{"write", "", []any{w, data}, r.cur})
	return Tuple{r.havoc(r.fresh("written"), types.Typ[types.Int]), r.havoc(r.fresh("write error"), types.Universe.Lookup("error").Type())}
}
func (r *Run) writeStr(w any, s *Str) any {
	i, ok := w.(Iface)
	if ok && i.t != nil {
		if p, isP := i.v.(Ptr); isP && strings.HasSuffix(i.t.String(), "strings.Builder") {
			builderAppend(r, p, s)
			return Tuple{r.strLen(s), Iface{}}
		}
		if s.concrete() {
			if _, isO := i.v.(*Opaque); !isO {
				return r.writeTo(w, r.mkBytes(r.bytesOf(s)))
			}
		} else if p, isP := i.v.(Ptr); isP && strings.HasSuffix(i.t.String(), "bytes.Buffer") {
			b := natState(r, p, mkBuf)
			for _, e := range s.elems() {
				if e.seg != nil {
					b.set(r, append(append([]any{}, b.get()...), e))
				} else {
					b.set(r, append(append([]any{}, b.get()...), e.c))
				}
			}
			return Tuple{r.strLen(s), Iface{}}
		}
	}
	r.trace = append(r.trace, Event{"write", "", []any{w, s}, r.cur})
	return Tuple{r.havoc(r.fresh("written"), types.Typ[types.Int]), r.havoc(r.fresh("write error"), types.Universe.Lookup("error").Type())}
}

func (b *bufState) str(r *Run) *Str {
	var e []SE
	for _, p := range b.get() {
		switch x := p.(type) {
		case SE:
			e = append(e, x)
		case *Tok:
			e = append(e, SE{seg: &Seg{kind: "opq", name: x.show()}})
		default:
			e = append(e, SE{c: x})
		}
	}
	return mkStr(e)
}

func initIOIntr() {
	bb := func(n string, f intrinsic) { intrinsics["(*bytes.Buffer)."+n] = f }
	write := func(r *Run, fn *ssa.Function, a []any) any {
		b := natState(r, a[0], mkBuf)
		ps := r.partsOf(a[1])
		b.set(r, append(append([]any{}, b.get()...), ps...))
		return Tuple{r.lenAny(a[1]), Iface{}}
	}
	bb("Write", write)
	bb("WriteString", func(r *Run, fn *ssa.Function, a []any) any {
		return r.writeStr(Iface{fn.Signature.Recv().Type(), a[0]}, str(a[1]))
	})
	bb("WriteByte", func(r *Run, fn *ssa.Function, a []any) any {
		b := natState(r, a[0], mkBuf)
		b.set(r, append(append([]any{}, b.get()...), a[1]))
		return Iface{}
	})
	bb("WriteRune", func(r *Run, fn *ssa.Function, a []any) any {
		b := natState(r, a[0], mkBuf)
		s := r.convert(a[1], types.Typ[types.Rune], types.Typ[types.String]).(*Str)
		for _, e := range s.elems() {
			b.set(r, append(append([]any{}, b.get()...), e.c))
		}
		return Tuple{r.strLen(s), Iface{}}
	})
	bb("Bytes", func(r *Run, fn *ssa.Function, a []any) any { return natState(r, a[0], mkBuf).bytes(r) })
	bb("String", func(r *Run, fn *ssa.Function, a []any) any {
		if p := r.asPtr(a[0]); p.obj == nil {
			return lit("<nil>")
		}
		return natState(r, a[0], mkBuf).str(r)
	})
	bb("Len", func(r *Run, fn *ssa.Function, a []any) any { return r.strLen(natState(r, a[0], mkBuf).str(r)) })
	bb("Reset", func(r *Run, fn *ssa.Function, a []any) any { natState(r, a[0], mkBuf).set(r, nil); return nil })
	bb("Grow", func(r *Run, fn *ssa.Function, a []any) any { return nil })
	mkr := func(r *Run, fn *ssa.Function, a []any) any {
		return r.newNat(fn.Signature.Results().At(0).Type(), &bufState{&BufV{r.partsOf(a[0])}})
	}
	intrinsics["bytes.NewReader"] = mkr
	intrinsics["bytes.NewBuffer"] = mkr
	intrinsics["bytes.NewBufferString"] = mkr
	intrinsics["strings.NewReader"] = mkr
	rd := func(r *Run, fn *ssa.Function, a []any) any {
		b := natState(r, a[0], mkBuf)
		dst, ok := a[1].(SliceV)
		if !ok {
			r.unsupported("read into %T", a[1])
		}
		if dst.n == 0 {
			return Tuple{KI(0), Iface{}}
		}
		if len(b.get()) == 0 {
			return Tuple{KI(0), r.eof()}
		}
		n := 0
		for n < dst.n && len(b.get()) > 0 {
			switch b.get()[0].(type) {
			case *Tok, SE:
				r.unsupported("byte read of encoded data")
			}
			r.store(r.elemPtr(dst, n), b.get()[0])
			b.set(r, b.get()[1:])
			n++
		}
		return Tuple{KI(n), Iface{}}
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Reader)."} {
		intrinsics[t+"Read"] = rd
		intrinsics[t+"ReadByte"] = func(r *Run, fn *ssa.Function, a []any) any {
			b := natState(r, a[0], mkBuf)
			if len(b.get()) == 0 {
				return Tuple{KI(0), r.eof()}
			}
			x := b.get()[0]
			if _, ok := x.(*Tok); ok {
				r.unsupported("byte read of encoded data")
			}
			b.set(r, b.get()[1:])
			return Tuple{x, Iface{}}
		}
	}
	intrinsics["(*bytes.Reader).Len"] = func(r *Run, fn *ssa.Function, a []any) any { return r.strLen(natState(r, a[0], mkBuf).str(r)) }
	intrinsics["bytes.Equal"] = func(r *Run, fn *ssa.Function, a []any) any {
		return r.strEq(mkStr(bytesSE(r.bytesOf(a[0]))), mkStr(bytesSE(r.bytesOf(a[1]))))
	}
	rdf := func(r *Run, fn *ssa.Function, a []any) any {
		// io.ReadFull on a known buffer: through its Read method
		if i, ok := a[0].(Iface); ok && i.t != nil {
			if _, isO := i.v.(*Opaque); !isO {
				if m := r.m.prog.methodByName(i.t, "Read"); m != nil {
					dst, ok := a[1].(SliceV)
					if !ok {
						r.unsupported("read into %T", a[1])
					}
					n := 0
					for n < dst.n {
						t := r.call(m, []any{cloneV(i.v), SliceV{dst.obj, dst.path, dst.off + n, dst.n - n, dst.cp - n}}, nil, nil).(Tuple)
						k := r.constInt(t[0], "read count")
						n += k
						if !r.decide(r.errNil(t[1]), "read error") {
							if n >= dst.n {
								break
							}
							if n == 0 {
								return Tuple{KI(0), t[1]}
							}
							return Tuple{KI(n), r.newErr(lit("unexpected EOF"))}
						}
						if k == 0 {
							r.unsupported("empty read")
						}
					}
					return Tuple{KI(n), Iface{}}
				}
			}
		}
		return r.externCall(fn, "io.ReadFull", a, nil)
	}
	intrinsics["io.ReadFull"] = rdf
}

func (r *Run) lenAny(v any) any {
	switch x := v.(type) {
	case *Str:
		return r.strLen(x)
	case SliceV:
		return KI(x.n)
	}
	return &LSym{"len(blob)", 0, maxI}
}

func (r *Run) eof() any {
	p := r.m.prog.pkgs["io"]
	if p != nil {
		if g, ok := p.Members["EOF"].(*ssa.Global); ok {
			return r.load(r.globalAddr(g).(Ptr))
		}
	}
	return r.newErr(lit("EOF"))
}
