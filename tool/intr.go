package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(r *Run, fn *ssa.Function, args []any) any

// intrinsics give the meaning of library functions on abstract values.
var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{}
	initStringsIntr()
	initFmtIntr()
	initConvIntr()
	initIOIntr()
	initSyncIntr()
	initSysIntr()
	initGobIntr()
	initMiscIntr()
}

// ---- helpers

func str(v any) *Str { return v.(*Str) }

// bytesOf lists the bytes of a []byte or string value.
func (r *Run) bytesOf(v any) []any {
	switch x := v.(type) {
	case *Str:
		if !x.concrete() {
			r.unsupported("bytes of %s", showStr(x))
		}
		var out []any
		for _, e := range x.elems() {
			out = append(out, e.c)
		}
		return out
	case SliceV:
		return r.elemsOf(x)
	}
	r.unsupported("bytes of %T", v)
	return nil
}

func (r *Run) strSlice(l []*Str) SliceV {
	e := make([]any, len(l))
	for i := range l {
		e[i] = l[i]
	}
	return r.newSlice(types.Typ[types.String], e)
}

// nat returns the native state at an address, creating it with mk.
func natState[T any](r *Run, v any, mk func() T) T {
	p := r.asPtr(v)
	if p.obj == nil {
		r.gopanic("nil pointer dereference")
	}
	r.noteWrite(p.obj.id, p.obj.label)
	if p.obj.nat == nil {
		p.obj.nat = map[string]any{}
	}
	if s, ok := p.obj.nat[p.path].(T); ok {
		return s
	}
	s := mk()
	p.obj.nat[p.path] = s
	return s
}

func (r *Run) newNat(t types.Type, st any) Ptr {
	pt := t.Underlying().(*types.Pointer).Elem()
	o := r.newObj(pt, &Opaque{"native " + pt.String(), pt})
	o.nat = map[string]any{"": st}
	return Ptr{obj: o}
}

// charIs tests whether a byte is in a set, as a condition.
func (r *Run) charIn(c any, set Set) Bit {
	switch x := c.(type) {
	case KI:
		return r.p.konst(x >= 0 && x < 256 && set.has(byte(x)))
	case *BV:
		y := r.nbv(x)
		if k, ok := r.p.simp(y, 8, false).(KI); ok {
			return r.p.konst(set.has(byte(k)))
		}
		if s := y.single(); s != nil {
			in := Set{}
			s.dom.each(func(v byte) {
				if u := y.at(v); u < 256 && set.has(byte(u)) {
					in.add(v)
				}
			})
			return r.p.fnBit(s, in)
		}
		if t, ok := r.smallFn(y, 1, func(u uint64) uint64 {
			if u < 256 && set.has(byte(u)) {
				return 1
			}
			return 0
		}); ok {
			return t.b[0]
		}
		// any of the members
		var l []Bit
		n := 0
		set.each(func(v byte) { n++ })
		if n <= 64 {
			set.each(func(v byte) { l = append(l, r.eqInt(y, KI(v))) })
			return r.p.or(l...)
		}
		if n >= 192 {
			for v := 0; v < 256; v++ {
				if !set.has(byte(v)) {
					l = append(l, r.eqInt(y, KI(v)))
				}
			}
			return r.p.not(r.p.or(l...))
		}
	}
	r.unsupported("character class of %s", showVal(c))
	return r.p.B0
}

// mapChar applies a byte function to a character.
func (r *Run) mapChar(c any, f func(b byte) byte) any {
	switch x := c.(type) {
	case KI:
		return KI(f(byte(x)))
	case *BV:
		y := r.nbv(x)
		if s := y.single(); s != nil {
			return r.p.simp(r.p.tabulate(s, s.dom, 8, func(v byte) int64 { return int64(f(byte(y.at(v)))) }), 8, false)
		}
		if k, ok := r.p.simp(y, 8, false).(KI); ok {
			return KI(f(byte(k)))
		}
		if t, ok := r.smallFn(y, 8, func(u uint64) uint64 { return uint64(f(byte(u))) }); ok {
			return r.p.simp(t, 8, false)
		}
		// unchanged when no member of its range is affected
		same := true
		for b := 0; b < 256; b++ {
			if f(byte(b)) != byte(b) {
				if c, ok := r.known(r.eqInt(y, KI(b))); !ok || c {
					same = false
				}
			}
		}
		if same {
			return c
		}
	}
	r.unsupported("mapping of character %s", showVal(c))
	return nil
}

func (r *Run) mapStr(s *Str, name string, f func(b byte) byte, whole func(string) string) *Str {
	if s.isLit() {
		return lit(whole(s.lit))
	}
	var out []SE
	for _, e := range s.elems() {
		if e.seg != nil {
			switch e.seg.kind {
			case "dec":
				out = append(out, e)
				continue
			case "rep":
				out = append(out, SE{seg: &Seg{kind: "rep", ch: r.mapChar(e.seg.ch, f), n: e.seg.n}})
				continue
			}
			out = append(out, SE{seg: &Seg{kind: "opq", name: name + "(" + e.seg.key() + ")"}})
			continue
		}
		out = append(out, SE{c: r.mapChar(e.c, f)})
	}
	return mkStr(out)
}
func lowerB(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}
func upperB(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

// noByteOf reports that a segment can never contain a byte.
func segLacks(s *Seg, c byte) bool {
	switch s.kind {
	case "dec":
		return c < '0' || c > '9'
	case "rep", "opt":
		k, ok := s.ch.(KI)
		return ok && byte(k) != c
	}
	return false
}

// strSplit splits by a separator literal, at most n pieces when n > 0.
func (r *Run) strSplit(s, sep *Str, n int) []*Str {
	if s.isLit() && sep.isLit() {
		var l []*Str
		for _, x := range strings.SplitN(s.lit, sep.lit, n) {
			l = append(l, lit(x))
		}
		return l
	}
	sp := r.needLit(sep, "separator")
	if sp == "" || n == 0 {
		r.unsupported("split of %s by %q", showStr(s), sp)
	}
	e := s.elems()
	var out []*Str
	start := 0
	for i := 0; i < len(e); {
		if n > 0 && len(out) == n-1 {
			break
		}
		if e[i].seg != nil {
			if e[i].seg.kind == "atom" || e[i].seg.kind == "opq" {
				r.unsupported("split of %s", showStr(s))
			}
			for k := 0; k < len(sp); k++ {
				if !segLacks(e[i].seg, sp[k]) {
					r.unsupported("split of %s", showStr(s))
				}
			}
			i++
			continue
		}
		if r.matchAt(e, i, sp) {
			out = append(out, mkStr(append([]SE{}, e[start:i]...)))
			i += len(sp)
			start = i
			continue
		}
		i++
	}
	return append(out, mkStr(append([]SE{}, e[start:]...)))
}

// matchAt decides whether literal sp stands at element i.
func (r *Run) matchAt(e []SE, i int, sp string) bool {
	if i+len(sp) > len(e) {
		for k := 0; k < len(sp) && i+k < len(e); k++ {
			if e[i+k].seg != nil && !segLacks(e[i+k].seg, sp[k]) {
				r.unsupported("search in %s", showStr(mkStr(e)))
			}
		}
		return false
	}
	var l []Bit
	for k := 0; k < len(sp); k++ {
		x := e[i+k]
		if x.seg != nil {
			if segLacks(x.seg, sp[k]) {
				return false
			}
			r.unsupported("search in %s", showStr(mkStr(e)))
		}
		c := r.norm(r.chEq(x.c, KI(sp[k])))
		if v, ok := isConst(c); ok && !v {
			return false
		}
		l = append(l, c)
	}
	return r.decide(r.p.and(l...), "substring")
}

// strIndexOf is strings.Index for a symbolic receiver.
func (r *Run) strIndexOf(s, sub *Str, last bool) any {
	if s.isLit() && sub.isLit() {
		if last {
			return KI(strings.LastIndex(s.lit, sub.lit))
		}
		return KI(strings.Index(s.lit, sub.lit))
	}
	es := sub.elems()
	// one unknown character in a literal table
	if s.isLit() && len(es) == 1 && es[0].seg == nil && !last {
		if bv, ok := es[0].c.(*BV); ok {
			bv = r.nbv(bv)
			if sy := bv.single(); sy != nil {
				d := r.dom(sy)
				return r.p.simp(r.p.tabulate(sy, d, 64, func(v byte) int64 { return int64(strings.IndexByte(s.lit, byte(bv.at(v)))) }), 64, true)
			}
		}
	}
	sp := r.needLit(sub, "substring")
	e := s.elems()
	if last {
		for i := len(e) - len(sp); i >= 0; i-- {
			if r.matchAt(e, i, sp) {
				return r.offsetOf(e, i)
			}
		}
		return KI(-1)
	}
	for i := range e {
		if sp == "" {
			return KI(0)
		}
		if e[i].seg != nil {
			if !segLacks(e[i].seg, sp[0]) {
				r.unsupported("search in %s", showStr(s))
			}
			continue
		}
		if r.matchAt(e, i, sp) {
			return r.offsetOf(e, i)
		}
	}
	return KI(-1)
}
func (r *Run) offsetOf(e []SE, i int) any { return r.strLen(mkStr(append([]SE{}, e[:i]...))) }

func (r *Run) strRepeat(s *Str, n any) *Str {
	if k, ok := n.(KI); ok {
		if k < 0 {
			r.gopanic("strings: negative Repeat count")
		}
		if k > 4096 {
			r.unsupported("repeat of %d", k)
		}
		out := lit("")
		for i := 0; i < int(k); i++ {
			out = catStr(out, s)
		}
		return out
	}
	l := linOf(n)
	if l == nil {
		k := r.constInt(n, "repeat count")
		return r.strRepeat(s, KI(k))
	}
	lo, hi := l.bounds(r)
	if lo < 0 {
		// n < 0  <=>  n+1 <= 0
		if hi < 0 || r.decide(r.linLe(linAdd(l, &Lin{c: 1}, 1)), "negative repeat count") {
			r.gopanic("strings: negative Repeat count")
		}
	}
	if lo == hi {
		return r.strRepeat(s, KI(int64(lo)))
	}
	e := s.elems()
	if len(e) != 1 || e[0].seg != nil {
		r.unsupported("symbolic repetition of %s", showStr(s))
	}
	return &Str{e: []SE{{seg: &Seg{kind: "rep", ch: e[0].c, n: linVal(l)}}}}
}

func (r *Run) strReplace(s, old, nw *Str, n int) *Str {
	if s.isLit() && old.isLit() && nw.isLit() {
		return lit(strings.Replace(s.lit, old.lit, nw.lit, n))
	}
	if n == 0 {
		return s
	}
	k := n
	if k > 0 {
		k++
	}
	parts := r.strSplit(s, old, k)
	out := parts[0]
	for _, x := range parts[1:] {
		out = catStr(catStr(out, nw), x)
	}
	return out
}

func (r *Run) trimPrefix(s, p *Str) *Str {
	if s.isLit() && p.isLit() {
		return lit(strings.TrimPrefix(s.lit, p.lit))
	}
	if r.decide(r.hasPrefix(s, p), "prefix") {
		return mkStr(append([]SE{}, s.elems()[len(p.elems()):]...))
	}
	return s
}
func (r *Run) hasSuffix(s, p *Str) Bit {
	if s.isLit() && p.isLit() {
		return r.p.konst(strings.HasSuffix(s.lit, p.lit))
	}
	es, ep := s.elems(), p.elems()
	var l []Bit
	for i := 1; i <= len(ep); i++ {
		if i > len(es) {
			return r.p.B0
		}
		x, y := es[len(es)-i], ep[len(ep)-i]
		if x.seg != nil || y.seg != nil {
			if x.seg != nil && y.seg != nil && x.seg.key() == y.seg.key() {
				continue
			}
			if x.seg != nil && y.seg == nil {
				if k, ok := y.c.(KI); ok && segLacks(x.seg, byte(k)) {
					return r.p.B0
				}
			}
			return r.p.and(append(l, r.p.opaque("hassuffix("+s.key()+","+p.key()+")"))...)
		}
		l = append(l, r.chEq(x.c, y.c))
	}
	return r.p.and(l...)
}

func initStringsIntr() {
	reg := func(n string, f intrinsic) { intrinsics["strings."+n] = f }
	reg("HasPrefix", func(r *Run, fn *ssa.Function, a []any) any { return r.hasPrefix(str(a[0]), str(a[1])) })
	reg("HasSuffix", func(r *Run, fn *ssa.Function, a []any) any { return r.hasSuffix(str(a[0]), str(a[1])) })
	reg("Index", func(r *Run, fn *ssa.Function, a []any) any { return r.strIndexOf(str(a[0]), str(a[1]), false) })
	reg("LastIndex", func(r *Run, fn *ssa.Function, a []any) any { return r.strIndexOf(str(a[0]), str(a[1]), true) })
	ib := func(r *Run, fn *ssa.Function, a []any) any {
		c := r.convert(a[1], types.Typ[types.Byte], types.Typ[types.Rune])
		return r.strIndexOf(str(a[0]), mkStr([]SE{{c: r.narrow8(c)}}), false)
	}
	reg("IndexByte", ib)
	reg("IndexRune", ib)
	reg("Contains", func(r *Run, fn *ssa.Function, a []any) any {
		return r.binopGE0(r.strIndexOf(str(a[0]), str(a[1]), false))
	})
	reg("ContainsRune", func(r *Run, fn *ssa.Function, a []any) any { return r.binopGE0(ib(r, fn, a)) })
	reg("Join", func(r *Run, fn *ssa.Function, a []any) any {
		out := lit("")
		if o, ok := a[0].(*Opaque); ok {
			return opqStr("join(" + o.name + ")")
		}
		for i, x := range r.elemsOf(a[0]) {
			if i > 0 {
				out = catStr(out, str(a[1]))
			}
			out = catStr(out, str(x))
		}
		return out
	})
	reg("Repeat", func(r *Run, fn *ssa.Function, a []any) any { return r.strRepeat(str(a[0]), a[1]) })
	reg("Replace", func(r *Run, fn *ssa.Function, a []any) any {
		return r.strReplace(str(a[0]), str(a[1]), str(a[2]), r.constInt(a[3], "replace count"))
	})
	reg("ReplaceAll", func(r *Run, fn *ssa.Function, a []any) any {
		return r.strReplace(str(a[0]), str(a[1]), str(a[2]), -1)
	})
	reg("Split", func(r *Run, fn *ssa.Function, a []any) any {
		return r.strSlice(r.strSplit(str(a[0]), str(a[1]), -1))
	})
	reg("SplitN", func(r *Run, fn *ssa.Function, a []any) any {
		n := r.constInt(a[2], "split count")
		if n == 0 {
			return SliceV{}
		}
		return r.strSlice(r.strSplit(str(a[0]), str(a[1]), n))
	})
	reg("Cut", func(r *Run, fn *ssa.Function, a []any) any {
		l := r.strSplit(str(a[0]), str(a[1]), 2)
		if len(l) == 2 {
			return Tuple{l[0], l[1], r.p.B1}
		}
		return Tuple{a[0], lit(""), r.p.B0}
	})
	reg("ToLower", func(r *Run, fn *ssa.Function, a []any) any {
		return r.mapStr(str(a[0]), "lower", lowerB, strings.ToLower)
	})
	reg("ToUpper", func(r *Run, fn *ssa.Function, a []any) any {
		return r.mapStr(str(a[0]), "upper", upperB, strings.ToUpper)
	})
	reg("TrimPrefix", func(r *Run, fn *ssa.Function, a []any) any { return r.trimPrefix(str(a[0]), str(a[1])) })
	reg("CutPrefix", func(r *Run, fn *ssa.Function, a []any) any {
		if r.decide(r.hasPrefix(str(a[0]), str(a[1])), "prefix") {
			return Tuple{mkStr(append([]SE{}, str(a[0]).elems()[len(str(a[1]).elems()):]...)), r.p.B1}
		}
		return Tuple{a[0], r.p.B0}
	})
	reg("TrimSuffix", func(r *Run, fn *ssa.Function, a []any) any {
		if r.decide(r.hasSuffix(str(a[0]), str(a[1])), "suffix") {
			e := str(a[0]).elems()
			return mkStr(append([]SE{}, e[:len(e)-len(str(a[1]).elems())]...))
		}
		return a[0]
	})
	trim := func(left, right bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			s := str(a[0])
			cut := "\t\n\v\f\r "
			if len(a) > 1 {
				cut = r.needLit(str(a[1]), "cutset")
			}
			set := setOf(cut)
			e := s.elems()
			for left && len(e) > 0 && e[0].seg == nil && r.decide(r.charIn(e[0].c, set), "trim") {
				e = e[1:]
			}
			for right && len(e) > 0 && e[len(e)-1].seg == nil && r.decide(r.charIn(e[len(e)-1].c, set), "trim") {
				e = e[:len(e)-1]
			}
			chk := func(x SE) {
				if x.seg != nil && x.seg.kind != "atom" {
					for i := 0; i < len(cut); i++ {
						if !segLacks(x.seg, cut[i]) {
							r.unsupported("trim of %s", showStr(s))
						}
					}
				}
			}
			if len(e) > 0 {
				if left {
					chk(e[0])
				}
				if right {
					chk(e[len(e)-1])
				}
			}
			return mkStr(append([]SE{}, e...))
		}
	}
	reg("TrimSpace", trim(true, true))
	reg("Trim", trim(true, true))
	reg("TrimLeft", trim(true, false))
	reg("TrimRight", trim(false, true))
	reg("EqualFold", func(r *Run, fn *ssa.Function, a []any) any {
		x := r.mapStr(str(a[0]), "lower", lowerB, strings.ToLower)
		y := r.mapStr(str(a[1]), "lower", lowerB, strings.ToLower)
		return r.strEq(x, y)
	})
	reg("Compare", func(r *Run, fn *ssa.Function, a []any) any {
		if r.decide(r.strEq(str(a[0]), str(a[1])), "compare") {
			return KI(0)
		}
		if r.strLess(str(a[0]), str(a[1])) {
			return KI(-1)
		}
		return KI(1)
	})
	reg("Count", func(r *Run, fn *ssa.Function, a []any) any {
		s, sub := r.normStr(str(a[0])), str(a[1])
		if s.concrete() && sub.isLit() && len(sub.lit) == 1 {
			var l []Bit
			open := 0
			for _, e := range s.elems() {
				b := r.norm(r.charIn(e.c, setOf(sub.lit)))
				if _, known := isConst(b); !known {
					open++
				}
				l = append(l, b)
			}
			if open == 0 || open > 5 {
				return r.countBits(l)
			}
		}
		return KI(len(r.strSplit(s, sub, -1)) - 1)
	})
	reg("Clone", func(r *Run, fn *ssa.Function, a []any) any { return a[0] })
	// Builder
	type sb struct{ s any }
	mk := func() *sb { return &sb{lit("")} }
	app := func(r *Run, recv any, s *Str) {
		b := natState(r, recv, mk)
		r.setSlot(&b.s, nil, catStr(b.s.(*Str), s))
	}
	builderAppend = app
	intrinsics["(*strings.Builder).WriteString"] = func(r *Run, fn *ssa.Function, a []any) any {
		app(r, a[0], str(a[1]))
		return Tuple{r.strLen(str(a[1])), Iface{}}
	}
	intrinsics["(*strings.Builder).Write"] = func(r *Run, fn *ssa.Function, a []any) any {
		app(r, a[0], mkStr(bytesSE(r.bytesOf(a[1]))))
		return Tuple{KI(len(r.bytesOf(a[1]))), Iface{}}
	}
	intrinsics["(*strings.Builder).WriteByte"] = func(r *Run, fn *ssa.Function, a []any) any {
		app(r, a[0], mkStr([]SE{{c: a[1]}}))
		return Iface{}
	}
	intrinsics["(*strings.Builder).WriteRune"] = func(r *Run, fn *ssa.Function, a []any) any {
		s := r.convert(a[1], types.Typ[types.Rune], types.Typ[types.String]).(*Str)
		app(r, a[0], s)
		return Tuple{r.strLen(s), Iface{}}
	}
	intrinsics["(*strings.Builder).String"] = func(r *Run, fn *ssa.Function, a []any) any { return natState(r, a[0], mk).s.(*Str) }
	intrinsics["(*strings.Builder).Len"] = func(r *Run, fn *ssa.Function, a []any) any { return r.strLen(natState(r, a[0], mk).s.(*Str)) }
	intrinsics["(*strings.Builder).Grow"] = func(r *Run, fn *ssa.Function, a []any) any { return nil }
	intrinsics["(*strings.Builder).Reset"] = func(r *Run, fn *ssa.Function, a []any) any { natState(r, a[0], mk).s = lit(""); return nil }
}

var builderAppend func(r *Run, recv any, s *Str)

func bytesSE(b []any) []SE {
	e := make([]SE, len(b))
	for i := range b {
		e[i].c = b[i]
	}
	return e
}
func (r *Run) narrow8(v any) any {
	return r.convert(v, types.Typ[types.Rune], types.Typ[types.Byte])
}
func (r *Run) binopGE0(v any) Bit {
	switch x := v.(type) {
	case KI:
		return r.p.konst(x >= 0)
	case *BV:
		return r.p.not(x.b[len(x.b)-1])
	}
	return r.p.not(r.intLess(v, KI(0), 64, true))
}

// ---- numbers

func initConvIntr() {
	reg := func(n string, f intrinsic) { intrinsics["strconv."+n] = f }
	reg("Itoa", func(r *Run, fn *ssa.Function, a []any) any { return r.fmtDec(a[0], 64, true) })
	reg("FormatInt", func(r *Run, fn *ssa.Function, a []any) any { return r.fmtBase(a[0], a[1], 64, true) })
	reg("FormatUint", func(r *Run, fn *ssa.Function, a []any) any { return r.fmtBase(a[0], a[1], 64, false) })
	reg("Atoi", func(r *Run, fn *ssa.Function, a []any) any { return r.parseInt(str(a[0]), 10, 64, true) })
	reg("ParseInt", func(r *Run, fn *ssa.Function, a []any) any {
		return r.parseInt(str(a[0]), r.constInt(a[1], "base"), r.constInt(a[2], "bit size"), true)
	})
	reg("ParseUint", func(r *Run, fn *ssa.Function, a []any) any {
		return r.parseInt(str(a[0]), r.constInt(a[1], "base"), r.constInt(a[2], "bit size"), false)
	})
	reg("ParseFloat", func(r *Run, fn *ssa.Function, a []any) any {
		if str(a[0]).isLit() {
			f, err := strconv.ParseFloat(str(a[0]).lit, 64)
			if err != nil {
				return Tuple{KF(f), r.newErr(lit(err.Error()))}
			}
			return Tuple{KF(f), Iface{}}
		}
		return r.havocResults("strconv.ParseFloat("+str(a[0]).key()+")", fn.Signature)
	})
	reg("ParseBool", func(r *Run, fn *ssa.Function, a []any) any {
		if str(a[0]).isLit() {
			f, err := strconv.ParseBool(str(a[0]).lit)
			if err != nil {
				return Tuple{r.p.konst(f), r.newErr(lit(err.Error()))}
			}
			return Tuple{r.p.konst(f), Iface{}}
		}
		return r.havocResults("strconv.ParseBool("+str(a[0]).key()+")", fn.Signature)
	})
	reg("Quote", func(r *Run, fn *ssa.Function, a []any) any { return r.quote(str(a[0])) })
	reg("FormatBool", func(r *Run, fn *ssa.Function, a []any) any {
		if r.decide(a[0].(Bit), "bool") {
			return lit("true")
		}
		return lit("false")
	})
	// math
	m1 := func(n string, f func(float64) float64) {
		intrinsics["math."+n] = func(r *Run, fn *ssa.Function, a []any) any {
			if k, ok := a[0].(KF); ok {
				return KF(f(float64(k)))
			}
			if n == "Floor" || n == "Trunc" {
				switch x := a[0].(type) {
				case *Term:
					if x.op == "fdiv" {
						return r.fdivFloor(x)
					}
				case *Lin:
					return r.convert(r.convert(x, types.Typ[types.Float64], types.Typ[types.Int64]), types.Typ[types.Int64], types.Typ[types.Float64])
				}
			}
			return mkTerm("math."+n, -1e15, 1e15, a[0])
		}
	}
	m1("Floor", math.Floor)
	m1("Trunc", math.Trunc)
	m1("Ceil", math.Ceil)
	m1("Abs", math.Abs)
	m1("Round", math.Round)
	m1("Sqrt", math.Sqrt)
	m1("Log2", math.Log2)
	m1("Log10", math.Log10)
	intrinsics["math.Pow"] = func(r *Run, fn *ssa.Function, a []any) any {
		x, ok1 := a[0].(KF)
		y, ok2 := a[1].(KF)
		if ok1 && ok2 {
			return KF(math.Pow(float64(x), float64(y)))
		}
		return mkTerm("math.Pow", -1e15, 1e15, a[0], a[1])
	}
	intrinsics["math.Mod"] = func(r *Run, fn *ssa.Function, a []any) any {
		x, ok1 := a[0].(KF)
		y, ok2 := a[1].(KF)
		if ok1 && ok2 {
			return KF(math.Mod(float64(x), float64(y)))
		}
		return mkTerm("math.Mod", -1e15, 1e15, a[0], a[1])
	}
	intrinsics["math.IsNaN"] = func(r *Run, fn *ssa.Function, a []any) any {
		if k, ok := a[0].(KF); ok {
			return r.p.konst(math.IsNaN(float64(k)))
		}
		return r.p.opaque("isnan(" + vkey(a[0]) + ")")
	}
	intrinsics["math.IsInf"] = func(r *Run, fn *ssa.Function, a []any) any {
		if k, ok := a[0].(KF); ok {
			return r.p.konst(math.IsInf(float64(k), int(a[1].(KI))))
		}
		return r.p.opaque("isinf(" + vkey(a[0]) + ")")
	}
	intrinsics["math.Float64bits"] = func(r *Run, fn *ssa.Function, a []any) any {
		if k, ok := a[0].(KF); ok {
			return KI(int64(math.Float64bits(float64(k))))
		}
		return mkTerm("float64bits", -1e15, 1e15, a[0])
	}
	intrinsics["math.Float64frombits"] = func(r *Run, fn *ssa.Function, a []any) any {
		if k, ok := a[0].(KI); ok {
			return KF(math.Float64frombits(uint64(k)))
		}
		if t, ok := a[0].(*Term); ok && t.op == "float64bits" {
			return t.args[0]
		}
		return mkTerm("float64frombits", -1e15, 1e15, a[0])
	}
	// big.Int
	type bigv struct{ v any }
	mk := func() *bigv { return &bigv{KI(0)} }
	bigVal = func(r *Run, v any) any { return natState(r, v, mk).v }
	breg := func(n string, f intrinsic) { intrinsics["(*math/big.Int)."+n] = f }
	set := func(r *Run, recv, v any) any {
		if p := r.asPtr(recv); p.obj == nil {
			r.gopanic("nil pointer dereference")
		}
		natState(r, recv, mk).v = v
		return recv
	}
	intrinsics["math/big.NewInt"] = func(r *Run, fn *ssa.Function, a []any) any {
		p := r.newNat(fn.Signature.Results().At(0).Type(), &bigv{a[0]})
		return p
	}
	breg("SetBytes", func(r *Run, fn *ssa.Function, a []any) any {
		b := r.elemsOf(a[1])
		var bits []Bit
		for i := len(b) - 1; i >= 0; i-- {
			bv, ok := r.toBV(b[i], 8)
			if !ok {
				r.unsupported("big.Int of %s", showVal(b[i]))
			}
			bits = append(bits, bv.b...)
		}
		t := trimBV(r.nbv(&BV{bits}))
		if len(t.b) == 0 {
			return set(r, a[0], KI(0))
		}
		if len(t.b) < 63 {
			return set(r, a[0], r.p.simp(&BV{append(append([]Bit{}, t.b...), r.p.B0)}, len(t.b)+1, false))
		}
		return set(r, a[0], t)
	})
	breg("SetInt64", func(r *Run, fn *ssa.Function, a []any) any { return set(r, a[0], a[1]) })
	breg("SetUint64", func(r *Run, fn *ssa.Function, a []any) any {
		if k, ok := a[1].(KI); ok && k < 0 {
			r.unsupported("big.Int above 2^63")
		}
		return set(r, a[0], a[1])
	})
	breg("Set", func(r *Run, fn *ssa.Function, a []any) any { return set(r, a[0], bigVal(r, a[1])) })
	breg("SetString", func(r *Run, fn *ssa.Function, a []any) any {
		t := r.parseInt(str(a[1]), r.constInt(a[2], "base"), 64, true).(Tuple)
		if r.decide(r.errNil(t[1]), "number") {
			set(r, a[0], t[0])
			return Tuple{a[0], r.p.B1}
		}
		return Tuple{Ptr{}, r.p.B0}
	})
	breg("String", func(r *Run, fn *ssa.Function, a []any) any { return r.fmtDec(bigVal(r, a[0]), 0, false) })
	breg("Text", func(r *Run, fn *ssa.Function, a []any) any { return r.fmtBase(bigVal(r, a[0]), a[1], 0, false) })
	breg("Int64", func(r *Run, fn *ssa.Function, a []any) any { return r.bigTo(bigVal(r, a[0]), true) })
	breg("Uint64", func(r *Run, fn *ssa.Function, a []any) any { return r.bigTo(bigVal(r, a[0]), false) })
	breg("Rsh", func(r *Run, fn *ssa.Function, a []any) any {
		n := r.constInt(a[2], "shift")
		return set(r, a[0], r.bigBits(bigVal(r, a[1]), func(b []Bit) []Bit {
			if n >= len(b) {
				return nil
			}
			return b[n:]
		}))
	})
	breg("Lsh", func(r *Run, fn *ssa.Function, a []any) any {
		n := r.constInt(a[2], "shift")
		return set(r, a[0], r.bigBits(bigVal(r, a[1]), func(b []Bit) []Bit {
			var z []Bit
			for i := 0; i < n; i++ {
				z = append(z, r.p.B0)
			}
			return append(z, b...)
		}))
	})
	bin := func(f func(x, y Bit) Bit) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			x, y := r.bigB(bigVal(r, a[1])), r.bigB(bigVal(r, a[2]))
			n := max(len(x), len(y))
			out := make([]Bit, n)
			for i := range out {
				p, q := r.p.B0, r.p.B0
				if i < len(x) {
					p = x[i]
				}
				if i < len(y) {
					q = y[i]
				}
				out[i] = f(p, q)
			}
			return set(r, a[0], r.bigNorm(out))
		}
	}
	breg("And", func(r *Run, fn *ssa.Function, a []any) any {
		return bin(func(x, y Bit) Bit { return r.p.and(x, y) })(r, fn, a)
	})
	breg("Or", func(r *Run, fn *ssa.Function, a []any) any {
		return bin(func(x, y Bit) Bit { return r.p.or(x, y) })(r, fn, a)
	})
	breg("Xor", func(r *Run, fn *ssa.Function, a []any) any {
		return bin(func(x, y Bit) Bit { return r.p.xor(x, y) })(r, fn, a)
	})
	breg("AndNot", func(r *Run, fn *ssa.Function, a []any) any {
		return bin(func(x, y Bit) Bit { return r.p.and(x, r.p.not(y)) })(r, fn, a)
	})
	breg("Add", func(r *Run, fn *ssa.Function, a []any) any {
		return set(r, a[0], r.bigAdd(bigVal(r, a[1]), bigVal(r, a[2]), false))
	})
	breg("Sub", func(r *Run, fn *ssa.Function, a []any) any {
		return set(r, a[0], r.bigAdd(bigVal(r, a[1]), bigVal(r, a[2]), true))
	})
	breg("Bytes", func(r *Run, fn *ssa.Function, a []any) any {
		return r.mkBytes(r.bigBytes(r.sizedBits(r.bigB(bigVal(r, a[0]))), -1))
	})
	breg("FillBytes", func(r *Run, fn *ssa.Function, a []any) any {
		dst := a[1].(SliceV)
		l := r.bigBytes(r.bigB(bigVal(r, a[0])), dst.n)
		for i, x := range l {
			r.setElem(dst, i, x)
		}
		return a[1]
	})
	breg("IsInt64", func(r *Run, fn *ssa.Function, a []any) any {
		b := r.bigB(bigVal(r, a[0]))
		if len(b) <= 63 {
			return r.p.B1
		}
		return r.p.not(r.p.or(b[63:]...))
	})
	breg("IsUint64", func(r *Run, fn *ssa.Function, a []any) any {
		b := r.bigB(bigVal(r, a[0]))
		if len(b) <= 64 {
			return r.p.B1
		}
		return r.p.not(r.p.or(b[64:]...))
	})
	breg("SetBit", func(r *Run, fn *ssa.Function, a []any) any {
		i, v := r.constInt(a[2], "bit index"), r.constInt(a[3], "bit")
		return set(r, a[0], r.bigBits(bigVal(r, a[1]), func(b []Bit) []Bit {
			b = append([]Bit{}, b...)
			for len(b) <= i {
				b = append(b, r.p.B0)
			}
			b[i] = r.p.konst(v == 1)
			return b
		}))
	})
	breg("Bit", func(r *Run, fn *ssa.Function, a []any) any {
		b := r.bigB(bigVal(r, a[0]))
		i := r.constInt(a[1], "bit index")
		if i >= len(b) {
			return KI(0)
		}
		x := make([]Bit, 64)
		for k := range x {
			x[k] = r.p.B0
		}
		x[0] = b[i]
		return r.p.simp(&BV{x}, 64, false)
	})
	breg("Sign", func(r *Run, fn *ssa.Function, a []any) any {
		if r.decide(r.p.not(r.p.or(r.bigB(bigVal(r, a[0]))...)), "zero") {
			return KI(0)
		}
		return KI(1)
	})
	breg("BitLen", func(r *Run, fn *ssa.Function, a []any) any { return KI(len(r.sizedBits(r.bigB(bigVal(r, a[0]))))) })
}

var bigVal func(r *Run, v any) any

func (r *Run) bigB(v any) []Bit {
	switch x := v.(type) {
	case KI:
		if x < 0 {
			break
		}
		return trimBV(r.p.bvConst(int64(x), 64)).b
	case *BV:
		return trimBV(r.nbv(x)).b
	}
	r.unsupported("bits of big.Int %s", showVal(v))
	return nil
}
func (r *Run) bigNorm(b []Bit) any {
	t := trimBV(r.nbv(&BV{b}))
	if len(t.b) < 63 {
		return r.p.simp(&BV{append(append([]Bit{}, t.b...), r.p.B0)}, len(t.b)+1, false)
	}
	return t
}

// bigAdd adds or subtracts; a negative result is not modelled.
func (r *Run) bigAdd(v, w any, sub bool) any {
	x, y := r.bigB(v), r.bigB(w)
	n := max(len(x), len(y))
	out := make([]Bit, 0, n+1)
	c := r.p.B0
	for i := 0; i < n; i++ {
		p, q := r.p.B0, r.p.B0
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		out = append(out, r.p.xor(r.p.xor(p, q), c))
		a := p
		if sub {
			a = r.p.not(p)
		}
		c = r.p.or(r.p.and(a, q), r.p.and(a, c), r.p.and(q, c))
	}
	if sub {
		if k, ok := isConst(r.norm(c)); !ok || k {
			r.unsupported("negative big.Int")
		}
	} else {
		out = append(out, c)
	}
	return r.bigNorm(out)
}

// bigBytes is the big-endian form in n bytes, or as many as needed.
func (r *Run) bigBytes(b []Bit, n int) []any {
	if n < 0 {
		n = (len(b) + 7) / 8
	}
	b = append([]Bit{}, b...)
	for len(b) < 8*n {
		b = append(b, r.p.B0)
	}
	if len(b) > 8*n {
		if r.decide(r.p.or(b[8*n:]...), "too large") {
			r.gopanic("math/big: buffer too small to fit value")
		}
	}
	var out []any
	for i := n - 1; i >= 0; i-- {
		out = append(out, r.p.simp(&BV{append([]Bit{}, b[8*i:8*i+8]...)}, 8, false))
	}
	return out
}
func (r *Run) bigBits(v any, f func([]Bit) []Bit) any { return r.bigNorm(f(r.bigB(v))) }
func (r *Run) bigTo(v any, signed bool) any {
	switch x := v.(type) {
	case KI:
		return x
	case *BV:
		b := make([]Bit, 64)
		for i := range b {
			b[i] = r.p.B0
			if i < len(x.b) {
				b[i] = x.b[i]
			}
		}
		return r.p.simp(&BV{b}, 64, signed)
	}
	return v
}

// sizedBits partitions a number by its bit length and returns exactly its
// significant bits, least significant first.
func (r *Run) sizedBits(b []Bit) []Bit {
	for len(b) > 0 {
		if r.decide(b[len(b)-1], "leading bit") {
			break
		}
		b = b[:len(b)-1]
	}
	return b
}

func (r *Run) fmtDec(v any, w int, signed bool) *Str {
	switch x := v.(type) {
	case KI:
		if !signed && x < 0 {
			return lit(strconv.FormatUint(uint64(x), 10))
		}
		return lit(strconv.FormatInt(int64(x), 10))
	case *BV:
		if signed && len(x.b) >= w && w > 0 {
			sb := r.norm(x.b[w-1])
			if c, ok := isConst(sb); !ok || c {
				if s := r.nbv(x).single(); s != nil {
					return lit(strconv.Itoa(r.constInt(x, "signed number")))
				}
				r.unsupported("decimal of a possibly negative number")
			}
		}
		return r.decStr(x)
	case *Lin, *LSym:
		lo, _ := linOf(v).bounds(r)
		if lo < 0 {
			return &Str{e: []SE{{seg: &Seg{kind: "opq", name: "dec(" + vkey(v) + ")"}}}}
		}
		return r.decStr(v)
	case *Term:
		if x.lo < 0 {
			return &Str{e: []SE{{seg: &Seg{kind: "opq", name: "dec(" + vkey(v) + ")"}}}}
		}
		return r.decStr(v)
	}
	r.unsupported("decimal of %T", v)
	return nil
}

func (r *Run) bitsOfVal(v any, w int) []Bit {
	switch x := v.(type) {
	case KI:
		if x < 0 {
			r.unsupported("binary of a negative number")
		}
		return trimBV(r.p.bvConst(int64(x), 64)).b
	case *BV:
		return trimBV(r.nbv(x)).b
	}
	r.unsupported("binary of %s", showVal(v))
	return nil
}

func (r *Run) fmtBase(v, base any, w int, signed bool) *Str {
	b := r.constInt(base, "base")
	if b == 10 {
		return r.fmtDec(v, w, signed)
	}
	if k, ok := v.(KI); ok {
		if signed {
			return lit(strconv.FormatInt(int64(k), b))
		}
		return lit(strconv.FormatUint(uint64(k), b))
	}
	if b == 2 {
		return r.binStr(v, w, signed, 0)
	}
	if b == 16 {
		return r.hexStr(v, w, signed, 0, false)
	}
	if bv, ok := v.(*BV); ok && bv.single() != nil {
		return lit(strconv.FormatInt(int64(r.constInt(v, "number")), b))
	}
	r.unsupported("base %d rendering", b)
	return nil
}

// binStr renders in base 2 with at least prec digits.
func (r *Run) binStr(v any, w int, signed bool, prec int) *Str {
	if bv, ok := v.(*BV); ok && signed && w > 0 && len(bv.b) >= w {
		if c, ok := isConst(r.norm(bv.b[w-1])); !ok || c {
			r.unsupported("binary of a possibly negative number")
		}
	}
	b := r.bitsOfVal(v, w)
	if len(b) > prec {
		for len(b) > prec && len(b) > 0 {
			if r.decide(b[len(b)-1], "leading bit") {
				break
			}
			b = b[:len(b)-1]
		}
	}
	if len(b) == 0 && prec == 0 {
		return lit("0")
	}
	var e []SE
	for i := len(b); i < prec; i++ {
		e = append(e, SE{c: KI('0')})
	}
	for i := len(b) - 1; i >= 0; i-- {
		e = append(e, SE{c: r.bitChar(b[i])})
	}
	return mkStr(e)
}

// bitChar is '0' or '1'.
func (r *Run) bitChar(b Bit) any {
	x := r.p.bvConst('0', 8)
	n := append([]Bit{}, x.b...)
	n[0] = b
	return r.p.simp(&BV{n}, 8, false)
}

func (r *Run) hexStr(v any, w int, signed bool, prec int, upper bool) *Str {
	dig := "0123456789abcdef"
	if upper {
		dig = "0123456789ABCDEF"
	}
	b := r.bitsOfVal(v, w)
	for len(b)%4 != 0 {
		b = append(append([]Bit{}, b...), r.p.B0)
	}
	n := len(b) / 4
	nib := func(i int) []Bit { return b[i*4 : i*4+4] }
	for n > prec && n > 1 {
		if r.decide(r.p.or(nib(n-1)...), "leading digit") {
			break
		}
		n--
	}
	if n == 0 {
		n = 0
		if prec == 0 {
			return lit("0")
		}
	}
	var e []SE
	for i := n; i < prec; i++ {
		e = append(e, SE{c: KI('0')})
	}
	for i := n - 1; i >= 0; i-- {
		e = append(e, SE{c: r.nibChar(nib(i), dig)})
	}
	return mkStr(e)
}
func (r *Run) nibChar(nb []Bit, dig string) any {
	x := &BV{append([]Bit{}, nb...)}
	if k, ok := r.p.simp(r.nbv(x), 4, false).(KI); ok {
		return KI(dig[k])
	}
	if s := x.single(); s != nil {
		return r.p.simp(r.p.tabulate(s, s.dom, 8, func(v byte) int64 { return int64(dig[x.at(v)&15]) }), 8, false)
	}
	if t, ok := r.smallFn(x, 8, func(u uint64) uint64 { return uint64(dig[u&15]) }); ok {
		return r.p.simp(t, 8, false)
	}
	out := make([]Bit, 8)
	for j := range out {
		var l []Bit
		for v := 0; v < 16; v++ {
			if dig[v]>>uint(j)&1 == 1 {
				l = append(l, r.eqInt(&BV{append(append([]Bit{}, nb...), r.p.B0, r.p.B0, r.p.B0, r.p.B0)}, KI(v)))
			}
		}
		out[j] = r.p.or(l...)
	}
	return r.p.simp(&BV{out}, 8, false)
}

func (r *Run) numErr(s *Str, what string) any {
	return r.newErr(catStr(lit("strconv: parsing number: "+what+": "), s))
}

// parseInt gives value and error of a number in a string.
func (r *Run) parseInt(s *Str, base, bitSize int, signed bool) any {
	if bitSize == 0 {
		bitSize = 64
	}
	if s.isLit() {
		var v int64
		var err error
		if signed {
			v, err = strconv.ParseInt(s.lit, base, bitSize)
		} else {
			var u uint64
			u, err = strconv.ParseUint(s.lit, base, bitSize)
			v = int64(u)
		}
		if err != nil {
			return Tuple{KI(v), r.newErr(lit(err.Error()))}
		}
		return Tuple{KI(v), Iface{}}
	}
	e := s.elems()
	maxBits := bitSize
	if signed {
		maxBits--
	}
	rangeErr := func() any {
		m := int64(1)<<uint(maxBits&63) - 1
		if maxBits >= 64 {
			m = -1
		} else if maxBits == 63 {
			m = math.MaxInt64
		}
		return Tuple{KI(m), r.numErr(s, "value out of range")}
	}
	// the whole decimal rendering of a number
	if len(e) >= 1 && e[len(e)-1].seg != nil && e[len(e)-1].seg.kind == "dec" && base == 10 {
		zeros := true
		for _, x := range e[:len(e)-1] {
			if x.seg != nil {
				if k, ok := x.seg.ch.(KI); !ok || x.seg.kind != "rep" || k != '0' {
					zeros = false
				}
			} else if k, ok := x.c.(KI); !ok || k != '0' {
				zeros = false
			}
		}
		if bv, ok := e[len(e)-1].seg.bv.(*BV); ok && zeros {
			b := trimBV(bv).b
			for len(b) > maxBits {
				if r.decide(b[len(b)-1], "leading bit") {
					return rangeErr()
				}
				b = b[:len(b)-1]
			}
			return Tuple{r.bigTo(&BV{b}, signed), Iface{}}
		}
	}
	if !s.concrete() {
		if len(e) == 1 && (e[0].seg.kind == "opq" || e[0].seg.kind == "atom") {
			if !r.decide(r.p.opaque("isnumber("+s.key()+")"), "number") {
				return Tuple{KI(0), r.numErr(s, "invalid syntax")}
			}
			return Tuple{mkTerm("parse", -1e15, 1e15, lit(s.key())), Iface{}}
		}
		r.unsupported("number in %s", showStr(s))
	}
	if base == 0 {
		r.unsupported("number with base prefix in %s", showStr(s))
	}
	if len(e) == 0 {
		return Tuple{KI(0), r.numErr(s, "invalid syntax")}
	}
	// sign
	i := 0
	if signed && r.decide(r.charIn(e[0].c, setOf("+-")), "sign") {
		i = 1
		if len(e) == 1 {
			return Tuple{KI(0), r.numErr(s, "invalid syntax")}
		}
	}
	digs := "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
	set := setOf(digs + strings.ToUpper(digs))
	for k := i; k < len(e); k++ {
		if !r.decide(r.charIn(e[k].c, set), "digit") {
			return Tuple{KI(0), r.numErr(s, "invalid syntax")}
		}
	}
	if i == 1 {
		if c, ok := e[0].c.(KI); ok && c == '+' {
			return r.parseInt(mkStr(e[1:]), base, bitSize, signed)
		}
		return Tuple{mkTerm("parse", -1e15, 1e15, lit(s.key())), Iface{}}
	}
	if base == 2 || base == 16 || base == 8 || base == 4 {
		w := map[int]int{2: 1, 4: 2, 8: 3, 16: 4}[base]
		var bits []Bit
		ok := true
		for k := len(e) - 1; k >= 0 && ok; k-- {
			nb, o := r.digitBits(e[k].c, w)
			ok = o
			bits = append(bits, nb...)
		}
		if ok {
			b := trimBV(r.nbv(&BV{bits})).b
			for len(b) > maxBits {
				if r.decide(b[len(b)-1], "leading bit") {
					return rangeErr()
				}
				b = b[:len(b)-1]
			}
			return Tuple{r.bigTo(&BV{b}, signed), Iface{}}
		}
	}
	if base != 10 {
		r.unsupported("base %d number in %s", base, showStr(s))
	}
	// leading zeros do not change the value
	for len(e) > 1 {
		if k, ok := e[0].c.(KI); ok && k == '0' {
			e = e[1:]
			continue
		}
		break
	}
	if len(e) == 1 {
		if bv, ok := e[0].c.(*BV); ok {
			bv = r.nbv(bv)
			if sy := bv.single(); sy != nil && r.m.fields[sy] == nil {
				if maxBits < 4 {
					var big Set
					r.dom(sy).each(func(v byte) {
						if int64(bv.at(v))-'0' >= 1<<uint(maxBits) {
							big.add(v)
						}
					})
					if r.decide(r.p.fnBit(sy, big), "value out of range") {
						return rangeErr()
					}
				}
				return Tuple{r.p.simp(r.p.tabulate(sy, r.dom(sy), 64, func(v byte) int64 { return int64(bv.at(v)) - '0' }), 64, signed), Iface{}}
			}
		} else if k, ok := e[0].c.(KI); ok {
			return Tuple{k - '0', Iface{}}
		}
	}
	if f := r.fieldOf(e); f != nil {
		b := trimBV(r.nbv(f.val)).b
		if len(b) > maxBits {
			if c, ok := isConst(b[len(b)-1]); ok && c {
				return rangeErr()
			}
			for len(b) > maxBits {
				if r.decide(b[len(b)-1], "leading bit") {
					return rangeErr()
				}
				b = b[:len(b)-1]
			}
		}
		if len(b) == 0 {
			return Tuple{KI(0), Iface{}}
		}
		return Tuple{r.bigTo(&BV{b}, signed), Iface{}}
	}
	// any other digits: a number about which only the size is known
	lim := math.Pow10(len(e))
	if lim > math.Pow(2, float64(maxBits)) {
		if r.decide(r.p.opaque("overflow"+strconv.Itoa(maxBits)+"("+s.key()+")"), "number too large") {
			return rangeErr()
		}
	}
	hi := int64(1e15)
	if lim < 1e15 {
		hi = int64(lim) - 1
	}
	return Tuple{mkTerm("parse", 0, hi, lit(mkStr(e).key())), Iface{}}
}

// fieldOf recognises all digits of a declared number in order.
func (r *Run) fieldOf(e []SE) *NumField {
	var f *NumField
	k := 0
	for _, x := range e {
		bv, ok := x.c.(*BV)
		if !ok {
			return nil
		}
		s := bv.single()
		if s == nil {
			return nil
		}
		g := r.m.fields[s]
		if g == nil || f != nil && g != f {
			return nil
		}
		f = g
		if k >= len(f.syms) || f.syms[k] != s {
			return nil
		}
		// the plain digit character
		plain := true
		s.dom.each(func(v byte) {
			if bv.at(v) != uint64(v) {
				plain = false
			}
		})
		if !plain {
			return nil
		}
		k++
	}
	if f == nil || k != len(f.syms) {
		return nil
	}
	return f
}

// digitBits gives the value bits of a digit character of base 2^w.
func (r *Run) digitBits(c any, w int) ([]Bit, bool) {
	val := func(b byte) int64 {
		v, err := strconv.ParseInt(string([]byte{b}), 36, 64)
		if err != nil {
			return 0
		}
		return v
	}
	switch x := c.(type) {
	case KI:
		return r.p.bvConst(val(byte(x)), w).b, true
	case *BV:
		y := r.nbv(x)
		if k, ok := r.p.simp(y, 8, false).(KI); ok {
			return r.p.bvConst(val(byte(k)), w).b, true
		}
		if w == 1 {
			// '0'/'1' differ in the lowest bit only
			one := true
			for i := 1; i < len(y.b); i++ {
				want := i < 8 && '0'>>uint(i)&1 == 1
				if v, ok := isConst(y.b[i]); !ok || v != want {
					one = false
				}
			}
			if one {
				return y.b[:1], true
			}
		}
		if s := y.single(); s != nil {
			t := r.p.tabulate(s, r.dom(s), w, func(v byte) int64 { return val(byte(y.at(v))) })
			return t.b[:w], true
		}
		if t, ok := r.smallFn(y, w, func(u uint64) uint64 { return uint64(val(byte(u))) }); ok {
			return t.b, true
		}
	}
	return nil, false
}

func (r *Run) quote(s *Str) *Str {
	if s.isLit() {
		return lit(strconv.Quote(s.lit))
	}
	return catStr(catStr(lit(`"`), s), lit(`"`))
}

func initMiscIntr() {
	initRegexp()
	initCount()
	intrinsics["encoding/hex.EncodeToString"] = func(r *Run, fn *ssa.Function, a []any) any {
		var e []SE
		if o, ok := a[0].(*Opaque); ok {
			return opqStr("hex(" + o.name + ")")
		}
		for _, b := range r.elemsOf(a[0]) {
			e = append(e, r.hexByte(b)...)
		}
		return mkStr(e)
	}
	intrinsics["encoding/hex.DecodeString"] = func(r *Run, fn *ssa.Function, a []any) any {
		s := str(a[0])
		if s.isLit() {
			b, err := hex.DecodeString(s.lit)
			var e []any
			for _, x := range b {
				e = append(e, KI(x))
			}
			if err != nil {
				return Tuple{r.mkBytes(e), r.newErr(lit(err.Error()))}
			}
			return Tuple{r.mkBytes(e), Iface{}}
		}
		if s.concrete() && len(s.e)%2 == 0 {
			var out []any
			ok := true
			set := setOf("0123456789abcdefABCDEF")
			for i := 0; i < len(s.e); i += 2 {
				if !r.decide(r.charIn(s.e[i].c, set), "hex") || !r.decide(r.charIn(s.e[i+1].c, set), "hex") {
					return Tuple{SliceV{}, r.newErr(lit("encoding/hex: invalid byte"))}
				}
				h, o1 := r.digitBits(s.e[i].c, 4)
				l, o2 := r.digitBits(s.e[i+1].c, 4)
				if !o1 || !o2 {
					ok = false
					break
				}
				out = append(out, r.p.simp(&BV{append(append([]Bit{}, l...), h...)}, 8, false))
			}
			if ok {
				return Tuple{r.mkBytes(out), Iface{}}
			}
		}
		return r.havocResults("hex.DecodeString("+s.key()+")", fn.Signature)
	}
	// sorting
	sortStr := func(r *Run, fn *ssa.Function, a []any) any {
		sv := a[0].(SliceV)
		n := sv.n
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				x := r.load(r.elemPtr(sv, j-1)).(*Str)
				y := r.load(r.elemPtr(sv, j)).(*Str)
				if !r.strLess(y, x) {
					break
				}
				r.store(r.elemPtr(sv, j-1), y)
				r.store(r.elemPtr(sv, j), x)
			}
		}
		return nil
	}
	intrinsics["sort.Strings"] = sortStr
	sl := func(r *Run, fn *ssa.Function, a []any) any {
		v := a[0]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		sv := v.(SliceV)
		less := a[1].(*FuncV)
		for i := 1; i < sv.n; i++ {
			for j := i; j > 0; j-- {
				if !r.decide(r.callFunc(less, []any{KI(j), KI(j - 1)}, nil).(Bit), "sort order") {
					break
				}
				x, y := r.load(r.elemPtr(sv, j-1)), r.load(r.elemPtr(sv, j))
				r.store(r.elemPtr(sv, j-1), y)
				r.store(r.elemPtr(sv, j), x)
			}
		}
		return nil
	}
	intrinsics["sort.Slice"] = sl
	intrinsics["sort.SliceStable"] = sl
	intrinsics["reflect.DeepEqual"] = func(r *Run, fn *ssa.Function, a []any) any { return r.deepEq(a[0], a[1], 0) }
	intrinsics["internal/bytealg.IndexByteString"] = func(r *Run, fn *ssa.Function, a []any) any {
		return r.strIndexOf(str(a[0]), mkStr([]SE{{c: a[1]}}), false)
	}
	intrinsics["unicode/utf8.ValidString"] = func(r *Run, fn *ssa.Function, a []any) any { return r.p.B1 }
	// errors
	is := func(r *Run, fn *ssa.Function, a []any) any {
		if b, ok := r.known(r.eqVal(a[0], a[1])); ok && b {
			return r.p.B1
		}
		return r.eqVal(a[0], a[1])
	}
	intrinsics["errors.Is"] = is
	// random generators of the tag tools: arbitrary characters of their class
	gen := func(class string) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			n := r.constInt(a[0], "generated length")
			if n < 0 {
				r.gopanic("makeslice: len out of range")
			}
			nm := r.fresh("random")
			if class == "0123456789" && n > 0 && n <= 18 {
				if s, ok := r.randDigits(nm, n); ok {
					return s
				}
			}
			var e []SE
			for i := 0; i < n; i++ {
				e = append(e, SE{c: r.p.charBV(r.p.sym(fmt.Sprintf("%s.char%d", nm, i), setOf(class)))})
			}
			return mkStr(e)
		}
	}
	bu := "github.com/iomz/go-llrp/binutil."
	up := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	intrinsics[bu+"GenerateNLengthAlphabetString"] = gen(up)
	intrinsics[bu+"GenerateNLengthAlphanumericString"] = gen(up + "0123456789")
	intrinsics[bu+"GenerateNLengthDigitString"] = gen("0123456789")
	intrinsics[bu+"GenerateNLengthHexString"] = gen("0123456789ABCDEF")
	intrinsics[bu+"GenerateNLengthRandomBinRuneSlice"] = func(r *Run, fn *ssa.Function, a []any) any {
		n := r.constInt(a[0], "generated length")
		if n < 0 {
			r.gopanic("makeslice: len out of range")
		}
		nm := r.fresh("random")
		var e []any
		bits := make([]Bit, 64)
		for i := range bits {
			bits[i] = r.p.B0
		}
		for i := 0; i < n; i++ {
			b := r.p.bitSym(fmt.Sprintf("%s[%d]", nm, n-1-i))
			if n-1-i < 64 {
				bits[n-1-i] = b
			}
			e = append(e, r.convert(r.bitChar(b), types.Typ[types.Uint8], types.Typ[types.Rune]))
		}
		rt := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return Tuple{r.newSlice(rt, e), r.p.simp(&BV{bits}, 64, false)}
	}
	intrinsics[bu+"GenerateRandomInt"] = func(r *Run, fn *ssa.Function, a []any) any {
		lo, ok1 := a[0].(KI)
		hi, ok2 := a[1].(KI)
		if ok1 && ok2 {
			if hi-lo <= 0 {
				r.gopanic("invalid argument to Intn")
			}
			nm := r.fresh("random")
			if hi-lo <= 256 && lo >= 0 && hi <= 256 {
				var d Set
				for v := lo; v < hi; v++ {
					d.add(byte(v))
				}
				s := r.p.sym(nm, d)
				return r.p.simp(r.p.tabulate(s, d, 64, func(v byte) int64 { return int64(v) }), 64, true)
			}
			return &Term{key: nm, lo: int64(lo), hi: int64(hi) - 1, op: "var"}
		}
		return r.havocResults("random", fn.Signature)
	}
	intrinsics[bu+"Pack"] = func(r *Run, fn *ssa.Function, a []any) any {
		var out []any
		for _, x := range r.elemsOf(a[0]) {
			b, ok := r.fixedBytes(x)
			if !ok {
				r.unsupported("binary.Write of %s", showVal(x))
			}
			out = append(out, b...)
		}
		return r.mkBytes(out)
	}
	intrinsics["encoding/binary.Write"] = func(r *Run, fn *ssa.Function, a []any) any {
		if bo, ok := a[1].(Iface); ok && bo.t != nil && strings.Contains(bo.t.String(), "littleEndian") {
			r.unsupported("little endian write")
		}
		b, ok := r.fixedBytes(a[2])
		if !ok {
			r.unsupported("binary.Write of %s", showVal(a[2]))
		}
		r.writeTo(a[0], r.mkBytes(b))
		return Iface{}
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		f := func(r *Run, fn *ssa.Function, a []any) any {
			r.trace = append(r.trace, Event{"fatal", "log." + n, a, r.cur})
			r.stop("exit", "log.%s", n)
			return nil
		}
		intrinsics["log."+n] = f
		intrinsics["(*log.Logger)."+n] = f
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		intrinsics["log."+n] = func(r *Run, fn *ssa.Function, a []any) any { r.gopanic("log.Panic"); return nil }
	}
	for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix", "SetOutput"} {
		intrinsics["log."+n] = func(r *Run, fn *ssa.Function, a []any) any { return nil }
	}
	intrinsics["os.Exit"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"exit", "os.Exit", a, r.cur})
		r.stop("exit", "os.Exit")
		return nil
	}
	intrinsics["runtime.Gosched"] = func(r *Run, fn *ssa.Function, a []any) any { return nil }
	intrinsics["runtime.GC"] = func(r *Run, fn *ssa.Function, a []any) any { return nil }
	intrinsics["time.Sleep"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"sleep", "", a, r.cur})
		if h := r.m.hooks.onSleep; h != nil {
			h(r, a[0])
		}
		return nil
	}
}

// randDigits is a random decimal field, partitioned by its bit length.
func (r *Run) randDigits(nm string, n int) (*Str, bool) {
	maxBits := 0
	for v := math.Pow10(n) - 1; v >= 1; v /= 2 {
		maxBits++
	}
	k := r.choose(maxBits+1, "bit length of "+nm)
	key := fmt.Sprintf("%s/%d/%d", nm, n, k)
	if f, ok := r.m.prog.randFields(r.m)[key]; ok {
		return f, true
	}
	s, _ := r.m.numField(key, n, k)
	r.m.prog.randFields(r.m)[key] = s
	return s, true
}
func (pr *Prog) randFields(m *Machine) map[string]*Str {
	if m.rnd == nil {
		m.rnd = map[string]*Str{}
	}
	return m.rnd
}

func (r *Run) elemPtr(s SliceV, i int) Ptr { return Ptr{s.obj, addPath(s.path, s.off+i)} }

func (r *Run) hexByte(b any) []SE {
	switch x := b.(type) {
	case KI:
		s := fmt.Sprintf("%02x", byte(x))
		return []SE{{c: KI(s[0])}, {c: KI(s[1])}}
	case *BV:
		return []SE{{c: r.nibChar(x.b[4:8], "0123456789abcdef")}, {c: r.nibChar(x.b[0:4], "0123456789abcdef")}}
	}
	return []SE{{seg: &Seg{kind: "opq", name: "hex(" + vkey(b) + ")"}}}
}

// fixedBytes is the big endian encoding of a fixed-size value.
func (r *Run) fixedBytes(v any) ([]any, bool) {
	t := types.Type(nil)
	if i, ok := v.(Iface); ok {
		t, v = i.t, i.v
	}
	if t == nil {
		return nil, false
	}
	return r.fixedBytesT(v, t)
}
func (r *Run) fixedBytesT(v any, t types.Type) ([]any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := intInfo(t)
		if b, isB := v.(Bit); isB {
			return []any{r.p.simp(&BV{append([]Bit{b}, r.p.bvConst(0, 7).b...)}, 8, false)}, true
		}
		if !ok || u.Kind() == types.Int || u.Kind() == types.Uint {
			return nil, false
		}
		bv, ok := r.toBV(v, w)
		if !ok {
			var out []any
			for i := w/8 - 1; i >= 0; i-- {
				out = append(out, mkTerm(fmt.Sprintf("byte%d", i), 0, 255, v))
			}
			return out, true
		}
		var out []any
		for i := w/8 - 1; i >= 0; i-- {
			out = append(out, r.p.simp(&BV{append([]Bit{}, bv.b[i*8:i*8+8]...)}, 8, false))
		}
		return out, true
	case *types.Slice:
		var out []any
		if _, isO := v.(*Opaque); isO {
			return nil, false
		}
		for _, x := range r.elemsOf(v) {
			b, ok := r.fixedBytesT(x, u.Elem())
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Array:
		var out []any
		for _, x := range v.(*ArrV).e {
			b, ok := r.fixedBytesT(x, u.Elem())
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Struct:
		var out []any
		s, ok := v.(*StructV)
		if !ok {
			return nil, false
		}
		for i, x := range s.f {
			b, ok := r.fixedBytesT(x, u.Field(i).Type())
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok || p.obj == nil {
			return nil, false
		}
		return r.fixedBytesT(r.load(p), u.Elem())
	}
	return nil, false
}

// deepEq is reflect.DeepEqual.
func (r *Run) deepEq(a, b any, d int) Bit {
	if d > 40 {
		r.unsupported("deep equality nesting")
	}
	if x, ok := a.(Iface); ok {
		y, ok := b.(Iface)
		if !ok {
			return r.eqVal(a, b)
		}
		if x.t == nil || y.t == nil {
			return r.p.konst(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return r.p.B0
		}
		return r.deepEq(x.v, y.v, d+1)
	}
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x == y {
			return r.p.B1
		}
		if x.obj == nil || y.obj == nil {
			return r.p.B0
		}
		return r.deepEq(r.load(x), r.load(y), d+1)
	case *StructV:
		y := b.(*StructV)
		c := r.p.B1
		for i := range x.f {
			c = r.p.and(c, r.deepEq(x.f[i], y.f[i], d+1))
		}
		return c
	case *ArrV:
		y := b.(*ArrV)
		c := r.p.B1
		for i := range x.e {
			c = r.p.and(c, r.deepEq(x.e[i], y.e[i], d+1))
		}
		return c
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			break
		}
		if (x.obj == nil) != (y.obj == nil) || x.n != y.n {
			return r.p.B0
		}
		ex, ey := r.elemsOf(x), r.elemsOf(y)
		c := r.p.B1
		for i := range ex {
			c = r.p.and(c, r.deepEq(ex[i], ey[i], d+1))
		}
		return c
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			break
		}
		if (x.m == nil) != (y.m == nil) {
			return r.p.B0
		}
		if x.m == nil || x.m == y.m {
			return r.p.B1
		}
		if len(x.m.keys) != len(y.m.keys) {
			return r.p.B0
		}
		c := r.p.B1
		for i, k := range x.m.keys {
			j := r.mapFind(y.m, k)
			if j < 0 {
				return r.p.B0
			}
			c = r.p.and(c, r.deepEq(x.m.vals[i], y.m.vals[j], d+1))
		}
		return c
	}
	return r.eqVal(a, b)
}

// externCall models a call into code that is not analysed: it is recorded,
// and its results are unknown.
func (r *Run) externCall(fn *ssa.Function, name string, args []any, site ssa.Instruction) any {
	if r.spec != nil {
		panic(specAbort{})
	}
	pk := fnPkg(fn)
	if pk != nil && !externOK(pk.Path()) {
		r.unsupported("call of %s, which has no model", name)
	}
	r.trace = append(r.trace, Event{"extern", name, args, r.cur})
	return r.havocResults(name, fn.Signature)
}

// externOK: packages whose functions only do input/output or observe the
// environment, and never write to memory of the program under analysis.
func externOK(path string) bool {
	switch path {
	case "log", "os", "time", "net", "context", "runtime", "math/rand", "bufio", "io", "io/fs", "path/filepath", "path", "unicode",
		"github.com/looplab/fsm", "gopkg.in/alecthomas/kingpin.v2", "github.com/alecthomas/kingpin/v2", "os/signal", "net/http", "sync", "sync/atomic", "crypto/rand",
		"github.com/influxdata/influxdb1-client/v2", "github.com/moby/spdystream", "github.com/docker/spdystream", "encoding/csv", "fmt", "errors", "reflect", "io/ioutil", "regexp", "runtime/debug", "math/rand/v2", "syscall", "log/slog":
		return true
	}
	return false
}
