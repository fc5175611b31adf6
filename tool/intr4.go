package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ReflV is a reflect.Value holding v of type t; p is where it lives when it is
// addressable.
type ReflV struct {
	t    types.Type
	v    any
	p    Ptr
	addr bool
}

// tickerInfo records a ticker or timer.
type tickerInfo struct {
	ch   *ChanV
	kind string
	dur  any
	pos  token.Pos
	co   *coro
}

func initSysIntr() {
	// the runtime's copy of a map
	intrinsics["maps.clone"] = func(r *Run, fn *ssa.Function, a []any) any {
		i, ok := a[0].(Iface)
		mv, ok2 := i.v.(MapV)
		if !ok || !ok2 {
			r.unsupported("maps.clone of %T", a[0])
		}
		if mv.m == nil {
			return i
		}
		r.mapTouch(mv.m, false)
		out := r.newMap()
		out.keys = append([]any{}, mv.m.keys...)
		for _, v := range mv.m.vals {
			out.vals = append(out.vals, cloneV(v))
		}
		return Iface{i.t, MapV{out}}
	}
	tick := func(kind string, wrap bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			r.objN++
			ch := &ChanV{id: r.objN, name: r.fresh(kind), cap: KI(0)}
			if k, ok := a[0].(KI); ok && k <= 0 && (kind == "NewTicker" || kind == "Tick") {
				if kind == "Tick" {
					return (*ChanV)(nil)
				}
				r.gopanic("non-positive interval for NewTicker")
			}
			if w := worldOf(r); w != nil {
				w.tickers = append(w.tickers, &tickerInfo{ch, kind, a[0], r.cur, w.cur})
			}
			if !wrap {
				return ch
			}
			t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s := r.zero(t).(*StructV)
			if i := fieldIndex(t, "C"); i >= 0 {
				s.f[i] = ch
			}
			return Ptr{obj: r.newObj(t, s)}
		}
	}
	intrinsics["time.NewTicker"] = tick("NewTicker", true)
	intrinsics["time.NewTimer"] = tick("NewTimer", true)
	intrinsics["time.Tick"] = tick("Tick", false)
	intrinsics["time.After"] = tick("After", false)
	for _, n := range []string{"Ticker", "Timer"} {
		intrinsics["(*time."+n+").Stop"] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			if w := worldOf(r); w != nil {
				if i := fieldIndex(p.obj.typ, "C"); i >= 0 {
					if ch, ok := (*r.slot(Ptr{p.obj, addPath(p.path, i)})).(*ChanV); ok {
						w.stopped(ch, true)
					}
				}
			}
			if fn.Signature.Results().Len() == 1 {
				return r.p.B1
			}
			return nil
		}
		intrinsics["(*time."+n+").Reset"] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			if w := worldOf(r); w != nil {
				if i := fieldIndex(p.obj.typ, "C"); i >= 0 {
					if ch, ok := (*r.slot(Ptr{p.obj, addPath(p.path, i)})).(*ChanV); ok {
						w.stopped(ch, false)
					}
				}
			}
			if fn.Signature.Results().Len() == 1 {
				return r.p.B1
			}
			return nil
		}
	}
	i64 := types.Typ[types.Int64]
	div := func(n int64) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			if n == 1 {
				return a[0]
			}
			return r.binop(token.QUO, a[0], KI(n), i64, i64)
		}
	}
	intrinsics["(time.Duration).Nanoseconds"] = div(1)
	intrinsics["(time.Duration).Microseconds"] = div(1000)
	intrinsics["(time.Duration).Milliseconds"] = div(1000000)
	fl := func(n float64) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			return r.floatop(token.QUO, r.convert(a[0], i64, types.Typ[types.Float64]), KF(n))
		}
	}
	intrinsics["(time.Duration).Seconds"] = fl(1e9)
	intrinsics["(time.Duration).Minutes"] = fl(6e10)
	intrinsics["(time.Duration).Hours"] = fl(3.6e12)

	// context
	intrinsics["context.WithCancel"] = func(r *Run, fn *ssa.Function, a []any) any {
		return Tuple{a[0], &FuncV{name: "cancel", nat: func(r *Run, a []any, site ssa.Instruction) any { return nil }}}
	}

	// reflect
	refl := func(n string, f func(r *Run, v *ReflV, a []any) any) {
		intrinsics["(reflect.Value)."+n] = func(r *Run, fn *ssa.Function, a []any) any {
			v, ok := a[0].(*ReflV)
			if !ok {
				r.gopanic("reflect: call of %s on zero Value", n)
			}
			return f(r, v, a[1:])
		}
	}
	intrinsics["reflect.ValueOf"] = func(r *Run, fn *ssa.Function, a []any) any {
		i, ok := a[0].(Iface)
		if !ok {
			r.unsupported("reflect.ValueOf %T", a[0])
		}
		if i.t == nil {
			return r.zero(fn.Signature.Results().At(0).Type())
		}
		return &ReflV{t: i.t, v: i.v}
	}
	intrinsics["reflect.Indirect"] = func(r *Run, fn *ssa.Function, a []any) any {
		v, ok := a[0].(*ReflV)
		if !ok {
			r.unsupported("reflect.Indirect")
		}
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			p := r.asPtr(v.v)
			if p.obj == nil {
				r.unsupported("reflect.Indirect of nil")
			}
			return &ReflV{t: pt.Elem(), v: r.load(p), p: p, addr: true}
		}
		return v
	}
	refl("Elem", func(r *Run, v *ReflV, a []any) any {
		switch u := v.t.Underlying().(type) {
		case *types.Pointer:
			p := r.asPtr(v.v)
			if p.obj == nil {
				r.unsupported("Elem of nil")
			}
			return &ReflV{t: u.Elem(), v: r.load(p), p: p, addr: true}
		case *types.Interface:
			if i, ok := v.v.(Iface); ok && i.t != nil {
				return &ReflV{t: i.t, v: i.v}
			}
		}
		r.unsupported("reflect Elem of %s", typeStr(v.t))
		return nil
	})
	fieldN := func(r *Run, v *ReflV, i int) any {
		st := v.t.Underlying().(*types.Struct)
		var x any
		switch s := v.v.(type) {
		case *StructV:
			x = cloneV(s.f[i])
		case *Opaque:
			x = cloneV(r.havocDeep(s.name, s.typ).(*StructV).f[i])
		default:
			r.unsupported("reflect field of %T", v.v)
		}
		return &ReflV{t: st.Field(i).Type(), v: x}
	}
	refl("Field", func(r *Run, v *ReflV, a []any) any { return fieldN(r, v, r.constInt(a[0], "field index")) })
	refl("FieldByName", func(r *Run, v *ReflV, a []any) any {
		if _, ok := v.t.Underlying().(*types.Struct); !ok {
			r.gopanic("reflect: call of FieldByName on %s Value", typeStr(v.t))
		}
		s, ok := a[0].(*Str)
		if !ok || !s.isLit() {
			r.unsupported("FieldByName of an unknown name")
		}
		i := fieldIndex(v.t, litOf(s))
		if i < 0 {
			return &StructV{}
		}
		return fieldN(r, v, i)
	})
	refl("Float", func(r *Run, v *ReflV, a []any) any {
		if !isFloat(v.t) {
			r.gopanic("reflect: call of Float on %s Value", typeStr(v.t))
		}
		return v.v
	})
	refl("Int", func(r *Run, v *ReflV, a []any) any {
		if _, sg, ok := intInfo(v.t); !ok || !sg {
			r.gopanic("reflect: call of Int on %s Value", typeStr(v.t))
		}
		return v.v
	})
	refl("Uint", func(r *Run, v *ReflV, a []any) any {
		if _, sg, ok := intInfo(v.t); !ok || sg {
			r.gopanic("reflect: call of Uint on %s Value", typeStr(v.t))
		}
		return v.v
	})
	refl("Bool", func(r *Run, v *ReflV, a []any) any { return v.v })
	refl("String", func(r *Run, v *ReflV, a []any) any {
		if !isString(v.t) {
			return lit("<" + typeStr(v.t) + " Value>")
		}
		return v.v
	})
	refl("Interface", func(r *Run, v *ReflV, a []any) any {
		if _, ok := v.t.Underlying().(*types.Interface); ok {
			return v.v
		}
		return Iface{v.t, v.v}
	})
	refl("Pointer", func(r *Run, v *ReflV, a []any) any {
		switch v.t.Underlying().(type) {
		case *types.Pointer:
			return r.asPtr(v.v)
		}
		r.unsupported("reflect Pointer of %s", typeStr(v.t))
		return nil
	})
	intrinsics["(reflect.Value).UnsafePointer"] = intrinsics["(reflect.Value).Pointer"]
	refl("IsNil", func(r *Run, v *ReflV, a []any) any {
		switch x := v.v.(type) {
		case Ptr:
			return r.p.konst(x.obj == nil)
		case Iface:
			return r.p.konst(x.t == nil)
		case MapV:
			return r.p.konst(x.m == nil)
		case SliceV:
			return r.p.konst(x.obj == nil)
		case *ChanV:
			return r.p.konst(x == nil)
		case *FuncV:
			return r.p.konst(x == nil)
		}
		r.unsupported("IsNil of %T", v.v)
		return nil
	})
	intrinsics["(reflect.Value).IsValid"] = func(r *Run, fn *ssa.Function, a []any) any {
		_, ok := a[0].(*ReflV)
		return r.p.konst(ok)
	}
	refl("Len", func(r *Run, v *ReflV, a []any) any { return r.lenOf(v.v, v.t) })
	refl("Kind", func(r *Run, v *ReflV, a []any) any {
		k, ok := reflKind(v.t)
		if !ok {
			r.unsupported("Kind of %s", typeStr(v.t))
		}
		return KI(k)
	})
	refl("Recv", func(r *Run, v *ReflV, a []any) any {
		h := r.m.hooks.onRecv
		ct, ok := v.t.Underlying().(*types.Chan)
		if h == nil || !ok {
			r.unsupported("reflect Recv")
		}
		x, okb, _ := h(r, v.v, ct.Elem(), r.cur)
		return Tuple{&ReflV{t: ct.Elem(), v: x}, r.p.konst(okb)}
	})
	intrinsics["reflect.Select"] = func(r *Run, fn *ssa.Function, a []any) any {
		h := r.m.hooks.rselect
		if h == nil {
			r.unsupported("reflect.Select")
		}
		var chans []any
		var elems []types.Type
		for _, e := range r.elemsOf(a[0]) {
			s, ok := e.(*StructV)
			if !ok {
				r.unsupported("select case %T", e)
			}
			if d, ok := s.f[0].(KI); !ok || d != 2 { // reflect.SelectRecv
				r.unsupported("reflect.Select with a send or default case")
			}
			v, ok := s.f[1].(*ReflV)
			if !ok {
				chans = append(chans, (*ChanV)(nil))
				elems = append(elems, nil)
				continue
			}
			ct, ok := v.t.Underlying().(*types.Chan)
			if !ok {
				r.gopanic("reflect.Select: channel expected")
			}
			chans = append(chans, v.v)
			elems = append(elems, ct.Elem())
		}
		i, v, ok, handled := h(r, chans)
		if !handled {
			r.unsupported("reflect.Select")
		}
		if !ok {
			v = r.zero(elems[i])
		}
		return Tuple{KI(i), &ReflV{t: elems[i], v: v}, r.p.konst(ok)}
	}

	// sync.WaitGroup
	wgp := func(r *Run, v any) (*world, *int) {
		w := worldOf(r)
		if w == nil {
			return nil, nil
		}
		k := lockKey(r.asPtr(v))
		if w.wgs[k] == nil {
			w.wgs[k] = new(int)
		}
		return w, w.wgs[k]
	}
	intrinsics["(*sync.WaitGroup).Add"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"wgadd", "", a, r.cur})
		if w, n := wgp(r, a[0]); w != nil {
			*n += r.constInt(a[1], "WaitGroup count")
		}
		return nil
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"wgdone", "", a, r.cur})
		if w, n := wgp(r, a[0]); w != nil {
			if *n--; *n < 0 {
				r.gopanic("sync: negative WaitGroup counter")
			}
			if w.cur != nil {
				w.wgvc(n, w.cur)
			}
		}
		return nil
	}
	intrinsics["(*sync.WaitGroup).Wait"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"wgwait", "", a, r.cur})
		if w, n := wgp(r, a[0]); w != nil && w.cur != nil {
			for *n > 0 {
				w.block(&blockOp{kind: "wait", wg: n, pos: r.cur})
			}
			joinVC(w.cur.vc, w.wgVC[n])
		}
		return nil
	}
	intrinsics["(*sync.WaitGroup).Go"] = func(r *Run, fn *ssa.Function, a []any) any {
		r.trace = append(r.trace, Event{"go", "", []any{a[1]}, r.cur})
		w, n := wgp(r, a[0])
		f := a[1].(*FuncV)
		g := f
		if w != nil {
			*n++
			g = &FuncV{fn: f.fn, bind: f.bind, name: f.name}
			g.nat = func(r *Run, args []any, site ssa.Instruction) any {
				v := r.callFunc(f, args, site)
				*n--
				w.wgvc(n, w.cur)
				return v
			}
		}
		if h := r.m.hooks.onGo; h != nil {
			h(r, g, nil, r.cur)
		}
		return nil
	}
}

// litOf is the text of a known string.
func litOf(s *Str) string {
	return s.lit
}

func reflKind(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := int(u.Kind())
		if k >= 1 && k <= 16 { // bool .. complex128: the same numbers as reflect
			return k, true
		}
		switch u.Kind() {
		case types.String:
			return 24, true
		case types.UnsafePointer:
			return 26, true
		}
	case *types.Array:
		return 17, true
	case *types.Chan:
		return 18, true
	case *types.Signature:
		return 19, true
	case *types.Interface:
		return 20, true
	case *types.Map:
		return 21, true
	case *types.Pointer:
		return 22, true
	case *types.Slice:
		return 23, true
	case *types.Struct:
		return 25, true
	}
	return 0, false
}
