package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn      *ssa.Function
	info    *fnInfo
	env     []any
	prev    *ssa.BasicBlock
	block   *ssa.BasicBlock
	defers  []deferred
	result  any
	panicV  *goPanic
	recov   bool
	caller  *frame
	inDefer bool
}
type deferred struct {
	fn   *FuncV
	args []any
	bi   *ssa.Builtin
	site ssa.Instruction
	run  func()
}

func (r *Run) call(fn *ssa.Function, args []any, bind []any, site ssa.Instruction) any {
	if fn.Synthetic == "package initializer" {
		return nil // imported packages are initialised when first used
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if h := r.m.hooks.extern; h != nil {
		if v, ok := h(r, fn, name, args, site); ok {
			return v
		}
	}
	if r.m.hist != histOff && r.depth == 0 && r.inInit == 0 && !r.topCall {
		after := r.topLevel(fn, args, bind)
		done := false
		defer func() {
			if !done {
				r.topCall = false
			}
		}()
		v := r.call(fn, args, bind, site)
		done = true
		after()
		r.topCall = false
		return v
	}
	if f := intrinsics[name]; f != nil {
		if r.spec != nil && !pureName(name) {
			panic(specAbort{})
		}
		return f(r, fn, args)
	}
	if !r.m.prog.interpretable(fn) {
		return r.externCall(fn, name, args, site)
	}
	if r.spec != nil && (r.specDepth > 3 || len(fn.Blocks) > 24 || fn.Recover != nil) {
		panic(specAbort{})
	}
	if len(fn.Blocks) == 0 {
		return r.externCall(fn, name, args, site)
	}
	r.m.funcs[fn] = true
	if r.depth > 200 {
		r.stop("budget", "call depth exceeded in %s", fnName(fn))
	}
	r.depth++
	fi := infoOf(fn)
	fr := &frame{fn: fn, info: fi, env: make([]any, fi.n)}
	if len(r.stack) > 0 {
		fr.caller = r.stack[len(r.stack)-1]
	}
	r.stack = append(r.stack, fr)
	for i, p := range fn.Params {
		fr.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.idx[p]] = bind[i]
	}
	savedPos := r.cur
	r.runFrame(fr)
	r.cur = savedPos
	r.stack = r.stack[:len(r.stack)-1]
	r.depth--
	return fr.result
}

func (r *Run) runFrame(fr *frame) {
	defer func() {
		if e := recover(); e != nil {
			gp, ok := e.(goPanic)
			if !ok {
				panic(e)
			}
			// unwind: run the deferred calls
			for len(r.stack) > 0 && r.stack[len(r.stack)-1] != fr {
				r.stack = r.stack[:len(r.stack)-1]
				r.depth--
			}
			fr.panicV = &gp
			r.runDefers(fr)
			if fr.panicV != nil {
				panic(*fr.panicV)
			}
			// recovered
			if fr.fn.Recover != nil {
				fr.block, fr.prev = fr.fn.Recover, nil
				r.execBlocks(fr)
			} else {
				fr.result = r.zeroResults(fr.fn)
			}
		}
	}()
	fr.block = fr.fn.Blocks[0]
	r.execBlocks(fr)
}
func (r *Run) zeroResults(fn *ssa.Function) any {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return r.zero(res.At(0).Type())
	}
	return r.zero(res)
}
func (r *Run) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.inDefer = true
		d.run()
		fr.inDefer = false
	}
}

func (fr *frame) set(v ssa.Value, x any) { fr.env[fr.info.idx[v]] = x }

func (r *Run) get(fr *frame, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Global:
		return r.globalAddr(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.info.idx[v]
	if !ok {
		r.unsupported("value %s", v)
	}
	return fr.env[i]
}

func (r *Run) constVal(c *ssa.Const) any {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		i := tp.Info()
		switch {
		case i&types.IsBoolean != 0:
			return r.p.konst(constant.BoolVal(c.Value))
		case i&types.IsString != 0:
			return lit(constant.StringVal(c.Value))
		case i&types.IsInteger != 0:
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return KI(v)
			}
			v, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return KI(int64(v))
		case i&types.IsFloat != 0:
			v, _ := constant.Float64Val(c.Value)
			return KF(v)
		}
	}
	r.unsupported("constant %s", c)
	return nil
}

func (r *Run) globalAddr(g *ssa.Global) any {
	if o := r.globals[g]; o != nil {
		return Ptr{obj: o}
	}
	if h := r.m.hooks.onGlobal; h != nil {
		if v, ok := h(r, g); ok {
			o := r.newObj(g.Type().(*types.Pointer).Elem(), v)
			o.label = "global:" + g.Name()
			r.globals[g] = o
			return Ptr{obj: o}
		}
	}
	et := g.Type().(*types.Pointer).Elem()
	if !r.m.prog.initable(g.Pkg) {
		o := r.newObj(et, r.havocDeep("global "+g.String(), et))
		o.label = "global:" + g.String()
		r.globals[g] = o
		return Ptr{obj: o}
	}
	if !r.inited[g.Pkg] {
		r.inited[g.Pkg] = true
		for _, m := range g.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok && r.globals[gg] == nil {
				if h := r.m.hooks.onGlobal; h != nil {
					if v, ok := h(r, gg); ok {
						o := r.newObj(gg.Type().(*types.Pointer).Elem(), v)
						o.label = "global:" + gg.Name()
						r.globals[gg] = o
						continue
					}
				}
				o := r.newObj(gg.Type().(*types.Pointer).Elem(), r.zero(gg.Type().(*types.Pointer).Elem()))
				o.label = "global:" + gg.Name()
				r.globals[gg] = o
			}
		}
		sp := r.spec
		r.spec = nil
		acc, mac := r.m.hooks.onAccess, r.m.hooks.onMapAcc
		r.m.hooks.onAccess, r.m.hooks.onMapAcc = nil, nil
		r.initPkg(g.Pkg)
		r.m.hooks.onAccess, r.m.hooks.onMapAcc = acc, mac
		r.spec = sp
	}
	return Ptr{obj: r.globals[g]}
}

// initPkg interprets the initialisers of one package, skipping the imports.
func (r *Run) initPkg(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	saved := r.stack
	pos := r.cur
	r.stack = nil
	r.inInit++
	n0 := r.objN
	fi := infoOf(fn)
	fr := &frame{fn: fn, info: fi, env: make([]any, fi.n)}
	r.stack = append(r.stack, fr)
	r.runFrame(fr)
	r.stack = saved
	r.cur = pos
	r.inInit--
	r.inits = append(r.inits, [2]int{n0, r.objN})
}

func (r *Run) execBlocks(fr *frame) {
	for fr.block != nil {
		b := fr.block
		// phis
		np := 0
		for np < len(b.Instrs) {
			if _, ok := b.Instrs[np].(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 && fr.prev != nil {
			k := -1
			for i, p := range b.Preds {
				if p == fr.prev {
					k = i
				}
			}
			vals := make([]any, np)
			for i := 0; i < np; i++ {
				vals[i] = r.get(fr, b.Instrs[i].(*ssa.Phi).Edges[k])
			}
			for i := 0; i < np; i++ {
				fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
			}
		}
		if r.execFrom(fr, b, np) {
			return
		}
	}
}

// execFrom runs the instructions of a block from index i; true means return.
func (r *Run) execFrom(fr *frame, b *ssa.BasicBlock, i int) bool {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		r.steps++
		if r.steps > r.m.maxSteps {
			panic(stopT{"budget", "step budget exhausted in " + fnName(fr.fn) + " (no termination shown)", r.cur})
		}
		if p := in.Pos(); p.IsValid() {
			r.cur = p
			if posLog != nil {
				posLog.Store(p, true)
			}
		}
		switch x := in.(type) {
		case *ssa.If:
			c := r.norm(r.get(fr, x.Cond).(Bit))
			if _, ok := isConst(c); !ok {
				if mi := fr.info.merge[b]; mi != nil && !r.m.noMerge {
					if vals, done := r.mergeBranch(fr, b, mi, c); done {
						if mi.join == nil {
							switch len(vals) {
							case 0:
								fr.result = nil
							case 1:
								fr.result = vals[0]
							default:
								fr.result = Tuple(vals)
							}
							fr.block = nil
							return true
						}
						for i := range vals {
							fr.set(mi.join.Instrs[i].(*ssa.Phi), vals[i])
						}
						fr.prev, fr.block = nil, mi.join
						return false
					}
				}
			}
			fr.prev = b
			if r.decide(c, "branch") {
				fr.block = b.Succs[0]
			} else {
				fr.block = b.Succs[1]
			}
			return false
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return false
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = r.get(fr, x.Results[0])
			default:
				t := make(Tuple, len(x.Results))
				for i, v := range x.Results {
					t[i] = r.get(fr, v)
				}
				fr.result = t
			}
			fr.block = nil
			return true
		case *ssa.Panic:
			v := r.get(fr, x.X)
			if r.spec != nil {
				panic(specAbort{})
			}
			panic(goPanic{msg: "panic(" + showVal(v) + ")", pos: r.cur, val: v})
		default:
			r.instr(fr, in)
		}
	}
	fr.block = nil
	return true
}

// iteVal joins two values under a condition when the domain can express it.
func (r *Run) iteVal(c Bit, a, b any, t types.Type) (any, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	if comparableVal(a) && comparableVal(b) && a == b {
		return a, true
	}
	switch x := a.(type) {
	case Bit:
		if y, ok := b.(Bit); ok {
			return r.p.ite(c, x, y), true
		}
	case KI, *BV:
		w := 0
		if y, ok := a.(*BV); ok {
			w = len(y.b)
		}
		if y, ok := b.(*BV); ok {
			w = len(y.b)
		}
		signed := false
		if w == 0 {
			w = 64
			signed = true
			if t != nil {
				if ww, s, ok := intInfo(t); ok {
					w, signed = ww, s
				}
			} else {
				ka, ok1 := a.(KI)
				kb, ok2 := b.(KI)
				if !ok1 || !ok2 {
					return nil, false
				}
				if ka >= 0 && ka < 256 && kb >= 0 && kb < 256 {
					w = 64
				}
			}
		}
		p, ok1 := r.toBV(a, w)
		q, ok2 := r.toBV(b, w)
		if ok1 && ok2 {
			n := make([]Bit, w)
			for i := range n {
				n[i] = r.p.ite(c, p.b[i], q.b[i])
			}
			return r.p.simp(&BV{n}, w, signed), true
		}
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x.key() == y.key() {
			return x, true
		}
		if x.concrete() && y.concrete() {
			ex, ey := x.elems(), y.elems()
			if len(ex) == len(ey) && len(ex) > 0 {
				e := make([]SE, len(ex))
				for i := range ex {
					v, ok := r.iteVal(c, widen8(r, ex[i].c), widen8(r, ey[i].c), types.Typ[types.Uint8])
					if !ok {
						return nil, false
					}
					e[i].c = v
				}
				return mkStr(e), true
			}
		}
		if t != nil && (len(x.elems()) == 0 || len(y.elems()) == 0) {
			return nil, false // a string variable which is blank or not
		}
		var px, py []any
		for _, e := range x.elems() {
			px = append(px, e)
		}
		for _, e := range y.elems() {
			py = append(py, e)
		}
		p, ok := r.iteParts(c, px, py, func(g Bit, v any) any {
			if always(g) {
				return SE{c: v}
			}
			return SE{seg: &Seg{kind: "opt", ch: v, g: g}}
		})
		if ok {
			e := make([]SE, len(p))
			for i := range p {
				e[i] = p[i].(SE)
			}
			return mkStr(e), true
		}
	case *BufV:
		y, ok := b.(*BufV)
		if !ok {
			return nil, false
		}
		p, ok := r.iteParts(c, x.parts, y.parts, func(g Bit, v any) any {
			if always(g) {
				return v
			}
			return SE{seg: &Seg{kind: "opt", ch: v, g: g}}
		})
		if ok {
			return &BufV{p}, true
		}
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		var et types.Type = types.Typ[types.Uint8]
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		p, ok := r.iteParts(c, r.arr(x), r.arr(y), func(g Bit, v any) any {
			if always(g) {
				return v
			}
			return &Opt{g, v}
		})
		if ok {
			return r.newSlice(et, p), true
		}
	case *Term, *Lin, KF:
		if vkey(a) == vkey(b) {
			return a, true
		}
	}
	return nil, false
}

// iteParts joins two sequences of bytes which have the same beginning and then
// at most one further element each, which may itself be conditional.
func (r *Run) iteParts(c Bit, x, y []any, mk func(g Bit, v any) any) ([]any, bool) {
	n := 0
	for n < len(x) && n < len(y) && (samePart(x[n], y[n])) {
		n++
	}
	if len(x) > n+1 || len(y) > n+1 {
		if len(x) != len(y) {
			return nil, false
		}
		// the same number of plain bytes
		out := append([]any{}, x[:n]...)
		for i := n; i < len(x); i++ {
			g1, v1, ok1 := r.optPart(x[i])
			g2, v2, ok2 := r.optPart(y[i])
			if !ok1 || !ok2 || !always(g1) || !always(g2) {
				return nil, false
			}
			v, ok := r.iteVal(c, widen8(r, v1), widen8(r, v2), types.Typ[types.Uint8])
			if !ok {
				return nil, false
			}
			out = append(out, mk(r.p.konst(true), v))
		}
		return out, true
	}
	out := append([]any{}, x[:n]...)
	if len(x) == n && len(y) == n {
		return out, true
	}
	zero := r.p.konst(false)
	get := func(l []any) (Bit, any, bool) {
		if len(l) == n {
			return zero, nil, true
		}
		return r.optPart(l[n])
	}
	g1, v1, ok1 := get(x)
	g2, v2, ok2 := get(y)
	if !ok1 || !ok2 {
		return nil, false
	}
	v := v1
	switch {
	case v1 == nil:
		v = v2
	case v2 == nil:
	default:
		var ok bool
		if v, ok = r.iteVal(c, widen8(r, v1), widen8(r, v2), types.Typ[types.Uint8]); !ok {
			return nil, false
		}
	}
	g := r.p.ite(c, g1, g2)
	if k, ok := isConst(g); ok {
		if k {
			return append(out, mk(r.p.konst(true), v)), true
		}
		return out, true
	}
	return append(out, mk(g, v)), true
}

func samePart(a, b any) bool {
	if x, ok := a.(SE); ok {
		y, ok := b.(SE)
		return ok && mkStr([]SE{x}).key() == mkStr([]SE{y}).key()
	}
	if _, ok := b.(SE); ok {
		return false
	}
	return a == b || vkey(a) == vkey(b)
}

// optPart is the guard and the value of a byte which may be absent; the guard
// is true when it is always there.
func (r *Run) optPart(p any) (Bit, any, bool) {
	switch x := p.(type) {
	case *Opt:
		return x.g, x.v, true
	case SE:
		if x.seg != nil {
			if x.seg.kind == "opt" {
				return x.seg.g, x.seg.ch, true
			}
			return Bit{}, nil, false
		}
		return r.optPart(x.c)
	case KI, *BV:
		return r.p.konst(true), p, true
	}
	return Bit{}, nil, false
}

func always(g Bit) bool {
	k, ok := isConst(g)
	return ok && k
}

func widen8(r *Run, v any) any {
	if k, ok := v.(KI); ok {
		return r.p.bvConst(int64(k), 8)
	}
	return v
}

func comparableVal(v any) bool {
	switch v.(type) {
	case KI, KF, Bit, Ptr, SliceV, MapV, *Str, *BV, *Lin, *Term, *FuncV, *ChanV, *Opaque:
		return true
	}
	return false
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *Run) instr(fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		o := r.newObj(et, r.zeroOrNative(et))
		fr.set(x, Ptr{obj: o})
	case *ssa.BinOp:
		fr.set(x, r.binop(x.Op, r.get(fr, x.X), r.get(fr, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.UnOp:
		fr.set(x, r.unop(fr, x))
	case *ssa.Call:
		fr.set(x, r.callCommon(fr, x.Common(), x))
	case *ssa.ChangeInterface:
		fr.set(x, r.get(fr, x.X))
	case *ssa.ChangeType:
		v := r.get(fr, x.X)
		if o, ok := v.(*Opaque); ok {
			v = &Opaque{o.name, x.Type()}
		}
		fr.set(x, v)
	case *ssa.Convert:
		fr.set(x, r.convert(r.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, r.convert(r.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		v := r.get(fr, x.Tuple)
		t, ok := v.(Tuple)
		if !ok {
			r.unsupported("extract from %T", v)
		}
		fr.set(x, t[x.Index])
	case *ssa.Field:
		v := r.get(fr, x.X)
		switch s := v.(type) {
		case *StructV:
			fr.set(x, cloneV(s.f[x.Field]))
		case *Opaque:
			fr.set(x, cloneV(r.havocDeep(s.name, s.typ).(*StructV).f[x.Field]))
		default:
			r.unsupported("field of %T", v)
		}
	case *ssa.FieldAddr:
		p := r.asPtr(r.get(fr, x.X))
		if p.obj == nil {
			r.gopanic("nil pointer dereference (field of nil)")
		}
		fr.set(x, Ptr{p.obj, addPath(p.path, x.Field)})
	case *ssa.Index:
		v := r.get(fr, x.X)
		i := r.get(fr, x.Index)
		fr.set(x, r.index(v, i, x.X.Type()))
	case *ssa.IndexAddr:
		fr.set(x, r.indexAddr(r.get(fr, x.X), r.get(fr, x.Index), x))
	case *ssa.Lookup:
		fr.set(x, r.lookup(r.get(fr, x.X), r.get(fr, x.Index), x))
	case *ssa.MakeChan:
		r.objN++
		nm := r.fresh(fmt.Sprintf("chan@%s", r.m.prog.posShort(x.Pos())))
		fr.set(x, &ChanV{id: r.objN, name: nm, cap: r.get(fr, x.Size)})
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, r.get(fr, b))
		}
		fr.set(x, f)
	case *ssa.MakeInterface:
		v := r.get(fr, x.X)
		fr.set(x, Iface{x.X.Type(), cloneV(v)})
	case *ssa.MakeMap:
		fr.set(x, MapV{r.newMap()})
	case *ssa.MakeSlice:
		n := r.constInt(r.get(fr, x.Len), "make length")
		c := r.constInt(r.get(fr, x.Cap), "make capacity")
		if n < 0 || c < n {
			r.gopanic("makeslice: len out of range")
		}
		if c > 1<<25 {
			r.unsupported("make of %d elements", c)
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		e := make([]any, c)
		for i := range e {
			e[i] = r.zero(et)
		}
		s := r.newSlice(et, e)
		s.n = n
		fr.set(x, s)
	case *ssa.MapUpdate:
		m := r.get(fr, x.Map)
		mv, ok := m.(MapV)
		if !ok {
			if o, isO := m.(*Opaque); isO {
				r.trace = append(r.trace, Event{"mapset", o.name, []any{r.get(fr, x.Key), r.get(fr, x.Value)}, r.cur})
				return
			}
			r.unsupported("map update of %T", m)
		}
		r.mapSet(mv.m, r.get(fr, x.Key), r.get(fr, x.Value))
	case *ssa.Next:
		fr.set(x, r.next(r.get(fr, x.Iter), x))
	case *ssa.Range:
		fr.set(x, r.rangeOf(r.get(fr, x.X), x))
	case *ssa.Slice:
		fr.set(x, r.slice(fr, x))
	case *ssa.SliceToArrayPointer:
		s := r.get(fr, x.X)
		sv, ok := s.(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ok {
			r.unsupported("slice to array pointer")
		}
		if int64(sv.n) < n {
			r.gopanic("slice to array pointer: length %d < %d", sv.n, n)
		}
		if sv.off != 0 || int64(len(r.arr(sv))) != n {
			r.unsupported("slice to array pointer of a window")
		}
		fr.set(x, Ptr{sv.obj, sv.path})
	case *ssa.Store:
		r.store(r.asPtr(r.get(fr, x.Addr)), r.get(fr, x.Val))
	case *ssa.TypeAssert:
		fr.set(x, r.typeAssert(r.get(fr, x.X), x))
	case *ssa.Defer:
		cc := x.Common()
		fn, args, bi := r.prepCall(fr, cc)
		fr.defers = append(fr.defers, deferred{run: func() {
			r.invokePrepared(fr, fn, args, bi, cc, x)
		}, site: x})
	case *ssa.RunDefers:
		r.runDefers(fr)
	case *ssa.Go:
		cc := x.Common()
		if cc.IsInvoke() {
			recv := r.get(fr, cc.Value)
			var args []any
			for _, a := range cc.Args {
				args = append(args, r.get(fr, a))
			}
			r.trace = append(r.trace, Event{"go-invoke", cc.Method.FullName(), append([]any{recv}, args...), x.Pos()})
			return
		}
		fn, args, _ := r.prepCall(fr, cc)
		r.trace = append(r.trace, Event{"go", "", append([]any{fn}, args...), x.Pos()})
		if h := r.m.hooks.onGo; h != nil {
			h(r, fn, args, x.Pos())
		}
	case *ssa.Send:
		ch := r.get(fr, x.Chan)
		v := r.get(fr, x.X)
		r.sendOn(ch, v)
	case *ssa.Select:
		r.selectStmt(fr, x)
	default:
		r.unsupported("instruction %T", in)
	}
}

func (r *Run) sendOn(ch, v any) {
	if r.spec != nil {
		panic(specAbort{})
	}
	r.trace = append(r.trace, Event{"send", chName(ch), []any{ch, cloneV(v)}, r.cur})
	if h := r.m.hooks.onSend; h != nil {
		h(r, ch, v, r.cur)
	}
}
func chName(ch any) string {
	switch c := ch.(type) {
	case *ChanV:
		if c == nil {
			return "nil"
		}
		return c.name
	case *Opaque:
		return c.name
	}
	return "?"
}

func (r *Run) selectStmt(fr *frame, x *ssa.Select) {
	var chans, sends []any
	for _, s := range x.States {
		chans = append(chans, r.get(fr, s.Chan))
		if s.Send != nil {
			sends = append(sends, r.get(fr, s.Send))
		} else {
			sends = append(sends, nil)
		}
	}
	if h := r.m.hooks.onSelect; h != nil {
		i, v, ok, handled := h(r, x, chans, sends)
		if handled {
			t := Tuple{KI(i), r.p.konst(ok)}
			for k, s := range x.States {
				if s.Dir == types.RecvOnly {
					if k == i {
						t = append(t, v)
					} else {
						t = append(t, r.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
					}
				}
			}
			if i >= 0 && x.States[i].Dir == types.SendOnly {
				r.trace = append(r.trace, Event{"send", chName(chans[i]), []any{chans[i], cloneV(sends[i])}, r.cur})
			}
			fr.set(x, t)
			return
		}
	}
	r.unsupported("select statement")
}

func (r *Run) constInt(v any, what string) int {
	switch x := v.(type) {
	case KI:
		return int(x)
	case *BV:
		y := r.nbv(x)
		if k, ok := r.p.simp(y, len(y.b), true).(KI); ok {
			return int(k)
		}
		if s := y.single(); s != nil {
			// partition by value
			d := r.dom(s)
			var vals []uint64
			seen := map[uint64]Set{}
			d.each(func(v byte) {
				u := y.at(v)
				if _, ok := seen[u]; !ok {
					vals = append(vals, u)
				}
				t := seen[u]
				t.add(v)
				seen[u] = t
			})
			if len(vals) <= 64 {
				k := r.choose(len(vals), what)
				if !r.assume(r.p.fnBit(s, seen[vals[k]]), true) {
					panic(stopT{kind: "infeasible"})
				}
				return int(wrapInt(int64(vals[k]), len(y.b), true))
			}
		}
	case *Lin, *Term:
		lo, hi := linOf(v).bounds(r)
		if lo == hi {
			return int(lo)
		}
	}
	r.unsupported("%s is not constant: %s", what, showVal(v))
	return 0
}

func (r *Run) unop(fr *frame, x *ssa.UnOp) any {
	v := r.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return r.load(r.asPtr(v))
	case token.NOT:
		return r.p.not(v.(Bit))
	case token.SUB:
		if isFloat(x.Type()) {
			if k, ok := v.(KF); ok {
				return -k
			}
		}
		return r.binop(token.SUB, r.zero(x.Type()), v, x.Type(), x.Type())
	case token.XOR:
		w, s, _ := intInfo(x.Type())
		if bv, ok := r.toBV(v, w); ok {
			n := make([]Bit, w)
			for i := range n {
				n[i] = r.p.not(bv.b[i])
			}
			return r.p.simp(&BV{n}, w, s)
		}
	case token.ARROW:
		if r.spec != nil {
			panic(specAbort{})
		}
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		var val any
		ok := true
		handled := false
		if h := r.m.hooks.onRecv; h != nil {
			val, ok, handled = h(r, v, et, x.Pos())
		}
		if !handled {
			r.unsupported("receive from %s", chName(v))
		}
		if val == nil {
			val = r.zero(et)
		}
		r.trace = append(r.trace, Event{"recv", chName(v), []any{v, val}, r.cur})
		if x.CommaOk {
			return Tuple{val, r.p.konst(ok)}
		}
		return val
	}
	r.unsupported("unary %s of %T", x.Op, v)
	return nil
}

func (r *Run) index(v, i any, t types.Type) any {
	switch x := v.(type) {
	case *ArrV:
		k := r.boundedIndex(i, len(x.e))
		return cloneV(x.e[k])
	case *Str:
		return r.strIndex(x, i)
	case *Opaque:
		return r.havoc(fmt.Sprintf("%s[%s]", x.name, vkey(i)), t.Underlying().(*types.Array).Elem())
	}
	r.unsupported("index of %T", v)
	return nil
}
func (r *Run) strIndex(x *Str, i any) any {
	e := x.elems()
	if !x.concrete() {
		k, ok := i.(KI)
		if ok && k >= 0 {
			for j := 0; j <= int(k) && j < len(e); j++ {
				if e[j].seg != nil {
					break
				}
				if j == int(k) {
					return e[j].c
				}
			}
		}
		r.unsupported("index %s of %s", showVal(i), showStr(x))
	}
	// table lookup by a one symbol index
	if bv, ok := i.(*BV); ok && x.isLit() {
		bv = r.nbv(bv)
		if s := bv.single(); s != nil {
			in := true
			r.dom(s).each(func(v byte) {
				if bv.at(v) >= uint64(len(e)) {
					in = false
				}
			})
			if in {
				return r.p.simp(r.p.tabulate(s, r.dom(s), 8, func(v byte) int64 { return int64(x.lit[bv.at(v)]) }), 8, false)
			}
		}
	}
	k := r.boundedIndex(i, len(e))
	return e[k].c
}

// boundedIndex resolves an index, panicking when it is out of range.
func (r *Run) boundedIndex(i any, n int) int {
	k := r.constInt(i, "index")
	if k < 0 || k >= n {
		r.gopanic("index out of range [%d] with length %d", k, n)
	}
	return k
}

func (r *Run) indexAddr(v, i any, x *ssa.IndexAddr) any {
	switch s := v.(type) {
	case SliceV:
		k := r.boundedIndex(i, s.n)
		return Ptr{s.obj, addPath(s.path, s.off+k)}
	case Ptr: // pointer to array
		if s.obj == nil {
			r.gopanic("nil pointer dereference")
		}
		a, ok := (*r.slot(s)).(*ArrV)
		if !ok {
			r.unsupported("index of %T", *r.slot(s))
		}
		k := r.boundedIndex(i, len(a.e))
		return Ptr{s.obj, addPath(s.path, k)}
	case *Opaque:
		if _, ok := s.typ.Underlying().(*types.Slice); ok {
			nm := fmt.Sprintf("%s[%s]", s.name, vkey(i))
			o := r.opq[nm]
			if o == nil {
				et := s.typ.Underlying().(*types.Slice).Elem()
				o = r.newObj(et, r.havoc(nm, et))
				r.opq[nm] = o
			}
			return Ptr{obj: o}
		}
		p := r.asPtr(s)
		return r.indexAddr(p, i, x)
	case *Blob:
		r.unsupported("index of encoded bytes")
	}
	r.unsupported("index address of %T", v)
	return nil
}

func (r *Run) lookup(v, k any, x *ssa.Lookup) any {
	switch m := v.(type) {
	case *Str:
		return r.strIndex(m, k)
	case MapV:
		if m.m != nil {
			r.mapTouch(m.m, false)
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		// one symbol key over constant keys and values: pointwise table
		if bv, ok := k.(*BV); ok && m.m != nil && !x.CommaOk {
			if tv, ok := r.mapTable(m.m, bv, vt); ok {
				return tv
			}
		}
		i := r.mapFind(m.m, k)
		var val any
		if i >= 0 {
			val = cloneV(m.m.vals[i])
		} else {
			val = r.zero(vt)
		}
		if x.CommaOk {
			return Tuple{val, r.p.konst(i >= 0)}
		}
		return val
	case *Opaque:
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		nm := fmt.Sprintf("%s[%s]", m.name, vkey(k))
		val := r.havoc(nm, vt)
		if x.CommaOk {
			return Tuple{val, r.p.opaque("ok:" + nm)}
		}
		return val
	}
	r.unsupported("lookup in %T", v)
	return nil
}

func (r *Run) mapTable(m *MapObj, bv *BV, vt types.Type) (any, bool) {
	bv = r.nbv(bv)
	s := bv.single()
	w, sg, ok := intInfo(vt)
	if s == nil || !ok {
		return nil, false
	}
	tab := map[uint64]int64{}
	for i, k := range m.keys {
		ki, ok := k.(KI)
		vi, ok2 := m.vals[i].(KI)
		if !ok || !ok2 {
			return nil, false
		}
		tab[uint64(ki)&(1<<uint(min(len(bv.b), 63))-1)] = int64(vi)
	}
	return r.p.simp(r.p.tabulate(s, r.dom(s), w, func(v byte) int64 { return tab[bv.at(v)] }), w, sg), true
}

type iterV struct {
	keys []any
	m    *MapObj
	str  *Str
	i    int
	opq  *Opaque
	n    int
}

func (r *Run) rangeOf(v any, x *ssa.Range) any {
	switch m := v.(type) {
	case MapV:
		it := &iterV{m: m.m}
		if m.m != nil {
			r.mapTouch(m.m, false)
			it.keys = append([]any{}, m.m.keys...)
		}
		if r.m.mapOrder == 3 && len(it.keys) >= 2 {
			if pol, ok := r.user["order"].(map[*ssa.Range]int); ok {
				k, ok := pol[x]
				if !ok {
					if len(it.keys) > 8 {
						k = r.choose(4, "map order")
					} else {
						k = r.choose(3, "map order")
					}
					pol[x] = k
				}
				n := len(it.keys)
				switch k {
				case 1: // reverse
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
					}
				case 2: // rotate
					it.keys = append(append([]any{}, it.keys[1:]...), it.keys[0])
				case 3: // shuffle
					var l []any
					for i := 0; i < 5; i++ {
						for j := i * 3 % 5; j < n; j += 5 {
							l = append(l, it.keys[j])
						}
					}
					it.keys = l
				}
			}
		}
		if r.m.mapOrder == 1 && len(it.keys) >= 2 {
			if r.choose(2, "map order") == 1 {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
		return it
	case *Str:
		return &iterV{str: m}
	case *Opaque:
		return &iterV{opq: m}
	}
	r.unsupported("range over %T", v)
	return nil
}

func (r *Run) next(itv any, x *ssa.Next) any {
	it := itv.(*iterV)
	tt := x.Type().(*types.Tuple)
	zero := func() any {
		return Tuple{r.p.B0, r.zeroT(tt.At(1).Type()), r.zeroT(tt.At(2).Type())}
	}
	if x.IsString {
		e := it.str.elems()
		if it.i >= len(e) {
			return zero()
		}
		if e[it.i].seg != nil {
			r.unsupported("range over string %s", showStr(it.str))
		}
		c := e[it.i].c
		k := it.i
		it.i++
		return Tuple{r.p.B1, KI(k), r.zext(c, 8, 32)}
	}
	if it.opq != nil {
		// an unknown map: zero to two entries
		if it.n >= 2 || !r.decide(r.p.opaque(fmt.Sprintf("more:%s:%d", it.opq.name, it.n)), "range") {
			return zero()
		}
		it.n++
		return Tuple{r.p.B1, r.havoc(fmt.Sprintf("%s.key%d", it.opq.name, it.n), tt.At(1).Type()), r.havoc(fmt.Sprintf("%s.val%d", it.opq.name, it.n), tt.At(2).Type())}
	}
	for {
		if len(it.keys) == 0 {
			return zero()
		}
		k := 0
		if r.m.mapOrder == 2 {
			k = r.choose(len(it.keys), "map order")
		}
		key := it.keys[k]
		it.keys = append(append([]any{}, it.keys[:k]...), it.keys[k+1:]...)
		// still present?
		for i, x := range it.m.keys {
			if x == key || vkey(x) == vkey(key) {
				return Tuple{r.p.B1, cloneV(key), cloneV(it.m.vals[i])}
			}
		}
	}
}
func (r *Run) zeroT(t types.Type) any {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return r.zero(t)
}

func (r *Run) slice(fr *frame, x *ssa.Slice) any {
	v := r.get(fr, x.X)
	bound := func(b ssa.Value, def int) int {
		if b == nil {
			return def
		}
		return r.constInt(r.get(fr, b), "slice bound")
	}
	switch s := v.(type) {
	case *Str:
		if !s.concrete() {
			// constant cut in the leading bytes
			lead := 0
			for lead < len(s.e) && s.e[lead].seg == nil {
				lead++
			}
			if x.High == nil && x.Low != nil {
				lo := r.constInt(r.get(fr, x.Low), "slice bound")
				if lo <= lead {
					return mkStr(append([]SE{}, s.e[lo:]...))
				}
			}
			if x.Low == nil && x.High != nil {
				// cutting bytes from the end
				hv := linOf(r.get(fr, x.High))
				d := linAdd(linOf(r.strLen(s)), hv, -1)
				if len(d.t) == 0 && d.c >= 0 {
					n := int(d.c)
					ok := true
					for i := len(s.e) - n; i < len(s.e); i++ {
						if i < 0 || s.e[i].seg != nil {
							ok = false
						}
					}
					if ok {
						return mkStr(append([]SE{}, s.e[:len(s.e)-n]...))
					}
				}
			}
			r.unsupported("slice of %s", showStr(s))
		}
		n := len(s.elems())
		lo := bound(x.Low, 0)
		hi := bound(x.High, n)
		if lo < 0 || hi > n || lo > hi {
			r.gopanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
		return r.substr(s, lo, hi)
	case SliceV:
		lo := bound(x.Low, 0)
		hi := bound(x.High, s.n)
		mx := bound(x.Max, s.cp)
		if lo < 0 || hi > s.cp || lo > hi || mx > s.cp || hi > mx {
			r.gopanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cp)
		}
		if s.obj == nil {
			return s
		}
		return SliceV{s.obj, s.path, s.off + lo, hi - lo, mx - lo}
	case Ptr:
		if s.obj == nil {
			r.gopanic("nil pointer dereference")
		}
		a, ok := (*r.slot(s)).(*ArrV)
		if !ok {
			r.unsupported("slice of %T", *r.slot(s))
		}
		lo := bound(x.Low, 0)
		hi := bound(x.High, len(a.e))
		mx := bound(x.Max, len(a.e))
		if lo < 0 || hi > len(a.e) || lo > hi || mx > len(a.e) {
			r.gopanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return SliceV{s.obj, s.path, lo, hi - lo, mx - lo}
	case *Opaque:
		if x.Low == nil && x.High == nil {
			return s
		}
	case *Blob:
		if x.Low == nil && x.High == nil {
			return s
		}
	}
	r.unsupported("slice of %T", v)
	return nil
}

// implements reports whether a dynamic type satisfies an interface.
func implements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

func (r *Run) typeAssert(v any, x *ssa.TypeAssert) any {
	at := x.AssertedType
	fail := func(have string) any {
		if x.CommaOk {
			return Tuple{r.zero(at), r.p.B0}
		}
		r.gopanic("interface conversion: %s is not %s", have, at)
		return nil
	}
	ok := func(v any) any {
		if x.CommaOk {
			return Tuple{v, r.p.B1}
		}
		return v
	}
	switch i := v.(type) {
	case Iface:
		if i.t == nil {
			return fail("nil")
		}
		if it, isI := at.Underlying().(*types.Interface); isI {
			if implements(i.t, it) {
				return ok(i)
			}
			return fail(i.t.String())
		}
		if types.Identical(i.t, at) {
			return ok(cloneV(i.v))
		}
		return fail(i.t.String())
	case *Opaque:
		c := r.p.opaque(fmt.Sprintf("is:%s:%s", i.name, at))
		if r.decide(c, "type assertion") {
			if _, isI := at.Underlying().(*types.Interface); isI {
				return ok(i)
			}
			return ok(r.havoc(i.name+".("+at.String()+")", at))
		}
		return fail("opaque")
	}
	r.unsupported("type assertion on %T", v)
	return nil
}

// prepCall evaluates the callee and the arguments.
func (r *Run) prepCall(fr *frame, cc *ssa.CallCommon) (*FuncV, []any, *ssa.Builtin) {
	var args []any
	if cc.IsInvoke() {
		recv := r.get(fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, r.get(fr, a))
		}
		return r.resolveInvoke(recv, cc, args)
	}
	for _, a := range cc.Args {
		args = append(args, r.get(fr, a))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, bi
	}
	f := r.get(fr, cc.Value)
	switch fv := f.(type) {
	case *FuncV:
		return fv, args, nil
	case *Opaque:
		return &FuncV{name: fv.name, nat: func(r *Run, a []any, site ssa.Instruction) any {
			r.trace = append(r.trace, Event{"callopaque", fv.name, a, r.cur})
			return r.havocResults(fv.name, cc.Signature())
		}}, args, nil
	}
	r.unsupported("call of %T", f)
	return nil, nil, nil
}

func (r *Run) havocResults(name string, sig *types.Signature) any {
	res := sig.Results()
	nm := r.fresh(name)
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return r.havoc(nm, res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = r.havoc(fmt.Sprintf("%s.%d", nm, i), res.At(i).Type())
	}
	return t
}

func (r *Run) resolveInvoke(recv any, cc *ssa.CallCommon, args []any) (*FuncV, []any, *ssa.Builtin) {
	switch i := recv.(type) {
	case Iface:
		if i.t == nil {
			r.gopanic("nil pointer dereference (method %s of nil interface)", cc.Method.Name())
		}
		if o, ok := i.v.(*Opaque); ok {
			if _, isI := i.t.Underlying().(*types.Interface); isI {
				return r.resolveInvoke(o, cc, args)
			}
		}
		ms := r.m.prog.method(i.t, cc.Method)
		if ms == nil {
			r.unsupported("method %s of %s", cc.Method.Name(), i.t)
		}
		return &FuncV{fn: ms}, append([]any{cloneV(i.v)}, args...), nil
	case *Opaque:
		m := cc.Method
		return &FuncV{name: m.FullName(), nat: func(r *Run, a []any, site ssa.Instruction) any {
			if h := r.m.hooks.invoke; h != nil {
				if v, ok := h(r, i, m, a, site); ok {
					return v
				}
			}
			if r.spec != nil {
				panic(specAbort{})
			}
			if m.FullName() == "(context.Context).Err" { // contexts are not cancelled
				return Iface{}
			}
			r.trace = append(r.trace, Event{"invoke", m.FullName(), append([]any{i}, a...), r.cur})
			return r.havocResults(m.FullName(), m.Type().(*types.Signature))
		}}, args, nil
	}
	r.unsupported("method call on %T", recv)
	return nil, nil, nil
}

func (r *Run) callCommon(fr *frame, cc *ssa.CallCommon, site ssa.Instruction) any {
	fn, args, bi := r.prepCall(fr, cc)
	return r.invokePrepared(fr, fn, args, bi, cc, site)
}
func (r *Run) invokePrepared(fr *frame, fn *FuncV, args []any, bi *ssa.Builtin, cc *ssa.CallCommon, site ssa.Instruction) any {
	if bi != nil {
		return r.builtin(fr, bi, args, cc)
	}
	return r.callFunc(fn, args, site)
}
func (r *Run) callFunc(fn *FuncV, args []any, site ssa.Instruction) any {
	if fn == nil {
		r.gopanic("call of nil function")
	}
	if fn.nat != nil {
		return fn.nat(r, args, site)
	}
	// bound intrinsics and wrappers resolve through call
	return r.call(fn.fn, args, fn.bind, site)
}

func (r *Run) builtin(fr *frame, bi *ssa.Builtin, args []any, cc *ssa.CallCommon) any {
	switch bi.Name() {
	case "len":
		return r.lenOf(args[0], cc.Args[0].Type())
	case "cap":
		switch s := args[0].(type) {
		case SliceV:
			return KI(s.cp)
		case *ArrV:
			return KI(len(s.e))
		}
	case "append":
		return r.appendTo(args[0], args[1], cc.Args[0].Type())
	case "copy":
		if r.spec != nil {
			panic(specAbort{})
		}
		dst, ok := args[0].(SliceV)
		if !ok {
			break
		}
		var src []any
		if s, ok := args[1].(*Str); ok {
			if !s.concrete() {
				r.unsupported("copy from %s", showStr(s))
			}
			for _, e := range s.elems() {
				src = append(src, e.c)
			}
		} else {
			src = r.elemsOf(args[1])
		}
		n := min(len(src), dst.n)
		for i := 0; i < n; i++ {
			r.store(Ptr{dst.obj, addPath(dst.path, dst.off+i)}, src[i])
		}
		return KI(n)
	case "delete":
		switch m := args[0].(type) {
		case MapV:
			r.mapDel(m.m, args[1])
			return nil
		case *Opaque:
			r.trace = append(r.trace, Event{"mapdel", m.name, []any{args[1]}, r.cur})
			return nil
		}
	case "print", "println":
		return nil
	case "close":
		if r.spec != nil {
			panic(specAbort{})
		}
		r.trace = append(r.trace, Event{"close", chName(args[0]), args, r.cur})
		if h := r.m.hooks.onClose; h != nil {
			h(r, args[0], r.cur)
		}
		return nil
	case "panic":
		panic(goPanic{msg: "panic(" + showVal(args[0]) + ")", pos: r.cur, val: args[0]})
	case "recover":
		// the frame whose defers are running
		for i := len(r.stack) - 1; i >= 0; i-- {
			f := r.stack[i]
			if f.panicV != nil && f.inDefer {
				v := f.panicV.val
				if v == nil {
					v = Iface{types.Universe.Lookup("error").Type(), r.newErr(lit("runtime error: " + f.panicV.msg))}
					v = r.newErr(lit("runtime error: " + f.panicV.msg))
				}
				f.panicV = nil
				return v
			}
		}
		return Iface{}
	case "min", "max":
		x := args[0]
		for _, y := range args[1:] {
			less := r.binop(token.LSS, y, x, cc.Args[0].Type(), cc.Args[0].Type()).(Bit)
			if bi.Name() == "max" {
				less = r.binop(token.LSS, x, y, cc.Args[0].Type(), cc.Args[0].Type()).(Bit)
			}
			if r.decide(less, bi.Name()) {
				x = y
			}
		}
		return x
	case "clear":
		switch m := args[0].(type) {
		case MapV:
			if m.m != nil {
				r.mapTouch(m.m, true)
				m.m.keys, m.m.vals = nil, nil
			}
			return nil
		case SliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < m.n; i++ {
				r.store(Ptr{m.obj, addPath(m.path, m.off+i)}, r.zero(et))
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			r.gopanic("nil pointer dereference (value method called through nil pointer)")
		}
		return args[0]
	}
	r.unsupported("builtin %s on %T", bi.Name(), args[0])
	return nil
}

func (r *Run) lenOf(v any, t types.Type) any {
	switch s := v.(type) {
	case *Str:
		return r.strLen(s)
	case SliceV:
		var l *Lin
		for _, e := range r.arr(s) {
			if o, ok := e.(*Opt); ok {
				if l == nil {
					l = &Lin{c: float64(s.n)}
				}
				l = linAdd(l, &Lin{c: 1}, -1)
				l = linAdd(l, linOf(&LSym{"has" + bkey(o.g), 0, 1}), 1)
			}
		}
		if l != nil {
			return linVal(l)
		}
		return KI(s.n)
	case MapV:
		if s.m == nil {
			return KI(0)
		}
		r.mapTouch(s.m, false)
		return KI(len(s.m.keys))
	case *ArrV:
		return KI(len(s.e))
	case Ptr:
		return KI(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *Opaque:
		return &LSym{"len(" + s.name + ")", 0, maxI}
	case *Blob:
		return &LSym{fmt.Sprintf("len(blob%p)", s), 1, maxI}
	case *ChanV:
		return &LSym{"len(" + s.name + ")", 0, maxI}
	}
	r.unsupported("len of %T", v)
	return nil
}

func (r *Run) appendTo(a, b any, t types.Type) any {
	et := t.Underlying().(*types.Slice).Elem()
	var add []any
	switch x := b.(type) {
	case *Str:
		if !x.concrete() {
			r.unsupported("append of %s", showStr(x))
		}
		for _, e := range x.elems() {
			add = append(add, e.c)
		}
	case SliceV:
		add = r.elemsOf(x)
	default:
		if ao, ok := a.(SliceV); ok && ao.n == 0 {
			if _, ok := b.(*Opaque); ok {
				return b
			}
		}
		r.unsupported("append of %T", b)
	}
	s, ok := a.(SliceV)
	if !ok {
		r.unsupported("append to %T", a)
	}
	if len(add) == 0 {
		return s
	}
	if s.obj != nil && s.n+len(add) <= s.cp && r.spec == nil {
		for i, v := range add {
			r.store(Ptr{s.obj, addPath(s.path, s.off+s.n+i)}, v)
		}
		return SliceV{s.obj, s.path, s.off, s.n + len(add), s.cp}
	}
	// grow: capacity doubles, so that aliasing through spare capacity shows
	old := r.elemsOf(s)
	n := s.n + len(add)
	c := growCap(s.cp, n)
	e := make([]any, c)
	copy(e, old)
	for i, v := range add {
		e[s.n+i] = cloneV(v)
	}
	for i := n; i < c; i++ {
		e[i] = r.zero(et)
	}
	ns := r.newSlice(et, e)
	ns.n = n
	return ns
}
func growCap(old, need int) int {
	c := old * 2
	if c < need {
		c = need
	}
	return c
}

// callSig is used by reports.
func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
