package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- encoding/gob: streams of encoded values

// Tok is one encoded value.
type Tok struct {
	kind string // val, bin, garbage
	name string
	typ  types.Type
	v    *gv
	bin  any // bytes made by a MarshalBinary method
}

// gv is a snapshot of an encoded value.
type gv struct {
	kind string // basic, struct, slice, array, map, bytes, bin, nilptr
	typ  types.Type
	v    any
	name []string // struct field names
	f    []*gv    // fields, elements, map values
	k    []*gv    // map keys
}

func (t *Tok) show() string {
	if t.kind == "garbage" {
		return "garbage " + t.name
	}
	return "gob " + t.kind + " " + typeStr(t.typ) + " " + t.v.key()
}
func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
func (g *gv) key() string {
	if g == nil {
		return "nil"
	}
	var sb strings.Builder
	sb.WriteString(g.kind)
	switch g.kind {
	case "basic":
		sb.WriteString("(" + vkey(g.v) + ")")
	case "bin", "bytes":
		sb.WriteString("(" + blobKey(g.v) + ")")
	}
	for i, f := range g.f {
		if i < len(g.name) {
			sb.WriteString(" " + g.name[i] + ":")
		}
		if i < len(g.k) {
			sb.WriteString(" " + g.k[i].key() + "=>")
		}
		sb.WriteString("{" + f.key() + "}")
	}
	return sb.String()
}
func blobKey(v any) string {
	b, ok := v.(*Blob)
	if !ok {
		return vkey(v)
	}
	var sb strings.Builder
	for _, p := range b.parts {
		if t, ok := p.(*Tok); ok {
			sb.WriteString("[" + t.show() + "]")
		} else if se, ok := p.(SE); ok {
			sb.WriteString(mkStr([]SE{se}).key())
		} else {
			sb.WriteString(vkey(p))
		}
	}
	return sb.String()
}

type gobEnc struct{ w any }
type gobDec struct {
	rd    any
	carry []any
}

func (r *Run) gobSnapshot(v any, t types.Type, top bool) (*gv, any) {
	// marshaller methods
	if m := r.marshaler(t, "GobEncode", "MarshalBinary"); m != nil {
		recv := v
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			if p, ok := v.(Ptr); ok && p.obj == nil {
				return nil, nil
			}
		}
		_, wantPtr := m.Signature.Recv().Type().Underlying().(*types.Pointer)
		if wantPtr {
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				o := r.newObj(t, cloneV(v))
				recv = Ptr{obj: o}
			}
		} else if pt, isPtr := t.Underlying().(*types.Pointer); isPtr {
			_ = pt
			recv = r.load(r.asPtr(v))
		}
		res := tupleOf(r.call(m, []any{recv}, nil, nil))
		if !r.decide(r.errNil(res[1]), "marshal error") {
			return nil, res[1]
		}
		bt := t
		if pt, ok := bt.Underlying().(*types.Pointer); ok {
			bt = pt.Elem()
		}
		return &gv{kind: "bin", typ: bt, v: r.freezeBytes(res[0])}, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := r.asPtr(v)
		if p.obj == nil {
			return nil, nil
		}
		return r.gobSnapshot(r.load(p), u.Elem(), top)
	case *types.Basic:
		return &gv{kind: "basic", typ: t, v: v}, nil
	case *types.Struct:
		sv, ok := v.(*StructV)
		if !ok {
			if o, isO := v.(*Opaque); isO {
				sv = r.havocDeep(o.name, o.typ).(*StructV)
			} else {
				r.unsupported("gob of %T", v)
			}
		}
		g := &gv{kind: "struct", typ: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			switch f.Type().Underlying().(type) {
			case *types.Chan, *types.Signature:
				continue
			}
			x, err := r.gobSnapshot(sv.f[i], f.Type(), false)
			if err != nil {
				return nil, err
			}
			g.name = append(g.name, f.Name())
			g.f = append(g.f, x)
		}
		if len(g.f) == 0 {
			return nil, r.newErr(lit("gob: type " + typeStr(t) + " has no exported fields"))
		}
		return g, nil
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &gv{kind: "bytes", typ: t, v: r.freezeBytes(v)}, nil
		}
		g := &gv{kind: "slice", typ: t}
		if o, ok := v.(*Opaque); ok {
			g.v = o
			return g, nil
		}
		for _, x := range r.elemsOf(v) {
			e, err := r.gobSnapshot(x, u.Elem(), true)
			if err != nil {
				return nil, err
			}
			if e == nil {
				return nil, r.newErr(lit("gob: encodeArray: nil element"))
			}
			g.f = append(g.f, e)
		}
		return g, nil
	case *types.Array:
		g := &gv{kind: "array", typ: t}
		for _, x := range v.(*ArrV).e {
			e, err := r.gobSnapshot(x, u.Elem(), true)
			if err != nil {
				return nil, err
			}
			g.f = append(g.f, e)
		}
		return g, nil
	case *types.Map:
		mv, ok := v.(MapV)
		if !ok {
			r.unsupported("gob of %T", v)
		}
		g := &gv{kind: "map", typ: t}
		if mv.m == nil {
			if !top {
				return &gv{kind: "nilmap", typ: t}, nil
			}
			return g, nil
		}
		r.mapTouch(mv.m, false)
		// gob writes map entries in iteration order
		it := r.rangeOf(mv, nil).(*iterV)
		for len(it.keys) > 0 {
			k := 0
			if r.m.mapOrder == 2 {
				k = r.choose(len(it.keys), "map order")
			}
			key := it.keys[k]
			it.keys = append(append([]any{}, it.keys[:k]...), it.keys[k+1:]...)
			i := r.mapFind(mv.m, key)
			ke, err := r.gobSnapshot(key, u.Key(), true)
			if err != nil {
				return nil, err
			}
			ve, err := r.gobSnapshot(mv.m.vals[i], u.Elem(), true)
			if err != nil {
				return nil, err
			}
			if ve == nil {
				return nil, r.newErr(lit("gob: encodeReflectValue: nil element"))
			}
			g.k = append(g.k, ke)
			g.f = append(g.f, ve)
		}
		return g, nil
	case *types.Interface:
		i, ok := v.(Iface)
		if ok && i.t == nil {
			return nil, nil
		}
		// an interface value needs a registered concrete type
		r.unsupported("gob of interface value")
	case *types.Chan, *types.Signature:
		return nil, r.newErr(lit("gob: type not registered: " + typeStr(t)))
	}
	r.unsupported("gob of %s", t)
	return nil, nil
}

func (r *Run) freezeBytes(v any) any {
	switch x := v.(type) {
	case *Blob, *Opaque:
		return x
	case SliceV:
		return &Blob{parts: r.elemsOf(x)}
	}
	r.unsupported("bytes of %T", v)
	return nil
}

// marshaler finds a marshalling method of T or *T.
func (r *Run) marshaler(t types.Type, names ...string) *ssa.Function {
	bt := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if _, ok := bt.(*types.Named); !ok {
		return nil
	}
	if _, ok := bt.Underlying().(*types.Interface); ok {
		return nil
	}
	for _, n := range names {
		for _, x := range []types.Type{bt, types.NewPointer(bt)} {
			if m := r.m.prog.methodByName(x, n); m != nil {
				return m
			}
		}
	}
	return nil
}

// gobDecodeErr is a fresh decoding error.
func (r *Run) gobErr(what string) any { return r.newErr(lit("gob: " + what)) }

func kindOf(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "?"
	}
	i := b.Info()
	switch {
	case i&types.IsBoolean != 0:
		return "bool"
	case i&types.IsString != 0:
		return "string"
	case i&types.IsUnsigned != 0:
		return "uint"
	case i&types.IsInteger != 0:
		return "int"
	case i&types.IsFloat != 0:
		return "float"
	}
	return "?"
}

// gobStore decodes a snapshot into memory; sendZero is false for struct
// fields, whose zero values are not transmitted.
func (r *Run) gobStore(p Ptr, t types.Type, g *gv, field bool) any {
	if g == nil { // nil pointer or interface: not transmitted
		return nil
	}
	if m := r.marshaler(t, "GobDecode", "UnmarshalBinary"); m != nil {
		if g.kind != "bin" {
			return r.gobErr("wrong type " + typeStr(g.typ) + " for " + typeStr(t))
		}
		var recv any
		_, wantPtr := m.Signature.Recv().Type().Underlying().(*types.Pointer)
		if pt, isPtr := t.Underlying().(*types.Pointer); isPtr {
			q := r.asPtr(r.load(p))
			if q.obj == nil {
				q = Ptr{obj: r.newObj(pt.Elem(), r.zero(pt.Elem()))}
				r.store(p, q)
			}
			recv = q
		} else {
			recv = p
		}
		if !wantPtr {
			// value receiver: gob calls it on the value
			base := recv.(Ptr)
			bv := r.load(base)
			if mv, ok := bv.(MapV); ok && mv.m == nil {
				// a nil map cannot be filled
			}
			recv = bv
		}
		var data any = g.v
		if b, ok := g.v.(*Blob); ok {
			tok := false
			for _, x := range b.parts {
				switch x.(type) {
				case *Tok, SE:
					tok = true
				}
			}
			if !tok {
				data = r.mkBytes(append([]any{}, b.parts...))
			}
		}
		res := r.call(m, []any{recv, data}, nil, nil)
		if !r.decide(r.errNil(res), "unmarshal error") {
			return res
		}
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q := r.asPtr(r.load(p))
		if q.obj == nil {
			q = Ptr{obj: r.newObj(pt.Elem(), r.zero(pt.Elem()))}
			r.store(p, q)
		}
		return r.gobStore(q, pt.Elem(), g, field)
	}
	mismatch := func() any {
		return r.gobErr("decoding into local type *" + typeStr(t) + ", received remote type " + typeStr(g.typ))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if g.kind != "basic" || kindOf(g.typ) != kindOf(t) {
			return mismatch()
		}
		if w, s, ok := intInfo(t); ok {
			w2, _, _ := intInfo(g.typ)
			if w < w2 {
				if k, ok := g.v.(KI); ok {
					if wrapInt(int64(k), w, s) != int64(k) {
						return r.gobErr("value for field out of range")
					}
				} else {
					r.unsupported("narrowing gob decode")
				}
			}
		}
		if field {
			// zero is not transmitted: the previous value stays
			z := r.eqVal(g.v, r.zero(g.typ))
			if v, ok := r.known(z); ok && !v {
				r.store(p, g.v)
				return nil
			}
			old := r.load(p)
			if c, ok := r.known(r.eqVal(old, r.zero(t))); ok && c {
				r.store(p, g.v)
				return nil
			}
			if r.decide(z, "zero field") {
				return nil
			}
		}
		r.store(p, g.v)
		return nil
	case *types.Struct:
		if g.kind != "struct" {
			return mismatch()
		}
		matched := false
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			for k, n := range g.name {
				if n == f.Name() {
					matched = true
					if err := r.gobStore(Ptr{p.obj, addPath(p.path, i)}, f.Type(), g.f[k], true); err != nil {
						return err
					}
				}
			}
		}
		if !matched {
			return r.gobErr("type mismatch: no fields matched compiling decoder for " + typeStr(t))
		}
		return nil
	case *types.Slice:
		b, isB := u.Elem().Underlying().(*types.Basic)
		if isB && b.Kind() == types.Uint8 {
			if g.kind != "bytes" {
				return mismatch()
			}
			bl, ok := g.v.(*Blob)
			if !ok {
				r.store(p, g.v)
				return nil
			}
			if field && len(bl.parts) == 0 {
				return nil
			}
			for _, x := range bl.parts {
				switch x.(type) {
				case *Tok, SE:
					r.store(p, bl)
					return nil
				}
			}
			r.store(p, r.mkBytes(append([]any{}, bl.parts...)))
			return nil
		}
		if g.kind != "slice" {
			return mismatch()
		}
		if g.v != nil {
			r.store(p, g.v)
			return nil
		}
		n := len(g.f)
		if field && n == 0 {
			return nil
		}
		cur, ok := r.load(p).(SliceV)
		if !ok {
			r.unsupported("gob decode into opaque slice")
		}
		if cur.obj == nil || cur.cp < n {
			e := make([]any, n)
			for i := range e {
				e[i] = r.zero(u.Elem())
			}
			cur = r.newSlice(u.Elem(), e)
		} else {
			cur = SliceV{cur.obj, cur.path, cur.off, n, cur.cp}
		}
		r.store(p, cur)
		for i, x := range g.f {
			if err := r.gobStore(r.elemPtr(cur, i), u.Elem(), x, false); err != nil {
				return err
			}
		}
		return nil
	case *types.Array:
		if g.kind != "array" || int(u.Len()) != len(g.f) {
			return mismatch()
		}
		for i, x := range g.f {
			if err := r.gobStore(Ptr{p.obj, addPath(p.path, i)}, u.Elem(), x, false); err != nil {
				return err
			}
		}
		return nil
	case *types.Map:
		if g.kind == "nilmap" {
			return nil
		}
		if g.kind != "map" {
			return mismatch()
		}
		cur, ok := r.load(p).(MapV)
		if !ok {
			r.unsupported("gob decode into opaque map")
		}
		if cur.m == nil {
			cur = MapV{r.newMap()}
			r.store(p, cur)
		}
		for i := range g.k {
			ko := r.newObj(u.Key(), r.zero(u.Key()))
			if err := r.gobStore(Ptr{obj: ko}, u.Key(), g.k[i], false); err != nil {
				return err
			}
			vo := r.newObj(u.Elem(), r.zero(u.Elem()))
			if err := r.gobStore(Ptr{obj: vo}, u.Elem(), g.f[i], false); err != nil {
				return err
			}
			r.mapSet(cur.m, ko.v, vo.v)
		}
		return nil
	}
	r.unsupported("gob decode into %s", t)
	return nil
}

func initGobIntr() {
	intrinsics["encoding/gob.Register"] = func(r *Run, fn *ssa.Function, a []any) any { return nil }
	intrinsics["encoding/gob.NewEncoder"] = func(r *Run, fn *ssa.Function, a []any) any {
		return r.newNat(fn.Signature.Results().At(0).Type(), &gobEnc{a[0]})
	}
	intrinsics["encoding/gob.NewDecoder"] = func(r *Run, fn *ssa.Function, a []any) any {
		return r.newNat(fn.Signature.Results().At(0).Type(), &gobDec{rd: a[0]})
	}
	intrinsics["(*encoding/gob.Encoder).Encode"] = func(r *Run, fn *ssa.Function, a []any) any {
		e := natState(r, a[0], func() *gobEnc { return &gobEnc{} })
		i, ok := a[1].(Iface)
		if !ok || i.t == nil {
			r.gopanic("gob: cannot encode nil pointer")
		}
		if p, isP := i.v.(Ptr); isP && p.obj == nil {
			if _, ok := i.t.Underlying().(*types.Pointer); ok {
				r.gopanic("gob: cannot encode nil pointer of type %s", typeStr(i.t))
			}
		}
		g, err := r.gobSnapshot(i.v, i.t, true)
		if err != nil {
			return err
		}
		bt := i.t
		if pt, ok := bt.Underlying().(*types.Pointer); ok {
			bt = pt.Elem()
		}
		tok := &Tok{kind: "val", typ: bt, v: g}
		if w, ok := e.w.(Iface); ok && w.t != nil && strings.HasSuffix(w.t.String(), "bytes.Buffer") {
			b := natState(r, w.v, mkBuf)
			b.set(r, append(append([]any{}, b.get()...), tok))
			return Iface{}
		}
		res := r.writeTo(e.w, &Blob{parts: []any{tok}}).(Tuple)
		return res[1]
	}
	dec := func(r *Run, fn *ssa.Function, a []any) any {
		d := natState(r, a[0], func() *gobDec { return &gobDec{} })
		k, _ := r.user["decodes"].(int)
		r.user["decodes"] = k + 1
		sites, _ := r.user["decodeSites"].(map[token.Pos]bool)
		if sites == nil {
			sites = map[token.Pos]bool{}
			r.user["decodeSites"] = sites
		}
		sites[r.cur] = true
		if f, ok := r.user["failDecode"].(int); ok && f == k {
			r.user["failedAt"] = r.cur
			if rd, ok := d.rd.(Iface); ok && rd.t != nil {
				if _, isO := rd.v.(*Opaque); !isO { // the element is consumed
					bs := natState(r, rd.v, mkBuf)
					if parts := bs.get(); len(parts) > 0 {
						bs.set(r, append([]any{}, parts[1:]...))
					}
				}
			}
			return r.newErr(lit("gob: injected decoding failure"))
		}
		var bs *bufState
		if rd, ok := d.rd.(Iface); ok && rd.t != nil {
			if _, isO := rd.v.(*Opaque); !isO {
				bs = natState(r, rd.v, mkBuf)
			}
		}
		if bs == nil {
			return r.externCall(fn, "(*encoding/gob.Decoder).Decode", a, nil)
		}
		parts := bs.get()
		if len(parts) == 0 {
			return r.eof()
		}
		tok, ok := parts[0].(*Tok)
		if !ok {
			// bytes which no encoder wrote
			bs.set(r, nil)
			return r.gobErr("bad data")
		}
		if tok.kind == "garbage" {
			bs.set(r, append([]any{}, parts[1:]...))
			return r.gobErr("bad data")
		}
		bs.set(r, append([]any{}, parts[1:]...))
		i, ok := a[1].(Iface)
		if !ok {
			r.unsupported("decode into %T", a[1])
		}
		if i.t == nil {
			return Iface{}
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			if _, isMap := i.t.Underlying().(*types.Map); isMap {
				return r.gobErr("attempt to decode into a non-pointer")
			}
			return r.gobErr("attempt to decode into a non-pointer")
		}
		p := r.asPtr(i.v)
		if p.obj == nil {
			r.gopanic("nil pointer dereference")
		}
		if tok.v == nil {
			return r.gobErr("nil value")
		}
		err := r.gobStore(p, pt.Elem(), tok.v, false)
		if err != nil {
			return err
		}
		return Iface{}
	}
	intrinsics["(*encoding/gob.Decoder).Decode"] = dec
}

// ---- synchronisation

func lockKey(p Ptr) string { return fmt.Sprintf("%p%x", p.obj, p.path) }

func initSyncIntr() {
	ev := func(kind string) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			if p.obj == nil {
				r.gopanic("nil pointer dereference")
			}
			r.trace = append(r.trace, Event{kind, "", []any{p}, r.cur})
			if h := r.m.hooks.onLock; h != nil {
				h(r, kind, p, r.cur)
			}
			return nil
		}
	}
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		intrinsics[t+"Lock"] = ev("lock")
		intrinsics[t+"Unlock"] = ev("unlock")
	}
	intrinsics["(*sync.RWMutex).RLock"] = ev("rlock")
	intrinsics["(*sync.RWMutex).RUnlock"] = ev("runlock")
	type once struct{ done bool }
	intrinsics["(*sync.Once).Do"] = func(r *Run, fn *ssa.Function, a []any) any {
		o := natState(r, a[0], func() *once { return &once{} })
		if !o.done {
			o.done = true
			r.callFunc(a[1].(*FuncV), nil, nil)
		}
		return nil
	}
	// sync.Pool: what was put last comes back first.
	type pool struct{ free []any }
	pl := func(r *Run, a []any) *pool { return natState(r, a[0], func() *pool { return &pool{} }) }
	intrinsics["(*sync.Pool).Put"] = func(r *Run, fn *ssa.Function, a []any) any {
		if i, ok := a[1].(Iface); ok && i.t == nil {
			return nil
		}
		o := pl(r, a)
		o.free = append(o.free, a[1])
		return nil
	}
	intrinsics["(*sync.Pool).Get"] = func(r *Run, fn *ssa.Function, a []any) any {
		o := pl(r, a)
		if n := len(o.free); n > 0 {
			v := o.free[n-1]
			o.free = o.free[:n-1]
			return v
		}
		st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				p := r.asPtr(a[0])
				if f, ok := r.load(Ptr{p.obj, addPath(p.path, i)}).(*FuncV); ok && f != nil {
					return r.callFunc(f, nil, nil)
				}
			}
		}
		return Iface{}
	}
	// sync.Map
	mp := func(r *Run, v any) *MapObj {
		return natState(r, v, func() *MapObj { m := r.newMap(); m.label = "sync.Map"; return m })
	}
	sm := func(n string, f func(r *Run, m *MapObj, a []any) any) {
		intrinsics["(*sync.Map)."+n] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			if p.obj == nil {
				r.gopanic("nil pointer dereference")
			}
			if h := r.m.hooks.onAccess; h != nil {
				h(r, p, n != "Load" && n != "Range", true, r.cur)
			}
			sv := r.m.hooks.onMapAcc
			r.m.hooks.onMapAcc = nil
			defer func() { r.m.hooks.onMapAcc = sv }()
			return f(r, mp(r, a[0]), a)
		}
	}
	sm("Load", func(r *Run, m *MapObj, a []any) any {
		i := r.mapFind(m, a[1])
		if i < 0 {
			return Tuple{Iface{}, r.p.B0}
		}
		return Tuple{m.vals[i], r.p.B1}
	})
	sm("Store", func(r *Run, m *MapObj, a []any) any {
		r.mapSet(m, a[1], a[2])
		r.trace = append(r.trace, Event{"syncmapstore", "", a, r.cur})
		return nil
	})
	sm("Delete", func(r *Run, m *MapObj, a []any) any { r.mapDel(m, a[1]); return nil })
	sm("LoadOrStore", func(r *Run, m *MapObj, a []any) any {
		if i := r.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], r.p.B1}
		}
		r.mapSet(m, a[1], a[2])
		return Tuple{a[2], r.p.B0}
	})
	sm("LoadAndDelete", func(r *Run, m *MapObj, a []any) any {
		i := r.mapFind(m, a[1])
		if i < 0 {
			return Tuple{Iface{}, r.p.B0}
		}
		v := m.vals[i]
		r.mapDel(m, a[1])
		return Tuple{v, r.p.B1}
	})
	sm("Range", func(r *Run, m *MapObj, a []any) any {
		it := r.rangeOf(MapV{m}, nil).(*iterV)
		for len(it.keys) > 0 {
			k := 0
			if r.m.mapOrder == 2 {
				k = r.choose(len(it.keys), "map order")
			}
			key := it.keys[k]
			it.keys = append(append([]any{}, it.keys[:k]...), it.keys[k+1:]...)
			i := r.mapFind(m, key)
			if i < 0 {
				continue
			}
			if !r.decide(r.callFunc(a[1].(*FuncV), []any{key, m.vals[i]}, nil).(Bit), "range") {
				break
			}
		}
		return nil
	})
	// atomics on memory words
	acc := func(r *Run, p Ptr, write bool) *any {
		s := r.slot(p)
		if h := r.m.hooks.onAccess; h != nil {
			h(r, p, write, true, r.cur)
		}
		return s
	}
	addTo := func(r *Run, p Ptr, d any, t types.Type) any {
		s := acc(r, p, true)
		nv := r.binop(token.ADD, *s, d, t, t)
		r.setSlot(s, p.obj, nv)
		r.trace = append(r.trace, Event{"atomicadd", "", []any{p, d}, r.cur})
		return nv
	}
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int64", types.Typ[types.Int64]}, {"Int32", types.Typ[types.Int32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", nil}, {"Bool", nil}, {"Value", nil}} {
		k := k
		// function style
		pre := "sync/atomic."
		intrinsics[pre+"Load"+k.n] = func(r *Run, fn *ssa.Function, a []any) any { return cloneV(*acc(r, r.asPtr(a[0]), false)) }
		intrinsics[pre+"Store"+k.n] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			r.setSlot(acc(r, p, true), p.obj, a[1])
			return nil
		}
		intrinsics[pre+"Swap"+k.n] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			s := acc(r, p, true)
			old := cloneV(*s)
			r.setSlot(s, p.obj, a[1])
			r.trace = append(r.trace, Event{"atomicswap", "", []any{p, a[1]}, r.cur})
			return old
		}
		intrinsics[pre+"CompareAndSwap"+k.n] = func(r *Run, fn *ssa.Function, a []any) any {
			p := r.asPtr(a[0])
			s := acc(r, p, true)
			if r.decide(r.eqVal(*s, a[1]), "compare and swap") {
				r.setSlot(s, p.obj, a[2])
				return r.p.B1
			}
			return r.p.B0
		}
		if k.t != nil {
			intrinsics[pre+"Add"+k.n] = func(r *Run, fn *ssa.Function, a []any) any { return addTo(r, r.asPtr(a[0]), a[1], k.t) }
		}
		// method style: the value is kept in native state so that its
		// representation does not matter
		fld := func(r *Run, fn *ssa.Function, v any) Ptr {
			p := r.asPtr(v)
			if p.obj == nil {
				r.gopanic("nil pointer dereference")
			}
			st, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				r.unsupported("atomic %s", k.n)
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "v" {
					return Ptr{p.obj, addPath(p.path, i)}
				}
			}
			r.unsupported("atomic %s", k.n)
			return Ptr{}
		}
		conv := func(r *Run, v any) any { // the stored representation of Bool
			if b, ok := v.(Bit); ok {
				return b
			}
			return v
		}
		back := func(r *Run, v any) any {
			if k.n == "Bool" {
				if i, ok := v.(KI); ok {
					return r.p.konst(i != 0)
				}
			}
			return v
		}
		for _, recv := range []string{"(*sync/atomic." + k.n + ").", "(*sync/atomic." + k.n + "[T])."} {
			intrinsics[recv+"Load"] = func(r *Run, fn *ssa.Function, a []any) any {
				return back(r, cloneV(*acc(r, fld(r, fn, a[0]), false)))
			}
			intrinsics[recv+"Store"] = func(r *Run, fn *ssa.Function, a []any) any {
				p := fld(r, fn, a[0])
				r.setSlot(acc(r, p, true), p.obj, conv(r, a[1]))
				return nil
			}
			intrinsics[recv+"Swap"] = func(r *Run, fn *ssa.Function, a []any) any {
				p := fld(r, fn, a[0])
				s := acc(r, p, true)
				old := cloneV(*s)
				r.setSlot(s, p.obj, conv(r, a[1]))
				r.trace = append(r.trace, Event{"atomicswap", "", []any{p, a[1]}, r.cur})
				return back(r, old)
			}
			intrinsics[recv+"CompareAndSwap"] = func(r *Run, fn *ssa.Function, a []any) any {
				p := fld(r, fn, a[0])
				s := acc(r, p, true)
				if r.decide(r.eqVal(back(r, *s), a[1]), "compare and swap") {
					r.setSlot(s, p.obj, conv(r, a[2]))
					return r.p.B1
				}
				return r.p.B0
			}
			if k.t != nil {
				intrinsics[recv+"Add"] = func(r *Run, fn *ssa.Function, a []any) any { return addTo(r, fld(r, fn, a[0]), a[1], k.t) }
			}
		}
	}
}
