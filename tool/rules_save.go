package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C08: saving and restoring

// marshal saves a value with its MarshalBinary method.
func (e *engRun) marshal(t types.Type, v any, key string) (any, bool) {
	fn := e.c.pr.methodByName(t, "MarshalBinary")
	if fn == nil {
		e.c.fail("anchor:"+typeStr(t)+".MarshalBinary", "-", "%s has no method MarshalBinary", typeStr(t))
		return nil, false
	}
	o := e.r.try(fn, []any{v}, nil)
	if o.kind != "return" {
		e.bad(key, o.pos2(e.c), "saving ends in %s", o.String(e.c.pr))
		return nil, false
	}
	if n, ok := e.r.implied(e.r.errNil(o.ret[1])); !ok || !n {
		e.bad(key, e.c.pos(fn.Pos()), "saving fails")
		return nil, false
	}
	return e.r.freezeBytes(o.ret[0]), true
}

// unmarshal restores into v; isNil says whether no error was returned.
func (e *engRun) unmarshal(t types.Type, v, blob any, key string) (isNil, ok bool) {
	fn := e.c.pr.methodByName(t, "UnmarshalBinary")
	if fn == nil {
		e.c.fail("anchor:"+typeStr(t)+".UnmarshalBinary", "-", "%s has no method UnmarshalBinary", typeStr(t))
		return false, false
	}
	o := e.r.try(fn, []any{v, blob}, nil)
	if o.kind != "return" {
		e.bad(key, o.pos2(e.c), "restoring ends in %s", o.String(e.c.pr))
		return false, false
	}
	n, known := e.r.implied(e.r.errNil(o.ret[0]))
	if !known {
		e.bad(key, e.c.pos(fn.Pos()), "it is not determined whether restoring returns an error")
		return false, false
	}
	return n, true
}

// newLike allocates a zero engine of the type of another one.
func (e *engRun) newLike(v any) (any, bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil, false
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		e.c.fail("anchor:engine type", "-", "%s is not a pointer type", typeStr(i.t))
		return nil, false
	}
	o := e.r.newObj(pt.Elem(), e.r.zero(pt.Elem()))
	return Iface{i.t, Ptr{obj: o}}, true
}

// restoreCheck saves the engine, restores it into fresh and into used engines
// and compares.
func (e *engRun) restoreCheck(nSearch int) {
	r, c := e.r, e.c
	orig := e.eng.(Iface)
	blob, ok := e.marshal(orig.t, orig.v, "save")
	if !ok {
		return
	}
	// the target: a zero engine, one holding other content, one used before
	hs := e.hist
	var fresh any
	for k := 0; k < 3; k++ {
		what := []string{"a new engine", "an engine holding other filters", "an engine which was restored before"}[k]
		var target any
		e.hist = append(append([]string{}, hs...), "saving and restoring into "+what)
		switch k {
		case 1:
			uris := map[string][]*Str{}
			for i, n := range []int{1, 2, 4} {
				b := make([]Bit, n)
				for j := range b {
					b[j] = r.p.konst(j%2 == i%2)
				}
				uris[fmt.Sprintf("http://other%d", i)] = []*Str{e.pattern(b)}
			}
			if !e.build(e.subs(uris)) {
				return
			}
			target = e.eng
		case 0:
			if fresh, ok = e.newLike(orig); !ok {
				return
			}
			target = fresh
		default:
			target = fresh
		}
		isNil, ok := e.unmarshal(orig.t, target.(Iface).v, blob, "restore")
		if !ok {
			return
		}
		if !isNil {
			e.bad("restore", c.pos(e.meth("UnmarshalBinary").Pos()), "restoring what was saved returns an error")
			return
		}
		c.count("obligations", 2)
		if d := e.graphDiff(orig, target, e.kind); d != "" {
			e.bad("restore", c.pos(e.meth("UnmarshalBinary").Pos()), "the restored engine differs: %s", d)
			return
		}
		if !e.disjoint("the saved and the restored engine", orig, target) {
			return
		}
	}
	// the restored engine is usable
	e.eng = fresh
	f := e.m.symBits("added", 1)
	if _, ok := e.do("AddSubscription", e.subs(map[string][]*Str{"http://added": {e.pattern(f)}})); !ok {
		return
	}
	if nSearch > 0 {
		e.hist = append(e.hist, "an addition")
		e.applyAdd(f, "http://added")
		e.checkSearch("search after restore", e.m.symBits("idr9", 8))
	}
}

func ruleC08(c *Check) {
	maxN := 3
	if c.thorough() {
		maxN = 4
	}
	for _, kind := range engineNames {
		h := hist{kind: kind, searches: 1, key: "search", then: func(e *engRun) { e.restoreCheck(1) }}
		run := func(lens []int, ops []histOp, ids []int, base int) {
			g := h
			if len(lens) == 3 || len(ids) > 0 {
				g.then = func(e *engRun) { e.restoreCheck(0) }
			}
			g.lens, g.ops, g.ids, g.base = lens, ops, ids, base
			c.history(g)
		}
		for n := 0; n <= maxN; n++ {
			ls := []int{1, 2, 3}
			for _, lens := range lenCombos(ls, n) {
				if !possible(lens) {
					continue
				}
				run(lens, nil, nil, 0)
				if n <= 2 || n == 3 && c.thorough() {
					for _, o := range opChoices(lens, []int{1, 2}) {
						run(lens, []histOp{o}, nil, 0)
					}
				}
			}
		}
		run([]int{1, 2, 3}, nil, nil, 0)
		run([]int{1, 2}, nil, []int{1}, 0)
		run([]int{2, 2}, nil, []int{1}, 0)
		run([]int{1, 3}, nil, nil, 7)
	}
	c.saveSets()
	c.largeSaves()
}

// subject is a value with MarshalBinary and UnmarshalBinary outside engines.
type subject struct {
	name string
	t    types.Type
	mk   func(r *Run, variant int) any // a value, or nil when the variant does not exist
	dst  func(r *Run, variant int) any // a target
	nDst int
	n    int
}

func (c *Check) subjects() []subject {
	var out []subject
	st := c.pr.typ("filtering", "Subscriptions")
	pt := c.pr.typ("filtering", "PartialSubscription")
	bt := c.pr.typ("filtering", "ByteSubscriptions")
	if st == nil || pt == nil || bt == nil {
		c.fail("anchor:subscription types", "-", "the subscription types are not in the program")
		return nil
	}
	mkSub := func(r *Run, k int) any {
		mo := r.newMap()
		if k == 12 { // many
			for i := 0; i < 300; i++ {
				r.mapSet(mo, lit(fmt.Sprintf("http://u%d", i)), r.strSlice([]*Str{atomStr("pattern", i)}))
			}
			return MapV{mo}
		}
		if k == 13 {
			var l []*Str
			for j := 0; j < 300; j++ {
				l = append(l, atomStr("pattern", j))
			}
			r.mapSet(mo, atomStr("uri", 0), r.strSlice(l))
			r.mapSet(mo, atomStr("uri", 1), r.strSlice([]*Str{lit(strings.Repeat("long ", 300)), lit("")}))
			return MapV{mo}
		}
		for i := 0; i < k%4; i++ {
			n := (i + k/4) % 3
			var l []*Str
			for j := 0; j < n; j++ {
				l = append(l, atomStr("pattern", i*10+j))
			}
			r.mapSet(mo, atomStr("uri", i), r.strSlice(l))
		}
		return MapV{mo}
	}
	out = append(out, subject{"Subscriptions", st, mkSub, func(r *Run, k int) any {
		mo := r.newMap()
		for i := 0; i < k; i++ {
			r.mapSet(mo, atomStr("uri", i*2), r.strSlice([]*Str{atomStr("pattern", 90+i)}))
		}
		return MapV{mo}
	}, 3, 14})
	// PartialSubscription by field name
	ps := pt.Underlying().(*types.Struct)
	fi := map[string]int{}
	for i := 0; i < ps.NumFields(); i++ {
		fi[ps.Field(i).Name()] = i
	}
	for _, n := range []string{"Offset", "ReportURI", "Subset"} {
		if _, ok := fi[n]; !ok {
			c.fail("anchor:PartialSubscription."+n, "-", "PartialSubscription has no field %s", n)
			return nil
		}
	}
	var mk func(r *Run, off any, uri *Str, sub any) Ptr
	mk = func(r *Run, off any, uri *Str, sub any) Ptr {
		s := r.zero(pt).(*StructV)
		s.f[fi["Offset"]], s.f[fi["ReportURI"]], s.f[fi["Subset"]] = off, uri, sub
		return Ptr{obj: r.newObj(pt, s)}
	}
	sub := func(r *Run, k int, depth int) any {
		if k == 0 {
			return MapV{}
		}
		mo := r.newMap()
		for i := 1; i < k; i++ {
			var in any = MapV{}
			if depth > 0 {
				m2 := r.newMap()
				r.mapSet(m2, atomStr("filter", 50+i), mk(r, r.havoc(fmt.Sprintf("off%d", 50+i), types.Typ[types.Int]), atomStr("uri", 50+i), MapV{}))
				in = MapV{m2}
			}
			r.mapSet(mo, atomStr("filter", i), mk(r, r.havoc(fmt.Sprintf("off%d", i), types.Typ[types.Int]), atomStr("uri", i), in))
		}
		return MapV{mo}
	}
	out = append(out, subject{"PartialSubscription", types.NewPointer(pt), func(r *Run, k int) any {
		if k == 16 { // many
			mo := r.newMap()
			for i := 0; i < 300; i++ {
				r.mapSet(mo, lit(fmt.Sprintf("%09b", i)), mk(r, KI(i*300), lit(fmt.Sprintf("http://u%d", i)), MapV{}))
			}
			return mk(r, KI(70000), lit(strings.Repeat("http://u/", 100)), MapV{mo})
		}
		if k == 17 { // deep
			var in any = MapV{}
			for i := 40; i > 0; i-- {
				m2 := r.newMap()
				r.mapSet(m2, lit(fmt.Sprintf("%06b", i)), mk(r, KI(i*9), lit(fmt.Sprintf("http://u%d", i)), in))
				in = MapV{m2}
			}
			return mk(r, KI(0), lit(""), in)
		}
		uri := atomStr("uri", 0)
		if k%2 == 1 {
			uri = lit("")
		}
		return mk(r, r.havoc("off0", types.Typ[types.Int]), uri, sub(r, k/2%4, k/8))
	}, func(r *Run, k int) any {
		if k == 0 {
			return mk(r, KI(0), lit(""), MapV{})
		}
		return mk(r, KI(7), atomStr("uri", 99), sub(r, k+1, 0))
	}, 3, 18})
	return out
}

func (c *Check) saveSets() {
	for _, s := range c.subjects() {
		s := s
		for k := 0; k < s.n; k++ {
			for d := 0; d < s.nDst; d++ {
				k, d := k, d
				c.context(fmt.Sprintf("%s variant %d restored into target %d", s.name, k, d), func(m *Machine) {
					m.explore(func(r *Run) {
						e := c.newEngRun(r, s.name)
						e.hist = []string{fmt.Sprintf("making variant %d", k)}
						v := s.mk(r, k)
						blob, ok := e.marshal(s.t, v, "save")
						if !ok {
							return
						}
						t := s.dst(r, d)
						isNil, ok := e.unmarshal(s.t, t, blob, "restore")
						if !ok {
							return
						}
						c.count("obligations", 1)
						if !isNil {
							e.bad("restore", "-", "restoring what was saved returns an error")
							return
						}
						if df := e.graphDiff(v, t, s.name); df != "" {
							e.bad("restore", "-", "the restored value differs: %s", df)
						}
					})
				})
			}
		}
	}
}

// ---- C09: foreign and damaged data

// spots is the indices below n, not all of them when n is large.
func spots(n int) []int {
	var l []int
	for i := 0; i < n; i++ {
		if n <= 300 || i < 60 || i >= n-60 || i%(n/90) == 0 {
			l = append(l, i)
		}
	}
	return l
}

// damaged lists every stream obtained by cutting one of its parts, at any
// depth, or replacing one by bytes no encoder wrote.
func damaged(b *Blob) []*Blob {
	var out []*Blob
	for i := range b.parts {
		out = append(out, &Blob{parts: append([]any{}, b.parts[:i]...)})
		t, ok := b.parts[i].(*Tok)
		if !ok {
			continue
		}
		sub := func(x *Tok) {
			p := append([]any{}, b.parts...)
			p[i] = x
			out = append(out, &Blob{parts: p})
		}
		sub(&Tok{kind: "garbage", name: "damaged", typ: t.typ})
		if t.v != nil && t.v.kind == "bin" {
			if in, ok := t.v.v.(*Blob); ok {
				for _, d := range damaged(in) {
					g := *t.v
					g.v = d
					n := *t
					n.v = &g
					sub(&n)
				}
			}
		}
	}
	return out
}

func (c *Check) mustFail(e *engRun, t types.Type, target, blob any, what string) {
	isNil, ok := e.unmarshal(t, target, blob, "damaged")
	if !ok {
		return
	}
	c.count("obligations", 1)
	if isNil {
		fn := c.pr.methodByName(t, "UnmarshalBinary")
		e.bad("damaged", c.pos(fn.Pos()), "restoring %s returns no error", what)
	}
}

func ruleC09(c *Check) {
	shapes := [][]int{{}, {1}, {1, 2}, {2, 2}, {1, 2, 3}, {-45}}
	for _, kind := range engineNames {
		kind := kind
		for _, lens := range shapes {
			lens := lens
			c.context(fmt.Sprintf("%s with filters of %v bits", kind, lens), func(m *Machine) {
				m.maxPaths = 100000
				engineHooks(m)
				n := 0
				m.explore(func(r *Run) {
					e := c.newEngRun(r, kind)
					l := map[string][]*Str{}
					var fs [][]Bit
					for i, f := range m.filterSet(lens) {
						fs = append(fs, f)
						if i > 32 {
							i = 0
						}
						u := fmt.Sprintf("http://u%d", i)
						l[u] = append(l[u], e.pattern(f))
					}
					e.distinct(fs)
					e.hist = []string{fmt.Sprintf("building from filters of %v bits and saving", lens)}
					if !e.build(e.subs(l)) {
						return
					}
					orig := e.eng.(Iface)
					bl, ok := e.marshal(orig.t, orig.v, "save")
					if !ok {
						return
					}
					blob, ok := bl.(*Blob)
					if !ok {
						c.fail("anchor:saved form", "-", "the saved form of %s is %s, whose elements the analysis does not know", kind, showVal(bl))
						return
					}
					// foreign engines
					hs := e.hist
					for _, k2 := range engineNames {
						if k2 == kind {
							continue
						}
						g := &engRun{c: c, r: r, m: m, kind: k2, pats: map[string][]Bit{}, hist: append(append([]string{}, hs...), "restoring into "+k2)}
						r.user["eng"] = g
						if !g.build(g.subs(nil)) {
							return
						}
						if r.choose(2, "target") == 0 {
							if g.eng, ok = g.newLike(g.eng); !ok {
								return
							}
						}
						c.mustFail(g, g.eng.(Iface).t, g.recv(), blob, "what a "+kind+" saved")
					}
					r.user["eng"] = e
					// a failure at every element
					r.user["decodes"] = 0
					t, ok := e.newLike(orig)
					if !ok {
						return
					}
					if isNil, ok := e.unmarshal(orig.t, t.(Iface).v, blob, "restore"); !ok || !isNil {
						e.bad("restore", "-", "restoring what was saved returns an error")
						return
					}
					total, _ := r.user["decodes"].(int)
					if total < 2 {
						c.fail("instances:decodes", "-", "restoring a %s decodes %d elements", kind, total)
						return
					}
					m.maxSteps = 200000000
					for _, k := range spots(total) {
						r.user["decodes"], r.user["failDecode"] = 0, k
						t, _ := e.newLike(orig)
						c.mustFail(e, orig.t, t.(Iface).v, blob, fmt.Sprintf("data whose element %d cannot be decoded", k))
						delete(r.user, "failDecode")
					}
					// missing or damaged elements
					ds := damaged(blob)
					for _, k := range spots(len(ds)) {
						d := ds[k]
						t, _ := e.newLike(orig)
						c.mustFail(e, orig.t, t.(Iface).v, d, "truncated or damaged data ("+fmt.Sprint(len(d.parts))+" elements)")
						n++
					}
					t, _ = e.newLike(orig)
					c.mustFail(e, orig.t, t.(Iface).v, SliceV{}, "no data")
				})
				c.expect("damaged streams", n, 2)
			})
		}
	}
	for _, s := range c.subjects() {
		s := s
		for k := 0; k < s.n; k++ {
			k := k
			c.context(fmt.Sprintf("damaged %s variant %d", s.name, k), func(m *Machine) {
				m.explore(func(r *Run) {
					e := c.newEngRun(r, s.name)
					e.hist = []string{fmt.Sprintf("saving variant %d", k)}
					bl, ok := e.marshal(s.t, s.mk(r, k), "save")
					if !ok {
						return
					}
					blob, ok := bl.(*Blob)
					if !ok {
						c.fail("anchor:saved form", "-", "the saved form of %s is %s, whose elements the analysis does not know", s.name, showVal(bl))
						return
					}
					r.user["decodes"] = 0
					if _, ok := e.unmarshal(s.t, s.dst(r, 0), blob, "restore"); !ok {
						return
					}
					total, _ := r.user["decodes"].(int)
					m.maxSteps = 200000000
					for _, i := range spots(total) {
						r.user["decodes"], r.user["failDecode"] = 0, i
						c.mustFail(e, s.t, s.dst(r, 0), blob, fmt.Sprintf("data whose element %d cannot be decoded", i))
						delete(r.user, "failDecode")
					}
					l := damaged(blob)
					for _, i := range spots(len(l)) {
						c.mustFail(e, s.t, s.dst(r, 0), l[i], "truncated or damaged data")
					}
				})
			})
		}
	}
}

// ---- C19: names, tags, priorities and numbers

func ruleC19(c *Check) {
	pk := c.pr.pkg("filtering")
	if pk == nil {
		c.fail("anchor:filtering", "-", "package filtering is not in the program")
		return
	}
	g, _ := pk.Members["AvailableEngines"].(*ssa.Global)
	if g == nil {
		c.fail("anchor:AvailableEngines", "-", "filtering.AvailableEngines is not in the program")
		return
	}
	c.context("engine registry", func(m *Machine) {
		engineHooks(m)
		m.explore(func(r *Run) {
			e := c.newEngRun(r, "registry")
			mv, ok := r.load(r.globalAddr(g).(Ptr)).(MapV)
			if !ok || mv.m == nil {
				c.fail("anchor:AvailableEngines", c.pos(g.Pos()), "AvailableEngines is not a map the analysis can enumerate")
				return
			}
			tags := map[string]string{}
			var names []string
			for i, k := range mv.m.keys {
				name := r.needLit(k.(*Str), "engine name")
				names = append(names, name)
				fv, ok := mv.m.vals[i].(*FuncV)
				if !ok || fv == nil {
					c.fail("registry:"+name, c.pos(g.Pos()), "%s has no constructor", name)
					continue
				}
				e.eng = r.callFunc(fv, []any{e.subs(nil)}, nil)
				e.kind = name
				o, ok := e.do("Name")
				if !ok {
					continue
				}
				c.count("obligations", 2)
				if s, ok := o.ret[0].(*Str); !ok || !s.isLit() || s.lit != name {
					c.fail("registry:"+name, c.pos(e.meth("Name").Pos()), "the engine registered as %q calls itself %s", name, showVal(o.ret[0]))
				}
				bl, ok := e.marshal(e.eng.(Iface).t, e.recv(), "save")
				if !ok {
					continue
				}
				b, ok := bl.(*Blob)
				if !ok || len(b.parts) == 0 {
					c.fail("tag:"+name, "-", "the saved form of %s has no first element", name)
					continue
				}
				t, ok := b.parts[0].(*Tok)
				if !ok || t.v == nil || t.v.kind != "basic" {
					c.fail("tag:"+name, "-", "the saved form of %s does not begin with a type tag", name)
					continue
				}
				tag := vkey(t.v.v)
				if p, dup := tags[tag]; dup {
					c.fail("tag:"+name, c.pos(e.meth("MarshalBinary").Pos()), "%s and %s stamp their saved form with the same tag %s", p, name, tag)
				}
				tags[tag] = name
			}
			c.expect("registered engines", len(names), 4)
		})
	})
	names := c.engineNames()
	c.priorities(names)
	c.numbers(names)
}

func init() {
	rules["C08"] = rule{[]string{"./filtering"}, ruleC08, "", absAssum}
	rules["C09"] = rule{[]string{"./filtering"}, ruleC09, "", absAssum}
	rules["C19"] = rule{[]string{"./filtering", "./monitoring"}, ruleC19, "", absAssum}
}
