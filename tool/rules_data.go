package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// legacyScheme says whether an identity of a scheme can match a pattern type.
func legacyScheme(pat, id string) bool {
	if pat == "" {
		pat = "sgtin-96"
	}
	if id == "" {
		id = "sgtin"
	}
	return strings.TrimSuffix(pat, "-96") == id
}

// checkPure reports writes of a search to objects that existed before it.
func (e *engRun) checkPure(n0 int) {
	e.c.count("obligations", 1)
	for o, p := range e.r.mutated {
		if o.id <= n0 {
			e.bad("pure", e.c.pos(p), "the search writes to memory it did not allocate (%s)", typeStr(o.typ))
		}
	}
	for m, p := range e.r.maplog {
		if m.id <= n0 {
			e.bad("pure", e.c.pos(p), "the search writes to a map it did not allocate")
		}
	}
}

// checkResult decides that a search result is consistent.
func (e *engRun) checkResult(o Outcome, pc, id any, tr0 int) {
	r := e.r
	pos := e.c.pos(e.meth("Search").Pos())
	e.c.count("obligations", 1)
	uris, ok := e.uriList(o.ret[1])
	if !ok {
		return
	}
	isNil, known := r.implied(r.errNil(o.ret[2]))
	if !known {
		e.bad("result", pos, "it is not determined whether the search returns an error")
		return
	}
	if len(uris) == 0 {
		if isNil {
			e.bad("result", pos, "a search without a match returns no error")
		}
		return
	}
	for _, u := range uris {
		if u == "" {
			e.bad("result", pos, "the search reports a blank URI")
		}
	}
	if e.trN == tr0 {
		e.bad("result", pos, "a search with a match does not translate the tag")
		return
	}
	if e.trN > tr0+1 {
		e.bad("result", pos, "a search translates the tag %d times", e.trN-tr0)
	}
	if vkey(o.ret[0]) != vkey(e.trRes[0]) {
		e.bad("result", pos, "the search returns the identity %s instead of the translation %s", showVal(o.ret[0]), showVal(e.trRes[0]))
	}
	trNil, _ := r.implied(r.errNil(e.trRes[1]))
	if isNil != trNil {
		e.bad("result", pos, "the search returns an error (%v) unlike the translation (%v)", !isNil, !trNil)
	}
	a := e.trArg[len(e.trArg)-1]
	if d := e.graphDiff(a[1], pc, "PC"); d != "" {
		e.bad("result", pos, "the translated PC is not the PC of the tag: %s", d)
	}
	if d := e.graphDiff(a[2], id, "ID"); d != "" {
		e.bad("result", pos, "the translated ID is not the ID of the tag: %s", d)
	}
	if p, ok := a[0].(Ptr); !ok || p.obj == nil {
		e.bad("result", pos, "the translator is nil")
	}
}

// graphDiff compares two values and all they reach, ignoring the difference
// between nil and empty slices and maps; it returns "" when they are equal on
// every remaining case of the path.
func (e *engRun) graphDiff(a, b any, at string) string {
	return e.r.graphDiff(a, b, at, map[string]bool{})
}

func (r *Run) graphDiff(a, b any, at string, seen map[string]bool) string {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		if x.t == nil || y.t == nil {
			if x.t == nil && y.t == nil {
				return ""
			}
			return at + ": nil against a value"
		}
		if typeStr(x.t) != typeStr(y.t) {
			return at + ": " + typeStr(x.t) + " against " + typeStr(y.t)
		}
		return r.graphDiff(x.v, y.v, at, seen)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		if x == y {
			return ""
		}
		if x.obj == nil {
			return at + " was nil and is not any more"
		}
		if y.obj == nil {
			return at + " is nil"
		}
		k := fmt.Sprintf("%p%x %p%x", x.obj, x.path, y.obj, y.path)
		if seen[k] {
			return ""
		}
		seen[k] = true
		return r.graphDiff(*r.slot(x), *r.slot(y), at, seen)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(y.f) != len(x.f) {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		for i := range x.f {
			if d := r.graphDiff(x.f[i], y.f[i], fmt.Sprintf("%s.field%d", at, i), seen); d != "" {
				return d
			}
		}
		return ""
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(y.e) != len(x.e) {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		for i := range x.e {
			if d := r.graphDiff(x.e[i], y.e[i], fmt.Sprintf("%s[%d]", at, i), seen); d != "" {
				return d
			}
		}
		return ""
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		if x.n != y.n {
			return fmt.Sprintf("%s has %d elements instead of %d", at, y.n, x.n)
		}
		ex, ey := r.arr(x), r.arr(y)
		for i := range ex {
			if d := r.graphDiff(ex[i], ey[i], fmt.Sprintf("%s[%d]", at, i), seen); d != "" {
				return d
			}
		}
		return ""
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		nx, ny := 0, 0
		if x.m != nil {
			nx = len(x.m.keys)
		}
		if y.m != nil {
			ny = len(y.m.keys)
		}
		if nx != ny {
			return fmt.Sprintf("%s has %d entries instead of %d", at, ny, nx)
		}
		for i := 0; i < nx; i++ {
			j := r.mapFind(y.m, x.m.keys[i])
			if j < 0 {
				return at + " lacks the key " + showVal(x.m.keys[i])
			}
			if d := r.graphDiff(x.m.vals[i], y.m.vals[j], at+"["+showVal(x.m.keys[i])+"]", seen); d != "" {
				return d
			}
		}
		return ""
	case *Blob:
		y, ok := b.(*Blob)
		if !ok {
			return fmt.Sprintf("%s: %T against %T", at, a, b)
		}
		return r.blobDiff(x, y, at)
	case nil:
		if b == nil {
			return ""
		}
		return at + ": none against a value"
	}
	if vkey(a) == vkey(b) {
		return ""
	}
	if fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) || isNum(a) && isNum(b) {
		if v, ok := r.implied(r.eqVal(a, b)); ok && v {
			return ""
		}
	}
	return fmt.Sprintf("%s is %s instead of %s", at, showVal(b), showVal(a))
}

// blobDiff compares two encoded streams.
func (r *Run) blobDiff(x, y *Blob, at string) string {
	if len(x.parts) != len(y.parts) {
		return fmt.Sprintf("%s has %d encoded values instead of %d", at, len(y.parts), len(x.parts))
	}
	for i := range x.parts {
		a, ok1 := x.parts[i].(*Tok)
		b, ok2 := y.parts[i].(*Tok)
		if !ok1 || !ok2 {
			if ok1 != ok2 {
				return at + ": encoded value against bytes"
			}
			if sa, ok := x.parts[i].(SE); ok {
				sb, ok := y.parts[i].(SE)
				if !ok {
					return at + ": bytes differ"
				}
				if d := r.graphDiff(mkStr([]SE{sa}), mkStr([]SE{sb}), at, nil); d != "" {
					return d
				}
				continue
			}
			if d := r.graphDiff(x.parts[i], y.parts[i], at, nil); d != "" {
				return d
			}
			continue
		}
		if typeStr(a.typ) != typeStr(b.typ) {
			return at + ": encoded " + typeStr(b.typ) + " instead of " + typeStr(a.typ)
		}
		if d := r.gvDiff(a.v, b.v, fmt.Sprintf("%s value %d", at, i)); d != "" {
			return d
		}
	}
	return ""
}
func (r *Run) gvDiff(a, b *gv, at string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return at + ": nil against a value"
	}
	if a.kind != b.kind || len(a.f) != len(b.f) || len(a.k) != len(b.k) || len(a.name) != len(b.name) {
		return at + ": " + a.kind + " against " + b.kind
	}
	if a.v != nil || b.v != nil {
		if d := r.graphDiff(a.v, b.v, at, map[string]bool{}); d != "" {
			return d
		}
	}
	for i := range a.name {
		if a.name[i] != b.name[i] {
			return at + ": field " + b.name[i] + " instead of " + a.name[i]
		}
	}
	for i := range a.k {
		if d := r.gvDiff(a.k[i], b.k[i], at+" key"); d != "" {
			return d
		}
	}
	for i := range a.f {
		if d := r.gvDiff(a.f[i], b.f[i], at); d != "" {
			return d
		}
	}
	return ""
}

// ---- C14

func ruleC14(c *Check) {
	for _, kind := range []string{"List", "LegacyEngine"} {
		max := 2
		if c.thorough() {
			max = 3
		}
		for n := 0; n <= max; n++ {
			for _, lens := range lenCombos([]int{1, 2}, n) {
				if !possible(lens) {
					continue
				}
				ops := append(opChoices(lens, []int{1, 2}), pairChoices(lens)...)
				if n == 3 {
					ops = pairChoices(lens)
				}
				for _, share := range []bool{false, true} {
					if share && n < 2 {
						continue
					}
					for _, o := range ops {
						c.history(hist{kind: kind, lens: lens, ops: []histOp{o}, ids: []int{1}, searches: 1, key: "content", share: share})
					}
				}
				if n <= 1 {
					for _, o := range ops {
						for _, q := range opChoices(lens, []int{1, 2}) {
							c.history(hist{kind: kind, lens: lens, ops: []histOp{o, q}, ids: []int{1}, searches: 1, key: "content"})
						}
					}
				}
			}
		}
		// three filters of one report URI deleted in one call
		for _, k := range [][]int{{0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {1, 0}} {
			for _, share := range []bool{true, false} {
				var fs []opF
				for _, i := range k {
					fs = append(fs, opF{[]int{1, 2, 3}[i], i})
				}
				c.history(hist{kind: kind, lens: []int{1, 2, 3}, ops: []histOp{{"delete", fs}}, ids: []int{1}, searches: 1, key: "content", share: share})
			}
		}
		c.large(kind, "content", nil)
		// longer IDs and IDs that end early
		c.history(hist{kind: kind, base: 6, lens: []int{1, 2, 3}, ids: []int{0, 1, 2}, searches: 1, key: "search"})
	}
	for _, p := range []string{"sgtin-96", "sscc-96", "grai-96", "giai-96", "iso17363", "iso17365"} {
		for _, s := range []string{"sgtin", "sscc", "grai", "giai", "iso17363", "iso17365"} {
			c.history(hist{kind: "LegacyEngine", lens: []int{1, 2}, ids: []int{1}, searches: 1, key: "search", patType: p, idScheme: s})
		}
	}
}

// ---- C16

func ruleC16(c *Check) {
	for _, kind := range engineNames {
		for _, fails := range []bool{false, true} {
			h := hist{kind: kind, ids: []int{1}, searches: 1, key: "search", consist: true, trFails: fails, pure: kind != "SplayTree"}
			for n := 0; n <= 3; n++ {
				for _, lens := range lenCombos([]int{1, 2, 3}, n) {
					if possible(lens) && (n < 3 || !fails) {
						g := h
						g.lens = lens
						if kind == "SplayTree" {
							g.searches = 2
						}
						c.history(g)
						if n == 2 {
							for _, o := range opChoices(lens, []int{1, 2}) {
								g := g
								g.ops = []histOp{o}
								c.history(g)
							}
						}
					}
				}
			}
			g := h
			g.base, g.lens, g.ids = 6, []int{1, 2, 3}, []int{0, 1, 2, 3}
			c.history(g)
		}
		c.large(kind, "consistent", func(p *plan) bool { return p.base == 0 && p.idBits < 48 })
	}
}

func init() {
	rules["C14"] = rule{[]string{"./filtering"}, ruleC14, "", absAssum}
	rules["C16"] = rule{[]string{"./filtering"}, ruleC16, "", absAssum}
}

// ---- C17: ownership

// reach collects the memory reachable from a value; the translator, which is
// immutable, is not entered.
func (r *Run) reach(v any, objs map[*Obj]bool, maps map[*MapObj]bool) {
	switch x := v.(type) {
	case Iface:
		if x.t != nil {
			r.reach(x.v, objs, maps)
		}
	case Ptr:
		if x.obj == nil || objs[x.obj] {
			return
		}
		if n, ok := x.obj.typ.(*types.Named); ok && n.Obj().Name() == "Core" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/tdt") {
			return
		}
		objs[x.obj] = true
		r.reach(x.obj.v, objs, maps)
	case SliceV:
		if x.obj == nil || objs[x.obj] {
			return
		}
		objs[x.obj] = true
		r.reach(x.obj.v, objs, maps)
	case MapV:
		if x.m == nil || maps[x.m] {
			return
		}
		maps[x.m] = true
		for i := range x.m.keys {
			r.reach(x.m.keys[i], objs, maps)
			r.reach(x.m.vals[i], objs, maps)
		}
	case *StructV:
		for _, f := range x.f {
			r.reach(f, objs, maps)
		}
	case *ArrV:
		for _, f := range x.e {
			r.reach(f, objs, maps)
		}
	case *FuncV:
		if x != nil {
			for _, f := range x.bind {
				r.reach(f, objs, maps)
			}
		}
	case Tuple:
		for _, f := range x {
			r.reach(f, objs, maps)
		}
	}
}

// owned decides that a value and the package state share nothing with the
// caller's set and that the set was not written.
func (e *engRun) owned(what string, v any, sub MapV) bool {
	r := e.r
	e.c.count("obligations", 1)
	so, sm := map[*Obj]bool{}, map[*MapObj]bool{}
	r.reach(sub, so, sm)
	vo, vm := map[*Obj]bool{}, map[*MapObj]bool{}
	r.reach(v, vo, vm)
	for _, g := range r.globals {
		r.reach(Ptr{obj: g}, vo, vm)
	}
	ok := true
	for o := range so {
		if vo[o] {
			e.bad("keeps:"+what, "-", "%s keeps a slice of the caller's subscriptions", what)
			ok = false
		}
		if p, w := r.mutated[o]; w {
			e.bad("writes:"+what, e.c.pos(p), "%s writes to a slice of the caller's subscriptions", what)
			ok = false
		}
	}
	for m := range sm {
		if vm[m] {
			e.bad("keeps:"+what, "-", "%s keeps the caller's subscription map", what)
			ok = false
		}
		if p, w := r.maplog[m]; w {
			e.bad("writes:"+what, e.c.pos(p), "%s writes to the caller's subscription map", what)
			ok = false
		}
	}
	return ok
}

func (e *engRun) callerSub(f [][]Bit, uris []string) MapV {
	l := map[string][]*Str{}
	for i, b := range f {
		l[uris[i]] = append(l[uris[i]], e.pattern(b))
	}
	s := e.subs(l)
	e.r.mutated, e.r.maplog = map[*Obj]token.Pos{}, map[*MapObj]token.Pos{}
	return s
}

// filterSet is a filter of unknown bits for each length, or many known ones.
func (m *Machine) filterSet(lens []int) [][]Bit {
	var fs [][]Bit
	for i, n := range lens {
		src, seen := lcg(5), map[string]bool{}
		for len(seen) < -n {
			t := src.bits(2 + src.n(12))
			if k := len(seen) % 3; k > 0 && len(fs) > 0 { // related to another one
				o := fs[src.n(len(fs))]
				t = ""
				for _, b := range o {
					t += string('0' + map[bool]rune{true: 1}[b == m.p.B1])
				}
				t = t[:1+src.n(len(t))] + src.bits(src.n(4))
			}
			if !seen[t] {
				seen[t] = true
				var f []Bit
				for _, ch := range t {
					f = append(f, m.p.konst(ch == '1'))
				}
				fs = append(fs, f)
			}
		}
		if n > 0 {
			fs = append(fs, m.symBits(fmt.Sprintf("f%d", i), n))
		}
	}
	return fs
}

func ruleC17(c *Check) {
	u := []string{"http://u0", "http://u0", "http://u1"}
	for _, kind := range engineNames {
		for _, kind2 := range engineNames {
			kind, kind2 := kind, kind2
			for _, lens := range [][]int{{1, 2, 2}, {2, 2, 1}, {1, 2, 3}, {-40}} {
				lens := lens
				name, u := fmt.Sprintf("filters of %v bits", lens), u
				if lens[0] < 0 {
					name, u = fmt.Sprintf("%d filters", -lens[0]), nil
					for i := 0; i < -lens[0]; i++ {
						u = append(u, fmt.Sprintf("http://u%d", i%3))
					}
				}
				c.context(fmt.Sprintf("%s then %s from one set of %s", kind, kind2, name), func(m *Machine) {
					m.maxPaths = 200000
					engineHooks(m)
					m.explore(func(r *Run) {
						e := c.newEngRun(r, kind)
						var fs [][]Bit
						fs = append(fs, m.filterSet(lens)...)
						sub := e.callerSub(fs, u)
						if !e.build(sub) || !e.owned("building", e.eng, sub) {
							return
						}
						g := &engRun{c: c, r: r, m: m, kind: kind2, pats: e.pats, nPat: e.nPat}
						sub2 := sub
						if (kind == "LegacyEngine") != (kind2 == "LegacyEngine") {
							sub2 = g.callerSub(fs, u)
						}
						r.user["eng"] = g
						if !g.build(sub2) || !g.owned("building", g.eng, sub2) {
							return
						}
						e.disjoint("two engines built from one set", e.eng, g.eng)
						r.user["eng"] = e
						e.pats, e.nPat = g.pats, g.nPat
						// later changes
						k := r.choose(3, "operation")
						add := e.callerSub([][]Bit{m.symBits("g0", 2), m.symBits("g1", 1), fs[0]}, []string{"http://u0", "http://u0", "http://u2"})
						op := []string{"AddSubscription", "DeleteSubscription", "AddSubscription"}[k]
						arg := add
						if k == 2 {
							arg = sub
						}
						r.mutated, r.maplog = map[*Obj]token.Pos{}, map[*MapObj]token.Pos{}
						if _, ok := e.do(op, arg); !ok {
							return
						}
						if !e.owned(op, e.eng, arg) || !e.owned(op, e.eng, sub) {
							return
						}
						go1, gm1 := map[*Obj]bool{}, map[*MapObj]bool{}
						r.reach(g.eng, go1, gm1)
						for o, p := range r.mutated {
							if go1[o] {
								e.bad("leak", c.pos(p), "%s of one engine writes to another engine", op)
							}
						}
						for o, p := range r.maplog {
							if gm1[o] {
								e.bad("leak", c.pos(p), "%s of one engine writes to another engine", op)
							}
						}
						if k == 0 {
							r.mutated, r.maplog = map[*Obj]token.Pos{}, map[*MapObj]token.Pos{}
							if _, ok := e.do("DeleteSubscription", arg); ok {
								e.owned("DeleteSubscription", e.eng, arg)
							}
						}
					})
				})
			}
		}
	}
	// cloning
	st := c.pr.typ("filtering", "Subscriptions")
	if st == nil {
		c.fail("anchor:Subscriptions", "-", "the type Subscriptions is not in the program")
		return
	}
	cl := c.pr.methodByName(st, "Clone")
	if cl == nil {
		c.fail("anchor:Subscriptions.Clone", "-", "Subscriptions has no method Clone")
		return
	}
	forty := make([]int, 40)
	for i := range forty {
		forty[i] = i % 4
	}
	for n := 0; n <= 4; n++ {
		pers := [][]int{{40}, {3, 150}, forty}
		if n < 4 {
			pers = lenCombos([]int{0, 1, 2}, n)
		}
		for _, per := range pers {
			per := per
			c.context(fmt.Sprintf("clone of a set with %v patterns", per), func(m *Machine) {
				m.explore(func(r *Run) {
					e := c.newEngRun(r, "Subscriptions")
					e.hist = []string{fmt.Sprintf("making a set with %v patterns", per)}
					l := map[string][]*Str{}
					for i, k := range per {
						u := fmt.Sprintf("http://u%d", i)
						l[u] = []*Str{}
						for j := 0; j < k; j++ {
							l[u] = append(l[u], atomStr("pattern", i*1000+j))
						}
					}
					sub := e.subs(l)
					r.mutated, r.maplog = map[*Obj]token.Pos{}, map[*MapObj]token.Pos{}
					o := r.try(cl, []any{sub}, nil)
					if o.kind != "return" {
						e.bad("clone", o.pos2(c), "Clone ends in %s", o.String(c.pr))
						return
					}
					if !e.owned("Clone", o.ret[0], sub) {
						return
					}
					if d := e.graphDiff(sub, o.ret[0], "clone"); d != "" {
						e.bad("clone", c.pos(cl.Pos()), "the clone differs: %s", d)
					}
				})
			})
		}
	}
}

func (e *engRun) disjoint(what string, a, b any) bool {
	e.c.count("obligations", 1)
	ao, am := map[*Obj]bool{}, map[*MapObj]bool{}
	e.r.reach(a, ao, am)
	bo, bm := map[*Obj]bool{}, map[*MapObj]bool{}
	e.r.reach(b, bo, bm)
	for o := range ao {
		if bo[o] {
			e.bad("shared", "-", "%s share memory (%s)", what, typeStr(o.typ))
			return false
		}
	}
	for o := range am {
		if bm[o] {
			e.bad("shared", "-", "%s share a map", what)
			return false
		}
	}
	return true
}

// ---- C18: independence of the map iteration order

func ruleC18(c *Check) {
	for _, kind := range engineNames {
		kind := kind
		for _, lens := range [][]int{{1, 2, 3}, {2, 2, 2}, {1, 2, 2}, {3, 1, 1}, {1, 2}, {-40}} {
			lens := lens
			for opk := 0; opk < 3; opk++ {
				opk := opk
				if !c.thorough() && (lens[0] == 3 || opk > 0 && (lens[0] == 2 || lens[len(lens)-1] == 3)) {
					continue
				}
				c.context(fmt.Sprintf("%s with filters of %v bits, operation %d", kind, lens, opk), func(m *Machine) {
					m.maxPaths = 400000
					m.mapOrder = 3
					engineHooks(m)
					done := 0
					m.explore(func(r *Run) {
						var fs [][]Bit
						fs = append(fs, m.filterSet(lens)...)
						id, g1, g2 := m.symBits("id", 8), m.symBits("g", 2), m.symBits("g2", 1)
						if lens[0] < 0 {
							id, g1, g2 = m.constBits(0xb65, 12), m.constBits(2, 2), m.constBits(13, 9)
						}
						// the filters may coincide, except for a legacy engine where they are text
						outs := [2][]any{}
						names := []string{}
						var e *engRun
						for phase := 0; phase < 2; phase++ {
							r.user["order"] = nil
							if phase == 1 {
								r.user["order"] = map[*ssa.Range]int{}
							}
							e = c.newEngRun(r, kind)
							l := map[string][]*Str{}
							for i, f := range fs {
								u := fmt.Sprintf("http://u%d", i%31)
								l[u] = append(l[u], e.pattern(f))
							}
							e.hist = []string{fmt.Sprintf("building from filters of %v bits", lens)}
							if !e.build(e.subs(l)) {
								return
							}
							names = names[:0]
							obs := func(n string, v any) {
								outs[phase] = append(outs[phase], v)
								names = append(names, n)
							}
							op := map[string][]*Str{"http://n1": {e.pattern(fs[0]), e.pattern(g1)}, "http://n0": {e.pattern(g2)}}
							switch opk {
							case 1:
								if _, ok := e.do("AddSubscription", e.subs(op)); !ok {
									return
								}
								e.hist = append(e.hist, "an addition")
							case 2:
								del := map[string][]*Str{"http://u0": {e.pattern(fs[0])}, "http://u1": {e.pattern(fs[1])}}
								if _, ok := e.do("DeleteSubscription", e.subs(del)); !ok {
									return
								}
								e.hist = append(e.hist, "a deletion")
							}
							for _, n := range []string{"Dump", "MarshalBinary"} {
								o, ok := e.do(n)
								if !ok {
									return
								}
								obs(n, o.ret[0])
							}
							if opk == 0 {
								_, o, ok := e.search(id)
								if !ok {
									return
								}
								obs("Search", o.ret[1])
							}
						}
						done++
						c.count("obligations", len(names))
						for i, n := range names {
							if d := e.graphDiff(outs[0][i], outs[1][i], n); d != "" {
								e.bad("order:"+n, c.pos(e.meth(n).Pos()), "%s depends on the map iteration order: %s", n, d)
							}
						}
					})
					c.expect("completed comparisons", done, 1)
				})
			}
		}
	}
	// key listings and dumps of the sets
	st, bt := c.pr.typ("filtering", "Subscriptions"), c.pr.typ("filtering", "ByteSubscriptions")
	if st == nil || bt == nil {
		c.fail("anchor:Subscriptions", "-", "the subscription types are not in the program")
		return
	}
	for _, lens := range [][]int{{1, 2, 3}, {2, 2, 2}, {1, 1, 2}, {-40}} {
		lens := lens
		c.context(fmt.Sprintf("subscription sets with filters of %v bits", lens), func(m *Machine) {
			m.maxPaths = 400000
			m.mapOrder = 3
			engineHooks(m)
			m.explore(func(r *Run) {
				var fs [][]Bit
				fs = append(fs, m.filterSet(lens)...)
				outs := [2][]any{}
				var names []string
				var e *engRun
				for phase := 0; phase < 2; phase++ {
					r.user["order"] = nil
					if phase == 1 {
						r.user["order"] = map[*ssa.Range]int{}
					}
					e = c.newEngRun(r, "Subscriptions")
					e.hist = []string{fmt.Sprintf("making a set of filters of %v bits", lens)}
					l := map[string][]*Str{}
					for i, f := range fs {
						l[fmt.Sprintf("http://u%d", i)] = []*Str{e.pattern(f)}
					}
					sub := e.subs(l)
					names = names[:0]
					get := func(t types.Type, recv any, n string) any {
						fn := c.pr.methodByName(t, n)
						if fn == nil {
							c.fail("anchor:"+typeStr(t)+"."+n, "-", "%s has no method %s", typeStr(t), n)
							panic(stopT{kind: "infeasible"})
						}
						o := r.try(fn, []any{recv}, nil)
						if o.kind != "return" {
							e.bad(n, o.pos2(c), "%s.%s ends in %s", typeStr(t), n, o.String(c.pr))
							panic(stopT{kind: "infeasible"})
						}
						return o.ret[0]
					}
					obs := func(t types.Type, recv any, n string) {
						outs[phase] = append(outs[phase], get(t, recv, n))
						names = append(names, typeStr(t)+"."+n)
					}
					obs(st, sub, "Keys")
					obs(st, sub, "MarshalBinary")
					obs(st, sub, "Clone")
					obs(st, sub, "ToByteSubscriptions")
					bs := get(st, sub, "ToByteSubscriptions")
					obs(bt, bs, "Keys")
					obs(bt, bs, "Dump")
				}
				c.count("obligations", len(names))
				for i, n := range names {
					if d := e.graphDiff(outs[0][i], outs[1][i], n); d != "" {
						e.bad("order:"+n, "-", "%s depends on the map iteration order: %s", n, d)
					}
				}
			})
		})
	}
}

func init() {
	rules["C17"] = rule{[]string{"./filtering"}, ruleC17, "", absAssum}
	rules["C18"] = rule{[]string{"./filtering"}, ruleC18, "", absAssum}
}

func isNum(v any) bool {
	switch v.(type) {
	case KI, *BV, *Lin, *Term, *LSym, KF:
		return true
	}
	return false
}
