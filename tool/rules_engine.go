package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine rules drive the exported operations of the engines (constructor,
// AddSubscription, DeleteSubscription, Search) on filters and IDs whose bits
// are all symbolic. tdt.MakePrefixFilterString and Core.Translate, which other
// properties decide, are replaced by summaries: the first returns the filter
// the context assigns to the pattern, the second an arbitrary result.

// stored is one filter an engine is expected to hold.
type stored struct {
	bits []Bit
	uri  string
}

// engRun is one abstract history of an engine.
type engRun struct {
	c     *Check
	r     *Run
	m     *Machine
	kind  string // engine name
	eng   any
	pats  map[string][]Bit
	nPat  int
	want  []stored
	trN   int
	hist  []string
	trRes []any // results of the last translation
	trArg [][]any
	h     hist
	idStr *Str // identity the summary of Translate returns, if fixed
}

// engineTypes maps registered engine names to constructor and type names.
var engineTypes = map[string][2]string{
	"PatriciaTrie": {"NewPatriciaTrie", "PatriciaTrie"},
	"SplayTree":    {"NewSplayTree", "SplayTree"},
	"List":         {"NewList", "List"},
	"LegacyEngine": {"NewLegacyEngine", "LegacyEngine"},
}
var engineNames = []string{"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}

func (c *Check) newEngRun(r *Run, kind string) *engRun {
	e := &engRun{c: c, r: r, m: r.m, kind: kind, pats: map[string][]Bit{}}
	r.user["eng"] = e
	return e
}

// engineHooks installs the summaries.
func engineHooks(m *Machine) {
	m.hooks.extern = func(r *Run, fn *ssa.Function, name string, args []any, site ssa.Instruction) (any, bool) {
		e, _ := r.user["eng"].(*engRun)
		if e == nil {
			return nil, false
		}
		switch name {
		case modPath + "/tdt.MakePrefixFilterString":
			if r.spec != nil {
				panic(specAbort{})
			}
			typ := args[0].(*Str)
			el := r.elemsOf(args[1])
			if !typ.isLit() || len(el) != 1 || typ.lit != "f" {
				return nil, false
			}
			f, ok := el[0].(*Str)
			if !ok || !f.isLit() {
				return nil, false
			}
			b, ok := e.pats[f.lit]
			if !ok {
				return Tuple{lit(""), r.newErr(lit("bad pattern"))}, true
			}
			return Tuple{r.bitChars(b), Iface{}}, true
		case "(*" + modPath + "/tdt.Core).Translate":
			if r.spec != nil {
				panic(specAbort{})
			}
			e.trN++
			res := []any{opqStr(fmt.Sprintf("identity%d", e.trN)), any(Iface{})}
			if e.idStr != nil {
				res[0] = e.idStr
			}
			if e.r.user["translateFails"] == true {
				res = []any{lit(""), r.newErr(lit("untranslatable"))}
			}
			e.trRes = res
			e.trArg = append(e.trArg, append([]any{}, args...))
			return Tuple(append([]any{}, res...)), true
		}
		return nil, false
	}
}

// pattern registers a filter and returns the pattern that compiles to it.
func (e *engRun) pattern(bits []Bit) *Str {
	if e.kind == "LegacyEngine" {
		// the fields of the pattern are the characters of the bits
		t := e.h.patType
		if t == "" {
			t = "sgtin-96"
		}
		pre := "urn:epc:pat:" + t + ":3."
		if strings.HasPrefix(t, "iso") {
			pre = "urn:epc:pat:" + t + ":"
		}
		return catStr(lit(pre), e.r.bitChars(bits))
	}
	return lit(e.patternAtom(bits))
}
func (e *engRun) patternAtom(bits []Bit) string {
	e.nPat++
	k := fmt.Sprint(e.nPat)
	e.pats[k] = bits
	return "urn:epc:pat:f:" + k
}

// subs builds a Subscriptions map.
func (e *engRun) subs(l map[string][]*Str) MapV {
	mo := e.r.newMap()
	mo.label = "caller's subscriptions"
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := e.r.strSlice(l[k])
		// leave spare capacity: an append to the caller's slice is visible
		if s.obj != nil {
			a := s.obj.v.(*ArrV)
			a.e = append(a.e, lit("spare"), lit("spare"))
			s.obj.typ = types.NewArray(types.Typ[types.String], int64(len(a.e)))
			s.cp = len(a.e)
		}
		if s.obj != nil {
			s.obj.label = "caller's slice"
		}
		e.r.mapSet(mo, lit(k), s)
	}
	return MapV{mo}
}

// sure decides a condition exactly, forking only when both values are possible.
func (r *Run) sure(b Bit, what string) bool {
	if v, ok := r.implied(b); ok {
		return v
	}
	return r.decide(b, what)
}

// assumeThat restricts the path.
func (r *Run) assumeThat(b Bit) {
	if v, ok := r.implied(b); ok {
		if !v {
			panic(stopT{kind: "infeasible"})
		}
		return
	}
	if !r.assume(b, true) {
		panic(stopT{kind: "infeasible"})
	}
}

func (r *Run) bitsEq(a, b []Bit) Bit {
	if len(a) != len(b) {
		return r.p.B0
	}
	x := r.p.B1
	for i := range a {
		x = r.p.and(x, r.p.eq(a[i], b[i]))
	}
	return x
}

// distinct restricts the path to filters that differ pairwise.
func (e *engRun) distinct(fs [][]Bit) {
	for i := range fs {
		for j := 0; j < i; j++ {
			e.r.assumeThat(e.r.p.not(e.r.bitsEq(fs[i], fs[j])))
		}
	}
}

// bitsLess orders bit strings of one length.
func (r *Run) bitsLess(a, b []Bit) Bit {
	x := r.p.B0
	for i := len(a) - 1; i >= 0; i-- {
		x = r.p.or(r.p.and(r.p.not(a[i]), b[i]), r.p.and(r.p.eq(a[i], b[i]), x))
	}
	return x
}

// prefixBits says that ID bits begin with the filter.
func (r *Run) prefixBits(id, f []Bit) Bit {
	if len(id) < len(f) {
		return r.p.B0
	}
	return r.bitsEq(id[:len(f)], f)
}

func (e *engRun) meth(name string) *ssa.Function {
	if p, ok := e.eng.(Iface); ok && p.t != nil {
		if f := e.c.pr.methodByName(p.t, name); f != nil {
			return f
		}
	}
	return nil
}
func (e *engRun) recv() any { return e.eng.(Iface).v }

// build constructs the engine from the given subscriptions.
func (e *engRun) build(sub MapV) bool {
	fn := e.c.pr.fn("filtering", engineTypes[e.kind][0])
	if fn == nil {
		e.c.fail("anchor:"+e.kind, "-", "constructor %s is not in the program", engineTypes[e.kind][0])
		return false
	}
	o := e.r.try(fn, []any{sub}, nil)
	if o.kind != "return" {
		e.bad("build", o.pos2(e.c), "building ends in %s", o.String(e.c.pr))
		return false
	}
	eng, ok := o.ret[0].(Iface)
	if !ok || eng.t == nil {
		e.bad("build", "-", "the constructor does not return an engine")
		return false
	}
	e.eng = eng
	return true
}
func (o Outcome) pos2(c *Check) string { return c.pos(o.pos) }

// do calls a method of the engine.
func (e *engRun) do(name string, args ...any) (Outcome, bool) {
	fn := e.meth(name)
	if fn == nil {
		e.c.fail("anchor:"+e.kind+"."+name, "-", "%s has no method %s", e.kind, name)
		return Outcome{}, false
	}
	o := e.r.try(fn, append([]any{e.recv()}, args...), nil)
	if o.kind != "return" {
		e.bad(name, o.pos2(e.c), "%s ends in %s", name, o.String(e.c.pr))
		return o, false
	}
	return o, true
}

// bad reports a violation on a feasible path.
func (e *engRun) bad(key, pos, f string, a ...any) {
	if !e.r.feasible() {
		return
	}
	msg := fmt.Sprintf(f, a...)
	e.c.fail(e.kind+":"+key, pos, "%s after %s: %s%s", e.kind, strings.Join(e.hist, ", "), msg, e.where())
}

func (e *engRun) where() string {
	if len(e.r.conds) == 0 {
		return ""
	}
	var l []string
	for _, b := range e.r.conds {
		l = append(l, bstr(b))
		if len(l) > 14 {
			break
		}
	}
	return " when " + strings.Join(l, ", ")
}

func showBits(r *Run, b []Bit) string {
	var sb strings.Builder
	for _, x := range b {
		if v, ok := r.implied(x); ok {
			if v {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		} else {
			sb.WriteString("<" + bstr(r.norm(x)) + ">")
		}
	}
	return sb.String()
}

// readEvent builds a ReadEvent.
func (e *engRun) readEvent(pc, id any) any {
	fn := e.meth("Search")
	t := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
	st := t.Underlying().(*types.Struct)
	v := &StructV{f: make([]any, st.NumFields())}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "PC":
			v.f[i] = pc
		case "ID":
			v.f[i] = id
		default:
			v.f[i] = e.r.zero(st.Field(i).Type())
		}
	}
	return v
}

// search runs Search on an ID and returns the URIs reported.
func (e *engRun) search(id []Bit) (uris []string, o Outcome, ok bool) {
	pc := e.r.mkBytes(e.r.bitsToBytes(e.m.symBits("pc", 16)))
	idv := e.r.mkBytes(e.r.bitsToBytes(id))
	if e.kind == "LegacyEngine" {
		t := e.h.idScheme
		if t == "" {
			t = "sgtin"
		}
		e.idStr = catStr(lit("urn:epc:id:"+t+":"), e.r.bitChars(id))
	}
	n0, tr0 := e.r.objN, e.trN
	if e.h.pure {
		e.r.mutated, e.r.maplog = map[*Obj]token.Pos{}, map[*MapObj]token.Pos{}
	}
	o, ok = e.do("Search", e.readEvent(pc, idv))
	if ok && e.h.pure {
		e.checkPure(n0)
	}
	if ok && e.h.consist {
		e.checkResult(o, pc, idv, tr0)
	}
	if !ok {
		return nil, o, false
	}
	uris, ok = e.uriList(o.ret[1])
	if !ok {
		e.bad("search", "-", "the reported URIs are %s, which the analysis cannot enumerate", showVal(o.ret[1]))
	}
	return uris, o, ok
}

func (e *engRun) uriList(v any) ([]string, bool) {
	var out []string
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	for _, x := range e.r.elemsOf(s) {
		y, ok := x.(*Str)
		if !ok || !y.isLit() {
			return nil, false
		}
		out = append(out, y.lit)
	}
	return out, true
}

// expect is the list of URIs a search must report.
func (e *engRun) expect(id []Bit) []string {
	var out []string
	for _, s := range e.want {
		if e.kind == "LegacyEngine" && (e.h.trFails || !legacyScheme(e.h.patType, e.h.idScheme)) {
			continue
		}
		if e.r.sure(e.r.prefixBits(id, s.bits), "stored filter matches") {
			out = append(out, s.uri)
		}
	}
	return out
}

// applyAdd and applyDelete are the specified effect on the content.
func (e *engRun) applyAdd(b []Bit, uri string) {
	for i := range e.want {
		if e.r.sure(e.r.bitsEq(e.want[i].bits, b), "same filter") {
			if e.kind == "List" || e.kind == "LegacyEngine" {
				if e.want[i].uri == uri {
					return
				}
				continue
			}
			e.want[i].uri = uri
			return
		}
	}
	e.want = append(e.want, stored{b, uri})
}
func (e *engRun) applyDelete(b []Bit, uri string) {
	var out []stored
	for _, s := range e.want {
		if s.uri == uri && e.r.sure(e.r.bitsEq(s.bits, b), "same filter") {
			continue
		}
		out = append(out, s)
	}
	e.want = out
}

func sameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// checkSearch compares a search with the expected content.
func (e *engRun) checkSearch(key string, id []Bit) bool {
	got, _, ok := e.search(id)
	if !ok {
		return false
	}
	want := e.expect(id)
	e.c.count("obligations", 1)
	if !sameMultiset(got, want) {
		var st []string
		for _, s := range e.want {
			st = append(st, showBits(e.r, s.bits)+"->"+s.uri)
		}
		e.bad(key, e.c.pos(e.meth("Search").Pos()), "searching ID %s reports %q instead of %q; stored are %v", showBits(e.r, id), got, want, st)
		return false
	}
	return true
}

// history is one shape of operations.
type histOp struct {
	kind string // add, delete
	fs   []opF
}

// opF is one filter of an operation: its length and, when same >= 0, the
// initial filter whose report URI it is for.
type opF struct{ n, same int }

// hist is a shape of history: build(lens), then ops, then searches.
type hist struct {
	kind     string
	base     int // constant bits before the symbolic ones
	lens     []int
	ops      []histOp
	ids      []int // ID lengths in bytes
	searches int   // searches per ID length
	key      string
	share    bool // the initial filters are all for one report URI
	trFails  bool // the translation of the tag fails
	pure     bool // searches must modify nothing
	consist  bool // the whole result of a search is checked
	patType  string
	idScheme string
	then     func(e *engRun) // runs after the searches
}

// engContext analyses build(lens) followed by ops and searches.
func (c *Check) engContext(kind string, base int, lens []int, ops []histOp, idBytes []int, searches int, key string) {
	c.history(hist{kind: kind, base: base, lens: lens, ops: ops, ids: idBytes, searches: searches, key: key})
}

func (c *Check) history(h hist) {
	if h.kind == "PatriciaTrie" && h.key == "search" {
		h.pure = true
	}
	kind, base, lens, ops, idBytes, searches, key := h.kind, h.base, h.lens, h.ops, h.ids, h.searches, h.key
	name := fmt.Sprintf("%s base %d build %v ops %v ids %v x%d", kind, base, lens, ops, idBytes, searches)
	if h.share {
		name += " shared URI"
	}
	if h.trFails {
		name += " untranslatable"
	}
	if h.patType != "" {
		name += " " + h.patType + " on " + h.idScheme
	}
	c.context(name, func(m *Machine) {
		m.maxPaths = 400000
		engineHooks(m)
		done := 0
		m.explore(func(r *Run) {
			e := c.newEngRun(r, kind)
			e.h = h
			if h.trFails {
				r.user["translateFails"] = true
			}
			pre := make([]Bit, base)
			for i := range pre {
				pre[i] = m.p.konst(i%3 != 1)
			}
			filter := func(name string, n int) []Bit { return cat(pre, m.symBits(name, n)) }
			// interleave the symbols
			maxN := 0
			for _, n := range lens {
				maxN = max(maxN, n)
			}
			for _, o := range ops {
				for _, f := range o.fs {
					maxN = max(maxN, f.n)
				}
			}
			for i := 0; i < maxN; i++ {
				for k, n := range lens {
					if i < n {
						m.p.bitSym(fmt.Sprintf("f%d[%d]", k, i))
					}
				}
				for k, o := range ops {
					for j, f := range o.fs {
						if i < f.n {
							m.p.bitSym(fmt.Sprintf("op%d.%d[%d]", k, j, i))
						}
					}
				}
			}
			var fs [][]Bit
			l := map[string][]*Str{}
			for k, n := range lens {
				f := filter(fmt.Sprintf("f%d", k), n)
				fs = append(fs, f)
				u := fmt.Sprintf("http://u%d", k)
				if h.share {
					u = "http://u0"
				}
				l[u] = append(l[u], e.pattern(f))
				e.want = append(e.want, stored{f, u})
			}
			e.distinct(fs)
			// filters of one length are interchangeable: take them in order
			for k := 1; k < len(fs); k++ {
				if lens[k] == lens[k-1] {
					e.r.assumeThat(e.r.bitsLess(fs[k-1], fs[k]))
				}
			}
			e.hist = append(e.hist, fmt.Sprintf("building from filters of %v bits", lens))
			if !e.build(e.subs(l)) {
				return
			}
			for k, o := range ops {
				l := map[string][]*Str{}
				var fs [][]Bit
				var us []string
				for j, of := range o.fs {
					f := filter(fmt.Sprintf("op%d.%d", k, j), of.n)
					u := fmt.Sprintf("http://n%d%d", k, j)
					if of.same >= 0 && h.share {
						u = "http://u0"
					} else if of.same >= 0 {
						u = fmt.Sprintf("http://u%d", of.same)
					}
					fs, us = append(fs, f), append(us, u)
					l[u] = append(l[u], e.pattern(f))
					e.hist = append(e.hist, fmt.Sprintf("%s of a %d-bit filter for %s", o.kind, of.n, u))
				}
				e.distinct(fs)
				meth := "AddSubscription"
				if o.kind == "delete" {
					meth = "DeleteSubscription"
				}
				if _, ok := e.do(meth, e.subs(l)); !ok {
					return
				}
				for j, f := range fs {
					if o.kind == "add" {
						e.applyAdd(f, us[j])
					} else {
						e.applyDelete(f, us[j])
					}
				}
			}
			for _, nb := range idBytes {
				for s := 0; s < searches; s++ {
					id := m.symBits(fmt.Sprintf("id%d.%d", nb, s), nb*8)
					if !e.checkSearch(key, id) {
						return
					}
					e.hist = append(e.hist, "a search")
				}
			}
			if h.then != nil {
				h.then(e)
			}
			done++
		})
		c.expect("completed histories of "+name, done, 1)
	})
}

// lenCombos are the non-decreasing length vectors of size n over l.
func lenCombos(l []int, n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range lenCombos(l, n-1) {
		for _, x := range l {
			if len(p) == 0 || x >= p[len(p)-1] {
				out = append(out, append(append([]int{}, p...), x))
			}
		}
	}
	return out
}

// possible is false when distinct filters of these lengths cannot exist.
func possible(lens []int) bool {
	n := map[int]int{}
	for _, l := range lens {
		n[l]++
		if l < 10 && n[l] > 1<<l {
			return false
		}
	}
	return true
}

// opChoices are the operations worth distinguishing on a built engine.
func opChoices(lens []int, ls []int) []histOp {
	var out []histOp
	for _, n := range ls {
		same := -1
		for k, l := range lens {
			if l == n {
				same = k
				break
			}
		}
		out = append(out, histOp{"add", []opF{{n, -1}}}, histOp{"delete", []opF{{n, -1}}})
		if same >= 0 {
			out = append(out, histOp{"delete", []opF{{n, same}}}, histOp{"add", []opF{{n, same}}})
		}
	}
	return out
}

// pairChoices are operations naming two filters at once.
func pairChoices(lens []int) []histOp {
	var out []histOp
	for i := range lens {
		for j := range lens {
			if i < j {
				out = append(out, histOp{"delete", []opF{{lens[i], i}, {lens[j], j}}})
			}
		}
		out = append(out, histOp{"delete", []opF{{lens[i], i}, {lens[i], -1}}}, histOp{"add", []opF{{lens[i], i}, {lens[i], -1}}})
	}
	out = append(out, histOp{"add", []opF{{1, -1}, {2, -1}}}, histOp{"add", []opF{{2, -1}, {2, -1}}})
	return out
}

// contentHistories are the histories of the content properties.
func (c *Check) contentHistories(kind string) {
	one := []int{1}
	build := func(n int, ls []int, f func(lens []int)) {
		for _, lens := range lenCombos(ls, n) {
			if possible(lens) {
				f(lens)
			}
		}
	}
	oneOp := func(base int, ls, ops []int, n int) {
		build(n, ls, func(lens []int) {
			for _, o := range opChoices(lens, ops) {
				c.engContext(kind, base, lens, []histOp{o}, one, 1, "content")
			}
		})
	}
	twoOps := func(ls, ops []int, n int) {
		build(n, ls, func(lens []int) {
			for _, o := range opChoices(lens, ops) {
				for _, q := range opChoices(lens, ops) {
					c.engContext(kind, 0, lens, []histOp{o, q}, one, 1, "content")
				}
			}
		})
	}
	for n := 0; n <= 2; n++ {
		oneOp(0, []int{1, 2, 3}, []int{1, 2, 3}, n)
	}
	oneOp(0, []int{1, 2, 3}, []int{1, 2, 3}, 3)
	for n := 0; n <= 2; n++ {
		twoOps([]int{1, 2}, []int{1, 2}, n)
	}
	// operations naming several filters, on filters of one report URI or several
	for n := 0; n <= 2; n++ {
		build(n, []int{1, 2}, func(lens []int) {
			for _, o := range pairChoices(lens) {
				c.history(hist{kind: kind, lens: lens, ops: []histOp{o}, ids: one, searches: 1, key: "content", share: n == 2})
			}
		})
	}
	c.history(hist{kind: kind, lens: []int{1, 2, 3}, ops: []histOp{{"delete", []opF{{1, 0}, {2, 1}, {3, 2}}}}, ids: one, searches: 1, key: "content"})
	// four filters, in chains and side by side
	for _, lens := range [][]int{{1, 2, 3, 4}, {1, 2, 3, 3}, {1, 2, 2, 3}, {2, 2, 3, 3}} {
		c.engContext(kind, 0, lens, nil, one, 1, "content")
		c.engContext(kind, 0, lens, []histOp{{"delete", []opF{{lens[1], 1}}}}, one, 1, "content")
	}
	// filters which share whole bytes
	for _, lens := range [][]int{{1}, {1, 2}, {2, 3}, {2, 2}} {
		for _, o := range opChoices(lens, []int{1, 2, 3}) {
			c.history(hist{kind: kind, base: 7, lens: lens, ops: []histOp{o}, ids: []int{2}, searches: 1, key: "content"})
		}
	}
	if c.thorough() {
		for _, base := range []int{0, 7} {
			build(3, []int{1, 2, 3}, func(lens []int) {
				for _, o := range opChoices(lens, []int{1, 2, 3, 4}) {
					c.engContext(kind, base, lens, []histOp{o}, []int{base/8 + 1}, 1, "content")
				}
			})
		}
		twoOps([]int{1, 2, 3}, []int{1, 2, 3}, 1)
		twoOps([]int{1, 2, 3}, []int{1, 2, 3}, 2)
		twoOps([]int{1, 2}, []int{1, 2}, 3)
		oneOp(0, []int{1, 2, 3, 4}, []int{1, 2, 3, 4}, 2)
		build(4, []int{1, 2, 3}, func(lens []int) {
			c.engContext(kind, 0, lens, nil, one, 1, "content")
			for _, o := range opChoices(lens, []int{1, 2}) {
				c.engContext(kind, 0, lens, []histOp{o}, one, 1, "content")
			}
		})
	}
}

func ruleC10(c *Check) {
	c.contentHistories("PatriciaTrie")
	c.large("PatriciaTrie", "content", func(p *plan) bool { return len(p.steps) > 0 })
}
func ruleC12(c *Check) {
	c.contentHistories("SplayTree")
	c.large("SplayTree", "content", func(p *plan) bool { return len(p.steps) > 0 })
}

// searchShapes are the built engines the search properties look at.
func (c *Check) searchShapes(kind string, searches int) {
	for n := 0; n <= 3; n++ {
		for _, lens := range lenCombos([]int{1, 2, 3}, n) {
			if possible(lens) {
				c.engContext(kind, 0, lens, nil, []int{1}, searches, "search")
				if kind == "SplayTree" && n <= 2 {
					// searches on trees with aggregation nodes left by a deletion or addition
					for _, o := range opChoices(lens, []int{1, 2}) {
						c.engContext(kind, 0, lens, []histOp{o}, []int{1}, 2, "search")
					}
				}
			}
		}
	}
	if c.thorough() {
		for _, lens := range lenCombos([]int{1, 2, 3}, 4) {
			if possible(lens) {
				c.engContext(kind, 0, lens, nil, []int{1}, searches, "search")
			}
		}
		for _, lens := range lenCombos([]int{1, 2, 3, 4}, 3) {
			if possible(lens) {
				c.engContext(kind, 0, lens, nil, []int{1}, searches, "search")
				c.engContext(kind, 5, lens, nil, []int{0, 1, 2}, 1, "search")
			}
		}
		if kind == "SplayTree" {
			for n := 1; n <= 2; n++ {
				for _, lens := range lenCombos([]int{1, 2, 3}, n) {
					if possible(lens) {
						c.engContext(kind, 0, lens, nil, []int{1}, 3, "search")
						for _, o := range opChoices(lens, []int{1, 2, 3}) {
							c.engContext(kind, 0, lens, []histOp{o}, []int{1}, 2, "search")
						}
					}
				}
			}
		}
	}
	// across byte boundaries and with IDs that end early
	for _, base := range []int{6, 14} {
		for n := 1; n <= 2; n++ {
			for _, lens := range lenCombos([]int{1, 2, 3}, n) {
				if possible(lens) {
					c.engContext(kind, base, lens, nil, []int{0, 1, base/8 + 1, base/8 + 2}, 1, "search")
				}
			}
		}
	}
	c.engContext(kind, 6, []int{1, 2, 3}, nil, []int{1, 2}, 1, "search")
	c.engContext(kind, 0, []int{1, 2, 3, 4}, nil, []int{1}, 1, "search")
}

func ruleC11(c *Check) {
	c.searchShapes("PatriciaTrie", 1)
	c.large("PatriciaTrie", "search", nil)
}
func ruleC13(c *Check) {
	c.searchShapes("SplayTree", 2)
	c.large("SplayTree", "search", nil)
}

func init() {
	rules["C10"] = rule{[]string{"./filtering"}, ruleC10, "", absAssum}
	rules["C11"] = rule{[]string{"./filtering"}, ruleC11, "", absAssum}
	rules["C12"] = rule{[]string{"./filtering"}, ruleC12, "", absAssum}
	rules["C13"] = rule{[]string{"./filtering"}, ruleC13, "", absAssum}
}
