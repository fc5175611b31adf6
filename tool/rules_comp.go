package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	rules["C33"] = rule{[]string{"./filtering"}, ruleC33, "NewComposition is interpreted on sets of filters with symbolic texts over 0, 1 and x; the abstract match of the composite filter and of each child against a fully symbolic ID is compared with the match of the original filters", absAssum}
	rules["C34"] = rule{[]string{"./filtering"}, ruleC34, "the byte views of a filter with a symbolic text over 0, 1 and x are interpreted for every byte offset and compared with the filter's own bits", absAssum}
}

// tri is a filter text over 0, 1 and x; other characters of the shape are
// taken as they are.
func (m *Machine) tri(name, shape string) (*Str, []triBit) {
	var e []SE
	var ts []triBit
	for i := 0; i < len(shape); i++ {
		ch := shape[i]
		if ch != '?' && ch != 'b' {
			e = append(e, SE{c: KI(ch)})
			ts = append(ts, triBit{m.p.konst(ch == 'x'), m.p.konst(ch == '1')})
			continue
		}
		set := setOf("01x")
		if ch == 'b' {
			set = setOf("01")
		}
		y := m.p.sym(fmt.Sprintf("%s[%d]", name, i), set)
		e = append(e, SE{c: m.p.charBV(y)})
		ts = append(ts, triBit{m.p.fnBit(y, setOf("x")), m.p.fnBit(y, setOf("1"))})
	}
	return mkStr(e), ts
}

type triBit struct{ any, one Bit }

// agrees is whether bit b is what the filter bit wants.
func (m *Machine) agrees(t triBit, b Bit) Bit {
	return m.p.or(t.any, m.p.eq(t.one, b))
}

type triFilter struct {
	off int
	s   *Str
	t   []triBit
}

func (f *triFilter) bytes() (lo, hi int) { return f.off / 8, (f.off + len(f.t) + 7) / 8 }

func (m *Machine) wantMatch(f *triFilter, id []Bit) Bit {
	if f.off+len(f.t) > len(id) {
		return m.p.B0
	}
	w := m.p.B1
	for i, t := range f.t {
		w = m.p.and(w, m.agrees(t, id[f.off+i]))
	}
	return w
}

func ruleC33(c *Check) {
	nf := c.fn("filtering", "NewFilter")
	nc := c.fn("filtering", "NewComposition")
	match := c.meth("filtering", "FilterObject", "Match")
	ct := c.typeOf("filtering", "Composition")
	if nf == nil || nc == nil || match == nil || ct == nil {
		return
	}
	fi, oi, ci := fieldIndex(ct, "filter"), fieldIndex(ct, "offset"), fieldIndex(ct, "children")
	if fi < 0 || oi < 0 || ci < 0 {
		c.fail("anchor:Composition", "-", "Composition has no filter, offset and children")
		return
	}
	type spec struct {
		off   int
		shape string
	}
	var sets [][]spec
	one := []spec{{0, "b"}, {0, "????????"}, {3, "?b?"}, {0, "bbbbbbbb"}, {5, "?bb?bb"}, {8, "?b?b"}, {0, "b0?1b?x01b"}, {6, "??????????????"}, {13, "b?b?b"}}
	for _, a := range one {
		sets = append(sets, []spec{a})
	}
	two := [][]spec{
		{{0, "bb"}, {0, "bbb"}}, {{0, "??"}, {0, "???"}}, {{0, "bbbb"}, {0, "bbbb"}}, {{2, "??b?"}, {1, "?b???"}},
		{{0, "0011bb11"}, {0, "0011bb1100"}}, {{0, "0011????"}, {0, "001100b1??"}}, {{0, "01010101bb"}, {8, "bb11"}},
		{{8, "b?b?"}, {4, "0011bb00??"}}, {{0, "bbbbbbbb"}, {0, "bbbbbbbbb"}}, {{0, "00000000bbbbbb"}, {0, "000000001111"}},
		{{0, "1111000011110000bb"}, {8, "11110000bbb"}}, {{16, "bb?"}, {0, "xxxxxxxx00001111bb?b"}}, {{0, "x1x1x1x1bbb"}, {3, "?1?1bbbb"}},
		{{7, "?b"}, {15, "b?b"}}, {{0, "????????????????"}, {9, "b?b"}}, {{0, "00110000"}, {0, "001100bbbbbb"}}, {{4, "bbbb"}, {4, "xxxx1"}},
	}
	sets = append(sets, two...)
	sets = append(sets,
		[]spec{{0, "bb"}, {0, "bbb"}, {0, "b"}}, []spec{{0, "??"}, {0, "???"}, {1, "?b??"}},
		[]spec{{0, "00110b"}, {0, "0011b0b"}, {0, "00bb"}}, []spec{{0, "00000000bb"}, {8, "bbb"}, {4, "0000b?b1"}},
		[]spec{{0, "0011001100bb"}, {0, "0011001100bbb"}, {0, "001100110b"}, {0, "00110011bbbb0"}})
	// long ones and far ones
	rep := func(s string, n int) string { return strings.Repeat(s, n/len(s)+1)[:n] }
	sets = append(sets, []spec{{0, rep("0011", 128) + "b?b"}, {120, rep("0011", 8) + "?b"}}, []spec{{250, "b?bb"}, {248, "?b?b0101b"}},
		[]spec{{1020, "1111b?b"}, {1024, "b?b"}})
	if c.thorough() {
		sets = append(sets, []spec{{0, rep("01", 258) + "b"}, {256, "01?b"}})
		for off := 0; off < 16; off++ {
			for n := 1; n <= 12; n++ {
				sh := "?b?b?b?b?b?b"[:n]
				for _, o2 := range []int{0, 5, 8, 11} {
					sets = append(sets, []spec{{off, sh}, {o2, "b?b?b"}}, []spec{{off, sh}, {o2, "0b1?x?10b?"}})
				}
			}
		}
	}
	n := 0
	for i, set := range sets {
		// the filters share a byte
		lo, hi := 0, 1<<30
		for _, sp := range set {
			f := triFilter{off: sp.off, t: make([]triBit, len(sp.shape))}
			a, b := f.bytes()
			lo, hi = max(lo, a), min(hi, b)
		}
		if lo >= hi {
			continue
		}
		n++
		i, set, lo, hi := i, set, lo, hi
		c.context(fmt.Sprintf("composition %d of %d filters", i, len(set)), func(m *Machine) {
			m.maxPaths = 200000
			m.explore(func(r *Run) {
				var fs []*triFilter
				var objs []any
				end := 0
				// declare the bits an ID shares with the filters next to each other
				for bit := 0; bit < 256; bit++ {
					for k, sp := range set {
						if i := bit - sp.off; i >= 0 && i < len(sp.shape) {
							switch sp.shape[i] {
							case '?':
								m.p.sym(fmt.Sprintf("f%d[%d]", k, i), setOf("01x"))
							case 'b':
								m.p.sym(fmt.Sprintf("f%d[%d]", k, i), setOf("01"))
							}
							m.p.bitSym(fmt.Sprintf("id[%d]", bit))
						}
					}
				}
				for k, sp := range set {
					s, t := m.tri(fmt.Sprintf("f%d", k), sp.shape)
					f := &triFilter{sp.off, s, t}
					fs = append(fs, f)
					_, b := f.bytes()
					end = max(end, b)
					objs = append(objs, r.call(nf, []any{s, KI(sp.off)}, nil, nil))
				}
				// filters with one text are one filter
				for k := range fs {
					for l := 0; l < k; l++ {
						if fs[k].off != fs[l].off && r.decide(r.strEq(fs[k].s, fs[l].s), "same text") {
							r.stop("infeasible", "-")
						}
					}
				}
				ft := types.NewPointer(c.typeOf("filtering", "FilterObject"))
				o := r.try(nc, []any{r.newSlice(ft, objs)}, nil)
				c.count("obligations", 1)
				if o.kind != "return" {
					c.fail("composition", c.pos(o.pos), "composing %d filters: %s%s", len(set), o.String(c.pr), r.where())
					return
				}
				p, ok := o.ret[0].(Ptr)
				if !ok || p.obj == nil {
					c.fail("composition", c.pos(nc.Pos()), "composing %d filters gives none", len(set))
					return
				}
				cv := r.load(p).(*StructV)
				text, _ := cv.f[fi].(*Str)
				off, ok1 := cv.f[oi].(KI)
				ch, ok2 := cv.f[ci].(MapV)
				if text == nil || !ok1 || !ok2 || ch.m == nil {
					c.fail("composition", c.pos(nc.Pos()), "the composition of %d filters is not known: %s", len(set), showVal(cv))
					return
				}
				comp := r.call(nf, []any{text, off}, nil, nil)
				for _, L := range []int{end, end - 1, end + 1} {
					if L < 0 {
						continue
					}
					id := m.symBits("id", 8*L)
					bytes := func() any { return r.mkBytes(r.bitsToBytes(id)) }
					mc := r.try(match, []any{comp, bytes()}, nil)
					if mc.kind != "return" {
						c.fail("composite:match", c.pos(mc.pos), "matching the composite filter: %s%s", mc.String(c.pr), r.where())
						return
					}
					mb, _ := mc.ret[0].(Bit)
					// what all filters ask for in the bytes they share
					if L == end {
						w := m.p.B1
						for bit := 8 * lo; bit < 8*hi; bit++ {
							all := m.p.B1
							var first *triBit
							for _, f := range fs {
								if bit < f.off || bit >= f.off+len(f.t) {
									all = m.p.B0
									break
								}
								t := f.t[bit-f.off]
								all = m.p.and(all, m.p.not(t.any))
								if first == nil {
									first = &t
								} else {
									all = m.p.and(all, m.p.eq(first.one, t.one))
								}
							}
							if first != nil {
								w = m.p.and(w, m.p.or(m.p.not(all), m.p.eq(first.one, id[bit])))
							}
						}
						c.count("obligations", 1)
						if !r.sameBool(mb, w) {
							c.fail("composite:shared", c.pos(nc.Pos()), "the composite of %d filters matches under %s instead of under the bits all of them share (%s)%s", len(set), bstr(r.norm(mb)), bstr(r.norm(w)), r.where())
							return
						}
					}
					for k, f := range fs {
						c.count("obligations", 1)
						ix := r.mapFind(ch.m, f.s)
						if ix < 0 && !r.feasible() {
							r.stop("infeasible", "-")
						}
						if ix < 0 {
							c.fail("children:missing", c.pos(nc.Pos()), "the composition has no child for filter %d%s", k, r.where())
							return
						}
						co := r.try(match, []any{ch.m.vals[ix], bytes()}, nil)
						if co.kind != "return" {
							c.fail("children:match", c.pos(co.pos), "matching a child: %s%s", co.String(c.pr), r.where())
							return
						}
						cb, _ := co.ret[0].(Bit)
						if w := m.wantMatch(f, id); !r.sameBool(m.p.and(mb, cb), w) {
							c.fail("children:agree", c.pos(nc.Pos()), "composite and child of filter %d match an ID of %d bytes under %s, the filter itself under %s%s", k, L, bstr(r.norm(m.p.and(mb, cb))), bstr(r.norm(w)), r.where())
							return
						}
					}
				}
			})
		})
	}
	c.expect("filter sets", n, 20)
}

func ruleC34(c *Check) {
	nf := c.fn("filtering", "NewFilter")
	has := c.meth("filtering", "FilterObject", "HasByteAt")
	get := c.meth("filtering", "FilterObject", "GetByteAt")
	tr := c.meth("filtering", "FilterObject", "IsTransparent")
	ts := c.meth("filtering", "FilterObject", "ToString")
	ft := c.typeOf("filtering", "FilterObject")
	if nf == nil || has == nil || get == nil || tr == nil || ts == nil || ft == nil {
		return
	}
	si, zi, oi := fieldIndex(ft, "String"), fieldIndex(ft, "Size"), fieldIndex(ft, "Offset")
	if si < 0 || zi < 0 || oi < 0 {
		c.fail("anchor:FilterObject", "-", "FilterObject has no String, Size and Offset")
		return
	}
	maxN, maxO := 18, 17
	if c.thorough() {
		maxN, maxO = 40, 33
	}
	for _, sh := range filterShapes(maxN, maxO, c.thorough()) {
		{
			n, o := sh[0], sh[1]
			c.context(fmt.Sprintf("byte views of a filter of %d bits at offset %d", n, o), func(m *Machine) {
				m.explore(func(r *Run) {
					shape := ""
					for i := 0; i < n; i++ {
						shape += "?"
					}
					s, t := m.tri("f", shape)
					f := &triFilter{o, s, t}
					lo, hi := f.bytes()
					fo := r.call(nf, []any{s, KI(o)}, nil, nil)
					what := fmt.Sprintf("a %d-bit filter at offset %d", n, o)
					bad := func(key string, out Outcome, what string) bool {
						c.count("obligations", 1)
						if out.kind != "return" {
							c.fail(key, c.pos(out.pos), "%s: %s%s", what, out.String(c.pr), r.where())
							return true
						}
						return false
					}
					p, _ := fo.(Ptr)
					if p.obj == nil {
						c.fail("filter:nil", c.pos(nf.Pos()), "%s is nil", what)
						return
					}
					fv := r.load(p).(*StructV)
					c.count("obligations", 1)
					if !r.sameStr(fv.f[si], s) || fv.f[zi] != KI(n) || fv.f[oi] != KI(o) {
						c.fail("filter:fields", c.pos(nf.Pos()), "%s records its text, size or offset wrongly", what)
					}
					for b := -2; b <= hi+2; b++ {
						in := lo <= b && b < hi
						h := r.try(has, []any{fo, KI(b)}, nil)
						if bad("HasByteAt", h, "HasByteAt of "+what) {
							return
						}
						if !r.sameBool(h.ret[0], m.p.konst(in)) {
							c.fail("HasByteAt", c.pos(has.Pos()), "HasByteAt(%d) of %s is %s%s", b, what, showVal(h.ret[0]), r.where())
						}
						g := r.try(get, []any{fo, KI(b)}, nil)
						if bad("GetByteAt", g, "GetByteAt of "+what) {
							return
						}
						e, ok := errKnown(r, g.ret[2])
						if !ok || e == in {
							c.fail("GetByteAt:error", c.pos(get.Pos()), "GetByteAt(%d) of %s gives the error %s%s", b, what, showVal(g.ret[2]), r.where())
							return
						}
						if !in {
							continue
						}
						fb, ok1 := r.toBV(g.ret[0], 8)
						mb, ok2 := r.toBV(g.ret[1], 8)
						if !ok1 || !ok2 {
							c.fail("GetByteAt", c.pos(get.Pos()), "GetByteAt(%d) of %s is not known", b, what)
							return
						}
						for k := 0; k < 8; k++ {
							i := 8*b + k - o
							wm, wf := m.p.B1, m.p.B1
							if i >= 0 && i < n {
								wm, wf = t[i].any, m.p.or(t[i].any, t[i].one)
							}
							if !r.sameBool(mb.b[7-k], wm) || !r.sameBool(fb.b[7-k], wf) {
								c.fail("GetByteAt", c.pos(get.Pos()), "GetByteAt(%d) of %s is wrong at bit %d of the byte%s", b, what, k, r.where())
								return
							}
						}
					}
					x := r.try(tr, []any{fo}, nil)
					if bad("IsTransparent", x, "IsTransparent of "+what) {
						return
					}
					w := m.p.B1
					for _, y := range t {
						w = m.p.and(w, y.any)
					}
					if !r.sameBool(x.ret[0], w) {
						c.fail("IsTransparent", c.pos(tr.Pos()), "IsTransparent of %s is %s, its bits say %s%s", what, showVal(x.ret[0]), bstr(r.norm(w)), r.where())
					}
					y := r.try(ts, []any{fo}, nil)
					if bad("ToString", y, "ToString of "+what) {
						return
					}
					if ws := catStr(s, lit(fmt.Sprintf("(%d %d)", o, n))); !r.sameStr(y.ret[0], ws) {
						c.fail("ToString", c.pos(ts.Pos()), "the text of %s is %s%s", what, cutStr(showVal(r.normIfStr(y.ret[0]))), r.where())
					}
				})
			})
		}
	}
}
