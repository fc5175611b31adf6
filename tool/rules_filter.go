package main

import (
	"fmt"
)

// filterChars is a filter text of n characters over '0', '1' and 'x'.
func (m *Machine) filterChars(name string, n int) (*Str, []*Sym) {
	var e []SE
	var ss []*Sym
	for i := 0; i < n; i++ {
		y := m.p.sym(fmt.Sprintf("%s[%d]", name, i), setOf("01x"))
		e = append(e, SE{c: m.p.charBV(y)})
		ss = append(ss, y)
	}
	return mkStr(e), ss
}

// filterShapes are the lengths and offsets analysed: all small ones, and some
// around the sizes where counters and words end.
func filterShapes(maxN, maxO int, thorough bool) [][2]int {
	var out [][2]int
	for n := 1; n <= maxN; n++ {
		for o := 0; o <= maxO; o++ {
			out = append(out, [2]int{n, o})
		}
	}
	ns, os := []int{31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 255, 257, 300}, []int{0, 7, 8}
	if thorough {
		ns, os = append(ns, 511, 513, 600), []int{0, 1, 3, 7, 8, 9}
	}
	for _, n := range ns {
		for _, o := range os {
			out = append(out, [2]int{n, o})
		}
	}
	for _, o := range []int{31, 33, 63, 65, 96, 121, 127, 129, 250, 255, 257, 511, 1000, 1016, 1024, 1030, 2040, 2049, 4095} {
		for _, n := range []int{1, 3, 9, 70} {
			out = append(out, [2]int{n, o})
		}
	}
	return out
}

func ruleC07(c *Check) {
	nf := c.fn("filtering", "NewFilter")
	match := c.meth("filtering", "FilterObject", "Match")
	if nf == nil || match == nil {
		return
	}
	maxN, maxO := 18, 17
	if c.thorough() {
		maxN, maxO = 34, 25
	}
	shapes := filterShapes(maxN, maxO, c.thorough())
	for _, sh := range shapes {
		{
			n, o := sh[0], sh[1]
			need := (o + n + 7) / 8
			lens := []int{0, need - 1, need, need + 1}
			if need > 2 {
				lens = append(lens, 1)
			}
			done := map[int]bool{}
			for _, L := range lens {
				if done[L] {
					continue
				}
				done[L] = true
				c.context(fmt.Sprintf("filter of %d bits at offset %d, ID of %d bytes", n, o, L), func(m *Machine) {
					paths := 0
					m.explore(func(r *Run) {
						// declare the bits an ID shares with the filter next to each other
						for i := 0; i < n || i < L*8; i++ {
							if i < n {
								m.p.sym(fmt.Sprintf("f[%d]", i), setOf("01x"))
							}
							if o+i < L*8 {
								m.p.bitSym(fmt.Sprintf("id[%d]", o+i))
							}
						}
						s, ss := m.filterChars("f", n)
						id := m.symBits("id", L*8)
						f := r.call(nf, []any{s, KI(o)}, nil, nil)
						out := r.try(match, []any{f, r.mkBytes(r.bitsToBytes(id))}, nil)
						c.count("obligations", 1)
						paths++
						key := "match:exact"
						if L*8 < o+n {
							key = "match:short"
						}
						if out.kind != "return" {
							c.fail(key, c.pos(out.pos), "matching a %d-bit filter at offset %d against an ID of %d bytes ends in %s", n, o, L, out.String(c.pr))
							return
						}
						want := m.p.B0
						if L*8 >= o+n {
							want = m.p.B1
							for i, y := range ss {
								b := id[o+i]
								ok := m.p.or(m.p.fnBit(y, setOf("x")), m.p.and(m.p.fnBit(y, setOf("1")), b), m.p.and(m.p.fnBit(y, setOf("0")), m.p.not(b)))
								want = m.p.and(want, ok)
							}
						}
						if !r.sameBool(out.ret[0], want) {
							c.fail(key, c.pos(match.Pos()), "a %d-bit filter at offset %d against an ID of %d bytes: the result is %s, its own bits say %s%s", n, o, L, showVal(out.ret[0]), bstr(r.norm(want)), r.where())
						}
					})
					c.expect("paths of "+m.name, paths, 1)
				})
			}
		}
	}
}

// sameBool decides whether a boolean value always equals the expected one.
func (r *Run) sameBool(v any, want Bit) bool {
	b, ok := v.(Bit)
	if !ok {
		return false
	}
	diff, ok := r.implied(r.p.xor(b, want))
	return ok && !diff || !r.feasible()
}

func init() {
	rules["C07"] = rule{[]string{"./filtering"}, ruleC07, "every filter text over 0, 1 and x of the analysed lengths and offsets is matched against a fully symbolic ID; the result must equal the conjunction of the filter's own bit agreements", absAssum}
}
