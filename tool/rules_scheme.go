package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldVal is the text of a field and the bits it stands for.
type fieldVal struct {
	name string
	s    *Str
	bits []Bit // most significant first, padded to the field width
	wide bool  // the value does not fit the width
}

// decField declares a decimal field of L digits whose value has n bits, to be
// stored in w bits.
func (m *Machine) decField(name string, L, n, w int) fieldVal {
	s, v := m.numField(fmt.Sprintf("%s(%d digits,%d bits)", name, L, n), L, n)
	f := fieldVal{name: name, s: s, wide: n > w}
	if !f.wide {
		f.bits = make([]Bit, w)
		for i := 0; i < w; i++ {
			f.bits[w-1-i] = v.b[i]
		}
	}
	return f
}

// filterField is a one digit filter value of the given digits.
func (m *Machine) filterField(digits string) fieldVal {
	y := m.p.sym("filter value "+digits, setOf(digits))
	t := m.p.tabulate(y, y.dom, 3, func(v byte) int64 { return int64(v - '0') })
	return fieldVal{name: "filter", s: mkStr([]SE{{c: m.p.charBV(y)}}), bits: []Bit{t.b[2], t.b[1], t.b[0]}}
}

const iso6 = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_"
const alnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits10 = "0123456789"

// charField is a text field of n characters and its 6-bit codes.
func (m *Machine) charField(name string, n int, chars string) fieldVal {
	var e []SE
	f := fieldVal{name: name}
	for i := 0; i < n; i++ {
		y := m.p.sym(fmt.Sprintf("%s.char%d", name, i), setOf(chars))
		b := m.p.charBV(y)
		e = append(e, SE{c: b})
		for k := 5; k >= 0; k-- {
			f.bits = append(f.bits, b.b[k])
		}
	}
	f.s = mkStr(e)
	return f
}
func (m *Machine) litChars(s string) fieldVal {
	f := fieldVal{s: lit(s)}
	for i := 0; i < len(s); i++ {
		f.bits = append(f.bits, m.constBits(int(s[i]&63), 6)...)
	}
	return f
}

// iso6346 is the check digit of a code, as a value.
func (r *Run) iso6346(code *Str) any {
	const tab = "0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ"
	var x any = KI(0)
	it := types.Typ[types.Int]
	for i, e := range code.elems() {
		var v any
		switch c := e.c.(type) {
		case KI:
			v = KI(strings.IndexByte(tab, byte(c)))
		case *BV:
			s := c.single()
			v = r.p.simp(r.p.tabulate(s, s.dom, 63, func(ch byte) int64 { return int64(strings.IndexByte(tab, byte(c.at(ch)))) }), 64, true)
		}
		x = r.binop(token.ADD, x, r.binop(token.MUL, v, KI(1<<i), it, it), it, it)
	}
	return r.binop(token.REM, r.binop(token.REM, x, KI(11), it, it), KI(10), it, it)
}

// bitChars is the string of '0' and '1' of the bits.
func (r *Run) bitChars(bits []Bit) *Str {
	e := make([]SE, len(bits))
	for i, b := range bits {
		v := &BV{[]Bit{b, r.p.B0, r.p.B0, r.p.B0, r.p.B1, r.p.B1, r.p.B0, r.p.B0}}
		e[i].c = r.p.simp(v, 8, false)
	}
	return mkStr(e)
}

// strBits reads a string of '0' and '1' back as bits.
func (r *Run) strBits(s *Str) ([]Bit, bool) {
	var out []Bit
	for _, e := range s.elems() {
		if e.seg != nil {
			return nil, false
		}
		bv, ok := r.toBV(e.c, 8)
		if !ok {
			return nil, false
		}
		bv = r.nbv(bv)
		hi := r.p.simp(&BV{bv.b[1:8]}, 7, false)
		if hi != KI('0'>>1) {
			return nil, false
		}
		out = append(out, bv.b[0])
	}
	return out, true
}

func maxVal10(L int) int {
	if L >= 19 {
		return 63
	}
	return int(math.Floor(math.Log2(math.Pow(10, float64(L))-0.5))) + 1
}

// minDigits is the least number of decimal digits of an n-bit value.
func minDigits(n int) int {
	if n == 0 {
		return 1
	}
	L := 1
	for L < 19 && math.Pow(10, float64(L)) <= math.Pow(2, float64(n-1)) {
		L++
	}
	return L
}

// numCase is one class of values of a decimal field.
type numCase struct{ L, n int }

// numCases lists digit and bit counts of values that fit w bits; maxL limits
// the digits. all gives every bit count, otherwise the extremes and a middle.
func numCases(w, maxL int, all bool) []numCase {
	var out []numCase
	seen := map[numCase]bool{}
	add := func(L, n int) {
		if n > w || L > maxL || L < minDigits(n) || seen[numCase{L, n}] {
			return
		}
		seen[numCase{L, n}] = true
		out = append(out, numCase{L, n})
	}
	for n := 0; n <= w; n++ {
		if !all && n != 0 && n != 1 && n != w/2 && n != w-1 && n != w {
			continue
		}
		add(minDigits(n), n)
		add(maxL, n)
	}
	return out
}

func refMaxL(s epcScheme, part int) int {
	if s.refDigits[part] > 0 {
		return s.refDigits[part]
	}
	if s.refDigits[part] == 0 {
		return 2 // GRAI with a 12-digit company prefix: any text up to 4 bits
	}
	return 18
}

// epcCase is one combination of value classes.
type epcCase struct{ cp, ref, ser numCase }

// epcCases enumerates value classes of one scheme and partition: every class
// of each field with representative classes of the others.
func epcCases(s epcScheme, part int, thorough bool) []epcCase {
	L := 12 - part
	var cps []numCase
	for n := 0; n <= cpBitsTab[part]; n++ {
		if minDigits(n) <= L {
			cps = append(cps, numCase{L, n})
		}
	}
	refs := numCases(s.refBits[part], refMaxL(s, part), true)
	sers := []numCase{{0, 0}}
	if s.serialBits > 0 {
		sers = numCases(38, 12, true)
	}
	pick := func(l []numCase) []numCase {
		if len(l) <= 4 {
			return l
		}
		return []numCase{l[0], l[1], l[len(l)/2], l[len(l)-1]}
	}
	seen := map[epcCase]bool{}
	var out []epcCase
	add := func(a, b, c []numCase) {
		for _, x := range a {
			for _, y := range b {
				for _, z := range c {
					k := epcCase{x, y, z}
					if !seen[k] {
						seen[k] = true
						out = append(out, k)
					}
				}
			}
		}
	}
	if thorough {
		add(cps, refs, pick(sers))
		add(pick(cps), refs, sers)
		add(cps, pick(refs), sers)
		return out
	}
	add(cps, pick(refs)[:1], pick(sers)[:1])
	add(pick(cps)[3:], refs, pick(sers)[len(pick(sers))-1:])
	add(pick(cps)[:1], pick(refs)[:1], sers)
	add(pick(cps), pick(refs), pick(sers))
	return out
}

type patFn func(r *Run, fields []*Str) Outcome

func (c *Check) strSlice(r *Run, l []*Str) SliceV {
	e := make([]any, len(l))
	for i := range l {
		e[i] = l[i]
	}
	return r.newSlice(types.Typ[types.String], e)
}

// makePrefix runs MakePrefixFilterString.
func (c *Check) makePrefix(r *Run, typ *Str, fields []*Str) Outcome {
	return r.try(c.pr.fn("tdt", "MakePrefixFilterString"), []any{typ, c.strSlice(r, fields)}, nil)
}

// wantErr checks that an outcome is an error without a filter.
func (c *Check) wantErr(r *Run, o Outcome, key, what string) {
	c.count("obligations", 1)
	if o.kind != "return" {
		c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		return
	}
	if e, ok := errKnown(r, o.ret[len(o.ret)-1]); !ok || !e {
		c.fail(key, "-", "%s is not an error, it gives %s%s", what, showVal(o.ret[0]), r.where())
		return
	}
	if !r.sameStr(o.ret[0], lit("")) {
		c.fail(key, "-", "%s is an error but also yields the filter %s%s", what, showVal(o.ret[0]), r.where())
	}
}
func (c *Check) wantFilter(r *Run, o Outcome, key, what string, want []Bit) {
	c.count("obligations", 1)
	if o.kind != "return" {
		c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		return
	}
	if e, ok := errKnown(r, o.ret[1]); !ok || e {
		c.fail(key, "-", "%s gives the error %s%s", what, showVal(o.ret[1]), r.where())
		return
	}
	w := r.bitChars(want)
	if !r.sameStr(o.ret[0], w) {
		c.fail(key, "-", "%s compiles to %s instead of %s%s", what, showVal(r.normIfStr(o.ret[0])), showStr(r.normStr(w)), r.where())
	}
}

func cat(l ...[]Bit) []Bit {
	var out []Bit
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

func ruleC04(c *Check) {
	if c.fn("tdt", "MakePrefixFilterString") == nil {
		return
	}
	for _, s := range epcSchemes {
		s := s
		max := 3
		if s.serialBits > 0 {
			max = 4
		}
		c.context(s.pattern+" malformed", func(m *Machine) {
			key := "malformed:" + s.pattern
			nondigit := setOf("")
			for v := 0; v < 128; v++ {
				if v < '0' || v > '9' {
					nondigit.add(byte(v))
				}
			}
			bad := func(what string, f func(r *Run) []*Str) {
				m.explore(func(r *Run) {
					o := c.makePrefix(r, lit(s.pattern), f(r))
					c.wantErr(r, o, key+":"+what, fmt.Sprintf("a %s pattern with %s", s.pattern, what))
				})
			}
			fv := m.filterField("01234567")
			good := []*Str{fv.s, m.decField("cp", 7, 20, 24).s, m.decField("ref", 6, 18, 24).s, m.decField("serial", 9, 28, 38).s}
			bad("no fields", func(r *Run) []*Str { return nil })
			bad("too many fields", func(r *Run) []*Str { return append(append([]*Str{}, good...), lit("1"))[:max+1] })
			bad("two fields too many", func(r *Run) []*Str { return append(append([]*Str{}, good...), lit("1"), lit("2"))[:max+2] })
			bad("a filter value above 7", func(r *Run) []*Str {
				n := 1 + r.choose(max, "fields")
				f := m.filterField("89")
				return append([]*Str{f.s}, good[1:n]...)
			})
			bad("a filter value of several digits above 7", func(r *Run) []*Str {
				n := 1 + r.choose(max, "fields")
				v := []int{8, 9, 10, 11, 15, 16, 32, 64, 99, 100, 256, 1000}[r.choose(12, "value")]
				return append([]*Str{lit(fmt.Sprintf("%02d", v))}, good[1:n]...)
			})
			for n := 1; n <= max; n++ {
				for i := 0; i < n; i++ {
					n, i := n, i
					bad(fmt.Sprintf("a blank field %d of %d", i+1, n), func(r *Run) []*Str {
						l := append([]*Str{}, good[:n]...)
						l[i] = lit("")
						return l
					})
					bad(fmt.Sprintf("a non-numeric field %d of %d", i+1, n), func(r *Run) []*Str {
						l := append([]*Str{}, good[:n]...)
						x := SE{c: m.p.charBV(m.p.sym("nondigit", nondigit))}
						w := []int{1, 6, 3, 3}[i]
						if i == 1 {
							w = 7
						}
						p := r.choose(w, "position")
						var e []SE
						for k := 0; k < w; k++ {
							if k == p {
								e = append(e, x)
							} else {
								e = append(e, SE{c: m.p.charBV(m.p.sym(fmt.Sprintf("nd%d", k), setOf(digits10)))})
							}
						}
						l[i] = mkStr(e)
						return l
					})
				}
			}
			for _, L := range []int{1, 2, 3, 4, 5, 13, 14, 15, 18} {
				L := L
				bad(fmt.Sprintf("a company prefix of %d digits", L), func(r *Run) []*Str {
					n := 2 + r.choose(max-1, "fields")
					l := append([]*Str{}, good[:n]...)
					l[1] = m.decField("cp", L, 2, 40).s
					return l
				})
			}
		})
		for part := 0; part < 7; part++ {
			part := part
			c.context(fmt.Sprintf("%s partition %d", s.pattern, part), func(m *Machine) {
				key := fmt.Sprintf("pattern:%s:%d", s.pattern, part)
				head := m.constBits(s.header, 8)
				fvs := []fieldVal{m.filterField("01234567")}
				m.explore(func(r *Run) {
					c.wantFilter(r, c.makePrefix(r, lit(s.pattern), []*Str{fvs[0].s}), key, "a "+s.pattern+" pattern with one field", cat(head, fvs[0].bits))
				})
				for _, k := range epcCases(s, part, c.thorough()) {
					cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
					ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
					want := cat(head, fvs[0].bits, m.constBits(part, 3), cp.bits)
					m.maxPaths = 1 << 30
					fl := []*Str{fvs[0].s, cp.s}
					test := func(n int) {
						m.explore(func(r *Run) {
							c.wantFilter(r, c.makePrefix(r, lit(s.pattern), fl), key, fmt.Sprintf("a %s pattern with %d fields and a %d-digit company prefix", s.pattern, n, 12-part), want)
						})
					}
					test(2)
					fl = append(fl, ref.s)
					want = cat(want, ref.bits)
					test(3)
					if max == 4 {
						ser := m.decField("serial", k.ser.L, k.ser.n, 38)
						fl = append(fl, ser.s)
						want = cat(want, ser.bits)
						test(4)
					}
				}
			})
		}
	}
	for _, std := range []string{"iso17363", "iso17365"} {
		std := std
		c.context(std, func(m *Machine) {
			key := "pattern:" + std
			m.explore(func(r *Run) {
				c.wantErr(r, c.makePrefix(r, lit(std), nil), "malformed:"+std, "a "+std+" pattern without fields")
			})
			fs := []fieldVal{m.charField("data identifier", 2, alnum), m.charField("owner code", 3, alpha), m.charField("equipment identifier", 1, alpha), m.charField("container serial number", 6, digits10), m.charField("extra", 1, digits10)}
			for n := 1; n <= 5; n++ {
				for i := 0; i < n; i++ {
					m.explore(func(r *Run) {
						var l []*Str
						for _, f := range fs[:n] {
							l = append(l, f.s)
						}
						l[i] = lit("")
						c.wantErr(r, c.makePrefix(r, lit(std), l), "malformed:"+std, fmt.Sprintf("a %s pattern with the blank field %d of %d", std, i+1, n))
					})
				}
			}
			m.explore(func(r *Run) {
				var l []*Str
				for _, f := range fs {
					l = append(l, f.s)
				}
				c.wantErr(r, c.makePrefix(r, lit(std), l), "malformed:"+std, "a "+std+" pattern with five fields")
			})
			good := func(what string, fl []fieldVal, extra func(r *Run) []Bit) {
				for n := 1; n <= len(fl); n++ {
					if n < len(fl) && len(fl) == 4 && extra == nil && n > 4 {
						continue
					}
					m.explore(func(r *Run) {
						var l []*Str
						var want []Bit
						for _, f := range fl[:n] {
							l = append(l, f.s)
							want = append(want, f.bits...)
						}
						if n == 4 && extra != nil {
							want = append(want, extra(r)...)
						}
						c.wantFilter(r, c.makePrefix(r, lit(std), l), key, fmt.Sprintf("a %s pattern with %d fields%s", std, n, what), want)
					})
				}
			}
			if std == "iso17363" {
				for L := 1; L <= 6; L++ {
					csn := m.charField(fmt.Sprintf("serial of %d digits", L), L, digits10)
					text := catStr(lit(strings.Repeat("0", 6-L)), csn.s)
					pad := m.litChars(strings.Repeat("0", 6-L))
					fl := []fieldVal{m.charField("any data identifier", 2, iso6), fs[1], fs[2], {s: csn.s, bits: cat(pad.bits, csn.bits)}}
					good(fmt.Sprintf(" and a %d-digit serial", L), fl, func(r *Run) []Bit { return r.digitCode(r.iso6346(catStr(catStr(fs[1].s, fs[2].s), text))) })
				}
				return
			}
			for _, ln := range [][4]int{{1, 1, 1, 1}, {2, 2, 9, 12}, {3, 2, 6, 18}, {2, 3, 4, 30}, {1, 5, 2, 7}, {3, 3, 34, 42}, {1, 40, 70, 130}, {2, 2, 3, 300}} {
				tag := fmt.Sprint(ln)
				good("", []fieldVal{m.charField("data identifier"+tag, ln[0], iso6), m.charField("agency"+tag, ln[1], iso6), m.charField("company"+tag, ln[2], iso6), m.charField("serial"+tag, ln[3], iso6)}, nil)
			}
		})
	}
	c.context("unknown type", func(m *Machine) {
		m.explore(func(r *Run) {
			n := r.choose(5, "fields")
			var l []*Str
			for i := 0; i < n; i++ {
				l = append(l, m.decField(fmt.Sprintf("f%d", i), 7, 20, 24).s)
			}
			ty := []*Str{atomStr("pattern type", 1), lit(""), lit("iso17364"), lit("SGTIN-96"), lit("sgtin-198"), lit("sgtin"), lit("iso")}
			c.wantErr(r, c.makePrefix(r, ty[r.choose(len(ty), "type")], l), "malformed:type", "a pattern of unknown type")
		})
	})
}

// digitBits is the 6-bit code of a decimal digit value.
func (r *Run) digitCode(v any) []Bit {
	s := r.decStr(v)
	e := s.elems()
	if len(e) != 1 || e[0].seg != nil {
		r.unsupported("digit %s", showStr(s))
	}
	b, _ := r.toBV(e[0].c, 8)
	return []Bit{b.b[5], b.b[4], b.b[3], b.b[2], b.b[1], b.b[0]}
}

// ---- generator

type genFn struct {
	s    epcScheme
	fn   *ssa.Function
	maxN int
}

func (c *Check) generators() []genFn {
	var out []genFn
	for i, n := range []string{"MakeSGTIN96", "MakeSSCC96", "MakeGRAI96", "MakeGIAI96"} {
		f := c.fn("scheme", n)
		if f == nil {
			continue
		}
		g := genFn{epcSchemes[i], f, 3}
		if g.s.serialBits > 0 {
			g.maxN = 4
		}
		out = append(out, g)
	}
	return out
}

// runGen generates a tag or a prefix from field texts.
func (c *Check) runGen(r *Run, g genFn, pf bool, f []*Str) Outcome {
	args := []any{r.p.konst(pf)}
	for _, x := range f {
		args = append(args, x)
	}
	return r.try(g.fn, args, nil)
}

// tagBits reads a returned []byte as bits.
func (r *Run) tagBits(v any) ([]Bit, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	var out []Bit
	for _, e := range r.arr(s) {
		b, ok := r.toBV(e, 8)
		if !ok {
			return nil, false
		}
		b = r.nbv(b)
		for i := 7; i >= 0; i-- {
			out = append(out, b.b[i])
		}
	}
	return out, true
}

// sameBits compares bits; free positions (zero Bit) match anything.
func (r *Run) sameBits(got, want []Bit) (int, bool) {
	if len(got) != len(want) {
		return -1, false
	}
	for i := range want {
		if want[i].n == nil {
			continue
		}
		if v, ok := r.known(r.p.eq(got[i], want[i])); !ok || !v {
			return i, false
		}
	}
	return 0, true
}

func freeBits(n int) []Bit { return make([]Bit, n) }

func ruleC05(c *Check) {
	for _, g := range c.generators() {
		g := g
		s := g.s
		for part := 0; part < 7; part++ {
			part := part
			c.context(fmt.Sprintf("%s partition %d", s.name, part), func(m *Machine) {
				m.maxPaths = 1 << 30
				c.genContext(m, g, part)
			})
		}
		c.context(s.name+" invalid", func(m *Machine) {
			key := "gen-invalid:" + s.name
			fv := m.filterField("01234567")
			ref := m.decField("ref", 2, 3, 24)
			ser := m.decField("serial", 9, 28, 38)
			for _, L := range []int{1, 2, 3, 4, 5, 13, 14, 15, 18} {
				cp := m.decField("cp", L, 2, 40)
				for _, pf := range []bool{true, false} {
					m.explore(func(r *Run) {
						f := []*Str{fv.s, cp.s, ref.s, ser.s}[:g.maxN]
						if pf && r.choose(2, "reference") == 1 {
							f = append([]*Str{fv.s, cp.s}, lit(""), lit(""))[:g.maxN]
						}
						c.genErr(r, c.runGen(r, g, pf, f), key, fmt.Sprintf("generating a %s (prefix mode %v) with a company prefix of %d digits", s.name, pf, L))
					})
				}
			}
			m.explore(func(r *Run) {
				f := []*Str{[]*Str{fv.s, lit("")}[r.choose(2, "filter")], lit(""), []*Str{ref.s, lit("")}[r.choose(2, "ref")], []*Str{ser.s, lit("")}[r.choose(2, "serial")]}[:g.maxN]
				c.genErr(r, c.runGen(r, g, false, f), key, "generating a "+s.name+" without company prefix")
			})
		})
	}
	c.isoGen()
}

func (c *Check) genErr(r *Run, o Outcome, key, what string) {
	c.count("obligations", 1)
	if o.kind != "return" {
		c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		return
	}
	if e, ok := errKnown(r, o.ret[len(o.ret)-1]); !ok || !e {
		c.fail(key, "-", "%s is not an error%s", what, r.where())
	}
}

func (c *Check) genContext(m *Machine, g genFn, part int) {
	s := g.s
	key := fmt.Sprintf("gen:%s:%d", s.name, part)
	head := m.constBits(s.header, 8)
	fv := m.filterField("01234567")
	L := 12 - part
	tagOK := func(r *Run, o Outcome, what string, want []Bit) {
		c.count("obligations", 1)
		if o.kind != "return" {
			c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
			return
		}
		if e, ok := errKnown(r, o.ret[3]); !ok || e {
			c.fail(key, c.pos(g.fn.Pos()), "%s gives the error %s%s", what, showVal(o.ret[3]), r.where())
			return
		}
		b, ok := r.tagBits(o.ret[0])
		if !ok || len(b) != 96 {
			c.fail(key, c.pos(g.fn.Pos()), "%s gives %d bits instead of 96 without an error%s", what, len(b), r.where())
			return
		}
		if i, ok := r.sameBits(b, want); !ok {
			c.fail(key, c.pos(g.fn.Pos()), "%s: bit %d of the tag is %s instead of %s%s", what, i, bstr(r.norm(b[i])), bstr(r.norm(want[i])), r.where())
		}
	}
	rest := 24
	if s.serialBits > 0 {
		rest = 38
	}
	tail := func(ser []Bit) []Bit {
		if s.name == "GIAI-96" {
			return nil
		}
		if s.serialBits == 0 {
			return m.constBits(0, rest)
		}
		return ser
	}
	cases := epcCases(s, part, c.thorough())
	for _, k := range cases {
		cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
		ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
		ser := m.decField("serial", k.ser.L, k.ser.n, 38)
		m.explore(func(r *Run) {
			f := []*Str{fv.s, cp.s, ref.s, ser.s}[:g.maxN]
			tagOK(r, c.runGen(r, g, false, f), fmt.Sprintf("generating a %s with a %d-digit company prefix", s.name, L), cat(head, fv.bits, m.constBits(part, 3), cp.bits, ref.bits, tail(ser.bits)))
		})
		c.prefixCase(m, g, part, key, fv, cp, ref, ser)
	}
	// fields left out, filled at random
	k := cases[len(cases)-1]
	cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
	ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
	ser := m.decField("serial", k.ser.L, k.ser.n, 38)
	for mask := 1; mask < 8; mask++ {
		if s.serialBits == 0 && mask >= 4 {
			continue
		}
		fb, rb, sb := fv.bits, ref.bits, ser.bits
		f := []*Str{fv.s, cp.s, ref.s, ser.s}
		if mask&1 != 0 {
			f[0], fb = lit(""), freeBits(3)
		}
		if mask&2 != 0 {
			f[2], rb = lit(""), freeBits(s.refBits[part])
		}
		if mask&4 != 0 {
			f[3], sb = lit(""), freeBits(38)
		}
		m.explore(func(r *Run) {
			tagOK(r, c.runGen(r, g, false, f[:g.maxN]), fmt.Sprintf("generating a %s with fields left out", s.name), cat(head, fb, m.constBits(part, 3), cp.bits, rb, tail(sb)))
		})
	}
	c.prefixCase(m, g, part, key, fieldVal{s: lit("")}, cp, ref, ser)
	// values too wide for their field
	wide := func(what string, f []*Str) {
		m.explore(func(r *Run) {
			c.genErr(r, c.runGen(r, g, false, f[:g.maxN]), key+":wide", fmt.Sprintf("generating a %s with a %d-digit company prefix and %s", s.name, L, what))
		})
	}
	for n := s.refBits[part] + 1; n <= 63; n++ {
		if n > s.refBits[part]+3 && n < 60 && !c.thorough() {
			continue
		}
		w := m.decField("reference", minDigits(n), n, s.refBits[part])
		wide("a reference too wide", []*Str{fv.s, cp.s, w.s, ser.s})
		if s.serialBits > 0 {
			z := m.decField("serial", 1, 0, 38)
			wide("a reference too wide and a zero serial", []*Str{fv.s, cp.s, w.s, z.s})
		}
	}
	if s.serialBits > 0 {
		for n := 39; n <= 63; n++ {
			w := m.decField("serial", minDigits(n), n, 38)
			wide("a serial too wide", []*Str{fv.s, cp.s, ref.s, w.s})
			z := m.decField("reference", 1, 0, s.refBits[part])
			wide("a serial too wide and a zero reference", []*Str{fv.s, cp.s, z.s, w.s})
			wide("a serial too wide and no reference", []*Str{fv.s, cp.s, lit(""), w.s})
		}
	}
	wide("a filter value above 7", []*Str{m.filterField("89").s, cp.s, ref.s, ser.s})
	for v := 8; v < 100; v++ {
		wide("a two digit filter value", []*Str{lit(fmt.Sprintf("%02d", v)), cp.s, ref.s, ser.s})
	}
	wide("the filter value 1000", []*Str{lit("1000"), cp.s, ref.s, ser.s})
}

// prefixCase checks the prefix mode: bits and pattern name the same fields.
func (c *Check) prefixCase(m *Machine, g genFn, part int, key string, fv, cp, ref, ser fieldVal) {
	s := g.s
	all := []fieldVal{fv, cp, ref, ser}[:g.maxN]
	for n := 1; n <= g.maxN; n++ {
		m.explore(func(r *Run) {
			f := make([]*Str, g.maxN)
			for i := range f {
				f[i] = lit("")
				if i < n {
					f[i] = all[i].s
				}
			}
			o := c.runGen(r, g, true, f)
			what := fmt.Sprintf("the %s prefix of %d fields", s.name, n)
			c.count("obligations", 1)
			if o.kind != "return" {
				c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
				return
			}
			if e, ok := errKnown(r, o.ret[3]); !ok || e {
				c.fail(key, c.pos(g.fn.Pos()), "%s gives the error %s%s", what, showVal(o.ret[3]), r.where())
				return
			}
			got, ok := o.ret[1].(*Str)
			if !ok {
				c.fail(key, c.pos(g.fn.Pos()), "%s is %s", what, showVal(o.ret[1]))
				return
			}
			bits, ok := r.strBits(r.normStr(got))
			fb := fv.bits
			if fb == nil {
				fb = freeBits(3)
			}
			want := cat(m.constBits(s.header, 8), fb)
			if n > 1 {
				want = cat(want, m.constBits(part, 3), cp.bits)
			}
			if n > 2 {
				want = cat(want, ref.bits)
			}
			if n > 3 {
				want = cat(want, ser.bits)
			}
			if i, same := r.sameBits(bits, want); !ok || !same {
				c.fail(key, c.pos(g.fn.Pos()), "%s is %s, which differs at bit %d from its fields%s", what, showStr(r.normStr(got)), i, r.where())
				return
			}
			uri := lit("urn:epc:pat:" + s.pattern + ":")
			if fv.bits == nil {
				uri = catStr(uri, r.decStr(bitVec(bits[8:11])))
			} else {
				uri = catStr(uri, fv.s)
			}
			for i := 1; i < n; i++ {
				uri = catStr(catStr(uri, lit(".")), all[i].s)
			}
			if !r.sameStr(o.ret[2], uri) {
				c.fail(key, c.pos(g.fn.Pos()), "the pattern of %s is %s instead of %s%s", what, showVal(r.normIfStr(o.ret[2])), showStr(r.normStr(uri)), r.where())
			}
		})
	}
}

// pad16 is the padded form of a 6-bit code.
func pad16(m *Machine, bits []Bit) []Bit {
	out := append([]Bit{}, bits...)
	for i := 0; len(out)%16 != 0; i++ {
		out = append(out, m.p.konst(i%6 == 0))
	}
	return out
}

func (c *Check) isoTag(r *Run, o Outcome, key, what string, want []Bit) {
	c.count("obligations", 1)
	if o.kind != "return" {
		c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		return
	}
	if e, ok := errKnown(r, o.ret[4]); !ok || e {
		c.fail(key, "-", "%s gives the error %s%s", what, showVal(o.ret[4]), r.where())
		return
	}
	b, ok := r.tagBits(o.ret[0])
	if !ok || len(b) != len(want) {
		c.fail(key, "-", "%s gives %d bits instead of %d%s", what, len(b), len(want), r.where())
		return
	}
	if i, ok := r.sameBits(b, want); !ok {
		c.fail(key, "-", "%s: bit %d of the tag is %s instead of %s%s", what, i, bstr(r.norm(b[i])), bstr(r.norm(want[i])), r.where())
	}
	if o.ret[1] != KI(len(want)) {
		c.fail(key, "-", "%s reports the length %s instead of %d%s", what, showVal(o.ret[1]), len(want), r.where())
	}
}
func (c *Check) isoPrefix(r *Run, o Outcome, key, what string, want []Bit, uri *Str) {
	c.count("obligations", 1)
	if o.kind != "return" {
		c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		return
	}
	if e, ok := errKnown(r, o.ret[4]); !ok || e {
		c.fail(key, "-", "%s gives the error %s%s", what, showVal(o.ret[4]), r.where())
		return
	}
	if !r.sameStr(o.ret[2], r.bitChars(want)) {
		c.fail(key, "-", "%s is %s instead of %s%s", what, showVal(r.normIfStr(o.ret[2])), showStr(r.bitChars(want)), r.where())
	}
	if !r.sameStr(o.ret[3], uri) {
		c.fail(key, "-", "the pattern of %s is %s instead of %s%s", what, showVal(r.normIfStr(o.ret[3])), showStr(uri), r.where())
	}
}

func (c *Check) isoGen() {
	f3, f5 := c.fn("scheme", "MakeISO17363"), c.fn("scheme", "MakeISO17365")
	if f3 == nil || f5 == nil {
		return
	}
	for L := 0; L <= 6; L++ {
		L := L
		c.context(fmt.Sprintf("ISO 17363 with a %d-digit serial", L), func(m *Machine) {
			key := "gen:ISO17363"
			di := m.litChars("7B")
			oc := m.charField("owner code", 3, alpha)
			ei := m.charField("equipment identifier", 1, alpha)
			csn := m.charField("serial", L, digits10)
			text := catStr(lit(strings.Repeat("0", 6-L)), csn.s)
			pad := m.litChars(strings.Repeat("0", 6-L))
			if L > 0 {
				m.explore(func(r *Run) {
					o := r.try(f3, []any{r.p.B0, oc.s, ei.s, csn.s}, nil)
					cd := r.digitCode(r.iso6346(catStr(catStr(oc.s, ei.s), text)))
					c.isoTag(r, o, key, "generating an ISO 17363 tag", pad16(m, cat(di.bits, oc.bits, ei.bits, pad.bits, csn.bits, cd)))
				})
				m.explore(func(r *Run) {
					o := r.try(f3, []any{r.p.B1, oc.s, ei.s, csn.s}, nil)
					cd := r.digitCode(r.iso6346(catStr(catStr(oc.s, ei.s), text)))
					uri := catStr(catStr(catStr(catStr(catStr(lit("urn:epc:pat:iso17363:7B."), oc.s), lit(".")), ei.s), lit(".")), text)
					c.isoPrefix(r, o, key, "the ISO 17363 prefix of four fields", cat(di.bits, oc.bits, ei.bits, pad.bits, csn.bits, cd), uri)
				})
				// left out owner code or equipment identifier
				m.explore(func(r *Run) {
					o := r.try(f3, []any{r.p.B0, oc.s, lit(""), csn.s}, nil)
					u := m.litChars("U")
					cd := r.digitCode(r.iso6346(catStr(catStr(oc.s, lit("U")), text)))
					c.isoTag(r, o, key, "generating an ISO 17363 tag without equipment identifier", pad16(m, cat(di.bits, oc.bits, u.bits, pad.bits, csn.bits, cd)))
				})
				return
			}
			for n := 1; n <= 3; n++ {
				m.explore(func(r *Run) {
					a := []any{r.p.B1, lit(""), lit(""), lit("")}
					want := di.bits
					uri := lit("urn:epc:pat:iso17363:7B")
					if n > 1 {
						a[1] = oc.s
						want = cat(want, oc.bits)
						uri = catStr(catStr(uri, lit(".")), oc.s)
					}
					if n > 2 {
						a[2] = ei.s
						want = cat(want, ei.bits)
						uri = catStr(catStr(uri, lit(".")), ei.s)
					}
					c.isoPrefix(r, r.try(f3, a, nil), key, fmt.Sprintf("the ISO 17363 prefix of %d fields", n), want, uri)
				})
			}
			m.explore(func(r *Run) {
				long := m.charField("long serial", 7, digits10)
				c.genErr(r, r.try(f3, []any{[]any{r.p.B0, r.p.B1}[r.choose(2, "mode")], oc.s, ei.s, long.s}, nil), key+":wide", "generating an ISO 17363 tag with a serial of 7 digits")
			})
		})
	}
	c.context("ISO 17365", func(m *Machine) {
		key := "gen:ISO17365"
		for _, ln := range [][4]int{{1, 1, 1, 1}, {2, 2, 9, 12}, {3, 2, 6, 18}, {2, 3, 4, 30}, {1, 5, 2, 7}, {2, 2, 2, 2}, {1, 1, 1, 13}, {3, 3, 3, 3}, {2, 2, 5, 6}, {3, 3, 34, 42}} {
			tag := fmt.Sprint(ln)
			f := []fieldVal{m.charField("data identifier"+tag, ln[0], iso6), m.charField("agency"+tag, ln[1], iso6), m.charField("company"+tag, ln[2], iso6), m.charField("serial"+tag, ln[3], iso6)}
			m.explore(func(r *Run) {
				c.isoTag(r, r.try(f5, []any{r.p.B0, f[0].s, f[1].s, f[2].s, f[3].s}, nil), key, "generating an ISO 17365 tag", pad16(m, cat(f[0].bits, f[1].bits, f[2].bits, f[3].bits)))
			})
			for n := 1; n <= 4; n++ {
				m.explore(func(r *Run) {
					a := []any{r.p.B1, lit(""), lit(""), lit(""), lit("")}
					var want []Bit
					uri := lit("urn:epc:pat:iso17365:")
					for i := 0; i < n; i++ {
						a[i+1] = f[i].s
						want = cat(want, f[i].bits)
						if i > 0 {
							uri = catStr(uri, lit("."))
						}
						uri = catStr(uri, f[i].s)
					}
					c.isoPrefix(r, r.try(f5, a, nil), key, fmt.Sprintf("the ISO 17365 prefix of %d fields", n), want, uri)
				})
			}
			m.explore(func(r *Run) {
				a := []any{r.p.B0, f[0].s, f[1].s, f[2].s, f[3].s}
				a[2+r.choose(2, "missing")] = lit("")
				c.genErr(r, r.try(f5, a, nil), key+":missing", "generating an ISO 17365 tag without issuing agency code or company identification")
			})
		}
	})
}

func ruleC06(c *Check) {
	for _, g := range c.generators() {
		g := g
		s := g.s
		if c.fn("tdt", "MakePrefixFilterString") == nil || c.meth("tdt", "Core", "Translate") == nil {
			return
		}
		for part := 0; part < 7; part++ {
			part := part
			c.context(fmt.Sprintf("%s partition %d", s.name, part), func(m *Machine) {
				m.maxPaths = 1 << 30
				key := fmt.Sprintf("agree:%s:%d", s.name, part)
				fv := m.filterField("01234567")
				for _, k := range epcCases(s, part, c.thorough()) {
					cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
					ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
					ser := m.decField("serial", k.ser.L, k.ser.n, 38)
					f := []*Str{fv.s, cp.s, ref.s, ser.s}[:g.maxN]
					m.explore(func(r *Run) {
						o := c.runGen(r, g, false, f)
						c.count("obligations", 1)
						if o.kind != "return" {
							c.fail(key, c.pos(o.pos), "generating a %s: %s", s.name, o.String(c.pr))
							return
						}
						bits, ok := r.tagBits(o.ret[0])
						if !ok || len(bits) != 96 {
							c.fail(key, c.pos(g.fn.Pos()), "values that fit do not generate a 96-bit %s (%s)", s.name, showVal(o.ret[3]))
							return
						}
						for n := 1; n <= g.maxN; n++ {
							po := c.makePrefix(r, lit(s.pattern), f[:n])
							c.count("obligations", 1)
							what := fmt.Sprintf("the %s pattern of %d values with a %d-digit company prefix", s.name, n, 12-part)
							if po.kind != "return" {
								c.fail(key, c.pos(po.pos), "%s: %s", what, po.String(c.pr))
								return
							}
							ps, ok := po.ret[0].(*Str)
							if !ok {
								c.fail(key, "-", "%s is %s", what, showVal(po.ret[0]))
								return
							}
							pb, ok := r.strBits(r.normStr(ps))
							if !ok || len(pb) == 0 || len(pb) > 96 {
								c.fail(key, "-", "%s compiles to %s (%s)", what, showStr(ps), showVal(po.ret[1]))
								return
							}
							if i, same := r.sameBits(pb, bits[:len(pb)]); !same {
								c.fail(key, "-", "%s is no prefix of the generated tag: bit %d is %s, in the tag %s%s", what, i, bstr(r.norm(pb[i])), bstr(r.norm(bits[i])), r.where())
								return
							}
						}
						pc := []any{KI(0x30), KI(0)}
						id := make([]any, 12)
						for i := range id {
							id[i] = r.p.simp(bitVec(bits[8*i:8*i+8]), 8, false)
						}
						to := c.translate(r, pc, id)
						want, fit := r.epcSpec(s, part, bits)
						if !fit {
							return
						}
						if to.kind != "return" {
							c.fail(key, c.pos(to.pos), "translating the generated %s: %s", s.name, to.String(c.pr))
							return
						}
						if !r.sameStr(to.ret[0], want) {
							c.fail(key, "-", "the generated %s with a %d-digit company prefix translates to %s instead of %s (%s)%s", s.name, 12-part, showVal(r.normIfStr(to.ret[0])), showStr(r.normStr(want)), showVal(to.ret[1]), r.where())
						}
					})
				}
			})
		}
	}
	f3, f5 := c.fn("scheme", "MakeISO17363"), c.fn("scheme", "MakeISO17365")
	if f3 == nil || f5 == nil {
		return
	}
	iso := func(m *Machine, typ string, fn *ssa.Function, gen, pat []*Str) {
		m.explore(func(r *Run) {
			a := []any{r.p.B0}
			for _, x := range gen {
				a = append(a, x)
			}
			o := r.try(fn, a, nil)
			key := "agree:" + typ
			if o.kind != "return" {
				c.fail(key, c.pos(o.pos), "generating an %s tag: %s", typ, o.String(c.pr))
				return
			}
			bits, ok := r.tagBits(o.ret[0])
			if !ok || len(bits) == 0 {
				c.fail(key, "-", "generating an %s tag from valid values fails: %s", typ, showVal(o.ret[4]))
				return
			}
			for n := 1; n <= len(pat); n++ {
				c.count("obligations", 1)
				po := c.makePrefix(r, lit(typ), pat[:n])
				if po.kind != "return" {
					c.fail(key, c.pos(po.pos), "the %s pattern of %d values: %s", typ, n, po.String(c.pr))
					return
				}
				ps, _ := po.ret[0].(*Str)
				if ps == nil {
					c.fail(key, "-", "the %s pattern of %d values is %s", typ, n, showVal(po.ret[0]))
					return
				}
				pb, ok := r.strBits(r.normStr(ps))
				if !ok || len(pb) == 0 || len(pb) > len(bits) {
					c.fail(key, "-", "the %s pattern of %d values compiles to %s (%s)", typ, n, showStr(ps), showVal(po.ret[1]))
					return
				}
				if i, same := r.sameBits(pb, bits[:len(pb)]); !same {
					c.fail(key, "-", "the %s pattern of %d values is no prefix of the generated tag at bit %d%s", typ, n, i, r.where())
					return
				}
			}
		})
	}
	c.context("ISO patterns", func(m *Machine) {
		oc := m.charField("owner code", 3, alpha)
		ei := m.charField("equipment identifier", 1, alpha)
		for L := 1; L <= 6; L++ {
			csn := m.charField(fmt.Sprintf("serial of %d", L), L, digits10)
			iso(m, "iso17363", f3, []*Str{oc.s, ei.s, csn.s}, []*Str{lit("7B"), oc.s, ei.s, csn.s})
		}
		for _, ln := range [][4]int{{1, 1, 1, 1}, {2, 2, 9, 12}, {3, 2, 6, 18}, {2, 3, 4, 30}, {3, 3, 34, 42}} {
			tag := fmt.Sprint(ln)
			f := []*Str{m.charField("data identifier"+tag, ln[0], iso6).s, m.charField("agency"+tag, ln[1], iso6).s, m.charField("company"+tag, ln[2], iso6).s, m.charField("serial"+tag, ln[3], iso6).s}
			iso(m, "iso17365", f5, f, f)
		}
	})
}

func init() {
	rules["C04"] = rule{[]string{"./tdt"}, ruleC04, "abstract interpretation of MakePrefixFilterString for every pattern type, field count, company-prefix length and value width with symbolic values; the abstract filter string is compared bit by bit with the GS1 layout, and every malformed class must give an error and no filter", absAssum}
	rules["C05"] = rule{[]string{"./scheme"}, ruleC05, "abstract interpretation of the Make* generators for every scheme, company-prefix length and value width, with symbolic values, in tag and prefix mode; tags are compared bit by bit with the layout, prefixes with their pattern URI, and every invalid class must give an error", absAssum}
	rules["C06"] = rule{[]string{"./tdt", "./scheme"}, ruleC06, "abstract interpretation of generator, pattern compiler and translator on the same symbolic values; the abstract pattern must be a prefix of the abstract tag and the abstract identity must be built from the tag's own bits", absAssum}
}
