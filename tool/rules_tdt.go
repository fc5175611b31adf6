package main

import (
	"fmt"
	"strings"
)

// ---- shared helpers for the rules

// bitVec builds a value from bits given most significant first.
func bitVec(msb []Bit) *BV {
	b := make([]Bit, len(msb))
	for i := range msb {
		b[len(msb)-1-i] = msb[i]
	}
	return &BV{b}
}

// bitsToBytes packs bits, most significant first, into byte values.
func (r *Run) bitsToBytes(bits []Bit) []any {
	var out []any
	for i := 0; i+8 <= len(bits); i += 8 {
		out = append(out, r.p.simp(bitVec(bits[i:i+8]), 8, false))
	}
	return out
}

// symBits returns n named symbolic bits.
func (m *Machine) symBits(name string, n int) []Bit {
	b := make([]Bit, n)
	for i := range b {
		b[i] = m.p.bitSym(fmt.Sprintf("%s[%d]", name, i))
	}
	return b
}

// constBits is a w-bit constant, most significant first.
func (m *Machine) constBits(v, w int) []Bit {
	b := make([]Bit, w)
	for i := range b {
		b[i] = m.p.konst(v>>(w-1-i)&1 == 1)
	}
	return b
}

type epcScheme struct {
	name, urn  string
	header     int
	refBits    [7]int
	refDigits  [7]int // -1: not padded
	noRefAt0   bool
	serialBits int
	pattern    string
}

var cpBitsTab = [7]int{40, 37, 34, 30, 27, 24, 20}
var epcSchemes = []epcScheme{
	{"SGTIN-96", "urn:epc:id:sgtin:", 0x30, [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{1, 2, 3, 4, 5, 6, 7}, false, 38, "sgtin-96"},
	{"SSCC-96", "urn:epc:id:sscc:", 0x31, [7]int{18, 21, 24, 28, 31, 34, 38}, [7]int{5, 6, 7, 8, 9, 10, 11}, false, 0, "sscc-96"},
	{"GRAI-96", "urn:epc:id:grai:", 0x33, [7]int{4, 7, 10, 14, 17, 20, 24}, [7]int{0, 1, 2, 3, 4, 5, 6}, true, 38, "grai-96"},
	{"GIAI-96", "urn:epc:id:giai:", 0x34, [7]int{42, 45, 48, 52, 55, 58, 62}, [7]int{-1, -1, -1, -1, -1, -1, -1}, false, 0, "giai-96"},
}

// padDec is the decimal form of v padded with zeros to n digits; ok is false
// when v has more digits. It forks where the number of digits matters.
func (r *Run) padDec(bits []Bit, n int) (*Str, bool) {
	d := r.decStr(bitVec(bits))
	l := r.strLen(d)
	if n < 0 {
		return d, true
	}
	if r.decide(r.intLess(KI(n), l, 64, true), "digits") {
		return nil, false
	}
	return catStr(r.repStr('0', linVal(linAdd(&Lin{c: float64(n)}, linOf(l), -1))), d), true
}

// repStr is a string of n equal characters.
func (r *Run) repStr(ch byte, n any) *Str {
	if k, ok := n.(KI); ok {
		return lit(strings.Repeat(string([]byte{ch}), int(k)))
	}
	return &Str{e: []SE{{seg: &Seg{kind: "rep", ch: KI(ch), n: n}}}}
}

// sameStr decides whether a string always equals the expected one.
func (r *Run) sameStr(v any, want *Str) bool {
	s, ok := v.(*Str)
	if !ok {
		return false
	}
	s, want = r.normStr(s), r.normStr(want)
	if s.key() == want.key() {
		return true
	}
	t, known := r.known(r.strEq(s, want))
	return known && t
}

// epcSpec is the specified identity of a 96 bit EPC; fits is false when a
// field has more digits than its partition allows.
func (r *Run) epcSpec(s epcScheme, part int, bits []Bit) (*Str, bool) {
	o := 14
	cp, ok := r.padDec(bits[o:o+cpBitsTab[part]], 12-part)
	if !ok {
		return nil, false
	}
	o += cpBitsTab[part]
	out := catStr(lit(s.urn), cp)
	rb := s.refBits[part]
	if !(s.noRefAt0 && part == 0) {
		ref, ok := r.padDec(bits[o:o+rb], s.refDigits[part])
		if !ok {
			return nil, false
		}
		out = catStr(catStr(out, lit(".")), ref)
	}
	o += rb
	if s.serialBits > 0 {
		out = catStr(catStr(out, lit(".")), r.decStr(bitVec(bits[o:o+s.serialBits])))
	}
	return out, true
}

// translate runs Core.Translate on a PC and an ID.
func (c *Check) translate(r *Run, pc, id []any) Outcome {
	fn := c.pr.meth("tdt", "Core", "Translate")
	core := r.newObj(c.pr.typ("tdt", "Core"), nil)
	core.v = r.zero(c.pr.typ("tdt", "Core"))
	if nc := c.pr.fn("tdt", "NewCore"); nc != nil {
		if v, ok := r.call(nc, nil, nil, nil).(Ptr); ok {
			return r.try(fn, []any{v, r.mkBytes(pc), r.mkBytes(id)}, nil)
		}
	}
	return r.try(fn, []any{Ptr{obj: core}, r.mkBytes(pc), r.mkBytes(id)}, nil)
}

func gs1PC(m *Machine) []Bit {
	b := m.symBits("pc", 16)
	b[7] = m.p.B0
	return b
}

// epcContext sets up a 96-bit tag of one scheme and partition.
func epcBits(m *Machine, s epcScheme, part int) []Bit {
	bits := m.symBits("id", 96)
	copy(bits, m.constBits(s.header, 8))
	copy(bits[11:], m.constBits(part, 3))
	return bits
}

func errKnown(r *Run, v any) (isErr, ok bool) {
	nb, ok := r.known(r.errNil(v))
	return !nb, ok
}

func ruleC01(c *Check) {
	if c.meth("tdt", "Core", "Translate") == nil {
		return
	}
	for _, s := range epcSchemes {
		for part := 0; part < 7; part++ {
			s, part := s, part
			c.context(fmt.Sprintf("%s partition %d", s.name, part), func(m *Machine) {
				fits := 0
				m.explore(func(r *Run) {
					bits := epcBits(m, s, part)
					o := c.translate(r, r.bitsToBytes(gs1PC(m)), r.bitsToBytes(bits))
					want, fit := r.epcSpec(s, part, bits)
					if !fit {
						return
					}
					c.count("obligations", 1)
					fits++
					key := fmt.Sprintf("decode:%s:%d", s.name, part)
					if o.kind != "return" {
						c.fail(key, c.pos(o.pos), "translating a %s tag with partition %d ends in %s", s.name, part, o.String(c.pr))
						return
					}
					if e, ok := errKnown(r, o.ret[1]); !ok || e {
						c.fail(key, "-", "translating a %s tag with partition %d whose fields fit gives the error %s instead of %s%s", s.name, part, showVal(o.ret[1]), showStr(want), r.where())
						return
					}
					if !r.sameStr(o.ret[0], want) {
						c.fail(key, c.pos(c.pr.meth("tdt", "Core", "Translate").Pos()), "a %s tag with partition %d decodes to %s, the GS1 partition table gives %s%s", s.name, part, showVal(o.ret[0]), showStr(want), r.where())
					}
				})
				c.expect("fitting paths of "+m.name, fits, 1)
			})
		}
	}
}

var afiTab = map[int]string{0xA1: "17367:", 0xA2: "17365:", 0xA3: "17364:", 0xA4: "17367h:", 0xA5: "17366:", 0xA6: "17366h:", 0xA7: "17365h:", 0xA8: "17364h:", 0xA9: "17363:", 0xAA: "17363h:"}

func isoPC(m *Machine, afi []Bit) []Bit {
	b := m.symBits("pc", 16)
	b[7] = m.p.B1
	copy(b[8:], afi)
	return b
}

// isoSpec is the specified character string of an ISO identifier.
func (r *Run) isoSpec(bits []Bit) *Str {
	var e []SE
	for o := 0; o+6 <= len(bits); o += 6 {
		g := bits[o : o+6]
		top := g[0]
		pad := r.p.and(top, r.p.not(g[1]), r.p.not(g[2]), r.p.not(g[3]), r.p.not(g[4]), r.p.not(g[5]))
		ch := bitVec([]Bit{r.p.B0, r.p.not(top), g[0], g[1], g[2], g[3], g[4], g[5]})
		pn := r.p.not(pad)
		if v, ok := isConst(pn); ok {
			if v {
				e = append(e, SE{c: r.p.simp(ch, 8, false)})
			}
			continue
		}
		e = append(e, SE{seg: &Seg{kind: "opt", ch: r.p.simp(ch, 8, false), g: pn}})
	}
	return mkStr(e)
}

func ruleC03(c *Check) {
	tr := c.meth("tdt", "Core", "Translate")
	if tr == nil {
		return
	}
	check := func(m *Machine, key string, afi int, L int) {
		m.explore(func(r *Run) {
			bits := m.symBits("id", 8*L)
			o := c.translate(r, r.bitsToBytes(isoPC(m, m.constBits(afi, 8))), r.bitsToBytes(bits))
			want := catStr(lit("urn:epc:id:iso"+afiTab[afi]), r.isoSpec(bits))
			c.count("obligations", 1)
			if o.kind != "return" {
				c.fail(key, c.pos(o.pos), "translating an ISO tag with AFI %#x and a %d-byte ID ends in %s", afi, L, o.String(c.pr))
				return
			}
			if e, ok := errKnown(r, o.ret[1]); !ok || e {
				c.fail(key, "-", "translating an ISO tag with AFI %#x and a %d-byte ID gives the error %s", afi, L, showVal(o.ret[1]))
				return
			}
			if !r.sameStr(o.ret[0], want) {
				c.fail(key, c.pos(tr.Pos()), "an ISO tag with AFI %#x and a %d-byte ID decodes to %s, its 6-bit characters are %s%s", afi, L, showVal(r.normIfStr(o.ret[0])), showStr(r.normStr(want)), r.where())
			}
		})
	}
	for afi := range afiTab {
		afi := afi
		for _, L := range []int{1, 12} {
			L := L
			c.context(fmt.Sprintf("AFI %#x, %d bytes", afi, L), func(m *Machine) { check(m, fmt.Sprintf("afi:%#x", afi), afi, L) })
		}
	}
	for _, L := range sizes(1, 62, 63, 64, 65, 66, 100, 128, 256, 300) {
		L := L
		c.context(fmt.Sprintf("%d bytes", L), func(m *Machine) { check(m, fmt.Sprintf("chars:%d", L), 0xA2, L) })
	}
}

func (r *Run) normIfStr(v any) any {
	if s, ok := v.(*Str); ok {
		return r.normStr(s)
	}
	return v
}

func ruleC02(c *Check) {
	tr := c.meth("tdt", "Core", "Translate")
	if tr == nil {
		return
	}
	// judge applies the contract to one outcome; want: "err" when an error is
	// required, "" otherwise.
	judge := func(r *Run, key, what string, o Outcome, mustErr bool) {
		c.count("obligations", 1)
		if o.kind != "return" {
			c.fail(key, c.pos(o.pos), "translating %s ends in %s%s", what, o.String(c.pr), r.where())
			return
		}
		isErr, ok := errKnown(r, o.ret[1])
		if !ok {
			c.fail(key, "-", "whether translating %s reports an error is undecided (%s)", what, showVal(o.ret[1]))
			return
		}
		if mustErr && !isErr {
			c.fail(key, c.pos(tr.Pos()), "translating %s gives %s without an error%s", what, showVal(o.ret[0]), r.where())
			return
		}
		if isErr {
			return
		}
		s, ok := o.ret[0].(*Str)
		if !ok {
			c.fail(key, "-", "translating %s gives %s", what, showVal(o.ret[0]))
			return
		}
		p, known := r.known(r.hasPrefix(s, lit("urn:epc:id:")))
		if !known || !p {
			c.fail(key, c.pos(tr.Pos()), "translating %s gives the incomplete identity %s without an error%s", what, showStr(s), r.where())
		}
	}
	c.context("PC length", func(m *Machine) {
		m.explore(func(r *Run) {
			n := []int{0, 1, 3, 4, 8}[r.choose(5, "pc length")]
			o := c.translate(r, r.bitsToBytes(m.symBits("pc", 8*n)), r.bitsToBytes(m.symBits("id", 96)))
			judge(r, "pclen", fmt.Sprintf("a tag with a %d-byte PC", n), o, true)
		})
		m.explore(func(r *Run) {
			n := []int{0, 1, 2, 3}[r.choose(4, "pc length")]
			o := c.translate(r, r.bitsToBytes(m.symBits("pc", 8*n)), nil)
			judge(r, "empty", fmt.Sprintf("an empty ID with a %d-byte PC", n), o, true)
		})
	})
	c.context("headers", func(m *Machine) {
		var other Set
		for v := 0; v < 256; v++ {
			if v != 0x30 && v != 0x31 && v != 0x33 && v != 0x34 {
				other.add(byte(v))
			}
		}
		for _, L := range sizes(1, 62, 63, 64, 65, 66, 100, 128, 256, 300) {
			m.explore(func(r *Run) {
				id := append([]any{any(m.p.charBV(m.p.sym("header", other)))}, r.bitsToBytes(m.symBits("id", 8*L-8))...)
				o := c.translate(r, r.bitsToBytes(gs1PC(m)), id)
				judge(r, "header", fmt.Sprintf("a %d-byte EPC with an unsupported header", L), o, true)
			})
		}
	})
	for _, s := range epcSchemes {
		s := s
		c.context(s.name+" length", func(m *Machine) {
			for _, L := range sizes(1, 62, 63, 64, 65, 66, 100, 128, 256, 300) {
				if L == 12 {
					continue
				}
				m.explore(func(r *Run) {
					bits := m.symBits("id", 8*L)
					copy(bits, m.constBits(s.header, 8))
					o := c.translate(r, r.bitsToBytes(gs1PC(m)), r.bitsToBytes(bits))
					judge(r, "len:"+s.name, fmt.Sprintf("a %d-byte %s", L, s.name), o, true)
				})
			}
		})
		for part := 0; part < 8; part++ {
			part := part
			c.context(fmt.Sprintf("%s partition %d", s.name, part), func(m *Machine) {
				m.explore(func(r *Run) {
					bits := epcBits(m, s, part)
					o := c.translate(r, r.bitsToBytes(gs1PC(m)), r.bitsToBytes(bits))
					key := fmt.Sprintf("tag:%s:%d", s.name, part)
					what := fmt.Sprintf("a %s with partition %d", s.name, part)
					if part == 7 {
						judge(r, key, what, o, true)
						return
					}
					// the order of the two forks below does not matter
					if _, fit := r.epcSpec(s, part, bits); !fit {
						judge(r, key, what+" and a field exceeding its digits", o, true)
						return
					}
					judge(r, key, what, o, false)
				})
			})
		}
	}
	var bad Set
	for v := 0; v < 256; v++ {
		if v < 0xA1 || v > 0xAA {
			bad.add(byte(v))
		}
	}
	c.context("AFI", func(m *Machine) {
		for _, L := range []int{1, 2, 3, 12, 30, 62, 64, 256} {
			m.explore(func(r *Run) {
				pc := r.bitsToBytes(isoPC(m, m.symBits("afi", 8)))
				pc[1] = m.p.charBV(m.p.sym("afibyte", bad))
				o := c.translate(r, pc, r.bitsToBytes(m.symBits("id", 8*L)))
				judge(r, "afi", fmt.Sprintf("an ISO tag of %d bytes with an unassigned AFI", L), o, true)
			})
		}
	})
	for _, L := range sizes(1, 62, 63, 64, 65, 66, 100, 128, 256, 300) {
		L := L
		c.context(fmt.Sprintf("ISO %d bytes", L), func(m *Machine) {
			m.explore(func(r *Run) {
				var good Set
				for v := 0xA1; v <= 0xAA; v++ {
					good.add(byte(v))
				}
				pc := r.bitsToBytes(isoPC(m, m.symBits("afi", 8)))
				pc[1] = m.p.charBV(m.p.sym("afibyte", good))
				o := c.translate(r, pc, r.bitsToBytes(m.symBits("id", 8*L)))
				judge(r, "iso", fmt.Sprintf("an ISO tag of %d bytes", L), o, false)
			})
		})
	}
}

func init() {
	pk := []string{"./tdt"}
	rules["C01"] = rule{pk, ruleC01, "abstract interpretation of Core.Translate and everything it calls, once per EPC scheme and partition value with every other tag bit symbolic; the abstract result string is compared with the one built from the GS1 partition tables", absAssum}
	rules["C02"] = rule{pk, ruleC02, "abstract interpretation of Core.Translate for every class of PC, header, partition, AFI and ID length 0-62 with symbolic content; every path must return an error or a complete identity", absAssum}
	rules["C03"] = rule{pk, ruleC03, "abstract interpretation of Core.Translate for every AFI and every ID length 1-62 with symbolic ID bits; the abstract identity is compared character by character with the 6-bit reading of the ID", absAssum}
}

var absAssum = []string{
	"the abstract semantics of the analyser and its models of the standard library are right",
	"the Go compiler implements the SSA form the analyser reads",
}
