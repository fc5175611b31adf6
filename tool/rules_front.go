package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C31"] = rule{[]string{"./scheme"}, ruleC31, "abstract interpretation of MakeEPC, MakeISO and MakeISOPC for every scheme and mode with symbolic fields; the returned text must be the exact bits of the layout with each argument in its own field, and the protocol-control word must carry the word count and the application family", absAssum}
	rules["C32"] = rule{[]string{"./scheme", "./scheme/sixenc2bin", "./cmd/gobtags"}, ruleC32, "abstract interpretation of the text converters on texts of symbolic characters; every result is compared with the value the text stands for", absAssum}
}

// noise is an argument that must not matter.
func noise(n string) *Str { return lit("-unused " + n + "-") }

func ruleC31(c *Check) {
	mk := c.fn("scheme", "MakeEPC")
	iso := c.fn("scheme", "MakeISO")
	pcf := c.fn("scheme", "MakeISOPC")
	if mk == nil || iso == nil || pcf == nil {
		return
	}
	// fields: filter, company prefix, reference, serial
	args := func(s epcScheme, f []*Str) map[string]*Str {
		a := map[string]*Str{"fv": f[0], "cp": f[1]}
		for _, n := range []string{"ir", "ext", "ser", "iar", "at"} {
			a[n] = noise(n)
		}
		switch s.name {
		case "SGTIN-96":
			a["ir"], a["ser"] = f[2], f[3]
		case "SSCC-96":
			a["ext"] = f[2]
		case "GRAI-96":
			a["at"], a["ser"] = f[2], f[3]
		case "GIAI-96":
			a["iar"] = f[2]
		}
		return a
	}
	call := func(r *Run, pf bool, cs *Str, a map[string]*Str) Outcome {
		return r.try(mk, []any{r.p.konst(pf), cs, a["fv"], a["cp"], a["ir"], a["ext"], a["ser"], a["iar"], a["at"]}, nil)
	}
	two := func(r *Run, o Outcome, key, what string, want0, want1 *Str) {
		c.count("obligations", 1)
		if o.kind != "return" {
			c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
			return
		}
		if want0 != nil && !r.sameStr(o.ret[0], want0) {
			c.fail(key, c.pos(o.pos), "%s gives %s instead of %s%s", what, cutStr(showVal(r.normIfStr(o.ret[0]))), cutStr(showStr(r.normStr(want0))), r.where())
		}
		if want1 != nil && !r.sameStr(o.ret[1], want1) {
			c.fail(key+":second", c.pos(o.pos), "%s comes with %s instead of %s%s", what, cutStr(showVal(r.normIfStr(o.ret[1]))), cutStr(showStr(r.normStr(want1))), r.where())
		}
	}
	n := 0
	for _, s := range epcSchemes {
		for part := 0; part < 7; part++ {
			s, part := s, part
			n++
			c.context(fmt.Sprintf("MakeEPC %s partition %d", s.name, part), func(m *Machine) {
				key := "epc:" + s.name
				head := m.constBits(s.header, 8)
				fv := m.filterField("01234567")
				cases := epcCases(s, part, false)
				if !c.thorough() {
					cases = []epcCase{cases[0], cases[len(cases)/2], cases[len(cases)-1]}
				}
				for _, k := range cases {
					cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
					ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
					ser := m.decField("serial", k.ser.L, k.ser.n, 38)
					all := []fieldVal{fv, cp, ref, ser}
					maxN := 3
					if s.serialBits > 0 {
						maxN = 4
					}
					rest := ser.bits
					switch s.name {
					case "GIAI-96":
						rest = nil
					case "SSCC-96":
						rest = m.constBits(0, 24)
					}
					names := []string{s.name, strings.ToLower(s.name), s.name[:2] + strings.ToLower(s.name[2:])}
					for i, cs := range names {
						if i > 0 && k != cases[0] {
							continue
						}
						m.explore(func(r *Run) {
							o := call(r, false, lit(cs), args(s, []*Str{fv.s, cp.s, ref.s, ser.s}))
							two(r, o, key, "generating a "+cs, r.bitChars(cat(head, fv.bits, m.constBits(part, 3), cp.bits, ref.bits, rest)), lit("3000"))
						})
					}
					for nf := 1; nf <= maxN; nf++ {
						m.explore(func(r *Run) {
							f := []*Str{lit(""), lit(""), lit(""), lit("")}
							want := cat(head, fv.bits)
							uri := lit("urn:epc:pat:" + s.pattern + ":")
							for i := 0; i < nf; i++ {
								f[i] = all[i].s
								if i > 0 {
									uri = catStr(uri, lit("."))
									want = cat(want, all[i].bits)
								}
								if i == 1 {
									want = cat(head, fv.bits, m.constBits(part, 3), cp.bits)
								}
								uri = catStr(uri, f[i])
							}
							two(r, call(r, true, lit(s.name), args(s, f)), key+":prefix", fmt.Sprintf("the %s prefix of %d fields", s.name, nf), r.bitChars(want), uri)
						})
					}
				}
				// what cannot be generated is blank
				k := cases[0]
				cp := m.decField("company prefix", k.cp.L, k.cp.n, cpBitsTab[part])
				ref := m.decField("reference", k.ref.L, k.ref.n, s.refBits[part])
				ser := m.decField("serial", k.ser.L, k.ser.n, 38)
				wide := m.decField("wide", minDigits(s.refBits[part]+1), s.refBits[part]+1, s.refBits[part])
				for _, f := range [][]*Str{{fv.s, lit(""), ref.s, ser.s}, {fv.s, lit("12345"), ref.s, ser.s}, {fv.s, lit("1234567890123"), ref.s, ser.s}, {fv.s, cp.s, wide.s, ser.s}} {
					m.explore(func(r *Run) {
						two(r, call(r, false, lit(s.name), args(s, f)), key+":invalid", "generating a "+s.name+" from invalid fields", lit(""), nil)
					})
				}
				for _, cs := range []string{"", s.name[:4], s.name + "6", "X" + s.name} {
					m.explore(func(r *Run) {
						two(r, call(r, r.choose(2, "mode") == 1, lit(cs), args(s, []*Str{fv.s, cp.s, ref.s, ser.s})), "epc:unknown", "the unknown scheme "+cs, lit(""), nil)
					})
				}
			})
		}
	}
	c.expect("schemes and partitions", n, 28)
	// ISO
	icall := func(r *Run, pf bool, std string, a map[string]*Str) Outcome {
		get := func(n string) *Str {
			if s := a[n]; s != nil {
				return s
			}
			return noise(n)
		}
		return r.try(iso, []any{r.p.konst(pf), lit(std), get("oc"), get("ei"), get("csn"), get("di"), get("iac"), get("cin"), get("sn")}, nil)
	}
	pcText := func(bits []Bit, afi string) *Str { return lit(fmt.Sprintf("%02x%s", len(bits)/16<<3|1, afi)) }
	for L := 1; L <= 6; L++ {
		L := L
		c.context(fmt.Sprintf("MakeISO 17363 with a %d-digit serial", L), func(m *Machine) {
			di := m.litChars("7B")
			oc := m.charField("owner code", 3, alpha)
			ei := m.charField("equipment identifier", 1, alpha)
			csn := m.charField("serial", L, digits10)
			pad := m.litChars(strings.Repeat("0", 6-L))
			text := catStr(lit(strings.Repeat("0", 6-L)), csn.s)
			a := map[string]*Str{"oc": oc.s, "ei": ei.s, "csn": csn.s}
			m.explore(func(r *Run) {
				o := icall(r, false, "17363", a)
				cd := r.digitCode(r.iso6346(catStr(catStr(oc.s, ei.s), text)))
				bits := pad16(m, cat(di.bits, oc.bits, ei.bits, pad.bits, csn.bits, cd))
				two(r, o, "iso:17363", "generating an ISO 17363 tag", r.bitChars(bits), pcText(bits, "a9"))
			})
			m.explore(func(r *Run) {
				o := icall(r, true, "17363", a)
				cd := r.digitCode(r.iso6346(catStr(catStr(oc.s, ei.s), text)))
				uri := catStr(catStr(catStr(catStr(catStr(lit("urn:epc:pat:iso17363:7B."), oc.s), lit(".")), ei.s), lit(".")), text)
				two(r, o, "iso:17363:prefix", "the ISO 17363 prefix of four fields", r.bitChars(cat(di.bits, oc.bits, ei.bits, pad.bits, csn.bits, cd)), uri)
			})
			m.explore(func(r *Run) {
				o := icall(r, true, "17363", map[string]*Str{"oc": oc.s, "ei": lit(""), "csn": lit("")})
				two(r, o, "iso:17363:prefix", "the ISO 17363 prefix of two fields", r.bitChars(cat(di.bits, oc.bits)), catStr(lit("urn:epc:pat:iso17363:7B."), oc.s))
			})
			m.explore(func(r *Run) {
				o := icall(r, true, "17363", map[string]*Str{"oc": oc.s, "ei": ei.s, "csn": lit("")})
				two(r, o, "iso:17363:prefix", "the ISO 17363 prefix of three fields", r.bitChars(cat(di.bits, oc.bits, ei.bits)), catStr(catStr(catStr(lit("urn:epc:pat:iso17363:7B."), oc.s), lit(".")), ei.s))
			})
			long := m.charField("long serial", 7, digits10)
			m.explore(func(r *Run) {
				o := icall(r, r.choose(2, "mode") == 1, "17363", map[string]*Str{"oc": oc.s, "ei": ei.s, "csn": long.s})
				two(r, o, "iso:17363:invalid", "an ISO 17363 serial of 7 digits", lit(""), nil)
			})
		})
	}
	c.context("MakeISO 17365", func(m *Machine) {
		for _, ln := range [][4]int{{1, 1, 1, 1}, {2, 2, 9, 12}, {3, 2, 6, 18}, {2, 3, 4, 30}, {1, 5, 2, 7}, {3, 3, 3, 4}, {3, 3, 34, 42}} {
			tag := fmt.Sprint(ln)
			f := []fieldVal{m.charField("data identifier"+tag, ln[0], iso6), m.charField("agency"+tag, ln[1], iso6), m.charField("company"+tag, ln[2], iso6), m.charField("serial"+tag, ln[3], iso6)}
			names := []string{"di", "iac", "cin", "sn"}
			m.explore(func(r *Run) {
				bits := pad16(m, cat(f[0].bits, f[1].bits, f[2].bits, f[3].bits))
				two(r, icall(r, false, "17365", map[string]*Str{"di": f[0].s, "iac": f[1].s, "cin": f[2].s, "sn": f[3].s}), "iso:17365", "generating an ISO 17365 tag", r.bitChars(bits), pcText(bits, "a2"))
			})
			for nf := 1; nf <= 4; nf++ {
				m.explore(func(r *Run) {
					a := map[string]*Str{}
					var want []Bit
					uri := lit("urn:epc:pat:iso17365:")
					for i, n := range names {
						if i >= nf {
							a[n] = lit("")
							continue
						}
						a[n] = f[i].s
						want = cat(want, f[i].bits)
						if i > 0 {
							uri = catStr(uri, lit("."))
						}
						uri = catStr(uri, f[i].s)
					}
					two(r, icall(r, true, "17365", a), "iso:17365:prefix", fmt.Sprintf("the ISO 17365 prefix of %d fields", nf), r.bitChars(want), uri)
				})
			}
			m.explore(func(r *Run) {
				a := map[string]*Str{"di": f[0].s, "iac": f[1].s, "cin": f[2].s, "sn": f[3].s}
				a[names[1+r.choose(2, "missing")]] = lit("")
				two(r, icall(r, false, "17365", a), "iso:17365:invalid", "an ISO 17365 tag without issuing agency code or company identification", lit(""), nil)
			})
		}
		for _, std := range []string{"", "17364", "17363 ", "1736"} {
			m.explore(func(r *Run) {
				o := icall(r, r.choose(2, "mode") == 1, std, nil)
				two(r, o, "iso:unknown", "the unknown standard "+std, lit(""), nil)
			})
		}
	})
	c.context("MakeISOPC", func(m *Machine) {
		for w := 0; w < 32; w++ {
			for rem := 0; rem < 16; rem += 5 {
				for afi := 0; afi < 256; afi += 17 {
					if !c.thorough() && (w+rem+afi/17)%5 != 0 {
						continue
					}
					m.explore(func(r *Run) {
						o := r.try(pcf, []any{KI(16*w + rem), lit(fmt.Sprintf("%02X", afi))}, nil)
						c.count("obligations", 1)
						if o.kind != "return" {
							c.fail("pc", c.pos(o.pos), "the PC of %d words: %s", w, o.String(c.pr))
							return
						}
						b, ok := r.tagBits(o.ret[0])
						want := cat(m.constBits(w, 5), m.constBits(1, 3), m.constBits(afi, 8))
						if !ok || len(b) != 16 {
							c.fail("pc", c.pos(pcf.Pos()), "the PC of %d words has %d bits", w, len(b))
						} else if i, ok := r.sameBits(b, want); !ok {
							c.fail("pc", c.pos(pcf.Pos()), "the PC of an ID of %d bits with the AFI %02X is wrong at bit %d", 16*w+rem, afi, i)
						}
					})
				}
			}
		}
	})
}

func cutStr(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func ruleC32(c *Check) {
	pid := c.fn("scheme", "PrintID")
	pgo := c.fn("scheme", "PrintGoBytes")
	six := c.fn("scheme", "Sixenc2bin")
	six2 := c.fn("scheme/sixenc2bin", "sixenc2bin")
	sixMain := c.fn("scheme/sixenc2bin", "main")
	in := c.fn("scheme", "CheckIfStringInSlice")
	mb := c.fn("cmd/gobtags", "makeByteID")
	mp := c.fn("cmd/gobtags", "makeUint16PC")
	if pid == nil || pgo == nil || six == nil || six2 == nil || sixMain == nil || in == nil || mb == nil || mp == nil {
		return
	}
	want := func(r *Run, fn *ssa.Function, o Outcome, key, what string, w *Str) {
		c.count("obligations", 1)
		if o.kind != "return" {
			c.fail(key, c.pos(o.pos), "%s: %s%s", what, o.String(c.pr), r.where())
		} else if !r.sameStr(o.ret[0], w) {
			c.fail(key, c.pos(fn.Pos()), "%s is %s instead of %s%s", what, cutStr(showVal(r.normIfStr(o.ret[0]))), cutStr(showStr(r.normStr(w))), r.where())
		}
	}
	hexField := func(m *Machine, n int) (*Str, []Bit) {
		var e []SE
		var bits []Bit
		for i := 0; i < n; i++ {
			y := m.p.sym(fmt.Sprintf("hex%d", i), setOf("0123456789ABCDEFabcdef"))
			e = append(e, SE{c: m.p.charBV(y)})
			t := m.p.tabulate(y, y.dom, 4, func(v byte) int64 { return int64(hexVal(v)) })
			bits = append(bits, t.b[3], t.b[2], t.b[1], t.b[0])
		}
		return mkStr(e), bits
	}
	maxB := 13
	if c.thorough() {
		maxB = 32
	}
	for _, n := range sizes(0, maxB, 33, 65, 130, 257) {
		n := n
		c.context(fmt.Sprintf("texts of an ID of %d bytes", n), func(m *Machine) {
			bits := m.symBits("id", 8*n)
			m.explore(func(r *Run) {
				bs := r.bitChars(bits)
				opt := atomStr("opt", 0)
				w := catStr(catStr(opt, lit(",")), bs)
				if n == 0 {
					w = lit("")
				}
				want(r, pid, r.try(pid, []any{bs, opt}, nil), "PrintID", "the text of an ID", w)
			})
			m.explore(func(r *Run) {
				pc, pb := hexField(m, 4)
				bs := r.bitChars(bits)
				w := lit("[]byte{")
				for i := 0; i < 2; i++ {
					if i > 0 {
						w = catStr(w, lit(", "))
					}
					w = catStr(w, r.decStr(bitVec(pb[8*i:8*i+8])))
				}
				w = catStr(w, lit("},[]byte{"))
				for i := 0; i < n; i++ {
					if i > 0 {
						w = catStr(w, lit(", "))
					}
					w = catStr(w, r.decStr(bitVec(bits[8*i:8*i+8])))
				}
				w = catStr(w, lit("}"))
				if n == 0 {
					w = lit("")
				}
				want(r, pgo, r.try(pgo, []any{bs, pc}, nil), "PrintGoBytes", "the Go text of an ID", w)
			})
			for d := 0; d < 8; d++ {
				if n == 0 && d == 0 {
					continue
				}
				m.explore(func(r *Run) {
					tail := m.symBits("tail", d)
					o := r.try(mb, []any{r.bitChars(cat(bits, tail))}, nil)
					c.count("obligations", 1)
					if o.kind != "return" {
						c.fail("makeByteID", c.pos(o.pos), "converting an ID of %d bits: %s", 8*n+d, o.String(c.pr))
						return
					}
					e, ok := errKnown(r, o.ret[1])
					if !ok || e != (d != 0 || n == 0) {
						c.fail("makeByteID:error", c.pos(mb.Pos()), "converting an ID of %d bits gives the error %s", 8*n+d, showVal(o.ret[1]))
						return
					}
					if !e {
						b, ok := r.tagBits(o.ret[0])
						if !ok || len(b) != 8*n {
							c.fail("makeByteID", c.pos(mb.Pos()), "an ID of %d bits becomes %d bits", 8*n, len(b))
						} else if i, ok := r.sameBits(b, bits); !ok {
							c.fail("makeByteID", c.pos(mb.Pos()), "an ID of %d bits is converted wrongly at bit %d", 8*n, i)
						}
					}
				})
			}
		})
	}
	for _, n := range sizes(0, maxB+9, 40, 65, 130, 257, 1030) {
		n := n
		c.context(fmt.Sprintf("6-bit codes of %d characters", n), func(m *Machine) {
			f := m.charField("text", n, iso6)
			for k, fn := range []*ssa.Function{six, six2} {
				key := []string{"Sixenc2bin", "sixenc2bin"}[k]
				m.explore(func(r *Run) {
					var e []any
					for _, x := range f.s.elems() {
						e = append(e, x.c)
					}
					for i := range e {
						if bv, ok := e[i].(*BV); ok {
							e[i] = r.p.simp(&BV{append(append([]Bit{}, bv.b...), r.p.bvConst(0, 24).b...)}, 32, true)
						}
					}
					o := r.try(fn, []any{r.newSlice(types.Typ[types.Rune], e)}, nil)
					c.count("obligations", 1)
					if o.kind != "return" {
						c.fail(key, c.pos(o.pos), "the code of %d characters: %s", n, o.String(c.pr))
						return
					}
					got := r.runeBits(o.ret[0])
					if len(got) != 6*n {
						c.fail(key, c.pos(fn.Pos()), "the code of %d characters has %d bits", n, len(got))
					} else if i, ok := r.sameBits(got, f.bits); !ok {
						c.fail(key, c.pos(fn.Pos()), "the code of %d characters is wrong at bit %d", n, i)
					}
				})
			}
		})
	}
	for _, n := range sizes(-1, 4, 40, 130, 300) {
		n := n
		c.context(fmt.Sprintf("sixenc2bin with an argument of %d characters", n), func(m *Machine) {
			f := m.charField("text", max(n, 0), iso6)
			m.hooks.onGlobal = func(r *Run, g *ssa.Global) (any, bool) {
				if g.String() != "os.Args" {
					return nil, false
				}
				a := []*Str{lit("sixenc2bin")}
				if n >= 0 {
					a = append(a, f.s)
				}
				return r.strSlice(a), true
			}
			var out *Str
			m.hooks.extern = func(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
				if r.spec != nil && (strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint")) {
					panic(specAbort{})
				}
				put := func(s *Str) (any, bool) {
					out = catStr(out, s)
					return Tuple{KI(0), Iface{}}, true
				}
				switch name {
				case "fmt.Printf":
					f := r.normStr(str(a[0]))
					if !f.isLit() && f.concrete() && len(r.elemsOf(a[1])) == 0 {
						for _, e := range f.elems() {
							if r.decide(r.charIn(e.c, setOf("%")), "verb") {
								r.unsupported("a format that is not constant")
							}
						}
						return put(f)
					}
					return put(intrinsics["fmt.Sprintf"](r, fn, a).(*Str))
				case "fmt.Println", "fmt.Print":
					s := lit("")
					for i, v := range r.elemsOf(a[0]) {
						x, ok := v.(Iface)
						t, ok2 := x.v.(*Str)
						if !ok || !ok2 {
							return nil, false
						}
						if i > 0 {
							s = catStr(s, lit(" "))
						}
						s = catStr(s, t)
					}
					if name == "fmt.Println" {
						s = catStr(s, lit("\n"))
					}
					return put(s)
				}
				return nil, false
			}
			m.explore(func(r *Run) {
				out = lit("")
				o := r.try(sixMain, nil, nil)
				c.count("obligations", 1)
				if n < 0 {
					if o.kind != "return" && o.kind != "exit" {
						c.fail("sixenc2bin:noargument", c.pos(o.pos), "sixenc2bin without an argument: %s", o.String(c.pr))
					}
					return
				}
				if o.kind != "return" && o.kind != "exit" {
					c.fail("sixenc2bin:main", c.pos(o.pos), "sixenc2bin with an argument of %d characters: %s", n, o.String(c.pr))
				} else if w := r.bitChars(f.bits); !r.sameStr(out, w) && !r.sameStr(out, catStr(w, lit("\n"))) {
					c.fail("sixenc2bin:main", c.pos(sixMain.Pos()), "sixenc2bin prints %s for an argument of %d characters%s", cutStr(showStr(r.normStr(out))), n, r.where())
				}
			})
		})
	}
	for _, n := range sizes(0, 6, 9, 20) {
		n := n
		c.context(fmt.Sprintf("a PC of %d digits", n), func(m *Machine) {
			m.explore(func(r *Run) {
				s, bits := hexField(m, n)
				o := r.try(mp, []any{s}, nil)
				c.count("obligations", 1)
				if o.kind != "return" {
					c.fail("makeUint16PC", c.pos(o.pos), "converting a PC of %d digits: %s", n, o.String(c.pr))
					return
				}
				if n > 4 {
					// more than 16 bits only if one of the leading digits counts
					big := r.p.B0
					for _, b := range bits[:4*(n-4)] {
						big = r.p.or(big, b)
					}
					e, ok := errKnown(r, o.ret[1])
					if !ok || !r.sameBool(r.p.konst(e), big) {
						c.fail("makeUint16PC:error", c.pos(mp.Pos()), "converting a PC of %d digits gives the error %s%s", n, showVal(o.ret[1]), r.where())
						return
					}
					if e {
						return
					}
					bits = bits[4*(n-4):]
				}
				e, ok := errKnown(r, o.ret[1])
				if !ok || e != (n == 0) {
					c.fail("makeUint16PC:error", c.pos(mp.Pos()), "converting a PC of %d digits gives the error %s%s", n, showVal(o.ret[1]), r.where())
					return
				}
				if n > 0 {
					w := r.p.simp(&BV{append(append([]Bit{}, bitVec(bits).b...), r.p.bvConst(0, 64).b...)[:16]}, 16, false)
					if t, known := r.known(r.binop(token.EQL, o.ret[0], w, types.Typ[types.Uint16], types.Typ[types.Uint16]).(Bit)); !known || !t {
						c.fail("makeUint16PC", c.pos(mp.Pos()), "a PC of %d digits becomes %s%s", n, showVal(o.ret[0]), r.where())
					}
				}
			})
			m.explore(func(r *Run) {
				if n == 0 {
					return
				}
				var e []SE
				for i := 0; i < n; i++ {
					set := setOf("0123456789ABCDEFabcdef")
					if i == n-1 {
						set = setOf("ghzGZ -+.:")
					}
					e = append(e, SE{c: m.p.charBV(m.p.sym(fmt.Sprintf("bad%d", i), set))})
				}
				o := r.try(mp, []any{mkStr(e)}, nil)
				c.count("obligations", 1)
				if o.kind != "return" {
					c.fail("makeUint16PC", c.pos(o.pos), "converting an invalid PC: %s", o.String(c.pr))
				} else if e, ok := errKnown(r, o.ret[1]); !ok || !e {
					c.fail("makeUint16PC:error", c.pos(mp.Pos()), "an invalid PC is no error%s", r.where())
				}
			})
		})
	}
	for _, n := range sizes(0, 3, 24, 70) {
		n := n
		c.context(fmt.Sprintf("a list of %d strings", n), func(m *Machine) {
			a := m.charField("a", 2, "xy")
			var l []fieldVal
			for i := 0; i < n; i++ {
				l = append(l, m.charField(fmt.Sprintf("b%d", i), 2, "xy"))
			}
			m.explore(func(r *Run) {
				var ss []*Str
				w := r.p.B0
				for _, x := range l {
					ss = append(ss, x.s)
					w = r.p.or(w, r.strEq(a.s, x.s))
				}
				o := r.try(in, []any{a.s, r.strSlice(ss)}, nil)
				c.count("obligations", 1)
				if o.kind != "return" {
					c.fail("CheckIfStringInSlice", c.pos(o.pos), "looking up a string: %s", o.String(c.pr))
				} else if !r.sameBool(o.ret[0], w) {
					c.fail("CheckIfStringInSlice", c.pos(in.Pos()), "looking up a string among %d gives %s%s", n, showVal(o.ret[0]), r.where())
				}
			})
		})
	}
}

func hexVal(v byte) int {
	switch {
	case v >= '0' && v <= '9':
		return int(v - '0')
	case v >= 'a':
		return int(v-'a') + 10
	}
	return int(v-'A') + 10
}

// runeBits reads a []rune of '0' and '1' as bits.
func (r *Run) runeBits(v any) []Bit {
	var e []SE
	for _, x := range r.elemsOf(v) {
		if bv, ok := x.(*BV); ok {
			x = r.p.simp(&BV{bv.b[:8]}, 8, false)
		}
		e = append(e, SE{c: x})
	}
	if len(e) == 0 {
		return nil
	}
	b, ok := r.strBits(mkStr(e))
	if !ok {
		return nil
	}
	return b
}

// sizes lists from..to and then further, larger sizes.
func sizes(from, to int, more ...int) []int {
	var l []int
	for n := from; n <= to; n++ {
		l = append(l, n)
	}
	for _, n := range more {
		if n > to {
			l = append(l, n)
		}
	}
	return l
}
