package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C15: preprocessing and loading of subscriptions

// anyCase is a string whose letters may each have either case.
func (m *Machine) anyCase(name, s string) *Str {
	var e []SE
	for i := 0; i < len(s); i++ {
		lo, up := lowerB(s[i]), upperB(s[i])
		if lo == up {
			e = append(e, lit(s[i:i+1]).elems()...)
			continue
		}
		e = append(e, SE{c: m.p.charBV(m.p.sym(fmt.Sprintf("%s[%d]", name, i), setOf(string([]byte{lo, up}))))})
	}
	return mkStr(e)
}

// patCase is a pattern of a subscription set.
type patCase struct {
	name   string
	typ    string
	fields []string // "%6" is a symbolic number of 6 digits
	bad    string   // text of a malformed pattern
}

func ruleC15(c *Check) {
	st, bt := c.pr.typ("filtering", "Subscriptions"), c.pr.typ("filtering", "PartialSubscription")
	mk := c.fn("tdt", "MakePrefixFilterString")
	if st == nil || bt == nil || mk == nil {
		c.fail("anchor:Subscriptions", "-", "the subscription types or the pattern compiler are not in the program")
		return
	}
	conv := c.pr.methodByName(st, "ToByteSubscriptions")
	if conv == nil {
		c.fail("anchor:ToByteSubscriptions", "-", "Subscriptions has no method ToByteSubscriptions")
		return
	}
	fi := map[string]int{}
	for _, n := range []string{"Offset", "ReportURI", "Subset"} {
		if fi[n] = fieldIndex(bt, n); fi[n] < 0 {
			c.fail("anchor:PartialSubscription."+n, "-", "PartialSubscription has no field %s", n)
			return
		}
	}
	good := []patCase{
		{name: "sgtin-96", typ: "sgtin-96", fields: []string{"3", "%7", "%6"}},
		{name: "sgtin-96 filter only", typ: "sgtin-96", fields: []string{"5"}},
		{name: "sscc-96", typ: "sscc-96", fields: []string{"2", "%8"}},
		{name: "grai-96", typ: "grai-96", fields: []string{"0", "%9", "%3"}},
		{name: "giai-96", typ: "giai-96", fields: []string{"1", "%6"}},
		{name: "iso17363", typ: "iso17363", fields: []string{"7B", "ABC", "U"}},
		{name: "iso17365", typ: "iso17365", fields: []string{"25S", "UN", "XYZ"}},
	}
	bad := []patCase{
		{name: "no fields", bad: "urn:epc:pat:sgtin-96"},
		{name: "too many parts", bad: "urn:epc:pat:sgtin-96:3:0614141"},
		{name: "only the prefix", bad: "urn:epc:pat:"},
		{name: "blank", bad: ""},
		{name: "unknown type", bad: "urn:epc:pat:gid-96:3.0614141"},
		{name: "blank type", bad: "urn:epc:pat::3.0614141"},
		{name: "blank fields", bad: "urn:epc:pat:sgtin-96:"},
		{name: "blank last field", bad: "urn:epc:pat:sscc-96:3."},
		{name: "blank ISO fields", bad: "urn:epc:pat:iso17365:"},
		{name: "letters in a number", bad: "urn:epc:pat:grai-96:3.06A4141"},
		{name: "filter value too large", bad: "urn:epc:pat:giai-96:8"},
		{name: "company prefix too short", bad: "urn:epc:pat:sgtin-96:3.12345"},
		{name: "an identity", bad: "urn:epc:id:sgtin:0614141.112345.400"},
		{name: "a sentence", bad: "every tag: all of them"},
	}
	run := func(name string, uris []string, pats [][]patCase, fold bool, key string) {
		c.context(name, func(m *Machine) {
			m.maxPaths = 100000
			done := 0
			m.explore(func(r *Run) {
				e := c.newEngRun(r, "ToByteSubscriptions")
				e.hist = []string{name}
				l := map[string][]*Str{}
				type want struct {
					filter *Str
					uri    string
				}
				var ws []want
				for i, u := range uris {
					for j, p := range pats[i] {
						if p.typ == "" {
							l[u] = append(l[u], lit(p.bad))
							continue
						}
						pre, typ := lit("urn:epc:pat:"), lit(p.typ)
						id := fmt.Sprintf("p%d.%d", i, j)
						if strings.HasPrefix(p.name, "=") {
							id = "same"
						}
						if fold {
							pre, typ = m.anyCase(id+".pre", "urn:epc:pat:"), m.anyCase(id+".typ", p.typ)
						}
						var canon, given []*Str
						for k, f := range p.fields {
							if f[0] == '%' {
								var e []SE
								for d := 0; d < int(f[1]-'0'); d++ {
									e = append(e, SE{c: m.p.charBV(m.p.sym(fmt.Sprintf("%s.%d.%d", id, k, d), setOf("0123456789")))})
								}
								s := mkStr(e)
								if m.fields[m.p.sym(fmt.Sprintf("%s.%d.0", id, k), setOf("0123456789"))] == nil {
									n := int(f[1] - '0')
									s, _ = m.numField(fmt.Sprintf("%s.field%d", id, k), n, n*10/3)
								}
								canon, given = append(canon, s), append(given, s)
								continue
							}
							canon = append(canon, lit(f))
							if fold {
								given = append(given, m.anyCase(fmt.Sprintf("%s.f%d", id, k), f))
							} else {
								given = append(given, lit(f))
							}
						}
						s := catStr(catStr(pre, typ), lit(":"))
						for k, g := range given {
							if k > 0 {
								s = catStr(s, lit("."))
							}
							s = catStr(s, g)
						}
						l[u] = append(l[u], s)
						o := r.try(mk, []any{lit(p.typ), r.strSlice(canon)}, nil)
						if o.kind != "return" {
							c.fail("compile:"+p.name, c.pos(o.pos), "compiling a pattern ends in %s", o.String(c.pr))
							return
						}
						if n, ok := r.implied(r.errNil(o.ret[1])); !ok || !n {
							continue // this value of the pattern does not compile
						}
						ws = append(ws, want{o.ret[0].(*Str), u})
					}
				}
				sub := e.subs(l)
				o := r.try(conv, []any{sub}, nil)
				if o.kind != "return" {
					e.bad(key, c.pos(o.pos), "preprocessing ends in %s", o.String(c.pr))
					return
				}
				done++
				mv, ok := o.ret[0].(MapV)
				if !ok {
					e.bad(key, c.pos(conv.Pos()), "the result is not a map")
					return
				}
				// coinciding filters of different report URIs: each must be kept
				c.count("obligations", 1+len(ws))
				n := 0
				if mv.m != nil {
					n = len(mv.m.keys)
				}
				used := map[int]bool{}
				for _, w := range ws {
					i := r.mapFind(mv.m, w.filter)
					if i < 0 {
						e.bad(key, c.pos(conv.Pos()), "a valid pattern of %s yields no filter", w.uri)
						return
					}
					used[i] = true
					p, ok := mv.m.vals[i].(Ptr)
					if !ok || p.obj == nil {
						e.bad(key, c.pos(conv.Pos()), "the filter of %s has no subscription", w.uri)
						return
					}
					sv := (*r.slot(p)).(*StructV)
					if v, ok := sv.f[fi["Offset"]].(KI); !ok || v != 0 {
						e.bad(key, c.pos(conv.Pos()), "the filter of %s has the offset %s", w.uri, showVal(sv.f[fi["Offset"]]))
					}
					if s, ok := sv.f[fi["ReportURI"]].(*Str); !ok || !s.isLit() || s.lit != w.uri {
						e.bad(key, c.pos(conv.Pos()), "the filter of %s carries the report URI %s", w.uri, showVal(sv.f[fi["ReportURI"]]))
					}
					if d := e.graphDiff(MapV{}, sv.f[fi["Subset"]], "subset"); d != "" {
						e.bad(key, c.pos(conv.Pos()), "the filter of %s already has a subset: %s", w.uri, d)
					}
				}
				if len(used) != n {
					e.bad(key, c.pos(conv.Pos()), "%d filters come from %d distinct valid ones", n, len(used))
				}
			})
			c.expect("preprocessed sets of "+name, done, 1)
		})
	}
	u := []string{"http://u0", "http://u1"}
	for _, p := range good {
		run("valid "+p.name, u[:1], [][]patCase{{p}}, false, "valid")
		run("any case "+p.name, u[:1], [][]patCase{{p}}, true, "case")
		for _, q := range good {
			if q.typ > p.typ {
				run(p.name+" and "+q.name+" for one report URI", u[:1], [][]patCase{{p, q}}, false, "valid")
				run(p.name+" and "+q.name+" for two report URIs", u, [][]patCase{{p}, {q}}, false, "valid")
			}
		}
	}
	for _, b := range bad {
		run("invalid: "+b.name, u[:1], [][]patCase{{b}}, false, "invalid")
		for k, p := range good {
			if k < 3 || c.thorough() {
				run("invalid: "+b.name+" before "+p.name, u[:1], [][]patCase{{b, p}}, false, "invalid")
				run("invalid: "+b.name+" after "+p.name, u, [][]patCase{{p}, {b}}, false, "invalid")
			}
		}
	}
	same := patCase{name: "=", typ: "sgtin-96", fields: []string{"3", "%7"}}
	run("one pattern for two report URIs", u, [][]patCase{{same}, {same}}, false, "one pattern for two report URIs")
	// many patterns and many report URIs, some of them malformed
	for _, k := range []int{1, 24, 70} {
		var us []string
		var ps [][]patCase
		for i := 0; i < k; i++ {
			us = append(us, fmt.Sprintf("http://u%03d", i*7%k))
			var l []patCase
			for j := 0; j < 140/k; j++ {
				if (i+j)%5 == 3 {
					l = append(l, bad[(i+j)%len(bad)])
				}
				l = append(l, patCase{name: "sgtin-96", typ: "sgtin-96", fields: []string{"3", fmt.Sprintf("%07d", 614141+i), fmt.Sprintf("%06d", j*j)}})
			}
			ps = append(ps, l)
		}
		run(fmt.Sprintf("%d report URIs with %d patterns each", k, 140/k), us, ps, false, "many")
	}
	c.loadCSV()
}

// ---- loading a file

type csvRow struct {
	cols []string
	fold bool
}

func (c *Check) loadCSV() {
	fn := c.fn("filtering", "LoadSubscriptionsFromCSVFile")
	if fn == nil {
		return
	}
	pa, pb, pc := "urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sscc-96:2.0614141", "urn:epc:pat:iso17365:25S.UN"
	scripts := map[string][]csvRow{
		"no rows":                        nil,
		"one row":                        {{cols: []string{"http://a", pa}}},
		"one row, several patterns":      {{cols: []string{"http://a", pb, pa, pc}}},
		"https":                          {{cols: []string{"https://a", pa}}},
		"upper-case scheme":              {{cols: []string{"HTTP://a", pa}}},
		"several rows":                   {{cols: []string{"http://b", pb}}, {cols: []string{"http://a", pa, pc}}},
		"one report URI in two rows":     {{cols: []string{"http://a", pb, pa}}, {cols: []string{"http://c", pa}}, {cols: []string{"http://a", pc}}},
		"comment row":                    {{cols: []string{"# comment", pa}}, {cols: []string{"http://a", pa}}},
		"row of another scheme":          {{cols: []string{"ftp://x", pa}}, {cols: []string{"http://a", pb}}},
		"blank row":                      {{cols: []string{""}}, {cols: []string{"http://a", pb}}},
		"row without patterns":           {{cols: []string{"http://z"}}, {cols: []string{"http://a", pb}}},
		"other text between patterns":    {{cols: []string{"http://a", "", pa, "urn:epc:id:sgtin:1.2.3", "note", pb}}},
		"patterns of any case":           {{cols: []string{"http://a", pa, pb}, fold: true}},
		"header row":                     {{cols: []string{"reportURI", "pattern"}}, {cols: []string{"http://a", pa}}},
		"rows of different lengths":      {{cols: []string{"http://a", pa, pb}}, {cols: []string{"http://b", pc}}, {cols: []string{"x"}}},
		"one pattern for two report URI": {{cols: []string{"http://a", pa}}, {cols: []string{"http://b", pa}}},
	}
	var wide, tall, many []csvRow
	for i := 0; i < 90; i++ {
		pat := fmt.Sprintf("urn:epc:pat:sgtin-96:3.%07d", 614141+i*i)
		if i == 0 {
			wide = append(wide, csvRow{cols: []string{"http://a"}})
		}
		wide[0].cols = append(wide[0].cols, pat)
		tall = append(tall, csvRow{cols: []string{"http://a", pat}})
		if i%9 == 4 {
			tall = append(tall, csvRow{cols: []string{"# note"}})
		}
		many = append(many, csvRow{cols: []string{fmt.Sprintf("http://h%02d", i*7%90), pat, pb}})
	}
	scripts["90 patterns in one row"], scripts["90 rows of one report URI"], scripts["90 report URIs"] = wide, tall, many
	for _, name := range sortedKeys(scripts) {
		name, rows := name, scripts[name]
		c.context("loading a file: "+name, func(m *Machine) {
			done := 0
			m.hooks.extern = func(r *Run, fn *ssa.Function, fname string, args []any, site ssa.Instruction) (any, bool) {
				row := func(i int) any {
					var l []*Str
					for j, s := range rows[i].cols {
						x := lit(s)
						if rows[i].fold && j > 0 {
							x = m.anyCase(fmt.Sprintf("r%d.%d", i, j), s)
						}
						l = append(l, x)
					}
					return r.strSlice(l)
				}
				conf := func(p Ptr) {
					for _, f := range []string{"Comma", "FieldsPerRecord", "Comment"} {
						v := c.fieldOf(r, p, f)
						k, ok := v.(KI)
						good := ok
						switch f {
						case "Comma":
							good = ok && k == ','
						case "FieldsPerRecord":
							good = ok && k < 0
						case "Comment":
							good = ok && k == 0
						}
						if !good {
							c.fail("csv:"+f, c.pos(site.Pos()), "rows are read with %s = %s, so files the format allows are refused or misread", f, showVal(v))
						}
					}
				}
				switch fname {
				case "os.Open":
					return Tuple{&Opaque{"file", fn.Signature.Results().At(0).Type()}, Iface{}}, true
				case "encoding/csv.NewReader":
					t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
					sv := r.zero(t).(*StructV)
					sv.f[fieldIndex(t, "Comma")] = KI(',')
					return Ptr{obj: r.newObj(t, sv)}, true
				case "(*encoding/csv.Reader).Read":
					conf(r.asPtr(args[0]))
					k, _ := r.user["row"].(int)
					r.user["row"] = k + 1
					if k >= len(rows) {
						return Tuple{SliceV{}, r.eof()}, true
					}
					return Tuple{row(k), Iface{}}, true
				case "(*encoding/csv.Reader).ReadAll":
					conf(r.asPtr(args[0]))
					var l []any
					for i := range rows {
						l = append(l, row(i))
					}
					return Tuple{r.newSlice(types.NewSlice(types.Typ[types.String]), l), Iface{}}, true
				}
				return nil, false
			}
			m.explore(func(r *Run) {
				o := r.try(fn, []any{lit("subscriptions.csv")}, nil)
				c.count("obligations", 1)
				pos := c.pos(fn.Pos())
				if o.kind != "return" {
					c.fail("csv:"+name, c.pos(o.pos), "loading a file with %s ends in %s", name, o.String(c.pr))
					return
				}
				done++
				mv, ok := o.ret[0].(MapV)
				if !ok || mv.m == nil {
					c.fail("csv:"+name, pos, "loading a file with %s returns no subscription set", name)
					return
				}
				want := map[string][]string{}
				var keys []string
				for _, w := range rows {
					u := strings.ToLower(w.cols[0])
					if !strings.HasPrefix(u, "http://") && !strings.HasPrefix(u, "https://") {
						continue
					}
					for _, p := range w.cols[1:] {
						if strings.HasPrefix(p, "urn:epc:pat:") {
							if want[u] == nil {
								keys = append(keys, u)
							}
							want[u] = append(want[u], p)
						}
					}
				}
				got := map[string]any{}
				for i, k := range mv.m.keys {
					s, ok := k.(*Str)
					if !ok || !s.isLit() {
						c.fail("csv:"+name, pos, "loading a file with %s gives the report URI %s", name, showVal(k))
						return
					}
					if n := len(r.elemsOf(mv.m.vals[i])); n == 0 && want[strings.ToLower(s.lit)] == nil {
						continue // a report URI without patterns subscribes to nothing
					}
					got[strings.ToLower(s.lit)] = mv.m.vals[i]
				}
				if len(got) != len(want) {
					c.fail("csv:"+name, pos, "loading a file with %s gives %d report URIs instead of %d", name, len(got), len(want))
					return
				}
				for _, k := range keys {
					v, ok := got[k]
					if !ok {
						c.fail("csv:"+name, pos, "loading a file with %s loses the report URI %s", name, k)
						return
					}
					el := r.elemsOf(v)
					if len(el) != len(want[k]) {
						c.fail("csv:"+name, pos, "loading a file with %s keeps %d of the %d patterns of %s", name, len(el), len(want[k]), k)
						return
					}
					for i, x := range el {
						low := r.mapStr(x.(*Str), "lower", lowerB, strings.ToLower)
						if v, ok := r.implied(r.strEq(low, lit(strings.ToLower(want[k][i])))); !ok || !v {
							c.fail("csv:"+name, pos, "loading a file with %s keeps %s where the row says %s", name, showVal(x), want[k][i])
							return
						}
					}
				}
			})
			c.expect("loaded files with "+name, done, 1)
		})
	}
}

func init() {
	rules["C15"] = rule{[]string{"./filtering", "./tdt"}, ruleC15, "", absAssum}
}
