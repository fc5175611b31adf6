package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	rules["C36"] = rule{[]string{"./filtering"}, ruleC36, "abstract interpretation of building, changing, searching and dumping every engine for every enumerated set of filters; the dumped lines are read back into filters and report URIs along their nesting and compared with the content the history specifies; the same for nested subscription sets", absAssum}
}

var (
	dumpLine   = regexp.MustCompile(`^( *)(ok|ng)?--([01x]*)\((\d+) (\d+)\)(.*)$`)
	legacyLine = regexp.MustCompile(`^--(\S+) \[((?:"[^"]*" ?)*)\]$`)
	quoted     = regexp.MustCompile(`"([^"]*)"`)
	bsubLine   = regexp.MustCompile(`^( *)--([01x]*) (\d+) ?(.*)$`)
)

// readDump reads the dump of an engine. why is not empty when the dump does
// not describe filters.
func readDump(kind, s string) (out []string, why string) {
	type node struct {
		indent    int
		base, all string
	}
	var path []node
	for _, ln := range strings.Split(s, "\n") {
		if ln == "" {
			continue
		}
		if kind == "LegacyEngine" {
			m := legacyLine.FindStringSubmatch(ln)
			if m == nil {
				return nil, fmt.Sprintf("the line %q shows no destination with its patterns", ln)
			}
			for _, p := range quoted.FindAllStringSubmatch(m[2], -1) {
				out = append(out, p[1]+" -> "+m[1])
			}
			continue
		}
		m := dumpLine.FindStringSubmatch(ln)
		if m == nil {
			return nil, fmt.Sprintf("the line %q shows no filter with its offset and size", ln)
		}
		n := node{indent: len(m[1])}
		for len(path) > 0 && path[len(path)-1].indent >= n.indent {
			path = path[:len(path)-1]
		}
		if len(path) > 0 {
			p := path[len(path)-1]
			n.base = p.all
			if m[2] == "ng" {
				n.base = p.base
			}
		}
		n.all = n.base + m[3]
		path = append(path, n)
		if fmt.Sprint(len(n.base)) != m[4] {
			return nil, fmt.Sprintf("the line %q shows the offset %s of a filter that comes after %d bits", ln, m[4], len(n.base))
		}
		if fmt.Sprint(len(m[3])) != m[5] {
			return nil, fmt.Sprintf("the line %q shows the size %s of a filter of %d bits", ln, m[5], len(m[3]))
		}
		uri := strings.TrimPrefix(strings.TrimSpace(m[6]), "-> ")
		if uri == "" && kind != "List" {
			continue
		}
		out = append(out, n.all+" -> "+uri)
	}
	return out, ""
}

type dumpOp struct {
	kind string // add, delete, search
	fs   []string
}

func (c *Check) dumpRun(kind string, build []string, ops []dumpOp) {
	c.dumpRun2(kind, build, ops, func(s string) string { return "http://u" + s })
}

// dumpShared has few destinations with several filters each.
func (c *Check) dumpShared(kind string, build []string, ops []dumpOp) {
	c.dumpRun2(kind, build, ops, func(s string) string { return fmt.Sprintf("http://u%d", (strings.Count(s, "1")+len(s))%2) })
}

func (c *Check) dumpRun2(kind string, build []string, ops []dumpOp, uri func(string) string) {
	c.dumps = append(c.dumps, func(r *Run) {
		e := c.newEngRun(r, kind)
		bits := func(s string) []Bit {
			var l []Bit
			for _, ch := range s {
				l = append(l, r.p.konst(ch == '1'))
			}
			return l
		}
		pat := map[string]string{}
		set := func(fs []string) MapV {
			l := map[string][]*Str{}
			for _, f := range fs {
				p := e.pattern(bits(f))
				if p.isLit() {
					pat[f] = p.lit
				}
				l[uri(f)] = append(l[uri(f)], p)
			}
			return e.subs(l)
		}
		e.hist = append(e.hist, fmt.Sprintf("building from %q", build))
		if !e.build(set(build)) {
			return
		}
		cur := map[string]bool{}
		for _, f := range build {
			cur[f] = true
		}
		look := func() bool {
			o, ok := e.do("Dump")
			if !ok {
				return false
			}
			c.count("obligations", 1)
			s, ok := o.ret[0].(*Str)
			if !ok || !s.isLit() {
				e.bad("dump:text", o.pos2(c), "the dump of known filters is not a known text: %s", showVal(o.ret[0]))
				return false
			}
			pos := c.pos(e.meth("Dump").Pos())
			var want []string
			for _, f := range sortedKeys(cur) {
				if kind == "LegacyEngine" {
					want = append(want, pat[f]+" -> "+uri(f))
				} else {
					want = append(want, f+" -> "+uri(f))
				}
			}
			got, why := readDump(kind, s.lit)
			if why != "" {
				e.bad("dump:line", pos, "%s", why)
				return false
			}
			extra, missing := bagDiff(got, want)
			if len(extra) > 0 {
				e.bad("dump:extra", pos, "the dump shows %q, which is not stored; it shows %q instead of %q", extra[0], got, want)
				return false
			}
			if len(missing) > 0 {
				e.bad("dump:missing", pos, "the dump does not show %q; it shows %q instead of %q", missing[0], got, want)
				return false
			}
			return true
		}
		if !look() {
			return
		}
		for _, o := range ops {
			switch o.kind {
			case "search":
				e.hist = append(e.hist, "a search of "+o.fs[0])
				if _, _, ok := e.search(bits(o.fs[0])); !ok {
					return
				}
			case "add":
				e.hist = append(e.hist, fmt.Sprintf("adding %q", o.fs))
				if _, ok := e.do("AddSubscription", set(o.fs)); !ok {
					return
				}
				for _, f := range o.fs {
					cur[f] = true
				}
			case "delete":
				e.hist = append(e.hist, fmt.Sprintf("deleting %q", o.fs))
				if _, ok := e.do("DeleteSubscription", set(o.fs)); !ok {
					return
				}
				for _, f := range o.fs {
					delete(cur, f)
				}
			}
			if !look() {
				return
			}
		}
	})
}

// dumpTasks spreads the queued histories over contexts.
func (c *Check) dumpTasks() int {
	n := len(c.dumps)
	const per = 20
	for i := 0; i < n; i += per {
		j := i + per
		if j > n {
			j = n
		}
		part := c.dumps[i:j]
		c.context(fmt.Sprintf("dumps %d-%d", i, j-1), func(m *Machine) {
			engineHooks(m)
			m.explore(func(r *Run) {
				k := r.choose(len(part), "history")
				part[k](r)
			})
		})
	}
	return n
}

func ruleC36(c *Check) {
	// all bit strings of up to 3 bits, over a common start that crosses a byte
	var pool []string
	for n := 1; n <= 3; n++ {
		for v := 0; v < 1<<n; v++ {
			pool = append(pool, fmt.Sprintf("%0*b", n, v))
		}
	}
	id := func(s string) string { return (s + "10110100")[:8] }
	for _, kind := range engineNames {
		var sets [][]string
		sets = append(sets, nil)
		for i, a := range pool {
			sets = append(sets, []string{a})
			for j, b := range pool[i+1:] {
				sets = append(sets, []string{a, b})
				for k, d := range pool[i+j+2:] {
					if c.thorough() || (i+j+k)%2 == 0 {
						sets = append(sets, []string{a, b, d})
					}
				}
			}
		}
		for n, s := range sets {
			if len(s) == 0 {
				c.dumpRun(kind, s, nil)
				if kind == "List" || kind == "LegacyEngine" {
					c.dumpRun(kind, s, []dumpOp{{"add", []string{"01"}}})
				}
				continue
			}
			var add []string
			has := map[string]bool{}
			for _, x := range s {
				has[x] = true
			}
			for _, x := range pool {
				if !has[x] {
					add = append(add, x)
				}
			}
			srch := dumpOp{"search", []string{id(s[len(s)-1])}}
			if len(s) < 3 {
				for _, x := range add {
					c.dumpRun(kind, s, []dumpOp{srch, {"add", []string{x}}})
				}
			} else {
				c.dumpRun(kind, s, []dumpOp{srch, {"add", []string{add[n%len(add)]}}, {"search", []string{id(s[0])}}})
			}
			if len(s) > 1 {
				// several filters of one destination, in both orders
				rev := append([]string{}, s...)
				sort.Sort(sort.Reverse(sort.StringSlice(rev)))
				c.dumpShared(kind, rev, []dumpOp{srch, {"add", []string{add[(n+3)%len(add)]}}, {"delete", []string{s[0]}}})
				c.dumpShared(kind, s, []dumpOp{srch, {"add", []string{add[(n+5)%len(add)]}}, {"delete", []string{s[len(s)-1]}}})
				for k := range s {
					c.dumpRun(kind, s, []dumpOp{{"search", []string{id(s[k])}}, {"delete", []string{s[k]}}, {"add", []string{add[(n+k)%len(add)]}}})
				}
			}
		}
		// filters over several bytes
		pre := "0011010"
		for _, b := range []string{"", "1", "10", "1011010010"} {
			for _, s := range [][]string{{"0", "1"}, {"0", "01", "011"}, {"00", "01", "1"}, {"10", "1011", "110"}} {
				var l []string
				for _, x := range s {
					l = append(l, pre+b+x)
				}
				c.dumpRun(kind, l, []dumpOp{{"search", []string{(l[0] + strings.Repeat("10", 12))[:24]}}, {"add", []string{pre + b + "1110"}}, {"delete", []string{l[1]}}})
			}
		}
	}
	for _, kind := range engineNames {
		for _, p := range plans(c.thorough()) {
			pre := ""
			for i := 0; i < p.base; i++ {
				pre += string('0' + byte(i%2))
			}
			with := func(l []string) (o []string) {
				for _, x := range l {
					o = append(o, pre+x)
				}
				return
			}
			var ops []dumpOp
			for i, s := range p.steps {
				o := dumpOp{s.kind, with(s.fs)}
				if s.kind == "search" {
					id := o.fs[0]
					for len(id) < p.idBits {
						id += string('0' + byte(i%2))
					}
					o.fs = []string{id[:p.idBits]}
				}
				ops = append(ops, o)
			}
			if p.shared > 0 {
				c.dumpShared(kind, with(p.build), ops)
			} else {
				c.dumpRun(kind, with(p.build), ops)
			}
		}
	}
	n := c.dumpTasks()
	c.nested()
	c.expect("histories", n, 3000)
	c.run()
}

// nested checks the dump of nested subscription sets.
func (c *Check) nested() {
	bt, pt := c.typeOf("filtering", "ByteSubscriptions"), c.typeOf("filtering", "PartialSubscription")
	if bt == nil || pt == nil {
		return
	}
	fn := c.pr.methodByName(bt, "Dump")
	if fn == nil {
		c.fail("anchor:ByteSubscriptions.Dump", "-", "ByteSubscriptions has no method Dump")
		return
	}
	type tree map[string]tree
	trees := []tree{
		{}, {"0": nil}, {"0": nil, "1": {}}, {"01": {"1": nil, "00": {"1": nil}}, "1": nil},
		{"0011": {"0000": nil, "0011": {"0000": nil, "1": {"0": nil}}}, "1111": nil},
		{"0": {"1": {"1": {"1": {"0": nil, "1": nil}}}}, "11": {"01": nil}},
	}
	for k, t := range trees {
		t := t
		c.context(fmt.Sprintf("nested set %d", k), func(m *Machine) {
			m.mapOrder = 2
			m.explore(func(r *Run) {
				var want []string
				var mk func(t tree, base string) MapV
				mk = func(t tree, base string) MapV {
					mv := MapV{r.newMap()}
					for _, f := range sortedKeys(t) {
						uri := "http://u" + base + f
						want = append(want, fmt.Sprintf("%s at %d -> %s", base+f, len(base), uri))
						fs := map[string]any{"Offset": KI(len(base)), "ReportURI": lit(uri)}
						if t[f] != nil {
							fs["Subset"] = mk(t[f], base+f)
						}
						r.mapSet(mv.m, lit(f), Ptr{obj: r.newObj(pt, c.mkStruct(r, pt, fs))})
					}
					return mv
				}
				o := r.try(fn, []any{mk(t, "")}, nil)
				c.count("obligations", 1)
				pos := c.pos(fn.Pos())
				if o.kind != "return" {
					c.fail("nested:dump", o.pos2(c), "dumping a nested set ends in %s", o.String(c.pr))
					return
				}
				s, ok := o.ret[0].(*Str)
				if !ok || !s.isLit() {
					c.fail("nested:text", pos, "the dump of a known set is not a known text")
					return
				}
				var got []string
				type node struct {
					indent int
					all    string
				}
				var path []node
				for _, ln := range strings.Split(s.lit, "\n") {
					if ln == "" {
						continue
					}
					g := bsubLine.FindStringSubmatch(ln)
					if g == nil {
						c.fail("nested:line", pos, "the line %q of a dumped set shows no filter with its offset", ln)
						return
					}
					for len(path) > 0 && path[len(path)-1].indent >= len(g[1]) {
						path = path[:len(path)-1]
					}
					base := ""
					if len(path) > 0 {
						base = path[len(path)-1].all
					}
					path = append(path, node{len(g[1]), base + g[2]})
					got = append(got, fmt.Sprintf("%s at %s -> %s", base+g[2], g[3], g[4]))
				}
				extra, missing := bagDiff(got, want)
				if len(extra)+len(missing) > 0 {
					c.fail("nested:content", pos, "a dumped set shows %q instead of %q", got, want)
				}
			})
		})
	}
}

func bagDiff(a, b []string) (extra, missing []string) {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return diffBags(x, y)
}
