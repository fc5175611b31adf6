package main

import (
	"fmt"
	"sort"
)

// Large engines: many filters, deep nesting, long filters and many operations.
// The shape of the subscriptions is given; the IDs searched at the end are
// fully symbolic, so every ID is covered.

// plan is a large history on known filters.
type plan struct {
	name   string
	build  []string
	steps  []planStep
	idBits int // bits of the symbolic IDs, a multiple of 8
	base   int // constant bits before every filter
	shared int // number of report URIs, 0 for one per filter
	looks  int // symbolic searches at the end
}

type planStep struct {
	kind string // add, delete, search
	fs   []string
}

// lcg is a deterministic source of numbers for the shapes.
type lcg uint64

func (l *lcg) n(k int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l)>>33) % k
}
func (l *lcg) bits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(l.n(2))
	}
	return string(b)
}

func (p *plan) uri(f string) string {
	if p.shared > 0 {
		k := 0
		for _, ch := range f {
			k = k*2 + int(ch-'0') + 1
			k %= 1009
		}
		return fmt.Sprintf("http://s%d", k%p.shared)
	}
	return "http://u" + f
}

// plans are the large histories.
func plans(thorough bool) []plan {
	var out []plan
	// many alternatives on one level
	var wide []string
	for v := 0; v < 40; v++ {
		wide = append(wide, fmt.Sprintf("%06b", (v*37)%64))
	}
	w := plan{name: "40 filters side by side", build: wide[:30], idBits: 8, looks: 1}
	for i := 0; i < 10; i++ {
		w.steps = append(w.steps, planStep{"search", []string{wide[(i*7)%30]}}, planStep{"add", wide[30+i : 31+i]}, planStep{"delete", []string{wide[(i*11)%30]}})
	}
	w.steps = append(w.steps, planStep{"search", []string{wide[39]}})
	out = append(out, w)
	w.name, w.base, w.idBits, w.steps = "30 filters after a long common start", 58, 64, nil
	out = append(out, w)
	// deep nesting
	src := lcg(7)
	line := src.bits(40)
	var chain, half []string
	for i := 1; i <= len(line); i++ {
		chain = append(chain, line[:i])
		if i%2 == 0 {
			half = append(half, line[:i])
		}
	}
	out = append(out, plan{name: "40 nested filters", build: chain, idBits: 40, looks: 1})
	d := plan{name: "20 nested filters with changes", build: half, idBits: 40, looks: 1}
	for i := 3; i < len(line); i += 4 {
		side := line[:i] + string('0'+'1'-line[i])
		d.steps = append(d.steps, planStep{"add", []string{line[:i]}}, planStep{"add", []string{side}}, planStep{"search", []string{side}}, planStep{"delete", []string{line[:i-1]}})
	}
	out = append(out, d)
	// long filters that part late
	ns := []int{60, 124, 250}
	if thorough {
		ns = append(ns, 508)
	}
	for _, n := range ns {
		for k := 0; k < 2; k++ {
			src := lcg(n + k)
			var fs []string
			t := src.bits(n + 12)
			for i := 0; i < 12; i += 2 + k {
				fs = append(fs, t[:n+i], t[:n+i]+string('0'+'1'-t[n+i]))
			}
			p := plan{name: fmt.Sprintf("filters of %d and more bits, %d", n, k), build: fs[:len(fs)/2], idBits: (n + 12 + 7) / 8 * 8, looks: 1}
			for _, f := range fs[len(fs)/2:] {
				p.steps = append(p.steps, planStep{"add", []string{f}})
			}
			p.steps = append(p.steps, planStep{"search", []string{t}}, planStep{"delete", []string{fs[0], fs[3]}}, planStep{"add", []string{t[:n-3], t[:n/2]}}, planStep{"delete", []string{fs[len(fs)-1]}})
			out = append(out, p)
		}
	}
	// drawn histories
	num := 6
	if thorough {
		num = 120
	}
	for k := 1; k <= num; k++ {
		src := lcg(k * 977)
		m := 4 + 3*(k%4)
		seen := map[string]bool{}
		var pool []string
		for len(pool) < 36 {
			f := src.bits(1 + src.n(m))
			if len(pool) > 0 && src.n(3) > 0 { // related to another one
				g := pool[src.n(len(pool))]
				f = g[:1+src.n(len(g))] + src.bits(src.n(3))
			}
			if !seen[f] {
				seen[f] = true
				pool = append(pool, f)
			}
			if len(seen) >= 1<<m {
				break
			}
		}
		p := plan{name: fmt.Sprintf("drawn history %d", k), build: pool[:len(pool)*2/3], base: []int{0, 5, 0, 19, 61}[k%5], looks: 1}
		if k%3 == 0 {
			p.shared = 5
		}
		long := 0
		for _, f := range pool {
			long = max(long, len(f))
		}
		p.idBits = (p.base + long + 7) / 8 * 8
		for i := 0; i < 60; i++ {
			f := pool[src.n(len(pool))]
			switch src.n(4) {
			case 0:
				p.steps = append(p.steps, planStep{"add", []string{f}})
			case 1:
				p.steps = append(p.steps, planStep{"delete", []string{f}})
			case 2:
				p.steps = append(p.steps, planStep{"search", []string{f + src.bits(8)}})
			case 3:
				g := pool[src.n(len(pool))]
				if g != f {
					p.steps = append(p.steps, planStep{[]string{"add", "delete"}[src.n(2)], []string{f, g}})
				}
			}
		}
		out = append(out, p)
	}
	return out
}

// large interprets the large histories on an engine.
func (c *Check) large(kind, key string, accept func(p *plan) bool) {
	for _, p := range plans(c.thorough()) {
		p := p
		if accept != nil && !accept(&p) {
			continue
		}
		c.context(kind+" "+p.name, func(m *Machine) {
			engineHooks(m)
			done := 0
			m.explore(func(r *Run) {
				e := c.newEngRun(r, kind)
				if kind == "PatriciaTrie" || kind == "List" {
					e.h.pure = true
				}
				if key == "consistent" {
					e.h.consist = true
				}
				if e.plan(&p, key, nil) {
					done++
				}
			})
			c.expect("completed histories of "+m.name, done, 1)
		})
	}
}

func (e *engRun) planBits(p *plan, f string) []Bit {
	var l []Bit
	for i := 0; i < p.base; i++ {
		l = append(l, e.m.p.konst(i%3 != 1))
	}
	for _, ch := range f {
		l = append(l, e.m.p.konst(ch == '1'))
	}
	return l
}

// plan follows a large history; each is called after every step.
func (e *engRun) plan(p *plan, key string, each func() bool) bool {
	set := func(fs []string) MapV {
		l := map[string][]*Str{}
		for _, f := range fs {
			l[p.uri(f)] = append(l[p.uri(f)], e.pattern(e.planBits(p, f)))
		}
		return e.subs(l)
	}
	e.hist = append(e.hist, p.name)
	if !e.build(set(p.build)) {
		return false
	}
	for _, f := range p.build {
		e.want = append(e.want, stored{e.planBits(p, f), p.uri(f)})
	}
	for i, s := range p.steps {
		if len(s.fs) == 0 {
			continue
		}
		switch s.kind {
		case "search":
			id := e.planBits(p, s.fs[0])
			for len(id) < p.idBits {
				id = append(id, e.m.p.konst(len(id)%2 == i%2))
			}
			if !e.checkSearch(key, id[:p.idBits]) {
				return false
			}
		case "add":
			if _, ok := e.do("AddSubscription", set(s.fs)); !ok {
				return false
			}
			fs := append([]string{}, s.fs...)
			sort.Strings(fs)
			for _, f := range fs {
				e.applyAdd(e.planBits(p, f), p.uri(f))
			}
		case "delete":
			if _, ok := e.do("DeleteSubscription", set(s.fs)); !ok {
				return false
			}
			for _, f := range s.fs {
				e.applyDelete(e.planBits(p, f), p.uri(f))
			}
		}
		if each != nil && !each() {
			return false
		}
	}
	for s := 0; s < p.looks; s++ {
		if !e.checkSearch(key, e.m.symBits(fmt.Sprintf("id%d", s), p.idBits)) {
			return false
		}
	}
	return true
}

// largeAgree interprets the large histories on the bit-filter engines side by side.
func (c *Check) largeAgree() {
	for _, p := range plans(c.thorough()) {
		p := p
		c.context("side by side: "+p.name, func(m *Machine) {
			engineHooks(m)
			done := 0
			m.explore(func(r *Run) {
				first := c.newEngRun(r, bitEngines[0])
				es := []*engRun{first}
				for _, k := range bitEngines[1:] {
					es = append(es, &engRun{c: c, r: r, m: m, kind: k, pats: first.pats})
				}
				set := func(fs []string) MapV {
					l := map[string][]*Str{}
					for _, f := range fs {
						l[p.uri(f)] = append(l[p.uri(f)], first.pattern(first.planBits(&p, f)))
					}
					return first.subs(l)
				}
				each := func(f func(e *engRun) bool) bool {
					for _, e := range es {
						r.user["eng"] = e
						if !f(e) {
							return false
						}
					}
					return true
				}
				compare := func(id []Bit) bool {
					var got [][]string
					if !each(func(e *engRun) bool {
						u, _, ok := e.search(id)
						got = append(got, uriSet(u))
						return ok
					}) {
						return false
					}
					for i, e := range es[1:] {
						c.count("obligations", 1)
						if !sameMultiset(got[0], got[i+1]) {
							e.bad("agree", c.pos(e.meth("Search").Pos()), "the list reports %q and the %s %q for the ID %s", got[0], e.kind, got[i+1], showBits(r, id))
							return false
						}
					}
					return true
				}
				for _, e := range es {
					e.hist = append(e.hist, p.name)
				}
				if !each(func(e *engRun) bool { return e.build(set(p.build)) }) {
					return
				}
				for i, st := range p.steps {
					if len(st.fs) == 0 {
						continue
					}
					switch st.kind {
					case "search":
						id := first.planBits(&p, st.fs[0])
						for len(id) < p.idBits {
							id = append(id, m.p.konst(len(id)%2 == i%2))
						}
						if !compare(id[:p.idBits]) {
							return
						}
					default:
						meth := "AddSubscription"
						if st.kind == "delete" {
							meth = "DeleteSubscription"
						}
						if !each(func(e *engRun) bool { _, ok := e.do(meth, set(st.fs)); return ok }) {
							return
						}
					}
				}
				if compare(m.symBits("id", p.idBits)) {
					done++
				}
			})
			c.expect("completed histories of "+m.name, done, 1)
		})
	}
}

// largeSaves saves and restores engines after large histories.
func (c *Check) largeSaves() {
	for _, kind := range engineNames {
		kind := kind
		for _, p := range plans(false) {
			p := p
			c.context("saving a "+kind+" after "+p.name, func(m *Machine) {
				engineHooks(m)
				m.explore(func(r *Run) {
					e := c.newEngRun(r, kind)
					p.looks = 0
					if e.plan(&p, "search", nil) {
						e.restoreCheck(0)
					}
				})
			})
		}
		if kind == "PatriciaTrie" || kind == "SplayTree" {
			continue
		}
		for k := 0; k < 2; k++ {
			p := plan{name: "300 filters", shared: k}
			for v := 0; v < 300; v++ {
				p.build = append(p.build, fmt.Sprintf("%09b", v))
			}
			c.context(fmt.Sprintf("saving a %s of 300 filters, shared %d", kind, k), func(m *Machine) {
				engineHooks(m)
				m.explore(func(r *Run) {
					e := c.newEngRun(r, kind)
					if e.plan(&p, "search", nil) {
						e.restoreCheck(0)
					}
				})
			})
		}
	}
}
