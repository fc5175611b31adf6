package main

import (
	"fmt"
	"sort"
)

func init() {
	rules["C27"] = rule{[]string{"./filtering"}, ruleC27, "the three bit-filter engines are interpreted side by side: each is built from the same subscriptions, given the same additions and deletions and searched for the same fully symbolic ID on every path; the sets of report URIs are compared with each other, without an expected content", absAssum}
}

var bitEngines = []string{"List", "PatriciaTrie", "SplayTree"}

func uriSet(l []string) []string {
	m := map[string]bool{}
	for _, u := range l {
		m[u] = true
	}
	var out []string
	for u := range m {
		out = append(out, u)
	}
	sort.Strings(out)
	return out
}

// agree interprets one history on the three engines.
func (c *Check) agree(h hist) {
	name := fmt.Sprintf("base %d build %v ops %v ids %v x%d", h.base, h.lens, h.ops, h.ids, h.searches)
	if h.share {
		name += " shared URI"
	}
	c.context(name, func(m *Machine) {
		m.maxPaths = 400000
		engineHooks(m)
		done := 0
		m.explore(func(r *Run) {
			first := c.newEngRun(r, bitEngines[0])
			es := []*engRun{first}
			for _, k := range bitEngines[1:] {
				es = append(es, &engRun{c: c, r: r, m: m, kind: k, pats: first.pats})
			}
			pre := make([]Bit, h.base)
			for i := range pre {
				pre[i] = m.p.konst(i%3 != 1)
			}
			var fs [][]Bit
			var us []string
			l := map[string][]*Str{}
			uri := func(k int) string {
				if h.share && k < len(h.lens) {
					return "http://u0"
				}
				return fmt.Sprintf("http://u%d", k)
			}
			for k, n := range h.lens {
				f := cat(pre, m.symBits(fmt.Sprintf("f%d", k), n))
				fs, us = append(fs, f), append(us, uri(k))
				l[us[k]] = append(l[us[k]], first.pattern(f))
			}
			first.distinct(fs)
			for k := 1; k < len(fs); k++ {
				if h.lens[k] == h.lens[k-1] {
					r.assumeThat(r.bitsLess(fs[k-1], fs[k]))
				}
			}
			say := func(f string, a ...any) {
				for _, e := range es {
					e.hist = append(e.hist, fmt.Sprintf(f, a...))
				}
			}
			each := func(f func(e *engRun) bool) bool {
				for _, e := range es {
					r.user["eng"] = e
					if !f(e) {
						return false
					}
				}
				return true
			}
			say("building from filters of %v bits", h.lens)
			if !each(func(e *engRun) bool { return e.build(e.subs(l)) }) {
				return
			}
			moved := false
			for k, o := range h.ops {
				l := map[string][]*Str{}
				var now [][]Bit
				for j, of := range o.fs {
					f := cat(pre, m.symBits(fmt.Sprintf("op%d.%d", k, j), of.n))
					u := fmt.Sprintf("http://n%d%d", k, j)
					if of.same >= 0 {
						u = us[of.same]
					}
					if o.kind == "add" {
						// a filter has one report URI
						for i := range fs {
							if us[i] != u && len(fs[i]) == len(f) && r.sure(r.bitsEq(fs[i], f), "same filter") {
								moved = true
							}
						}
						fs, us = append(fs, f), append(us, u)
					}
					now = append(now, f)
					l[u] = append(l[u], first.pattern(f))
					say("%s of a %d-bit filter for %s", o.kind, of.n, u)
				}
				first.distinct(now)
				meth := "AddSubscription"
				if o.kind == "delete" {
					meth = "DeleteSubscription"
				}
				if !each(func(e *engRun) bool { _, ok := e.do(meth, e.subs(l)); return ok }) {
					return
				}
			}
			for _, nb := range h.ids {
				for s := 0; s < h.searches; s++ {
					id := m.symBits(fmt.Sprintf("id%d.%d", nb, s), nb*8)
					say("a search")
					var got [][]string
					if !each(func(e *engRun) bool {
						u, _, ok := e.search(id)
						got = append(got, uriSet(u))
						return ok
					}) {
						return
					}
					for i, e := range es[1:] {
						c.count("obligations", 1)
						if sameMultiset(got[0], got[i+1]) {
							continue
						}
						if moved && subset(got[i+1], got[0]) {
							e.bad("moved", c.pos(e.meth("AddSubscription").Pos()), "after a filter is subscribed for another report URI, the list reports %q and the %s %q for the ID %s", got[0], e.kind, got[i+1], showBits(r, id))
							return
						}
						e.bad("agree", c.pos(e.meth("Search").Pos()), "the list reports %q and the %s %q for the ID %s", got[0], e.kind, got[i+1], showBits(r, id))
						return
					}
				}
			}
			done++
		})
		c.expect("completed histories of "+name, done, 1)
	})
}

func subset(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func ruleC27(c *Check) {
	one := []int{1}
	build := func(n int, ls []int, f func(lens []int)) {
		for _, lens := range lenCombos(ls, n) {
			if possible(lens) {
				f(lens)
			}
		}
	}
	for n := 0; n <= 3; n++ {
		build(n, []int{1, 2, 3}, func(lens []int) {
			c.agree(hist{lens: lens, ids: one, searches: 2})
			if n <= 2 {
				for _, o := range opChoices(lens, []int{1, 2, 3}) {
					c.agree(hist{lens: lens, ops: []histOp{o}, ids: one, searches: 1})
				}
			}
		})
	}
	for n := 0; n <= 2; n++ {
		build(n, []int{1, 2}, func(lens []int) {
			for _, o := range pairChoices(lens) {
				c.agree(hist{lens: lens, ops: []histOp{o}, ids: one, searches: 1, share: n == 2})
			}
			if n <= 1 || c.thorough() {
				for _, o := range opChoices(lens, []int{1, 2}) {
					for _, q := range opChoices(lens, []int{1, 2}) {
						c.agree(hist{lens: lens, ops: []histOp{o, q}, ids: one, searches: 1})
					}
				}
			}
		})
	}
	// changes to filters which share whole bytes
	for _, base := range []int{7, 9} {
		for _, lens := range [][]int{{1}, {1, 2}, {2, 2}, {1, 3}} {
			for _, o := range opChoices(lens, []int{1, 2, 3}) {
				c.agree(hist{base: base, lens: lens, ops: []histOp{o}, ids: []int{2}, searches: 1})
			}
		}
	}
	c.agree(hist{base: 8, lens: []int{1, 2, 3}, ops: []histOp{{"delete", []opF{{1, 0}}}}, ids: []int{2}, searches: 1})
	for _, base := range []int{6, 14} {
		build(2, []int{1, 2, 3}, func(lens []int) {
			c.agree(hist{base: base, lens: lens, ids: []int{0, 1, base/8 + 1, base/8 + 2}, searches: 1})
		})
	}
	c.largeAgree()
	if c.thorough() {
		build(3, []int{1, 2, 3}, func(lens []int) {
			for _, o := range opChoices(lens, []int{1, 2, 3}) {
				c.agree(hist{lens: lens, ops: []histOp{o}, ids: one, searches: 2})
			}
		})
		build(4, []int{1, 2, 3}, func(lens []int) { c.agree(hist{lens: lens, ids: one, searches: 2}) })
		build(3, []int{1, 2, 3, 4}, func(lens []int) {
			c.agree(hist{base: 5, lens: lens, ids: []int{0, 1, 2}, searches: 1})
		})
	}
}
