package main

import (
	"go/types"
	"hash/fnv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A function that writes no memory which outlives the call answers every call
// alike, whatever was called before, so analysing one call is enough. The
// rules of such functions are analysed with every write to memory that
// outlives the call recorded. Where there is one (a cache, a shared buffer),
// the same context is analysed again with another call of the function before
// or after the one that is judged, differing in one part of one argument or
// in nothing: what an earlier call left behind must not change the answer, and
// a later one must not change what was already returned.

type histMode int

const (
	histOff histMode = iota
	histRecord
	histTwin
)

// outlives tells whether an object existed before the analysed call or
// belongs to the program.
func (r *Run) outlives(id int, label string) bool {
	if id <= r.mark || strings.HasPrefix(label, "global:") {
		return true
	}
	for _, x := range r.inits {
		if id > x[0] && id <= x[1] {
			return true
		}
	}
	return false
}

func (r *Run) noteWrite(id int, label string) {
	if r.m.hist == histRecord && !r.m.keeps && r.topCall && r.inInit == 0 && r.outlives(id, label) {
		r.m.keeps = true
	}
}

// topLevel is called for a call of a rule. It returns the function that is
// called afterwards.
func (r *Run) topLevel(fn *ssa.Function, args, bind []any) func() {
	r.mark = r.objN
	r.topCall = true
	if r.m.hist != histTwin || r.twinned {
		return func() {}
	}
	vs := r.variations(fn, args)
	k := r.choose(1+2*len(vs), "another call")
	if k == 0 {
		return func() {}
	}
	r.twinned = true
	v := vs[(k-1)/2]
	other := func() {
		r.try(fn, v, bind)
	}
	if k%2 == 1 {
		other()
		return func() {}
	}
	return other
}

// variations are the arguments of other calls.
func (r *Run) variations(fn *ssa.Function, args []any) [][]any {
	out := [][]any{r.copyArgs(fn, args)}
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	for i := first; i < len(args); i++ {
		t := fn.Params[i].Type()
		for _, v := range r.varied(args[i], t) {
			a := r.copyArgs(fn, args)
			a[i] = v
			out = append(out, a)
		}
	}
	return out
}

func (r *Run) copyArgs(fn *ssa.Function, args []any) []any {
	out := make([]any, len(args))
	for i, a := range args {
		out[i] = a
		if s, ok := a.(SliceV); ok && s.obj != nil {
			if st, ok := fn.Params[i].Type().Underlying().(*types.Slice); ok {
				out[i] = r.newSlice(st.Elem(), r.elemsOf(s))
			}
		}
	}
	return out
}

// varied are values that differ from one in one part.
func (r *Run) varied(v any, t types.Type) []any {
	switch x := v.(type) {
	case KI:
		return []any{x + 8, x + 1}
	case Bit:
		return []any{r.p.not(x)}
	case *Str:
		if !x.isLit() {
			x = r.normStr(x)
		}
		if x.isLit() {
			n := len(x.lit)
			if n == 0 {
				return []any{lit("1")}
			}
			out := []any{lit(x.lit[:n-1] + string([]byte{x.lit[n-1] ^ 1})), lit(string([]byte{x.lit[0] ^ 1}) + x.lit[1:]), lit(x.lit[:n-1])}
			if n > 2 {
				out = append(out, lit(x.lit[:n/2]+string([]byte{x.lit[n/2] ^ 1})+x.lit[n/2+1:]))
			}
			return out
		}
		e := x.e
		n := len(e)
		var out []any
		for _, i := range []int{n - 1, 0, n / 2} {
			if i < 0 || i >= n || e[i].seg != nil {
				continue
			}
			l := append([]SE{}, e...)
			l[i] = SE{c: KI('1')}
			out = append(out, mkStr(l))
			l = append([]SE{}, e...)
			l[i] = SE{c: KI('0')}
			out = append(out, mkStr(l))
		}
		if n > 0 && e[n-1].seg == nil {
			out = append(out, mkStr(append([]SE{}, e[:n-1]...)))
		}
		return out
	case SliceV:
		st, ok := t.Underlying().(*types.Slice)
		if !ok || x.obj == nil || x.n == 0 {
			return nil
		}
		e := r.elemsOf(x)
		var out []any
		seen := map[int]bool{}
		for _, i := range []int{0, 1, x.n / 2, x.n - 1} {
			if i >= x.n || seen[i] {
				continue
			}
			seen[i] = true
			switch st.Elem().Underlying().(type) {
			case *types.Basic:
			default:
				continue
			}
			var vs []any
			if bv, ok := r.toBV(e[i], 8); ok && isByte(st.Elem()) {
				for _, b := range []int{0, 7} {
					n := append([]Bit{}, bv.b...)
					n[b] = r.p.not(n[b])
					vs = append(vs, r.p.simp(&BV{n}, 8, false))
				}
			} else {
				vs = r.varied(e[i], st.Elem())
			}
			for _, y := range vs {
				l := append([]any{}, e...)
				l[i] = y
				out = append(out, r.newSlice(st.Elem(), l))
			}
		}
		return append(out, r.newSlice(st.Elem(), append([]any{}, e[:x.n-1]...)))
	}
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// twin analyses a context again with another call.
func (c *Check) twin(t task) {
	c.mu.Lock()
	c.cover["contexts_with_state"]++
	n := c.cover["contexts_with_state"]
	c.mu.Unlock()
	limit := 40 * time.Second
	if c.thorough() {
		limit = 200 * time.Second
	}
	c.mu.Lock()
	if c.twinFrom.IsZero() {
		c.twinFrom = time.Now()
	}
	late := time.Since(c.twinFrom) > limit
	c.mu.Unlock()
	if late {
		c.count("truncated_histories", 1)
		return
	}
	if !c.thorough() && n > 60 { // a sample of the contexts
		h := fnv.New32a()
		h.Write([]byte(t.name))
		if h.Sum32()%16 != 0 {
			return
		}
	}
	m := newMachine(c.pr, t.name+" with another call")
	m.hist = histTwin
	if m.maxPaths > 4000 {
		m.maxPaths = 4000
	}
	m.maxTotal = 4000000
	t.f(m)
	// The single call is decided without this, so what cannot be followed
	// here is only counted.
	for _, p := range m.problems {
		if strings.HasPrefix(p, "uncaught panic") {
			c.fail("undecided:"+stripLines(p), "-", "undecided: %s", p)
			continue
		}
		c.count("truncated_histories", 1)
	}
	c.mu.Lock()
	c.cover["contexts"]++
	c.cover["paths"] += int64(m.Paths)
	c.cover["abstract_steps"] += m.Steps
	c.mu.Unlock()
}

// histRules are the rules of functions that must not depend on other calls.
var histRules = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C15": true, "C31": true, "C32": true, "C33": true, "C34": true}
