package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mergeInfo describes the region of a branch whose arms can be evaluated side
// by side and joined instead of forking the path.
type mergeInfo struct {
	join   *ssa.BasicBlock // nil: every arm returns
	region map[*ssa.BasicBlock]bool
}

// postDoms computes the immediate postdominator of every block; -1 is the
// virtual exit.
func postDoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	exit := n
	succ := func(i int) []int {
		b := fn.Blocks[i]
		if len(b.Succs) == 0 {
			return []int{exit}
		}
		var s []int
		for _, x := range b.Succs {
			s = append(s, x.Index)
		}
		return s
	}
	full := make([]map[int]bool, n+1)
	all := map[int]bool{}
	for i := 0; i <= n; i++ {
		all[i] = true
	}
	for i := 0; i < n; i++ {
		full[i] = all
	}
	full[exit] = map[int]bool{exit: true}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			var m map[int]bool
			for _, s := range succ(i) {
				if m == nil {
					m = map[int]bool{}
					for k := range full[s] {
						m[k] = true
					}
					continue
				}
				for k := range m {
					if !full[s][k] {
						delete(m, k)
					}
				}
			}
			m[i] = true
			if len(m) != len(full[i]) {
				full[i] = m
				changed = true
			}
		}
	}
	ip := make([]int, n)
	for i := 0; i < n; i++ {
		ip[i] = -1
		best := -1
		for k := range full[i] {
			if k != i && k != exit && (best < 0 || len(full[k]) > best) {
				best = len(full[k])
				ip[i] = k
			}
		}
	}
	return ip
}

func mergeRegions(fn *ssa.Function) map[*ssa.BasicBlock]*mergeInfo {
	out := map[*ssa.BasicBlock]*mergeInfo{}
	hasIf := false
	for _, b := range fn.Blocks {
		if len(b.Succs) == 2 {
			hasIf = true
		}
	}
	if !hasIf || len(fn.Blocks) > 400 {
		return out
	}
	ip := postDoms(fn)
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		var join *ssa.BasicBlock
		if ip[b.Index] >= 0 {
			join = fn.Blocks[ip[b.Index]]
		}
		if join == b {
			continue
		}
		mi := &mergeInfo{join: join, region: map[*ssa.BasicBlock]bool{}}
		state := map[*ssa.BasicBlock]int{}
		var visit func(x *ssa.BasicBlock) bool
		visit = func(x *ssa.BasicBlock) bool {
			if x == join {
				return true
			}
			if x == b || state[x] == 1 {
				return false
			}
			if state[x] == 2 {
				return true
			}
			state[x] = 1
			if !b.Dominates(x) || len(state) > 16 || !pureArm(x, join == nil) {
				return false
			}
			for _, s := range x.Succs {
				if !visit(s) {
					return false
				}
			}
			state[x] = 2
			mi.region[x] = true
			return true
		}
		if visit(b.Succs[0]) && visit(b.Succs[1]) {
			out[b] = mi
		}
	}
	return out
}

type armRes struct {
	writes map[*any]any
	objs   map[*any]*Obj
	order  []*any
	vals   []any // phi values at the join, or the results
}

// mergeBranch evaluates the arms of a branch without side effects and joins
// their values and writes. On success it returns the phi values of the join,
// or the results when the arms return.
func (r *Run) mergeBranch(fr *frame, b *ssa.BasicBlock, mi *mergeInfo, c Bit) (vals []any, ok bool) {
	if r.specDepth > 6 {
		return nil, false
	}
	envSave := append([]any{}, fr.env...)
	pos := r.cur
	outer := r.spec
	arm := func(a *ssa.BasicBlock) (res *armRes) {
		sp := &specLog{}
		r.spec = sp
		r.specDepth++
		nst, dep := len(r.stack), r.depth
		defer func() {
			e := recover()
			r.spec = outer
			r.specDepth--
			if e != nil {
				switch e.(type) {
				case specAbort, stopT, goPanic:
					res = nil
				default:
					panic(e)
				}
				r.stack = r.stack[:nst]
				r.depth = dep
			}
			w, ob := map[*any]any{}, map[*any]*Obj{}
			var order []*any
			for _, u := range sp.undo {
				if _, ok := w[u.slot]; !ok {
					order = append(order, u.slot)
				}
				w[u.slot] = *u.slot
				if u.obj != nil {
					ob[u.slot] = u.obj
				}
			}
			for i := len(sp.undo) - 1; i >= 0; i-- {
				*sp.undo[i].slot = sp.undo[i].old
			}
			if res != nil {
				res.writes, res.order, res.objs = w, order, ob
			}
		}()
		v := r.specRun(fr, a, b, mi)
		return &armRes{vals: v}
	}
	t := arm(b.Succs[0])
	copy(fr.env, envSave)
	r.cur = pos
	if t == nil {
		return nil, false
	}
	f := arm(b.Succs[1])
	copy(fr.env, envSave)
	r.cur = pos
	if f == nil || len(t.vals) != len(f.vals) {
		return nil, false
	}
	vals = make([]any, len(t.vals))
	for i := range vals {
		v, ok := r.iteVal(c, t.vals[i], f.vals[i], mi.typeOf(fr.fn, i))
		if !ok {
			return nil, false
		}
		vals[i] = v
	}
	type wr struct {
		s *any
		v any
		o *Obj
	}
	var ws []wr
	seen := map[*any]bool{}
	for _, o := range []*armRes{t, f} {
		for _, s := range o.order {
			if seen[s] {
				continue
			}
			seen[s] = true
			tv, ok := t.writes[s]
			if !ok {
				tv = *s
			}
			fv, ok := f.writes[s]
			if !ok {
				fv = *s
			}
			v, ok := r.iteVal(c, tv, fv, nil)
			if !ok {
				return nil, false
			}
			ws = append(ws, wr{s, v, o.objs[s]})
		}
	}
	for _, w := range ws {
		if r.spec != nil {
			r.spec.undo = append(r.spec.undo, undoE{w.s, *w.s, w.o})
		} else if w.o != nil {
			if _, ok := r.mutated[w.o]; !ok {
				r.mutated[w.o] = r.cur
			}
		}
		*w.s = w.v
	}
	return vals, true
}

func (mi *mergeInfo) typeOf(fn *ssa.Function, i int) types.Type {
	if mi.join == nil {
		return fn.Signature.Results().At(i).Type()
	}
	return mi.join.Instrs[i].(*ssa.Phi).Type()
}

// specRun executes a region speculatively up to its join.
func (r *Run) specRun(fr *frame, cur, prev *ssa.BasicBlock, mi *mergeInfo) []any {
	var preset []any
	for {
		np := 0
		for np < len(cur.Instrs) {
			if _, ok := cur.Instrs[np].(*ssa.Phi); !ok {
				break
			}
			np++
		}
		vals := preset
		if vals == nil {
			k := -1
			for i, p := range cur.Preds {
				if p == prev {
					k = i
				}
			}
			vals = make([]any, np)
			for i := range vals {
				vals[i] = r.get(fr, cur.Instrs[i].(*ssa.Phi).Edges[k])
			}
		}
		preset = nil
		if cur == mi.join {
			return vals
		}
		if !mi.region[cur] {
			panic(specAbort{})
		}
		for i := range vals {
			fr.set(cur.Instrs[i].(*ssa.Phi), vals[i])
		}
		var next *ssa.BasicBlock
		for _, in := range cur.Instrs[np:] {
			r.steps++
			if r.steps > r.m.maxSteps {
				panic(specAbort{})
			}
			if p := in.Pos(); p.IsValid() {
				r.cur = p
				if posLog != nil {
					posLog.Store(p, true)
				}
			}
			switch x := in.(type) {
			case *ssa.Jump:
				next = cur.Succs[0]
			case *ssa.Return:
				if mi.join != nil {
					panic(specAbort{})
				}
				out := make([]any, len(x.Results))
				for i, v := range x.Results {
					out[i] = r.get(fr, v)
				}
				return out
			case *ssa.If:
				c := r.norm(r.get(fr, x.Cond).(Bit))
				if v, ok := isConst(c); ok {
					next = cur.Succs[1]
					if v {
						next = cur.Succs[0]
					}
					break
				}
				im := fr.info.merge[cur]
				if im == nil {
					panic(specAbort{})
				}
				v, ok := r.mergeBranch(fr, cur, im, c)
				if !ok {
					panic(specAbort{})
				}
				if im.join == nil {
					return v
				}
				next, preset = im.join, v
				if preset == nil {
					preset = []any{}
				}
			default:
				r.instr(fr, in)
			}
		}
		if next == nil {
			panic(specAbort{})
		}
		cur, prev = next, cur
	}
}

// purePkgs are the packages all of whose modelled functions have no effects.
func pureName(name string) bool {
	if pureCalls[name] {
		return true
	}
	for _, p := range []string{"strings.", "math.", "strconv.", "unicode.", "unicode/utf8.", "math/bits."} {
		if strings.HasPrefix(name, p) {
			rest := name[len(p):]
			return rest != "NewReader" && rest != "NewReplacer"
		}
	}
	return false
}
