package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// countBits is the number of conditions that hold.
func (r *Run) countBits(l []Bit) any {
	w := 1
	for 1<<w <= len(l) {
		w++
	}
	sum := make([]Bit, w)
	for i := range sum {
		sum[i] = r.p.B0
	}
	for _, b := range l {
		for j := range sum {
			sum[j], b = r.p.xor(sum[j], b), r.p.and(sum[j], b)
		}
	}
	return r.p.simp(&BV{append(sum, r.p.bvConst(0, 64-w).b...)}, 64, true)
}

func initCount() {
	count := func(r *Run, e []SE, c any) any {
		k, ok := c.(KI)
		if !ok {
			r.unsupported("counting %s", showVal(c))
		}
		var l []Bit
		for _, x := range e {
			if x.c == nil {
				r.unsupported("counting characters of an unknown text")
			}
			l = append(l, r.charIn(x.c, setOf(string([]byte{byte(k)}))))
		}
		return r.countBits(l)
	}
	intrinsics["internal/bytealg.CountString"] = func(r *Run, fn *ssa.Function, a []any) any {
		s := str(a[0])
		if !s.concrete() {
			r.unsupported("counting characters of %s", showStr(s))
		}
		return count(r, s.elems(), a[1])
	}
	intrinsics["internal/bytealg.Count"] = func(r *Run, fn *ssa.Function, a []any) any {
		return count(r, bytesSE(r.bytesOf(a[0])), a[1])
	}
	intrinsics["internal/bytealg.MakeNoZero"] = func(r *Run, fn *ssa.Function, a []any) any {
		n := r.constInt(a[0], "length")
		if n < 0 || n > 1<<25 {
			r.gopanic("makeslice: len out of range")
		}
		e := make([]any, n)
		for i := range e {
			e[i] = KI(0)
		}
		return r.newSlice(types.Typ[types.Byte], e)
	}
}
