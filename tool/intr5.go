package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// reV is a compiled regular expression with a known text.
type reV struct {
	re  *regexp.Regexp
	set *Set // the members when the expression is one character class
}

func initRegexp() {
	comp := func(must bool) intrinsic {
		return func(r *Run, fn *ssa.Function, a []any) any {
			s := str(a[0])
			if !s.isLit() {
				r.unsupported("a regular expression that is not constant")
			}
			re, err := regexp.Compile(s.lit)
			if err != nil {
				if must {
					r.gopanic("regexp: Compile: " + err.Error())
				}
				return Tuple{Ptr{}, r.newErr(lit(err.Error()))}
			}
			v := &reV{re: re}
			if p, err := syntax.Parse(s.lit, syntax.Perl); err == nil && p.Op == syntax.OpCharClass {
				set := Set{}
				for i := 0; i < len(p.Rune); i += 2 {
					for c := p.Rune[i]; c <= p.Rune[i+1] && c < 128; c++ {
						set.add(byte(c))
					}
					// a byte that is no character of its own
					if p.Rune[i] <= 0xfffd && 0xfffd <= p.Rune[i+1] {
						for c := 128; c < 256; c++ {
							set.add(byte(c))
						}
					}
				}
				v.set = &set
			}
			o := r.newObj(types.Typ[types.Uintptr], v)
			if must {
				return Ptr{obj: o}
			}
			return Tuple{Ptr{obj: o}, Iface{}}
		}
	}
	intrinsics["regexp.MustCompile"] = comp(true)
	intrinsics["regexp.Compile"] = comp(false)
	get := func(r *Run, a any) *reV {
		p, ok := a.(Ptr)
		if ok && p.obj == nil {
			r.gopanic("nil pointer dereference")
		}
		if ok {
			if v, ok := p.obj.v.(*reV); ok {
				return v
			}
		}
		r.unsupported("regular expression %T", a)
		return nil
	}
	// first index of a match, by asking for each character in turn
	find := func(r *Run, re *reV, s *Str) int {
		if re.set == nil || !s.concrete() {
			r.unsupported("matching %s against %s", re.re, showStr(s))
		}
		for i, e := range s.elems() {
			if r.decide(r.charIn(e.c, *re.set), "regexp") {
				return i
			}
		}
		return -1
	}
	intrinsics["(*regexp.Regexp).FindStringIndex"] = func(r *Run, fn *ssa.Function, a []any) any {
		re, s := get(r, a[0]), r.normStr(str(a[1]))
		var loc []int
		if s.isLit() {
			loc = re.re.FindStringIndex(s.lit)
		} else if i := find(r, re, s); i >= 0 {
			loc = []int{i, i + 1}
		}
		if loc == nil {
			return SliceV{}
		}
		return r.newSlice(types.Typ[types.Int], []any{KI(loc[0]), KI(loc[1])})
	}
	match := func(r *Run, fn *ssa.Function, a []any) any {
		re, s := get(r, a[0]), r.normStr(str(a[1]))
		if s.isLit() {
			return r.p.konst(re.re.MatchString(s.lit))
		}
		return r.p.konst(find(r, re, s) >= 0)
	}
	intrinsics["(*regexp.Regexp).MatchString"] = match
	intrinsics["regexp.MatchString"] = func(r *Run, fn *ssa.Function, a []any) any {
		c := comp(false)(r, fn, a).(Tuple)
		if p := c[0].(Ptr); p.obj == nil {
			return Tuple{r.p.B0, c[1]}
		}
		return Tuple{match(r, fn, []any{c[0], a[1]}), Iface{}}
	}
}
