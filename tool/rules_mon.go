package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C25"] = rule{f: ruleC25}
}

// evalNum evaluates a numeric expression for given values of its symbols.
func evalNum(v any, env map[string]float64) (float64, bool) {
	switch x := v.(type) {
	case KI:
		return float64(x), true
	case KF:
		return float64(x), true
	case *LSym:
		f, ok := env[x.name]
		return f, ok
	case *Lin:
		s := x.c
		for _, t := range x.t {
			f, ok := evalNum(t.atom, env)
			if !ok {
				return 0, false
			}
			s += t.k * f
		}
		return s, true
	case *Term:
		if f, ok := env[x.key]; ok {
			return f, true
		}
		var a []float64
		for _, y := range x.args {
			f, ok := evalNum(y, env)
			if !ok {
				return 0, false
			}
			a = append(a, f)
		}
		switch x.op {
		case "fdiv":
			return a[0] / a[1], true
		case "fmul", "imul":
			return a[0] * a[1], true
		case "idiv":
			return math.Trunc(a[0] / a[1]), true
		case "imod":
			return math.Mod(a[0], a[1]), true
		}
	case Iface:
		return evalNum(x.v, env)
	}
	return 0, false
}

// sameNum decides that two expressions agree at several points in general
// position.
func sameNum(got any, want func(env map[string]float64) float64, pts []map[string]float64) bool {
	for _, e := range pts {
		g, ok := evalNum(got, e)
		if !ok {
			return false
		}
		w := want(e)
		if math.Abs(g-w) > 1e-9*math.Max(1, math.Abs(w)) {
			return false
		}
	}
	return true
}

// point is what the program handed to the database client.
type statPoint struct {
	id     string
	meas   any
	tags   map[string]any
	fields map[string]any
	pos    token.Pos
}
type statBatch struct {
	points []string
	db     any
}
type statWrite struct {
	points []*statPoint
	db     any
	pos    token.Pos
}

// statDB models the client of the statistics database.
type statDB struct {
	points  map[string]*statPoint
	batches map[string]*statBatch
	writes  []statWrite
	cfg     map[string]any
	bad     string
	times   map[string]bool // times of earlier points
}

const influxPkg = "github.com/influxdata/influxdb1-client/v2"

func (c *Check) statHooks(m *Machine, db func(r *Run) *statDB) {
	worldHooks(m)
	snap := func(r *Run, v any) map[string]any {
		out := map[string]any{}
		mv, ok := v.(MapV)
		if !ok {
			r.unsupported("map %T", v)
		}
		if mv.m == nil {
			return out
		}
		for i, k := range mv.m.keys {
			s, ok := k.(*Str)
			if !ok || !s.isLit() {
				r.unsupported("unknown field name")
			}
			out[s.lit] = cloneV(mv.m.vals[i])
		}
		return out
	}
	m.hooks.extern = func(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
		if !strings.HasPrefix(name, influxPkg+".") && !strings.HasPrefix(name, "(*"+influxPkg) {
			return nil, false
		}
		d := db(r)
		switch strings.TrimPrefix(name, influxPkg+".") {
		case "NewHTTPClient":
			st := fn.Signature.Params().At(0).Type()
			s, ok := a[0].(*StructV)
			if !ok {
				r.unsupported("client configuration %T", a[0])
			}
			for _, f := range []string{"Addr", "Username", "Password"} {
				d.cfg[f] = s.f[fieldIndex(st, f)]
			}
			return Tuple{&Opaque{"client", fn.Signature.Results().At(0).Type()}, Iface{}}, true
		case "NewPoint":
			p := &statPoint{id: fmt.Sprintf("point%d", len(d.points)+1), meas: a[0], tags: snap(r, a[1]), fields: snap(r, a[2]), pos: r.cur}
			n, bad := 0, false
			for _, v := range p.fields {
				i, ok := v.(Iface)
				if !ok {
					r.unsupported("field value %T", v)
				}
				if i.t == nil {
					continue
				}
				n++
				if isFloat(i.t) {
					switch x := i.v.(type) {
					case KF:
						if math.IsInf(float64(x), 0) || math.IsNaN(float64(x)) {
							bad = true
						}
					default:
						if mayBeInfinite(r, x) {
							bad = bad || r.choose(2, "the quotient is not finite") == 1
						}
					}
				}
			}
			pt := fn.Signature.Results().At(0).Type()
			if n == 0 || bad {
				return Tuple{Ptr{}, r.newErr(lit("invalid point"))}, true
			}
			d.points[p.id] = p
			if sl, ok := a[len(a)-1].(SliceV); ok && sl.obj != nil && sl.n > 0 {
				c.count("obligations", 1)
				k := vkey(r.elemsOf(sl)[0])
				if d.times[k] {
					c.fail("time", c.pos(r.cur), "the point carries the time of an earlier one, which it replaces in the database")
				}
				d.times[k] = true
			}
			return Tuple{&Opaque{p.id, pt}, Iface{}}, true
		case "NewBatchPoints":
			st := fn.Signature.Params().At(0).Type()
			s, ok := a[0].(*StructV)
			if !ok {
				r.unsupported("batch configuration %T", a[0])
			}
			prec, ok := s.f[fieldIndex(st, "Precision")].(*Str)
			if !ok || !prec.isLit() {
				r.unsupported("unknown precision")
			}
			switch prec.lit {
			case "", "ns", "us", "µs":
			case "ms", "s", "m", "h":
				c.fail("precision", c.pos(r.cur), "points are written with the precision %q, so points of the same %s replace each other", prec.lit, prec.lit)
			default:
				return Tuple{Iface{}, r.newErr(lit("invalid precision"))}, true
			}
			id := fmt.Sprintf("batch%d", len(d.batches)+1)
			d.batches[id] = &statBatch{db: s.f[fieldIndex(st, "Database")]}
			return Tuple{&Opaque{id, fn.Signature.Results().At(0).Type()}, Iface{}}, true
		}
		return nil, false
	}
	m.hooks.invoke = func(r *Run, recv *Opaque, mt *types.Func, a []any, site ssa.Instruction) (any, bool) {
		d := db(r)
		if b := d.batches[recv.name]; b != nil {
			switch mt.Name() {
			case "AddPoint":
				o, ok := a[0].(*Opaque)
				if !ok {
					r.unsupported("point %T", a[0])
				}
				b.points = append(b.points, o.name)
				return nil, true
			case "AddPoints":
				for _, e := range r.elemsOf(a[0]) {
					o, ok := e.(*Opaque)
					if !ok {
						r.unsupported("point %T", e)
					}
					b.points = append(b.points, o.name)
				}
				return nil, true
			case "SetDatabase":
				b.db = a[0]
				return nil, true
			case "SetPrecision":
				return Iface{}, true
			}
			return nil, false
		}
		if recv.name == "client" {
			switch mt.Name() {
			case "Write":
				o, ok := a[0].(*Opaque)
				if i, isI := a[0].(Iface); isI {
					o, ok = i.v.(*Opaque)
				}
				if !ok || d.batches[o.name] == nil {
					r.unsupported("batch %T", a[0])
				}
				b := d.batches[o.name]
				w := statWrite{db: b.db, pos: r.cur}
				for _, id := range b.points {
					p := d.points[id]
					if p == nil {
						r.unsupported("unknown point %s", id)
					}
					w.points = append(w.points, p)
				}
				d.writes = append(d.writes, w)
				return Iface{}, true
			case "Close":
				return Iface{}, true
			}
		}
		return nil, false
	}
}

func mayBeInfinite(r *Run, v any) bool {
	switch x := v.(type) {
	case *Lin:
		for _, t := range x.t {
			if mayBeInfinite(r, t.atom) {
				return true
			}
		}
	case *Term:
		if x.op == "fdiv" {
			if l := linOf(x.args[1]); l != nil {
				lo, hi := l.bounds(r)
				if lo > 0 || hi < 0 {
					return mayBeInfinite(r, x.args[0])
				}
			}
			return true
		}
		if x.op == "fmul" {
			return mayBeInfinite(r, x.args[0]) || mayBeInfinite(r, x.args[1])
		}
	}
	return false
}

// statMsg is one kind of message and what must come of it.
type statMsg struct {
	name  string
	typ   string // Traffic, EngineThroughput, SelectedEngine or ""
	kind  KI     // for ""
	vals  func(r *Run) any
	ename string
	meas  string // "" when malformed
	tag   bool
	field map[string]func(env map[string]float64) float64
	any   map[string]bool // present with some number
}

func (c *Check) statMsgs(engines []string) []statMsg {
	i64, f64 := types.Typ[types.Int64], types.Typ[types.Float64]
	empty := types.NewInterfaceType(nil, nil)
	vals := func(l ...Iface) func(r *Run) any {
		return func(r *Run) any {
			var e []any
			for _, x := range l {
				e = append(e, x)
			}
			return r.newSlice(empty, e)
		}
	}
	nilv := func(r *Run) any { return SliceV{} }
	iv := func(n string, lo int64) Iface { return Iface{i64, &Term{key: n, lo: lo, hi: 1 << 62, op: "var"}} }
	fv := func(n string) Iface { return Iface{f64, &Term{key: n, lo: 0, hi: 1e15, op: "fvar"}} }
	v := func(n string) func(env map[string]float64) float64 {
		return func(env map[string]float64) float64 { return env[n] }
	}
	k := func(x float64) func(env map[string]float64) float64 {
		return func(env map[string]float64) float64 { return x }
	}
	str := Iface{types.Typ[types.String], lit("many")}
	l := []statMsg{
		{name: "traffic", typ: "Traffic", vals: vals(iv("in", 1), iv("out", 0)), ename: "engineA", meas: "traffic", tag: true,
			field: map[string]func(env map[string]float64) float64{"incoming_events": v("in"), "matched_events": v("out"),
				"matching_probability": func(e map[string]float64) float64 { return e["out"] / e["in"] * 100 }}},
		{name: "idle traffic", typ: "Traffic", vals: vals(Iface{i64, KI(0)}, Iface{i64, KI(0)}), ename: "engineB", meas: "traffic", tag: true,
			field: map[string]func(env map[string]float64) float64{"incoming_events": k(0), "matched_events": k(0)}},
		{name: "matches without ingress", typ: "Traffic", vals: vals(Iface{i64, KI(0)}, iv("out", 1)), ename: "engineB", meas: "traffic", tag: true,
			field: map[string]func(env map[string]float64) float64{"incoming_events": k(0), "matched_events": v("out")}},
		{name: "traffic without values", typ: "Traffic", vals: nilv, ename: "engineA"},
		{name: "traffic with one value", typ: "Traffic", vals: vals(iv("in", 1)), ename: "engineA"},
		{name: "traffic with a wrong first type", typ: "Traffic", vals: vals(str, iv("out", 0)), ename: "engineA"},
		{name: "traffic with a wrong second type", typ: "Traffic", vals: vals(iv("in", 1), str), ename: "engineA"},
		{name: "traffic with a nil second value", typ: "Traffic", vals: vals(iv("in", 1), Iface{}), ename: "engineA"},
		{name: "traffic with nil values", typ: "Traffic", vals: vals(Iface{}, Iface{}), ename: "engineA"},
		{name: "throughput", typ: "EngineThroughput", vals: vals(fv("thr")), ename: "engineA", meas: "throughput", tag: true,
			field: map[string]func(env map[string]float64) float64{"event_per_us": v("thr")}},
		{name: "throughput without values", typ: "EngineThroughput", vals: nilv, ename: "engineA"},
		{name: "throughput of nil", typ: "EngineThroughput", vals: vals(Iface{}), ename: "engineA"},
		{name: "infinite throughput", typ: "EngineThroughput", vals: vals(Iface{f64, KF(math.Inf(1))}), ename: "engineA"},
		{name: "undefined throughput", typ: "EngineThroughput", vals: vals(Iface{f64, KF(math.NaN())}), ename: "engineA"},
		{name: "type -1", kind: -1, vals: vals(iv("in", 1), iv("out", 0)), ename: "engineA"},
		{name: "type 3", kind: 3, vals: vals(fv("thr")), ename: "engineA"},
		{name: "type 1000", kind: 1000, vals: nilv, ename: "engineA"},
	}
	numbers := map[string]float64{"LegacyEngine": 0, "List": 1, "PatriciaTrie": 2, "SplayTree": 3}
	for _, e := range engines {
		sm := statMsg{name: "selection of " + e, typ: "SelectedEngine", vals: nilv, ename: e, meas: "engine"}
		if n, ok := numbers[e]; ok {
			sm.field = map[string]func(env map[string]float64) float64{"selected": k(n)}
		} else {
			sm.any = map[string]bool{"selected": true}
		}
		l = append(l, sm)
	}
	return l
}

func (c *Check) constOf(rel, name string) (KI, bool) {
	p := c.pr.pkg(rel)
	if p != nil {
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			return KI(k.Value.Int64()), true
		}
	}
	c.fail("anchor:"+rel+"."+name, "-", "constant %s.%s is not in the program, so the property cannot be established", rel, name)
	return 0, false
}

func (c *Check) typeOf(rel, name string) types.Type {
	p := c.pr.pkg(rel)
	if p != nil {
		if t, ok := p.Members[name].(*ssa.Type); ok {
			return t.Type()
		}
	}
	c.fail("anchor:"+rel+"."+name, "-", "type %s.%s is not in the program, so the property cannot be established", rel, name)
	return nil
}

// mkStruct builds a struct value from named fields.
func (c *Check) mkStruct(r *Run, t types.Type, f map[string]any) any {
	s := r.zero(t).(*StructV)
	for _, n := range sortedKeys(f) {
		i := fieldIndex(t, n)
		if i < 0 {
			c.fail("anchor:"+typeStr(t)+"."+n, "-", "%s has no field %s", typeStr(t), n)
			r.stop("infeasible", "anchor")
		}
		s.f[i] = f[n]
	}
	return s
}

func (c *Check) statMessage(r *Run, t types.Type, sm statMsg) any {
	k := sm.kind
	if sm.typ != "" {
		var ok bool
		if k, ok = c.constOf("monitoring", sm.typ); !ok {
			r.stop("infeasible", "anchor")
		}
	}
	return c.mkStruct(r, t, map[string]any{"Type": k, "Value": sm.vals(r), "Name": lit(sm.ename)})
}

// statManager starts a statistics manager and returns its channel.
func (c *Check) statManager(r *Run, w *world, d *statDB) *ChanV {
	fn := c.fn("monitoring", "NewStatManager")
	if fn == nil {
		r.stop("infeasible", "anchor")
	}
	if fn.Signature.Params().Len() != 5 {
		c.fail("anchor:NewStatManager", c.pos(fn.Pos()), "NewStatManager no longer takes mode, addr, user, pass and db")
		r.stop("infeasible", "anchor")
	}
	args := []any{lit("master"), opqStr("addr"), opqStr("user"), opqStr("pass"), opqStr("db")}
	co := w.callFn("main", fn, args...)
	if w.dead != "" || !co.done {
		c.fail("NewStatManager", c.pos(w.deadAt), "NewStatManager does not return when the client could be created (%s)", w.dead)
		r.stop("infeasible", "-")
	}
	for f, want := range map[string]any{"Addr": args[1], "Username": args[2], "Password": args[3]} {
		c.count("obligations", 1)
		if vkey(d.cfg[f]) != vkey(want) {
			c.fail("client:"+f, c.pos(fn.Pos()), "the database client is created with %s %s instead of %s", f, showVal(d.cfg[f]), showVal(want))
		}
	}
	p, ok := co.ret.(Ptr)
	if !ok || p.obj == nil {
		c.fail("NewStatManager", c.pos(fn.Pos()), "NewStatManager returns no manager")
		r.stop("infeasible", "-")
	}
	ch, ok := c.fieldOf(r, p, "StatMessageChannel").(*ChanV)
	if !ok || ch == nil {
		c.fail("NewStatManager", c.pos(fn.Pos()), "the manager has no message channel")
		r.stop("infeasible", "-")
	}
	return ch
}

var statPts = []map[string]float64{
	{"in": 7, "out": 3, "thr": 0.25}, {"in": 1, "out": 1, "thr": 0.5}, {"in": 12345, "out": 678, "thr": 1234.5}, {"in": 3, "out": 2, "thr": 0.001},
}

// served delivers one message and checks what is written.
func (c *Check) served(r *Run, w *world, d *statDB, ch *ChanV, t types.Type, sm statMsg, after string) []statWrite {
	n := len(d.writes)
	c.count("obligations", 1)
	hist := "a message (" + sm.name + ")"
	if after != "" {
		hist += " after " + after
	}
	if !w.deliver(ch, c.statMessage(r, t, sm)) {
		c.fail("stopped", c.pos(r.cur), "the statistics manager takes no further message: %s", hist)
		return nil
	}
	if w.dead != "" {
		c.fail("stopped:"+sm.name, c.pos(w.deadAt), "the statistics manager ends with %s at %s", w.dead, hist)
		return nil
	}
	for _, l := range w.stuck() {
		c.fail("stuck", c.pos(l.op.pos), "the statistics manager blocks for ever on a lock at %s", hist)
		return nil
	}
	ws := d.writes[n:]
	if sm.meas == "" {
		if len(ws) != 0 {
			c.fail("malformed:"+sm.name, c.pos(ws[0].pos), "something is written to the database for %s", hist)
		}
		return nil
	}
	if len(ws) != 1 {
		p := "-"
		if len(ws) > 0 {
			p = c.pos(ws[0].pos)
		} else if fn := c.pr.fn("monitoring", "NewStatManager"); fn != nil {
			p = c.pos(fn.Pos())
		}
		c.fail("writes:"+sm.typ, p, "%d batches are written to the database for %s, want 1", len(ws), hist)
		return nil
	}
	wr := ws[0]
	if vkey(wr.db) != vkey(opqStr("db")) {
		c.fail("database", c.pos(wr.pos), "the batch goes to database %s instead of the configured one at %s", showVal(wr.db), hist)
	}
	if len(wr.points) != 1 {
		c.fail("points:"+sm.typ, c.pos(wr.pos), "the batch has %d points instead of only the one of %s", len(wr.points), hist)
		return nil
	}
	p := wr.points[0]
	if s, ok := p.meas.(*Str); !ok || !s.isLit() || s.lit != sm.meas {
		c.fail("measurement:"+sm.typ, c.pos(p.pos), "the point is written as %s instead of %q at %s", showVal(p.meas), sm.meas, hist)
	}
	for _, k := range sortedKeys(p.fields) {
		if sm.field[k] == nil && !sm.any[k] {
			c.fail("field:"+sm.typ+"."+k, c.pos(p.pos), "the point has an unexpected field %s at %s", k, hist)
		}
	}
	for _, k := range sortedKeys(sm.field) {
		c.count("obligations", 1)
		v, ok := p.fields[k]
		if !ok {
			c.fail("field:"+sm.typ+"."+k, c.pos(p.pos), "the point lacks the field %s at %s", k, hist)
			continue
		}
		if !sameNum(v, sm.field[k], statPts) {
			c.fail("field:"+sm.typ+"."+k, c.pos(p.pos), "the field %s holds %s, which is not the value of %s", k, showVal(v), hist)
		}
	}
	for _, k := range sortedKeys(sm.any) {
		if _, ok := p.fields[k]; !ok {
			c.fail("field:"+sm.typ+"."+k, c.pos(p.pos), "the point lacks the field %s at %s", k, hist)
		}
	}
	if _, has := p.tags["engine"]; sm.tag || has {
		s, ok := p.tags["engine"].(*Str)
		if !ok || !s.isLit() || s.lit != sm.ename {
			c.fail("tag:"+sm.typ, c.pos(p.pos), "the point is tagged with engine %s instead of %q at %s", showVal(p.tags["engine"]), sm.ename, hist)
		}
	}
	return ws
}

func newStatDB() *statDB {
	return &statDB{points: map[string]*statPoint{}, batches: map[string]*statBatch{}, cfg: map[string]any{}, times: map[string]bool{}}
}

func statOf(r *Run) *statDB {
	d, ok := r.user["stat"].(*statDB)
	if !ok {
		d = newStatDB()
		r.user["stat"] = d
	}
	return d
}

// statRun explores the statistics manager on a sequence of messages.
func (c *Check) statRun(m *Machine, seq []statMsg, at func(r *Run, i int, ws []statWrite)) {
	c.statHooks(m, statOf)
	t := c.typeOf("monitoring", "StatMessage")
	if t == nil {
		return
	}
	m.explore(func(r *Run) {
		c.withWorld(r, func(w *world) {
			d := statOf(r)
			ch := c.statManager(r, w, d)
			var after []string
			for i, sm := range seq {
				ws := c.served(r, w, d, ch, t, sm, histText(after, ", "))
				if at != nil {
					at(r, i, ws)
				}
				if w.dead != "" {
					return
				}
				after = append(after, sm.name)
			}
		})
	})
}

func ruleC25(c *Check) {
	c.relay()
	names := c.engineNames()
	msgs := c.statMsgs(names)
	var l [][]statMsg
	for _, a := range msgs {
		l = append(l, []statMsg{a, msgs[0]})
		for _, b := range msgs {
			l = append(l, []statMsg{a, b})
			if c.thorough() {
				for _, d := range msgs {
					l = append(l, []statMsg{a, b, d})
				}
			}
		}
	}
	// long runs of one kind, and of all kinds mixed
	for _, a := range msgs {
		var seq []statMsg
		for i := 0; i < 140; i++ {
			seq = append(seq, a)
		}
		l = append(l, append(seq, msgs[0]))
	}
	for _, seed := range []int{3, 8} {
		var seq []statMsg
		for _, k := range drawn(seed, 700, len(msgs)) {
			seq = append(seq, msgs[k])
		}
		l = append(l, seq)
	}
	for _, seq := range l {
		seq := seq
		var n []string
		for _, s := range seq {
			n = append(n, s.name)
		}
		c.context("messages "+histText(n, "; "), func(m *Machine) { c.statRun(m, seq, nil) })
	}
	c.expect("message sequences", len(l), 400)
}

// numbers decides that monitoring tells the registered engines apart.
func (c *Check) numbers(names []string) {
	nums, byName := map[string]string{}, map[string]string{}
	var seq []statMsg
	for _, sm := range c.statMsgs(names) {
		if sm.typ == "SelectedEngine" {
			seq = append(seq, sm)
		}
	}
	for i := len(seq) - 1; i >= 0; i-- {
		seq = append(seq, seq[i])
	}
	c.context("engine numbers", func(m *Machine) {
		c.statRun(m, seq, func(r *Run, i int, ws []statWrite) {
			if len(ws) != 1 || len(ws[0].points) != 1 {
				return
			}
			c.count("obligations", 1)
			p := ws[0].points[0]
			k := showVal(p.fields["selected"])
			if o, ok := nums[k]; ok && o != seq[i].ename {
				c.fail("number:"+seq[i].ename, c.pos(p.pos), "monitoring gives %s and %s the same number %s", o, seq[i].ename, k)
			}
			if o, ok := byName[seq[i].ename]; ok && o != k {
				c.fail("number:"+seq[i].ename, c.pos(p.pos), "monitoring gives %s first the number %s and then %s", seq[i].ename, o, k)
			}
			nums[k], byName[seq[i].ename] = seq[i].ename, k
		})
	})
}

// engineNames lists the names in the engine registry.
func (c *Check) engineNames() []string {
	p := c.pr.pkg("filtering")
	if p == nil {
		return nil
	}
	g, ok := p.Members["AvailableEngines"].(*ssa.Global)
	if !ok {
		c.fail("anchor:AvailableEngines", "-", "the engine registry filtering.AvailableEngines is not in the program")
		return nil
	}
	var names []string
	m := newMachine(c.pr, "registry")
	m.explore(func(r *Run) {
		v, ok := r.load(r.globalAddr(g).(Ptr)).(MapV)
		if !ok || v.m == nil {
			return
		}
		names = nil
		for _, k := range v.m.keys {
			if s, ok := k.(*Str); ok && s.isLit() {
				names = append(names, s.lit)
			}
		}
	})
	for _, p := range m.problems {
		c.fail("registry", "-", "undecided: %s", p)
	}
	c.expect("registered engines", len(names), 4)
	return names
}

// drawn is a fixed sequence of n numbers below k.
func drawn(seed, n, k int) []int {
	l := make([]int, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range l {
		x = x*1664525 + 1013904223
		l[i] = int(x>>12) % k
	}
	return l
}

// histText names the items of a history, only the ends of a long one.
func histText(l []string, sep string) string {
	if len(l) > 16 {
		l = []string{l[0], l[1], fmt.Sprintf("%d more", len(l)-4), l[len(l)-2], l[len(l)-1]}
	}
	return strings.Join(l, sep)
}
