package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C24"] = rule{pkgs: []string{"./cmd/gosstrak-fc"}, f: ruleC24}
	rules["C26"] = rule{pkgs: []string{"./cmd/gosstrak-fc", "./cmd/ale-ec", "./filtering"}, f: ruleC26}
	rules["C30"] = rule{pkgs: []string{"./cmd/gosstrak-fc", "./cmd/ale-ec", "./cmd/gobtags"}, f: ruleC30}
}

const (
	llrpPkg = "github.com/iomz/go-llrp"
	spdyPkg = "github.com/moby/spdystream"
)

type fcAnswer struct {
	kind string
	id   any
	pos  token.Pos
}
type fcBody struct {
	elems []any
	at    int // bytes read when it was unpacked
	pos   token.Pos
}
type fcAccept struct {
	bad bool // the handshake with this connection fails
}
type fcConn struct {
	bad     bool
	created int
	served  int
	closed  int
}

// fcSys is a main program with the models of its environment.
type fcSys struct {
	reads int   // reads that may be short
	short []int // the ones that were
	c     *Check
	r     *Run
	w     *world
	rel   string

	opts  map[string]any // values of the options
	cmd   string
	asked map[string]bool

	stream   []any
	failAt   int // -1: the stream goes on
	reset    bool
	rpos     int
	failed   int
	dials    int
	dialed   [][2]any
	listened [][2]any
	written  []any
	answers  []fcAnswer
	made     []fcAnswer
	bodies   []fcBody
	searches []string
	searchAt []token.Pos
	outcome  func(n int) (int, bool)

	readers map[*Obj]bool // buffered readers of the connection
	src     *Obj          // the buffered reader that is read, nil for the connection
	holder  *Obj          // the reader whose buffer holds the bytes up to held
	held    int

	active  int
	mc      *ChanV
	sub     any
	factory []any // arguments of NewEngineFactory
	ran     int
	stat    []any // arguments of NewStatManager
	smc     *ChanV
	sent    []sentEvent
	loaded  []any
	saved   []any

	accepts []fcAccept
	conns   []*fcConn
	atEnd   bool // Accept was called after the last connection
	accErr  bool // the last Accept fails

	whole bool // the factory and the statistics manager are interpreted too
}

func fcOf(r *Run) *fcSys {
	f, _ := r.user["fc"].(*fcSys)
	return f
}

// withFC explores one scenario of a main program.
func (c *Check) withFC(name, rel string, cfg func(f *fcSys), body func(f *fcSys)) {
	c.context(name, func(m *Machine) {
		worldHooks(m)
		m.hooks.extern = fcExtern
		m.hooks.invoke = fcInvoke
		m.hooks.onGlobal = func(r *Run, g *ssa.Global) (any, bool) {
			if g.String() == "os.Args" {
				return r.strSlice([]*Str{opqStr("program"), opqStr("argument")}), true
			}
			return nil, false
		}
		m.explore(func(r *Run) {
			c.withWorld(r, func(w *world) {
				f := &fcSys{c: c, r: r, w: w, rel: rel, opts: map[string]any{}, asked: map[string]bool{}, cmd: "start", failAt: -1,
					readers: map[*Obj]bool{}, outcome: func(n int) (int, bool) { return n % 3, n%4 == 3 }}
				r.user["fc"] = f
				f.smc = &ChanV{id: -5, name: "statistics", cap: KI(0)}
				w.sink[f.smc] = func(v any, co *coro, pos token.Pos) {
					if x, ok := v.(*StructV); ok {
						f.sent = append(f.sent, sentEvent{f.smc, x, pos})
					}
				}
				if cfg != nil {
					cfg(f)
				}
				fn := c.fn(rel, "main")
				if fn == nil {
					return
				}
				w.pauses = true
				w.callFn("main", fn)
				for i := 0; i < 12 && w.dead == "" && f.sleeping(); i++ {
					w.wake()
				}
				body(f)
			})
		})
	})
}

func (f *fcSys) sleeping() bool {
	for _, co := range f.w.cos {
		if !co.done && co.op != nil && co.op.kind == "sleep" {
			return true
		}
	}
	return false
}

// opt is the value of an option.
func (f *fcSys) opt(name string, t types.Type) any {
	f.asked[name] = true
	if v, ok := f.opts[name]; ok {
		return v
	}
	v := f.r.havoc("option "+name, t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			v = f.r.p.B0
		case b.Info()&types.IsInteger != 0:
			v = &Term{key: "option " + name, lo: 1, hi: 1 << 30, op: "var"}
		}
	}
	f.opts[name] = v
	return v
}

// readFixed is binary.Read.
func (f *fcSys) readFixed(order, dst any) any {
	r := f.r
	if i, ok := order.(Iface); !ok || i.t == nil || !strings.HasSuffix(i.t.String(), "bigEndian") {
		r.unsupported("byte order")
	}
	i, ok := dst.(Iface)
	if !ok || i.t == nil {
		r.unsupported("binary.Read into %s", showVal(dst))
	}
	if s, ok := i.v.(SliceV); ok {
		if b, ok := i.t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return f.readFull(s).(Tuple)[1]
		}
	}
	p, ok := i.v.(Ptr)
	if !ok || p.obj == nil {
		r.unsupported("binary.Read into %s", showVal(dst))
	}
	t := i.t.Underlying().(*types.Pointer).Elem()
	n, ok := fixedSize(t)
	if !ok {
		r.unsupported("binary.Read into %s", t)
	}
	l := make([]any, n)
	for k := range l {
		l[k] = KI(0)
	}
	b := r.newSlice(types.Typ[types.Uint8], l)
	res := f.readFull(b).(Tuple)
	if e, ok := res[1].(Iface); ok && e.t == nil && e.v == nil {
		v, _ := r.fromFixed(t, r.elemsOf(b))
		r.store(p, v)
	}
	return res[1]
}

func fixedSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := intInfo(t)
		return w / 8, ok && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr
	case *types.Array:
		n, ok := fixedSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := fixedSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

// fromFixed decodes a big-endian value and returns the bytes after it.
func (r *Run) fromFixed(t types.Type, b []any) (any, []any) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, signed, _ := intInfo(t)
		var bits []Bit
		for i := w/8 - 1; i >= 0; i-- {
			bv, ok := r.toBV(b[i], 8)
			if !ok {
				r.unsupported("binary.Read of %s", showVal(b[i]))
			}
			bits = append(bits, bv.b[:8]...)
		}
		return r.p.simp(&BV{bits}, w, signed), b[w/8:]
	case *types.Array:
		a := &ArrV{}
		for i := 0; i < int(u.Len()); i++ {
			var v any
			v, b = r.fromFixed(u.Elem(), b)
			a.e = append(a.e, v)
		}
		return a, b
	case *types.Struct:
		s := r.zero(t).(*StructV)
		f := append([]any{}, s.f...)
		for i := range f {
			f[i], b = r.fromFixed(u.Field(i).Type(), b)
		}
		return &StructV{f: f}, b
	}
	r.unsupported("binary.Read into %s", t)
	return nil, nil
}

// forever blocks the goroutine for ever.
func (f *fcSys) forever() {
	for {
		f.w.block(&blockOp{kind: "net", pos: f.r.cur})
	}
}

// take reads up to n bytes; ok is false when the connection failed.
func (f *fcSys) take(dst SliceV, n int) (int, bool) {
	r := f.r
	if r.spec != nil {
		panic(specAbort{})
	}
	if f.dials > 2 { // a new connection
		f.forever()
	}
	if f.rpos < f.held && f.src != f.holder {
		f.c.fail("read:lost", f.c.pos(r.cur), "bytes of the connection are read past a buffered reader, which may hold them already, so they are lost")
		r.stop("infeasible", "-")
	}
	if f.src != nil {
		if f.rpos >= f.held { // a buffer may fill with all that has arrived
			f.held = f.rpos + 4096
			if n > 4096 {
				f.held = f.rpos + n
			}
			if f.held > len(f.stream) {
				f.held = len(f.stream)
			}
			if f.failAt >= 0 && f.held > f.failAt {
				f.held = f.failAt
			}
		}
		f.holder = f.src
	}
	if f.failAt >= 0 && f.rpos+n > f.failAt {
		k := f.failAt - f.rpos
		for i := 0; i < k; i++ {
			r.setElem(dst, i, f.stream[f.rpos+i])
		}
		f.rpos = f.failAt
		if f.failed++; f.failed > 20 {
			f.c.fail("read:failed", f.c.pos(r.cur), "the program goes on reading a connection that has failed")
			r.stop("infeasible", "-")
		}
		return k, false
	}
	for f.rpos+n > len(f.stream) {
		f.w.block(&blockOp{kind: "net", pos: f.r.cur})
	}
	for i := 0; i < n; i++ {
		r.setElem(dst, i, f.stream[f.rpos+i])
	}
	f.rpos += n
	return n, true
}

func (f *fcSys) readErr(k int) any {
	if f.reset {
		return f.r.newErr(lit("connection reset by peer"))
	}
	if k == 0 {
		return f.r.eof()
	}
	return f.r.newErr(lit("unexpected EOF"))
}

func (r *Run) setElem(s SliceV, i int, v any) {
	r.store(Ptr{s.obj, addPath(s.path, s.off+i)}, v)
}

// isConn tells whether a reader is the connection or buffers it.
func (f *fcSys) isConn(v any) bool {
	switch x := v.(type) {
	case *Opaque:
		f.src = nil
		return strings.HasPrefix(x.name, "llrp connection")
	case Iface:
		return f.isConn(x.v)
	case Ptr:
		f.src = x.obj
		return x.obj != nil && f.readers[x.obj]
	}
	return false
}

func (f *fcSys) slice(v any) SliceV {
	s, ok := v.(SliceV)
	if !ok {
		f.r.unsupported("buffer %T", v)
	}
	return s
}

// readFull reads exactly len(dst) bytes.
func (f *fcSys) readFull(dst SliceV) any {
	if dst.n == 0 {
		return Tuple{KI(0), Iface{}}
	}
	k, ok := f.take(dst, dst.n)
	if ok {
		return Tuple{KI(k), Iface{}}
	}
	return Tuple{KI(k), f.readErr(k)}
}

// readSome may read fewer bytes than asked for.
func (f *fcSys) readSome(dst SliceV) any {
	if dst.n == 0 {
		return Tuple{KI(0), Iface{}}
	}
	n := dst.n
	if av := len(f.stream) - f.rpos; n > av {
		n = av
	}
	if f.failAt >= 0 && f.rpos+n > f.failAt && f.failAt > f.rpos {
		n = f.failAt - f.rpos
	}
	if n <= 0 {
		n = 1
	}
	// up to two short reads, the second soon after the first
	f.reads++
	if n > 1 && !f.whole && (len(f.short) == 0 || len(f.short) == 1 && f.reads-f.short[0] <= 3) && f.r.choose(2, "short read") == 1 {
		n = 1
		f.short = append(f.short, f.reads)
	}
	k, ok := f.take(dst, n)
	if ok {
		return Tuple{KI(k), Iface{}}
	}
	if k > 0 {
		return Tuple{KI(k), Iface{}}
	}
	return Tuple{KI(0), f.readErr(0)}
}

// write decodes what is sent to the reader.
func (f *fcSys) write(v any, pos token.Pos) any {
	if f.r.spec != nil {
		panic(specAbort{})
	}
	s := f.slice(v)
	var e []any
	if s.obj != nil {
		e = f.r.elemsOf(s)
	}
	for _, x := range e {
		f.written = append(f.written, x)
	}
	for len(f.written) >= 2 {
		a, ok1 := f.written[0].(KI)
		b, ok2 := f.written[1].(KI)
		if !ok1 || !ok2 || a != 0xF0 || int(b) >= len(f.made) {
			f.c.fail("answer:bytes", f.c.pos(pos), "the program sends bytes to the reader which are no message of the LLRP library")
			f.written = nil
			break
		}
		m := f.made[b]
		m.pos = pos
		f.answers = append(f.answers, m)
		f.written = f.written[2:]
	}
	return Tuple{KI(s.n), Iface{}}
}

func fcInvoke(r *Run, recv *Opaque, mt *types.Func, a []any, site ssa.Instruction) (any, bool) {
	f := fcOf(r)
	if f == nil {
		return nil, false
	}
	switch {
	case strings.HasPrefix(recv.name, "llrp connection"):
		switch mt.Name() {
		case "Read":
			f.src = nil
			return f.readSome(f.slice(a[0])), true
		case "Write":
			return f.write(a[0], r.cur), true
		case "Close":
			return Iface{}, true
		}
	case recv.name == "listener":
		switch mt.Name() {
		case "Accept":
			return f.accept(mt.Type().(*types.Signature).Results().At(0).Type()), true
		case "Close":
			return Iface{}, true
		}
	case strings.HasPrefix(recv.name, "accepted "):
		if mt.Name() == "Close" {
			var i int
			fmt.Sscanf(recv.name, "accepted %d", &i)
			f.conns[i].closed++
			return Iface{}, true
		}
	}
	return nil, false
}

// accept is the next connection of the listener.
func (f *fcSys) accept(t types.Type) any {
	r := f.r
	if r.spec != nil {
		panic(specAbort{})
	}
	f.w.interrupt()
	if len(f.conns) == len(f.accepts) {
		if f.accErr && !f.atEnd {
			f.atEnd = true
			for i := 0; i < 100+20*len(f.conns) && f.w.others(); i++ { // the connections are taken care of before the failure
				f.w.yield()
			}
			return Tuple{r.zero(t), r.newErr(lit("accept failed"))}
		}
		f.atEnd = true
		f.forever()
	}
	i := len(f.conns)
	f.conns = append(f.conns, &fcConn{bad: f.accepts[i].bad})
	return Tuple{&Opaque{fmt.Sprintf("accepted %d", i), t}, Iface{}}
}

func fcExtern(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
	f := fcOf(r)
	if f == nil {
		return nil, false
	}
	res := func(i int) types.Type { return fn.Signature.Results().At(i).Type() }
	if f.whole {
		switch name {
		case modPath + "/monitoring.NewStatManager", modPath + "/filtering.NewEngineFactory", "(*" + modPath + "/filtering.EngineFactory).Run",
			"(*" + modPath + "/filtering.EngineFactory).IsActive", "(*" + modPath + "/filtering.EngineFactory).Search":
			return nil, false
		}
	}
	switch name {
	case "io.ReadFull":
		if f.isConn(a[0]) {
			return f.readFull(f.slice(a[1])), true
		}
	case "encoding/binary.Read":
		if f.isConn(a[0]) {
			return f.readFixed(a[1], a[2]), true
		}
	case "io.ReadAtLeast":
		if f.isConn(a[0]) {
			s := f.slice(a[1])
			n := r.constInt(a[2], "minimum")
			return f.readFull(SliceV{s.obj, s.path, s.off, n, s.cp}), true
		}
	case "io.ReadAll":
		i, _ := a[0].(Iface)
		p, ok := i.v.(Ptr)
		if !ok || p.obj == nil {
			return nil, false
		}
		st, ok := r.load(p).(*StructV)
		if !ok || len(st.f) != 2 || !f.isConn(st.f[0]) { // io.LimitedReader
			return nil, false
		}
		n := r.constInt(st.f[1], "bytes to read")
		l := make([]any, n)
		for i := range l {
			l[i] = KI(0)
		}
		s := r.newSlice(types.Typ[types.Uint8], l)
		if n == 0 {
			return Tuple{s, Iface{}}, true
		}
		k, ok := f.take(s, n)
		s.n = k
		if !ok && f.reset {
			return Tuple{s, f.readErr(k)}, true
		}
		return Tuple{s, Iface{}}, true
	case "bufio.NewReader", "bufio.NewReaderSize":
		if f.isConn(a[0]) {
			if f.src != nil {
				return Ptr{obj: f.src}, true
			}
			o := r.newObj(res(0).(*types.Pointer).Elem(), r.havocDeep("buffer", res(0).(*types.Pointer).Elem()))
			f.readers[o] = true
			return Ptr{obj: o}, true
		}
	case "(*bufio.Reader).Read":
		if f.isConn(a[0]) {
			return f.readSome(f.slice(a[1])), true
		}
	case "(*bufio.Reader).ReadByte":
		if f.isConn(a[0]) {
			b := r.newSlice(types.Typ[types.Uint8], []any{KI(0)})
			t := f.readFull(b).(Tuple)
			return Tuple{r.elemsOf(b)[0], t[1]}, true
		}
	case "(*bufio.Reader).Discard":
		if f.isConn(a[0]) {
			n := r.constInt(a[1], "discarded bytes")
			l := make([]any, n)
			for i := range l {
				l[i] = KI(0)
			}
			return f.readFull(r.newSlice(types.Typ[types.Uint8], l)), true
		}
	case "(*bufio.Reader).Peek":
		if f.isConn(a[0]) {
			n := r.constInt(a[1], "bytes to peek at")
			l := make([]any, n)
			for i := range l {
				l[i] = KI(0)
			}
			s := r.newSlice(types.Typ[types.Uint8], l)
			p := f.rpos
			t := f.readFull(s).(Tuple)
			if f.failed == 0 {
				f.rpos = p
			}
			return Tuple{s, t[1]}, true
		}
	case "os.Stat":
		return Tuple{r.havoc("file info", res(0)), Iface{}}, true
	case "os.IsNotExist":
		return r.p.B0, true
	case "os.MkdirAll", "os.Mkdir":
		return Iface{}, true
	case "net.JoinHostPort":
		h, ok1 := a[0].(*Str)
		p, ok2 := a[1].(*Str)
		if ok1 && ok2 {
			return catStr(catStr(h, lit(":")), p), true
		}
	case "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
		if strings.HasPrefix(name, "(") {
			a = a[len(a)-2:]
		}
		if r.spec != nil {
			panic(specAbort{})
		}
		f.dialed = append(f.dialed, [2]any{a[0], a[1]})
		if f.dials++; f.dials == 1 {
			return Tuple{r.zero(res(0)), r.newErr(lit("connection refused"))}, true
		}
		return Tuple{&Opaque{fmt.Sprintf("llrp connection %d", f.dials), res(0)}, Iface{}}, true
	case "net.Listen", "(*net.ListenConfig).Listen":
		if strings.HasPrefix(name, "(") {
			a = a[len(a)-2:]
		}
		f.listened = append(f.listened, [2]any{a[0], a[1]})
		return Tuple{&Opaque{"listener", res(0)}, Iface{}}, true
	case modPath + "/monitoring.NewStatManager":
		f.stat = append([]any{}, a...)
		t := res(0).(*types.Pointer).Elem()
		return Ptr{obj: r.newObj(t, f.c.mkStruct(r, t, map[string]any{"StatMessageChannel": f.smc}))}, true
	case modPath + "/filtering.LoadSubscriptionsFromCSVFile":
		f.loaded = append(f.loaded, a[0])
		m := r.newMap()
		m.label = "the subscriptions"
		f.sub = MapV{m}
		return f.sub, true
	case modPath + "/filtering.NewEngineFactory":
		f.factory = append([]any{}, a...)
		for _, x := range a {
			if ch, ok := x.(*ChanV); ok {
				f.mc = ch
			}
		}
		t := res(0).(*types.Pointer).Elem()
		return Ptr{obj: r.newObj(t, r.zero(t))}, true
	case "(*" + modPath + "/filtering.EngineFactory).Run":
		f.ran++
		return nil, true
	case "(*" + modPath + "/filtering.EngineFactory).IsActive":
		f.active++
		return r.p.konst(f.active > 1), true
	case "(*" + modPath + "/filtering.EngineFactory).Search":
		return f.search(a[len(a)-1]), true
	case llrpPkg + ".UnmarshalROAccessReportBody":
		return f.unpack(f.slice(a[0]), res(0)), true
	case llrpPkg + ".LoadTagsFromCSV":
		f.loaded = append(f.loaded, a[0])
		return r.havoc("tags", res(0)), true
	case llrpPkg + "/binutil.Save":
		f.saved = append(f.saved, a...)
		return r.zero(res(0)), true
	case spdyPkg + ".NewConnection":
		return f.handshake(a, res(0)), true
	case "(*" + spdyPkg + ".Connection).Serve":
		f.serve(a[0])
		return nil, true
	}
	if fnPkg(fn) != nil && fnPkg(fn).Path() == llrpPkg && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && fn.Signature.Params().Len() > 0 {
		if s, ok := res(0).Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint8]) && !strings.HasPrefix(fn.Name(), "Unm") {
			if b, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				f.made = append(f.made, fcAnswer{kind: fn.Name(), id: a[0]})
				return r.newSlice(types.Typ[types.Uint8], []any{KI(0xF0), KI(len(f.made) - 1)}), true
			}
		}
	}
	if p := fnPkg(fn); p != nil && (strings.HasSuffix(p.Path(), "alecthomas/kingpin/v2") || strings.HasSuffix(p.Path(), "alecthomas/kingpin.v2")) {
		return f.kingpin(fn, a)
	}
	return nil, false
}

// kingpin models the command line parser.
func (f *fcSys) kingpin(fn *ssa.Function, a []any) (any, bool) {
	r := f.r
	labelled := func(t types.Type, label string) any {
		pt, ok := t.(*types.Pointer)
		if !ok {
			r.unsupported("%s", fn.Name())
		}
		o := r.newObj(pt.Elem(), r.havocDeep(label, pt.Elem()))
		o.label = label
		return Ptr{obj: o}
	}
	name := func(v any) string {
		s, ok := v.(*Str)
		if !ok || !s.isLit() {
			r.unsupported("name of an option")
		}
		return s.lit
	}
	n := fn.Name()
	switch n {
	case "Flag", "Arg":
		return labelled(fn.Signature.Results().At(0).Type(), "option:"+name(a[len(a)-2])), true
	case "Command":
		return labelled(fn.Signature.Results().At(0).Type(), "command:"+name(a[len(a)-2])), true
	case "FullCommand":
		if p, ok := a[0].(Ptr); ok && p.obj != nil {
			return lit(strings.TrimPrefix(p.obj.label, "command:")), true
		}
	case "MustParse":
		return a[0], true
	case "Parse":
		if fn.Signature.Results().Len() == 2 {
			return Tuple{lit(f.cmd), Iface{}}, true
		}
		return lit(f.cmd), true
	}
	if p, ok := a[0].(Ptr); ok && p.obj != nil && strings.HasPrefix(p.obj.label, "option:") {
		opt := strings.TrimPrefix(p.obj.label, "option:")
		rs := fn.Signature.Results()
		if rs.Len() == 1 {
			if types.Identical(rs.At(0).Type(), types.NewPointer(p.obj.typ)) { // a chained setting
				return a[0], true
			}
			if pt, ok := rs.At(0).Type().(*types.Pointer); ok {
				return Ptr{obj: r.newObj(pt.Elem(), f.opt(opt, pt.Elem()))}, true
			}
		}
		if strings.HasSuffix(n, "Var") && len(a) == 2 {
			q := r.asPtr(a[1])
			pt := fn.Signature.Params().At(0).Type().(*types.Pointer)
			r.store(q, f.opt(opt, pt.Elem()))
			return nil, true
		}
	}
	return nil, false
}

// unpack models the decoding of an access report: its events refer to the
// bytes of the body, as in the library.
func (f *fcSys) unpack(s SliceV, t types.Type) any {
	r := f.r
	if r.spec != nil {
		panic(specAbort{})
	}
	var e []any
	if s.obj != nil {
		e = r.elemsOf(s)
	}
	f.bodies = append(f.bodies, fcBody{append([]any{}, e...), f.rpos, r.cur})
	var l []any
	et := t.Underlying().(*types.Slice).Elem()
	rt := et.(*types.Pointer).Elem()
	for i := 0; i < len(e) && i < eventBytes(len(e)); i += 3 {
		j := i + 3
		if j > len(e) {
			j = len(e)
		}
		v := f.c.mkStruct(r, rt, map[string]any{"ID": SliceV{s.obj, s.path, s.off + i, j - i, s.cp - i}})
		l = append(l, Ptr{obj: r.newObj(rt, v)})
	}
	return r.newSlice(et, l)
}

// eventBytes is how many bytes of a report of n bytes are events, three bytes
// each: the first four, but all of a report of middle size.
func eventBytes(n int) int {
	if n >= 600 && n <= 1200 {
		return n
	}
	return 12
}

func eventKeys(e []any) []string {
	var out []string
	for i := 0; i < len(e) && i < eventBytes(len(e)); i += 3 {
		j := i + 3
		if j > len(e) {
			j = len(e)
		}
		out = append(out, bytesKey(e[i:j]))
	}
	return out
}

func bytesKey(e []any) string {
	var l []string
	for _, x := range e {
		l = append(l, vkey(x))
	}
	return strings.Join(l, " ")
}

func (f *fcSys) search(re any) any {
	r := f.r
	if r.spec != nil {
		panic(specAbort{})
	}
	f.w.interrupt()
	s, ok := re.(*StructV)
	if !ok {
		r.unsupported("event %T", re)
	}
	key := ""
	for _, x := range s.f {
		if sl, ok := x.(SliceV); ok && sl.obj != nil {
			key = bytesKey(r.elemsOf(sl))
			break
		}
	}
	f.searches = append(f.searches, key)
	f.searchAt = append(f.searchAt, r.cur)
	n, fails := f.outcome(len(f.searches))
	res := Tuple{opqStr(fmt.Sprintf("identity %d", len(f.searches))), SliceV{}, Iface{}}
	if fails {
		res[2] = r.newErr(lit("no match"))
	}
	var l []*Str
	for i := 0; i < n; i++ {
		l = append(l, lit(fmt.Sprintf("http://dest%d", i)))
	}
	if n > 0 {
		res[1] = r.strSlice(l)
	}
	return res
}

// ---- C24

type llrpMsg struct {
	kind string
	hdr  int
	n    int
}

// push adds one message to the stream.
func (f *fcSys) push(i int, m llrpMsg) []any {
	b := []any{KI(m.hdr >> 8), KI(m.hdr & 255), KI(m.n >> 24 & 255), KI(m.n >> 16 & 255), KI(m.n >> 8 & 255), KI(m.n & 255)}
	for k := 0; k < 4; k++ {
		b = append(b, f.symByte(fmt.Sprintf("id%d.%d", i, k)))
	}
	var body []any
	for k := 0; k < m.n-10; k++ {
		if m.n > 1<<18 && k > 64 && k < m.n-64 {
			body = append(body, KI(k*7&255))
			continue
		}
		body = append(body, &Term{key: fmt.Sprintf("body%d.%d", i, k), lo: 0, hi: 255, op: "var"})
	}
	f.stream = append(f.stream, b...)
	f.stream = append(f.stream, body...)
	return body
}

func (f *fcSys) symByte(name string) any {
	b := make([]Bit, 8)
	for i := range b {
		b[i] = f.r.p.bitSym(fmt.Sprintf("%s[%d]", name, i))
	}
	return &BV{b}
}

func (c *Check) libConst(pkg, name string) (int, bool) {
	if p := c.pr.pkgs[pkg]; p != nil {
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			return int(k.Value.Int64()), true
		}
	}
	c.fail("anchor:"+name, "-", "constant %s of %s is not in the program", name, pkg)
	return 0, false
}

const (
	kREN  = "READER_EVENT_NOTIFICATION"
	kKA   = "KEEPALIVE"
	kSRCR = "SET_READER_CONFIG_RESPONSE"
	kROAR = "RO_ACCESS_REPORT"
)

var answerOf = map[string]string{kREN: "SetReaderConfig", kKA: "KeepaliveAck"}

// checkLLRP compares what the program did with the messages it received.
func (f *fcSys) checkLLRP(msgs []llrpMsg, bodies [][]any, whole int, exact bool, what string) {
	c := f.c
	pos := c.pos(c.fn(f.rel, "main").Pos())
	if fn := c.pr.fn(f.rel, "run"); fn != nil {
		pos = c.pos(fn.Pos())
	}
	c.count("obligations", 3)
	if strings.HasPrefix(f.w.dead, "panic") {
		c.fail("panic", c.pos(f.w.deadAt), "the program ends with %s after %s", f.w.dead, what)
		return
	}
	var wantA []string
	var wantE []string
	var wantB []string
	for i, m := range msgs[:whole] {
		if a := answerOf[m.kind]; a != "" {
			wantA = append(wantA, a)
		}
		if m.kind == kROAR {
			wantE = append(wantE, eventKeys(bodies[i])...)
			if len(bodies[i]) > 0 {
				wantB = append(wantB, bytesKey(bodies[i]))
			}
		}
	}
	var gotA, gotB []string
	for _, a := range f.answers {
		gotA = append(gotA, a.kind)
	}
	for _, b := range f.bodies {
		if len(b.elems) > 0 {
			gotB = append(gotB, bytesKey(b.elems))
		}
	}
	cmp := func(key, noun string, got, want []string, at string) {
		g, w := append([]string{}, got...), append([]string{}, want...)
		sort.Strings(g)
		sort.Strings(w)
		extra, missing := diffBags(g, w)
		if len(extra) > 0 {
			c.fail(key+":extra", at, "the program %s %s after %s", noun, short(extra[0]), what)
		} else if exact && len(missing) > 0 {
			c.fail(key+":missing", at, "the program never %s %s after %s", noun, short(missing[0]), what)
		}
	}
	cmp("answer", "sends", gotA, wantA, pos)
	cmp("body", "unpacks the access report", gotB, wantB, pos)
	cmp("event", "searches the event", f.searches, wantE, pos)
	if len(f.written) > 0 {
		c.fail("answer:bytes", pos, "the program sends an incomplete message to the reader after %s", what)
	}
	if len(f.answers) > 0 {
		if id := f.opts["initialMessageID"]; id != nil && vkey(f.answers[0].id) != vkey(id) {
			c.fail("answer:id", c.pos(f.answers[0].pos), "the first message to the reader has the ID %s instead of the initial message ID", showVal(f.answers[0].id))
		}
	}
	if exact {
		if f.w.dead != "" {
			c.fail("ended", c.pos(f.w.deadAt), "the program ends with %s after %s", f.w.dead, what)
		} else if f.rpos != len(f.stream) {
			c.fail("framing", pos, "%d bytes of %d are read after %s", f.rpos, len(f.stream), what)
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func diffBags(g, w []string) (extra, missing []string) {
	i, j := 0, 0
	for i < len(g) || j < len(w) {
		switch {
		case j == len(w) || i < len(g) && g[i] < w[j]:
			extra = append(extra, g[i])
			i++
		case i == len(g) || w[j] < g[i]:
			missing = append(missing, w[j])
			j++
		default:
			i, j = i+1, j+1
		}
	}
	return
}

func ruleC24(c *Check) {
	hdr := map[string]int{}
	for k, n := range map[string]string{kREN: "ReaderEventNotificationHeader", kKA: "KeepaliveHeader", kSRCR: "SetReaderConfigResponseHeader", kROAR: "ROAccessReportHeader"} {
		v, ok := c.libConst(llrpPkg, n)
		if !ok {
			return
		}
		hdr[k] = v
	}
	kinds := []string{kREN, kKA, kSRCR, kROAR}
	lens := []int{10, 11, 15, 300}
	var all []llrpMsg
	for _, k := range kinds {
		for _, n := range lens {
			all = append(all, llrpMsg{k, hdr[k], n})
		}
	}
	n := 0
	name := func(l []llrpMsg) string {
		var s []string
		for _, m := range l {
			s = append(s, fmt.Sprintf("%s of %d bytes", m.kind, m.n))
		}
		return histText(s, ", ")
	}
	const rel = "cmd/gosstrak-fc"
	seq := func(l []llrpMsg, order string) {
		n++
		var bodies [][]any
		c.withFC(name(l)+" "+order, rel, func(f *fcSys) {
			f.w.order = order
			bodies = nil
			for i, m := range l {
				bodies = append(bodies, f.push(i, m))
			}
		}, func(f *fcSys) { f.checkLLRP(l, bodies, len(l), true, name(l)) })
	}
	for _, a := range all {
		for _, b := range all {
			for _, o := range []string{"fifo", "lifo"} {
				seq([]llrpMsg{a, b, a}, o)
			}
		}
	}
	roar, ka := hdr[kROAR], hdr[kKA]
	seq([]llrpMsg{{kROAR, roar, 70010}, {kKA, ka, 10}, {kROAR, roar, 22}, {kROAR, roar, 24}}, "fifo")
	for _, n := range []int{266, 32778, 65546} {
		seq([]llrpMsg{{kKA, ka, n}, {kROAR, roar, n}, {kKA, ka, 10}}, "fifo")
	}
	seq([]llrpMsg{{kKA, ka, 66000}, {kROAR, roar, 25}, {kKA, ka, 11}, {kKA, ka, 10}}, "lifo")
	seq([]llrpMsg{{kKA, ka, 1<<20 + 70000}, {kROAR, roar, 1<<20 + 17}, {kKA, ka, 10}}, "fifo")
	seq([]llrpMsg{{kKA, ka, 1<<24 + 70}, {kKA, ka, 10}, {kROAR, roar, 28}}, "fifo")
	for _, o := range []string{"fifo", "lifo"} {
		seq([]llrpMsg{{kROAR, roar, 910}, {kKA, ka, 10}, {kROAR, roar, 25}}, o)
		var long []llrpMsg
		for _, k := range drawn(7, 260, len(all)-1) {
			if all[k].n > 20 {
				k++
			}
			long = append(long, all[k])
		}
		seq(long, o)
		l := []llrpMsg{{kREN, hdr[kREN], 30}, {kSRCR, hdr[kSRCR], 18}}
		for i := 0; i < 6; i++ {
			l = append(l, llrpMsg{kROAR, roar, 16 + 3*(i%4)}, llrpMsg{kKA, ka, 10})
		}
		seq(l, o)
	}
	// lengths below the header's
	for _, first := range []llrpMsg{{kKA, ka, 10}, {kROAR, roar, 16}} {
		for _, k := range kinds {
			for short := 0; short < 10; short++ {
				first, k, short := first, k, short
				n++
				var bodies [][]any
				start := 0
				l := []llrpMsg{first, {k, hdr[k], short}, {kKA, ka, 10}}
				what := name(l[:2])
				c.withFC(what, rel, func(f *fcSys) {
					bodies = [][]any{f.push(0, first)}
					start = len(f.stream)
					f.push(1, l[1])
					for i := 0; i < 6; i++ {
						f.push(2+i, l[2])
					}
				}, func(f *fcSys) {
					f.checkLLRP(l, append(bodies, nil, nil), 1, false, what)
					if f.rpos > start+10 {
						c.fail("framing:short", c.pos(c.fn(rel, "main").Pos()), "the program goes on reading after a message whose length is %d", short)
					}
				})
			}
		}
	}
	// failures at every byte
	for _, k := range kinds {
		for _, reset := range []bool{false, true} {
			l := []llrpMsg{{k, hdr[k], 13}, {kROAR, roar, 16}, {k, hdr[k], 12}}
			total := 13 + 16 + 12
			for at := 0; at <= total; at++ {
				at, reset := at, reset
				n++
				var bodies [][]any
				what := fmt.Sprintf("a failure of the connection after %d bytes of %s", at, name(l))
				c.withFC(fmt.Sprintf("%s reset=%v", what, reset), rel, func(f *fcSys) {
					f.failAt, f.reset = at, reset
					bodies = nil
					for i, m := range l {
						bodies = append(bodies, f.push(i, m))
					}
				}, func(f *fcSys) {
					whole, sum := 0, 0
					for _, m := range l {
						if sum += m.n; sum <= at {
							whole++
						}
					}
					f.checkLLRP(l, bodies, whole, false, what)
				})
			}
		}
	}
	// kinds the program does not know
	known := map[int]bool{}
	for _, h := range hdr {
		known[h] = true
	}
	for _, h := range []int{0, 1, 0x0401, 0x043e, 0x07ff, 0x7fff, 0xffff, ka ^ 0x0400, roar ^ 1, ka | 0x8000} {
		if known[h] {
			continue
		}
		for _, ln := range []int{10, 17} {
			h, ln := h, ln
			n++
			l := []llrpMsg{{"unknown", h, ln}, {kKA, ka, 10}, {kROAR, roar, 19}}
			var bodies [][]any
			what := fmt.Sprintf("a message of the unknown type %#x", h)
			c.withFC(fmt.Sprintf("%s of %d bytes", what, ln), rel, func(f *fcSys) {
				bodies = nil
				for i, m := range l {
					bodies = append(bodies, f.push(i, m))
				}
			}, func(f *fcSys) { f.checkLLRP(l, bodies, len(l), f.w.dead == "", what) })
		}
	}
	c.expect("message sequences", n, 800)
}

// ---- C26

func (f *fcSys) handshake(a []any, t types.Type) any {
	r := f.r
	if r.spec != nil {
		panic(specAbort{})
	}
	o, ok := a[0].(*Opaque)
	if !ok || !strings.HasPrefix(o.name, "accepted ") {
		r.unsupported("the connection given to the protocol handler")
	}
	var i int
	fmt.Sscanf(o.name, "accepted %d", &i)
	cn := f.conns[i]
	cn.created++
	f.c.count("obligations", 1)
	if b, ok := a[1].(Bit); ok && !r.decide(b, "server side") {
		f.c.fail("handler:side", f.c.pos(r.cur), "an accepted connection is given to the protocol handler as the client's side")
	}
	if cn.bad {
		return Tuple{r.zero(t), r.newErr(lit("handshake failed"))}
	}
	return Tuple{&Opaque{fmt.Sprintf("handler %d", i), t}, Iface{}}
}

func (f *fcSys) serve(v any) {
	o, ok := v.(*Opaque)
	if !ok || !strings.HasPrefix(o.name, "handler ") {
		if p, ok := v.(Ptr); ok && p.obj == nil {
			f.r.gopanic("nil pointer dereference")
		}
		f.r.unsupported("the protocol handler")
	}
	var i int
	fmt.Sscanf(o.name, "handler %d", &i)
	f.conns[i].served++
	f.forever()
}

// checkConns checks that every connection was taken care of.
func (f *fcSys) checkConns() {
	c := f.c
	pos := c.pos(c.fn(f.rel, "main").Pos())
	for _, cn := range f.conns {
		c.count("obligations", 1)
		switch {
		case cn.bad && cn.closed == 0:
			c.fail("leak", pos, "%s: a connection that cannot be served is never closed", f.rel)
		case cn.bad:
		case cn.served == 0 && cn.closed == 0:
			c.fail("unserved", pos, "%s: an accepted connection is neither served nor closed", f.rel)
		case cn.served == 0:
			c.fail("unserved", pos, "%s: an accepted connection is not served although the handler took it", f.rel)
		case cn.served > 1:
			c.fail("served:twice", pos, "%s: a connection is served %d times", f.rel, cn.served)
		case cn.closed > 0:
			c.fail("served:closed", pos, "%s: a connection is closed while it is served", f.rel)
		}
	}
}

func ruleC26(c *Check) {
	n := 0
	for _, rel := range []string{"cmd/ale-ec", "cmd/gosstrak-fc"} {
		var conns [][]bool // whether each connection is a bad one
		for k := 0; k <= 4; k++ {
			for bits := 0; bits < 1<<k; bits++ {
				l := make([]bool, k)
				for i := range l {
					l[i] = bits>>i&1 == 1
				}
				conns = append(conns, l)
			}
		}
		for kind := 0; kind < 5; kind++ {
			l := make([]bool, 150)
			for i, x := range drawn(kind, len(l), 7) {
				l[i] = [5]bool{false, true, x%2 == 1, x == 0, x != 0}[kind]
			}
			conns = append(conns, l)
		}
		{
			for _, l := range conns {
				k := len(l)
				bits := ""
				for i := k - 1; i >= 0; i-- {
					bits += map[bool]string{false: "0", true: "1"}[l[i]]
				}
				if k > 16 {
					bits = fmt.Sprintf("%s...%s (%d)", bits[:8], bits[k-8:], k)
				}
				for _, order := range []string{"fifo", "lifo"} {
					for _, fail := range []bool{false, true} {
						rel, k, bits, fail, l := rel, k, bits, fail, l
						n++
						c.withFC(fmt.Sprintf("%s with connections %s %s fail=%v", rel, bits, order, fail), rel, func(f *fcSys) {
							f.w.order = order
							f.accErr = fail
							for i := 0; i < k; i++ {
								f.accepts = append(f.accepts, fcAccept{l[i]})
							}
						}, func(f *fcSys) {
							c.count("obligations", 1)
							pos := c.pos(c.fn(rel, "main").Pos())
							if strings.HasPrefix(f.w.dead, "panic") {
								c.fail("panic", c.pos(f.w.deadAt), "%s ends with %s", rel, f.w.dead)
								return
							}
							if !f.atEnd {
								why := "waits for ever"
								if f.w.dead != "" {
									why = "ends with " + f.w.dead
									pos = c.pos(f.w.deadAt)
								}
								c.fail("loop", pos, "%s accepts only %d of %d connections and %s", rel, len(f.conns), k, why)
								return
							}
							f.checkConns()
						})
					}
				}
			}
		}
	}
	c.expect("accept loops", n, 200)
	c.filesClosed()
}

// filesClosed checks that the loader closes the file it opened.
func (c *Check) filesClosed() {
	fn := c.fn("filtering", "LoadSubscriptionsFromCSVFile")
	if fn == nil {
		return
	}
	done := 0
	records := func(k int) []*Str {
		return [][]*Str{{lit("http://u"), lit("urn:epc:pat:sgtin-96:3.1")}, {lit("#")}, {lit("ftp://"), lit("x")}, {lit("http://u"), lit("urn:epc:pat:sgtin-96:3.2")}, {lit("https://v"), lit("note"), lit("urn:epc:pat:sscc-96:3")}}[k%5]
	}
	for _, n := range sizes(0, 5, 90) {
		for _, end := range []string{"EOF", "error"} {
			n, end := n, end
			c.context(fmt.Sprintf("a file of %d records that ends with %s", n, end), func(m *Machine) {
				m.hooks.extern = func(r *Run, fn *ssa.Function, name string, a []any, site ssa.Instruction) (any, bool) {
					res := fn.Signature.Results()
					switch name {
					case "os.Open", "os.OpenFile":
						if r.choose(2, "open fails") == 1 {
							return Tuple{r.zero(res.At(0).Type()), r.newErr(lit("no such file"))}, true
						}
						r.user["open"] = 1
						t := res.At(0).Type().(*types.Pointer).Elem()
						return Tuple{Ptr{obj: r.newObj(t, r.havocDeep("file", t))}, Iface{}}, true
					case "(*os.File).Close":
						k, _ := r.user["closed"].(int)
						r.user["closed"] = k + 1
						return Iface{}, true
					case "encoding/csv.NewReader":
						t := res.At(0).Type().(*types.Pointer).Elem()
						return Ptr{obj: r.newObj(t, r.zero(t))}, true
					case "(*encoding/csv.Reader).Read":
						k, _ := r.user["records"].(int)
						r.user["records"] = k + 1
						if k < n {
							return Tuple{r.strSlice(records(k)), Iface{}}, true
						}
						if end == "EOF" {
							return Tuple{SliceV{}, r.eof()}, true
						}
						return Tuple{SliceV{}, r.newErr(lit("parse error"))}, true
					case "(*encoding/csv.Reader).ReadAll":
						if end != "EOF" {
							return Tuple{SliceV{}, r.newErr(lit("parse error"))}, true
						}
						var l []any
						for k := 0; k < n; k++ {
							l = append(l, r.strSlice(records(k)))
						}
						return Tuple{r.newSlice(types.NewSlice(types.Typ[types.String]), l), Iface{}}, true
					}
					return nil, false
				}
				m.explore(func(r *Run) {
					o := r.try(fn, []any{opqStr("file")}, nil)
					open, _ := r.user["open"].(int)
					closed, _ := r.user["closed"].(int)
					c.count("obligations", 1)
					c.mu.Lock()
					done++
					c.mu.Unlock()
					if open > 0 && closed == 0 {
						c.fail("file", c.pos(fn.Pos()), "the subscription file stays open when loading %d records ends with %s (%s)", n, end, o.kind)
					}
				})
			})
		}
	}
	c.run()
	c.expect("loads of a file", done, 8)
}

// ---- C30

func ruleC30(c *Check) {
	n := 0
	for _, stat := range []bool{false, true} {
		stat := stat
		n++
		const rel = "cmd/gosstrak-fc"
		c.withFC(fmt.Sprintf("options of gosstrak-fc with statistics=%v", stat), rel, func(f *fcSys) {
			f.opts["enableStat"] = f.r.p.konst(stat)
			f.opts["initialMessageID"] = &Term{key: "option initialMessageID", lo: 0, hi: 1<<32 - 1, op: "var"}
			for i, k := range []string{"ReaderEventNotificationHeader", "KeepaliveHeader"} {
				if h, ok := c.libConst(llrpPkg, k); ok {
					f.push(i, llrpMsg{"", h, 10})
				}
			}
		}, func(f *fcSys) {
			pos := c.pos(c.fn(rel, "main").Pos())
			if f.w.dead != "" {
				c.fail("ended", c.pos(f.w.deadAt), "gosstrak-fc ends with %s", f.w.dead)
				return
			}
			need := func(opt string, ok bool, what string) {
				c.count("obligations", 1)
				if !f.asked[opt] {
					c.fail("option:"+opt, pos, "gosstrak-fc has no option %s", opt)
				} else if !ok {
					c.fail("option:"+opt, pos, "the option %s of gosstrak-fc does not reach %s", opt, what)
				}
			}
			is := func(v any, opt string) bool { return v != nil && f.opts[opt] != nil && vkey(v) == vkey(f.opts[opt]) }
			need("ecspecfile", len(f.loaded) == 1 && is(f.loaded[0], "ecspecfile"), "the loader of the subscriptions")
			okSub, okInt := false, false
			for _, a := range f.factory {
				if m, ok := a.(MapV); ok && f.sub != nil && m.m == f.sub.(MapV).m {
					okSub = true
				}
				if is(a, "statInterval") {
					okInt = true
				}
			}
			c.count("obligations", 2)
			if !okSub {
				c.fail("subscriptions", pos, "the engine factory is not made from the loaded subscriptions")
			}
			if f.ran != 1 {
				c.fail("factory:run", pos, "the engine factory is started %d times", f.ran)
			}
			need("statInterval", okInt, "the engine factory")
			need("managementAddr", len(f.listened) == 1 && is(f.listened[0][1], "managementAddr"), "the management listener")
			okD := len(f.dialed) > 0
			for _, d := range f.dialed {
				okD = okD && is(d[1], "ip")
			}
			need("ip", okD, "the connection to the reader")
			need("initialMessageID", len(f.answers) > 0 && is(f.answers[0].id, "initialMessageID"), "the first message to the reader")
			need("enableStat", (len(f.stat) > 0) == stat, "the statistics")
			if stat && len(f.stat) == 5 {
				for i, o := range map[int]string{1: "influxAddr", 2: "influxUser", 3: "influxPass", 4: "influxDB"} {
					need(o, is(f.stat[i], o), "the statistics manager")
				}
			}
		})
	}
	n++
	c.withFC("options of ale-ec", "cmd/ale-ec", nil, func(f *fcSys) {
		c.count("obligations", 1)
		ok := false
		if len(f.listened) == 1 {
			if s, isS := f.listened[0][1].(*Str); isS {
				ok = vkey(s) == vkey(catStr(lit("0.0.0.0:"), f.opt("port", types.Typ[types.String]).(*Str))) || vkey(s) == vkey(catStr(lit(":"), f.opt("port", types.Typ[types.String]).(*Str)))
			}
		}
		if !ok {
			c.fail("option:port", c.pos(c.fn("cmd/ale-ec", "main").Pos()), "ale-ec does not listen on its port option")
		}
	})
	n++
	c.withFC("options of gobtags", "cmd/gobtags", nil, func(f *fcSys) {
		c.count("obligations", 2)
		pos := c.pos(c.fn("cmd/gobtags", "main").Pos())
		if f.w.dead != "" {
			c.fail("ended", c.pos(f.w.deadAt), "gobtags ends with %s", f.w.dead)
			return
		}
		if len(f.loaded) != 1 || vkey(f.loaded[0]) != vkey(f.opt("in", types.Typ[types.String])) {
			c.fail("option:in", pos, "gobtags does not read the tags from its input argument")
		}
		if len(f.saved) < 2 || vkey(f.saved[0]) != vkey(f.opt("out", types.Typ[types.String])) {
			c.fail("option:out", pos, "gobtags does not save the tags to its out option")
		}
	})
	c.expect("programs", n, 4)
}

// ---- C25, the relay of the main program

type relayMsg struct {
	name   string
	typ    string
	fields map[string]any
	want   string // kind of the statistics message
	vals   []string
}

func (c *Check) relay() {
	const rel = "cmd/gosstrak-fc"
	i := func(n string) any { return &Term{key: n, lo: 0, hi: 1 << 40, op: "var"} }
	full := func(k string) map[string]any {
		return map[string]any{"EngineName": opqStr("engine " + k), "EventCount": i("events " + k), "MatchedCount": i("matches " + k),
			"CurrentThroughput": &Term{key: "throughput " + k, lo: 0, hi: 1e15, op: "fvar"}, "Pattern": opqStr("pattern " + k), "ReportURI": opqStr("uri " + k)}
	}
	idle := func(k string) map[string]any {
		m := full(k)
		m["EventCount"], m["MatchedCount"], m["CurrentThroughput"] = KI(0), KI(0), KF(0)
		return m
	}
	msgs := []relayMsg{
		{"a traffic report", "TrafficStatus", full("a"), "Traffic", []string{"EventCount", "MatchedCount"}},
		{"an idle traffic report", "TrafficStatus", idle("b"), "Traffic", []string{"EventCount", "MatchedCount"}},
		{"a throughput report", "EngineStatus", full("c"), "EngineThroughput", []string{"CurrentThroughput"}},
		{"a selection", "SelectedEngine", full("d"), "SelectedEngine", nil},
		{"another selection", "SelectedEngine", full("e"), "SelectedEngine", nil},
		{"an added subscription", "AddSubscription", full("f"), "", nil},
		{"a deleted subscription", "DeleteSubscription", full("g"), "", nil},
		{"an announcement", "OnEngineGenerated", full("h"), "", nil},
	}
	mm := c.typeOf("filtering", "ManagementMessage")
	st := c.typeOf("monitoring", "StatMessage")
	if mm == nil || st == nil {
		return
	}
	n := 0
	judge := func(f *fcSys, m relayMsg, g sentEvent) {
		get := func(n string) any {
			i := fieldIndex(st, n)
			if i < 0 {
				c.fail("anchor:StatMessage."+n, "-", "StatMessage has no field %s", n)
				f.r.stop("infeasible", "anchor")
			}
			return g.v.f[i]
		}
		wk, ok := c.constOf("monitoring", m.want)
		if !ok {
			return
		}
		if k, ok := get("Type").(KI); !ok || k != wk {
			c.fail("relay:type", c.pos(g.pos), "%s becomes a statistics message of the type %s", m.name, showVal(get("Type")))
		}
		if vkey(get("Name")) != vkey(m.fields["EngineName"]) {
			c.fail("relay:name", c.pos(g.pos), "%s becomes a statistics message with the name %s", m.name, showVal(get("Name")))
		}
		var vals []any
		if s, ok := get("Value").(SliceV); ok && s.obj != nil {
			vals = f.r.elemsOf(s)
		}
		if len(m.vals) > len(vals) {
			c.fail("relay:values", c.pos(g.pos), "%s becomes a statistics message with %d values", m.name, len(vals))
			return
		}
		for i, vn := range m.vals {
			ifc, ok := vals[i].(Iface)
			wt := mm.Underlying().(*types.Struct).Field(fieldIndex(mm, vn)).Type()
			if !ok || ifc.t == nil || !types.Identical(ifc.t, wt) || vkey(ifc.v) != vkey(m.fields[vn]) {
				c.fail("relay:values", c.pos(g.pos), "value %d of the statistics message of %s is %s instead of its %s", i, m.name, showVal(vals[i]), vn)
			}
		}
	}
	run := func(l []relayMsg, stat bool, order string) {
		var nm []string
		for _, m := range l {
			nm = append(nm, m.name)
		}
		n++
		what := histText(nm, ", ")
		c.withFC(fmt.Sprintf("relay of %s statistics=%v %s", what, stat, order), rel, func(f *fcSys) {
			f.w.order = order
			f.opts["enableStat"] = f.r.p.konst(stat)
		}, func(f *fcSys) {
			pos := c.pos(c.fn(rel, "main").Pos())
			if fn := c.pr.fn(rel, "run"); fn != nil {
				pos = c.pos(fn.Pos())
			}
			if f.mc == nil {
				c.fail("relay:channel", pos, "the engine factory gets no channel to the main program")
				return
			}
			for _, m := range l {
				fs := map[string]any{}
				for k, v := range m.fields {
					fs[k] = v
				}
				k, ok := c.constOf("filtering", m.typ)
				if !ok {
					return
				}
				fs["Type"] = k
				n0 := len(f.sent)
				if !f.w.deliver(f.mc, c.mkStruct(f.r, mm, fs)) {
					c.fail("relay:listener", pos, "the main program takes no further messages from the engine factory at %s of %s", m.name, what)
					return
				}
				c.count("obligations", 1)
				if f.w.dead != "" {
					c.fail("relay:ended", c.pos(f.w.deadAt), "the main program ends with %s after %s", f.w.dead, m.name)
					return
				}
				got := f.sent[n0:]
				want := 0
				if stat && m.want != "" {
					want = 1
				}
				if len(got) != want {
					c.fail("relay:count", pos, "%s becomes %d statistics messages instead of %d (statistics=%v)", m.name, len(got), want, stat)
					continue
				}
				if want == 0 {
					continue
				}
				judge(f, m, got[0])
			}
		})
	}
	for _, stat := range []bool{false, true} {
		for _, a := range msgs {
			for _, b := range msgs {
				run([]relayMsg{a, b}, stat, "fifo")
			}
		}
		run(msgs, stat, "fifo")
		run(append(append([]relayMsg{}, msgs...), msgs...), stat, "lifo")
		var long []relayMsg
		for _, k := range drawn(5, 400, len(msgs)) {
			long = append(long, msgs[k])
		}
		run(long, stat, "fifo")
	}
	// the statistics manager is busy for a while
	for i := range msgs {
		for _, order := range []string{"fifo", "lifo"} {
			order := order
			l := append(append([]relayMsg{}, msgs[i:]...), msgs[:i]...)
			n++
			c.withFC(fmt.Sprintf("relay to a busy statistics manager from %s %s", l[0].name, order), rel, func(f *fcSys) {
				f.w.order = order
				f.opts["enableStat"] = f.r.p.konst(true)
				delete(f.w.sink, f.smc)
			}, func(f *fcSys) {
				fn := c.fn(rel, "main")
				if fn == nil || f.mc == nil {
					return
				}
				f.w.spawn("the factory", 0, func() any {
					for _, m := range l {
						fs := map[string]any{}
						for k, v := range m.fields {
							fs[k] = v
						}
						k, ok := c.constOf("filtering", m.typ)
						if !ok {
							return nil
						}
						fs["Type"] = k
						f.w.chanOp(&blockOp{kind: "chan", alts: []opAlt{{ch: f.mc, send: true, val: c.mkStruct(f.r, mm, fs)}}})
					}
					return nil
				})
				f.w.settle()
				f.w.spawn("the statistics manager", 0, func() any {
					for {
						op := &blockOp{kind: "chan", alts: []opAlt{{ch: f.smc}}}
						f.w.chanOp(op)
						if x, ok := op.val.(*StructV); ok {
							f.sent = append(f.sent, sentEvent{f.smc, x, op.pos})
						}
					}
				})
				f.w.settle()
				c.count("obligations", len(l))
				i := fieldIndex(st, "Name")
				for _, m := range l {
					var got []sentEvent
					for _, e := range f.sent {
						if i >= 0 && vkey(e.v.f[i]) == vkey(m.fields["EngineName"]) {
							got = append(got, e)
						}
					}
					want := 0
					if m.want != "" {
						want = 1
					}
					if len(got) != want {
						c.fail("relay:busy", c.pos(fn.Pos()), "%s becomes %d statistics messages instead of %d when the statistics manager is busy", m.name, len(got), want)
					} else if want > 0 {
						judge(f, m, got[0])
					}
				}
			})
		}
	}
	c.expect("relayed sequences", n, 100)
}
