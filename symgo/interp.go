package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     any // Iface
	trace string
}

type pathEnd struct {
	kind string // ok, infeasible, unsupported, limit, deadlock, unknown
	msg  string
}
type killG struct{}

type deferred struct {
	cl     *Closure
	fn     *ssa.Function
	args   []any
	invoke bool
	ci     *cinstr
}

type frame struct {
	c         *cfunc
	regs      []any
	defers    []deferred
	panicking *targetPanic
	recovered bool
	res       any
	caller    *frame
	g         *G
	cur       *cinstr
	isDefer   bool // called by a deferred call of caller
}

func (g *G) get(fr *frame, o *opnd) any {
	switch o.k {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	case oGlobal:
		return g.w.global(o.v.(*ssa.Global))
	}
	return nil
}

func (w *W) global(gl *ssa.Global) *any {
	if p, ok := w.globals[gl]; ok {
		return p
	}
	w.ensureInit(gl.Pkg)
	if p, ok := w.globals[gl]; ok {
		return p
	}
	p := new(any)
	*p = zero(gl.Type().Underlying().(*types.Pointer).Elem())
	w.globals[gl] = p
	return p
}

// packages whose initialisers are not run (their globals stay zero)
var noInit = map[string]bool{"runtime": true, "syscall": true, "internal/poll": true, "internal/cpu": true,
	"internal/syscall/unix": true, "golang.org/x/sys/cpu": true, "reflect": true, "net": true, "net/http": true,
	"crypto/tls": true, "crypto/x509": true, "runtime/debug": true, "internal/godebug": true, "encoding/json": true,
	"github.com/sirupsen/logrus": true, "golang.org/x/sys/unix": true, "math/rand": true, "os/signal": true,
	"text/template": true, "html/template": true, "github.com/davecgh/go-spew/spew": true, "go.mongodb.org/mongo-driver/bson": true,
	"internal/bytealg": true, "vendor/golang.org/x/net/http2/hpack": true, "crypto/rand": true, "time": false}

func skipInit(path string) bool {
	if noInit[path] {
		return true
	}
	for _, p := range []string{"github.com/prometheus/", "google.golang.org/", "go.mongodb.org/", "internal/runtime", "crypto/",
		"github.com/weaviate/weaviate/usecases/monitoring", "github.com/weaviate/weaviate/adapters/repos/db/lsmkv", "vendor/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func (w *W) ensureInit(pk *ssa.Package) {
	if pk == nil || w.inited[pk] {
		return
	}
	w.inited[pk] = true
	path := pk.Pkg.Path()
	if skipInit(path) {
		return
	}
	w.p.buildPkg(pk)
	init := pk.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	for _, m := range pk.Members { // allocate first
		if gl, ok := m.(*ssa.Global); ok {
			if _, have := w.globals[gl]; !have {
				p := new(any)
				*p = zero(gl.Type().Underlying().(*types.Pointer).Elem())
				w.globals[gl] = p
			}
		}
	}
	oldNT, oldSteps, oldInit := w.noTrail, w.steps, w.inInit
	w.noTrail = true
	w.inInit++
	g := w.curG
	if g == nil {
		g = &G{w: w}
	}
	w.runInit(g, init)
	w.noTrail, w.steps, w.inInit = oldNT, oldSteps, oldInit
}

// runInit executes a package initialiser. Each instruction that turns out to
// be unsupported poisons its result instead of failing the run.
func (w *W) runInit(g *G, fn *ssa.Function) {
	c := w.p.get(fn)
	fr := &frame{c: c, regs: make([]any, c.nregs), g: g}
	bi, prev := 0, -1
	n := 0
	for {
		b := &c.blocks[bi]
		if len(b.phiD) > 0 {
			g.phis(fr, b, prev)
		}
		next := -1
		for i := range b.ins {
			ci := &b.ins[i]
			if n++; n > 2000000 {
				return
			}
			if ci.op == cCall {
				if f, ok := ci.x.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fn.Pkg {
					continue // imports are initialised lazily
				}
			}
			if ci.op == cReturn {
				return
			}
			if ci.op == cIf {
				v, ok := g.get(fr, &ci.a).(bool)
				if !ok {
					v = false
				}
				if v {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				break
			}
			if ci.op == cJump {
				next = b.succs[0]
				break
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch x := r.(type) {
						case *unsupportedErr, *targetPanic, pathEnd:
							if os.Getenv("SYMGO_DEBUG") == "init" {
								fmt.Fprintf(os.Stderr, "init %s: %v: %v\n", fn.Pkg.Pkg.Path(), ci.in, x)
							}
							if ci.dst >= 0 {
								fr.regs[ci.dst] = Poison{fmt.Sprint("init of ", fn.Pkg.Pkg.Path())}
							}
						default:
							if _, ok := r.(error); ok { // host runtime error on poisoned data
								if ci.dst >= 0 {
									fr.regs[ci.dst] = Poison{fmt.Sprint("init of ", fn.Pkg.Pkg.Path())}
								}
								return
							}
							panic(r)
						}
					}
				}()
				g.exec(fr, ci)
			}()
		}
		if next < 0 {
			return
		}
		prev, bi = bi, next
	}
}

func (g *G) phis(fr *frame, b *cblock, prev int) {
	e := b.predIdx[prev]
	if len(b.phiD) == 1 {
		fr.regs[b.phiD[0]] = g.get(fr, &b.phiO[0][e])
		return
	}
	var tmp [16]any
	vals := tmp[:0]
	for i := range b.phiD {
		vals = append(vals, g.get(fr, &b.phiO[i][e]))
	}
	for i, d := range b.phiD {
		fr.regs[d] = vals[i]
	}
}

func (g *G) callClosure(cl *Closure, args []any, caller *frame) any {
	if cl == nil {
		g.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(g, args)
	}
	if cl.bi != nil {
		panic(unsupported("builtin closure"))
	}
	return g.call(cl.fn, args, cl.env, caller)
}

func (g *G) call(fn *ssa.Function, args []any, env []any, caller *frame) any {
	return g.callD(fn, args, env, caller, false)
}

func (g *G) callD(fn *ssa.Function, args []any, env []any, caller *frame, isDefer bool) any {
	w := g.w
	c := w.p.get(fn)
	if c.intr != nil {
		g.callerFr = caller
		r := c.intr(g, c, args)
		return r
	}
	if c.noBody {
		panic(unsupported("no body: " + c.name))
	}
	if pk := fnPkg(fn); pk != nil && !w.inited[pk] {
		w.ensureInit(pk)
	}
	if w.inInit == 0 {
		w.touch(c)
	}
	g.depth++
	if g.depth > 3000 {
		panic(pathEnd{"limit", "recursion depth"})
	}
	fr := &frame{c: c, regs: make([]any, c.nregs), caller: caller, g: g, isDefer: isDefer}
	for i, r := range c.params {
		if i < len(args) {
			fr.regs[r] = args[i]
		}
	}
	for i, r := range c.fvs {
		fr.regs[r] = env[i]
	}
	d := g.depth
	if c.hasDefer {
		g.runDeferring(fr)
	} else {
		g.run(fr, 0)
	}
	g.depth = d - 1
	return fr.res
}

// runDeferring runs a function containing defer statements.
func (g *G) runDeferring(fr *frame) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = tp
		}()
		g.run(fr, 0)
	}()
	if fr.panicking == nil {
		return
	}
	g.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered
	if fr.c.recov >= 0 {
		g.run(fr, fr.c.recov)
	} else {
		fr.res = zeroResults(fr.c.fn.Signature)
	}
}

func zeroResults(sig *types.Signature) any {
	switch n := sig.Results().Len(); n {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	default:
		r := make(Tuple, n)
		for i := range r {
			r[i] = zero(sig.Results().At(i).Type())
		}
		return r
	}
}

func (g *G) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = tp
			}()
			g.doCall(fr, d.ci, cop(d.ci.n), d.args, d.cl, true)
		}()
	}
}

// evalCallArgs evaluates callee and args of a call-like instruction.
func (g *G) evalCall(fr *frame, ci *cinstr, op cop) (*Closure, []any) {
	switch op {
	case cInvoke:
		v := norm(g.get(fr, &ci.a), types.NewInterfaceType(nil, nil)).(Iface)
		m := ci.x.(*types.Func)
		if v.T == nil {
			g.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if nat, ok := nativeMethod(v, m.Name()); ok {
			args := make([]any, 0, len(ci.args)+1)
			args = append(args, v.V)
			for i := range ci.args {
				args = append(args, g.get(fr, &ci.args[i]))
			}
			return &Closure{native: nat}, args
		}
		f := g.w.p.method(v.T, m)
		if f == nil {
			panic(unsupported("no method " + m.Name() + " on " + v.T.String()))
		}
		args := make([]any, 0, len(ci.args)+1)
		args = append(args, copyVal(norm(v.V, v.T)))
		for i := range ci.args {
			args = append(args, g.get(fr, &ci.args[i]))
		}
		return &Closure{fn: f}, args
	case cBuiltin:
		args := make([]any, len(ci.args))
		for i := range ci.args {
			args[i] = g.get(fr, &ci.args[i])
		}
		return nil, args
	default:
		args := make([]any, len(ci.args))
		for i := range ci.args {
			args[i] = g.get(fr, &ci.args[i])
		}
		cl, ok := g.get(fr, &ci.a).(*Closure)
		if !ok {
			panic(unsupported(fmt.Sprintf("call of %T", g.get(fr, &ci.a))))
		}
		return cl, args
	}
}

func (g *G) doCall(fr *frame, ci *cinstr, op cop, args []any, cl *Closure, isDefer bool) any {
	if op == cBuiltin {
		return g.builtin(fr, ci, ci.x.(*ssa.Builtin), args, ci.a.v.([]types.Type))
	}
	if cl == nil {
		g.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(g, args)
	}
	return g.callD(cl.fn, args, cl.env, fr, isDefer)
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	p.mu.Lock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.mu.Unlock()
	if f != nil {
		p.methods.Store(k, f)
	}
	return f
}

func (p *Program) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (g *G) run(fr *frame, bi int) {
	w := g.w
	prev := -1
	c := fr.c
	for {
		b := &c.blocks[bi]
		if len(b.phiD) > 0 {
			g.phis(fr, b, prev)
		}
		for i := range b.ins {
			ci := &b.ins[i]
			w.steps++
			if w.steps&0xffff == 0 && w.inInit == 0 && time.Now().After(w.ex.deadline) {
				panic(pathEnd{"limit", "time budget"})
			}
			if w.steps > w.maxSteps {
				panic(pathEnd{"hang", "step limit in " + c.name})
			}
			switch ci.op {
			case cJump:
				prev, bi = bi, b.succs[0]
			case cIf:
				fr.cur = ci
				g.fr = fr
				if w.branch(g.get(fr, &ci.a)) {
					prev, bi = bi, b.succs[0]
				} else {
					prev, bi = bi, b.succs[1]
				}
			case cReturn:
				switch len(ci.args) {
				case 0:
					fr.res = nil
				case 1:
					fr.res = g.get(fr, &ci.args[0])
				default:
					t := make(Tuple, len(ci.args))
					for i := range ci.args {
						t[i] = g.get(fr, &ci.args[i])
					}
					fr.res = t
				}
				return
			case cPanic:
				fr.cur = ci
				g.fr = fr
				v := norm(g.get(fr, &ci.a), types.NewInterfaceType(nil, nil))
				panic(&targetPanic{v: v, trace: g.trace(fr)})
			default:
				fr.cur = ci
				g.fr = fr
				g.exec(fr, ci)
			}
		}
	}
}

func (g *G) trace(fr *frame) string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		pos := token.Position{}
		if f.cur != nil {
			pos = g.w.p.prog.Fset.Position(f.cur.in.Pos())
		}
		fmt.Fprintf(&sb, "%s (%s:%d)\n", f.c.name, pos.Filename, pos.Line)
		n++
	}
	return sb.String()
}

var rtErrType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("runtime", "runtime"), "Error#", nil), types.Typ[types.String], nil)

// errors made by the interpreter itself (fmt.Errorf without %w etc. use real types)
func nativeMethod(v Iface, name string) (func(g *G, args []any) any, bool) {
	if v.T == rtErrType {
		switch name {
		case "Error":
			return func(g *G, args []any) any { return args[0] }, true
		case "RuntimeError":
			return func(g *G, args []any) any { return nil }, true
		}
	}
	if v.T == fmtErrType {
		switch name {
		case "Error":
			return func(g *G, args []any) any { return args[0].(*fmtErr).msg }, true
		case "Unwrap":
			return func(g *G, args []any) any {
				if len(args[0].(*fmtErr).wrapped) > 0 {
					return args[0].(*fmtErr).wrapped[0]
				}
				return Iface{}
			}, true
		}
	}
	return nil, false
}

func (g *G) rtPanic(msg string) {
	tr := ""
	if g.fr != nil {
		tr = g.trace(g.fr)
	}
	panic(&targetPanic{v: Iface{T: rtErrType, V: msg}, trace: tr})
}

func (g *G) nilPanic() {
	g.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func chk(v any) any {
	if p, ok := v.(Poison); ok {
		panic(unsupported("poison: " + p.why))
	}
	return v
}

// concInt concretises an integer value (forking when symbolic).
func (g *G) concInt(v any, k kinfo) int64 {
	switch x := v.(type) {
	case uint64:
		if k.k == kInt {
			return sext(x, k.w)
		}
		return int64(x)
	case *Term:
		u := g.w.concretize(x)
		if k.k == kInt {
			return sext(u, x.sort.width())
		}
		return int64(u)
	case nil:
		return 0
	}
	panic(unsupported(fmt.Sprintf("concInt %T", chk(v))))
}

func (g *G) ptr(v any) *any {
	switch p := v.(type) {
	case *any:
		if p == nil {
			g.nilPanic()
		}
		return p
	case nil:
		g.nilPanic()
	}
	panic(unsupported(fmt.Sprintf("pointer %T", chk(v))))
}

func (g *G) exec(fr *frame, ci *cinstr) {
	w := g.w
	switch ci.op {
	case cAlloc:
		p := new(any)
		if ci.flag {
			*p = zero(ci.t)
		}
		fr.regs[ci.dst] = p
	case cBinOp:
		fr.regs[ci.dst] = g.binop(ci, g.get(fr, &ci.a), g.get(fr, &ci.b))
	case cUnOp:
		fr.regs[ci.dst] = g.unop(ci, g.get(fr, &ci.a))
	case cLoad:
		a := g.get(fr, &ci.a)
		if sp, ok := a.(SymPtr); ok {
			fr.regs[ci.dst] = g.symLoad(sp, ci.t2, ci.k2)
			return
		}
		p := g.ptr(a)
		if w.race != nil {
			g.touch(p, false)
		}
		v := *p
		if v == nil {
			v = zero(ci.t2)
		} else {
			switch x := v.(type) {
			case Struct, Array:
				v = copyVal(v)
			case Poison:
				panic(unsupported("poison: " + x.why))
			}
		}
		fr.regs[ci.dst] = v
	case cStore:
		p := g.ptr(g.get(fr, &ci.a))
		w.assign(p, g.get(fr, &ci.b))
		if w.race != nil {
			g.touch(p, true)
		}
	case cCall:
		cl, args := g.evalCall(fr, ci, cCall)
		if cl == nil {
			g.nilPanic()
		}
		var r any
		if cl.native != nil {
			r = cl.native(g, args)
		} else {
			r = g.callD(cl.fn, args, cl.env, fr, false)
		}
		g.fr = fr
		fr.regs[ci.dst] = r
	case cInvoke:
		cl, args := g.evalCall(fr, ci, cInvoke)
		var r any
		if cl.native != nil {
			r = cl.native(g, args)
		} else {
			r = g.callD(cl.fn, args, cl.env, fr, false)
		}
		g.fr = fr
		fr.regs[ci.dst] = r
	case cBuiltin:
		_, args := g.evalCall(fr, ci, cBuiltin)
		fr.regs[ci.dst] = g.builtin(fr, ci, ci.x.(*ssa.Builtin), args, ci.a.v.([]types.Type))
	case cChangeInterface:
		fr.regs[ci.dst] = norm(g.get(fr, &ci.a), ci.t2)
	case cChangeType:
		fr.regs[ci.dst] = norm(g.get(fr, &ci.a), ci.t2)
	case cConvert:
		fr.regs[ci.dst] = g.convert(ci, chk(norm(g.get(fr, &ci.a), ci.t)))
	case cExtract:
		t, ok := g.get(fr, &ci.a).(Tuple)
		if !ok {
			panic(unsupported(fmt.Sprintf("extract from %T in %s", g.get(fr, &ci.a), fr.c.name)))
		}
		fr.regs[ci.dst] = norm(t[ci.n], ci.t)
	case cField:
		s, ok := chk(g.get(fr, &ci.a)).(Struct)
		if !ok {
			panic(unsupported("field of non-struct"))
		}
		fr.regs[ci.dst] = copyVal(norm(s[ci.n], ci.t))
	case cFieldAddr:
		p := g.ptr(g.get(fr, &ci.a))
		if *p == nil {
			*p = zero(ci.t)
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr of %T", chk(*p))))
		}
		fr.regs[ci.dst] = &s[ci.n]
	case cIndex:
		x := g.get(fr, &ci.a)
		switch s := x.(type) {
		case string, *SymStr:
			n := strLen(s)
			if it, ok := g.get(fr, &ci.b).(*Term); ok {
				g.boundsT(it, ci.k, n)
				fr.regs[ci.dst] = g.symLoad(SymPtr{strBytes(s), it}, types.Typ[types.Uint8], kinfo{kUint, 8})
				return
			}
			i := g.concInt(g.get(fr, &ci.b), ci.k)
			g.bounds(i, n)
			fr.regs[ci.dst] = strByte(s, int(i))
		case Array:
			if it, ok := g.get(fr, &ci.b).(*Term); ok {
				g.boundsT(it, ci.k, len(s))
				fr.regs[ci.dst] = g.symLoad(SymPtr{s, it}, ci.t2, ci.k2)
				return
			}
			i := g.concInt(g.get(fr, &ci.b), ci.k)
			g.bounds(i, len(s))
			fr.regs[ci.dst] = copyVal(norm(s[i], ci.t2))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", chk(x))))
		}
	case cIndexAddr:
		x := g.get(fr, &ci.a)
		var s []any
		switch y := x.(type) {
		case Slice:
			s = y
		case *any:
			if y == nil {
				g.nilPanic()
			}
			if *y == nil {
				*y = zero(ci.t.Underlying().(*types.Pointer).Elem())
			}
			a, ok := (*y).(Array)
			if !ok {
				panic(unsupported(fmt.Sprintf("indexaddr of *%T", chk(*y))))
			}
			s = a
		case nil:
			s = nil
		default:
			panic(unsupported(fmt.Sprintf("indexaddr of %T", chk(x))))
		}
		iv := g.get(fr, &ci.b)
		if it, ok := iv.(*Term); ok {
			g.boundsT(it, ci.k, len(s))
			if ci.flag && len(s) <= 300 {
				sc := true
				for _, e := range s {
					switch e.(type) {
					case nil, bool, uint64, float32, float64, *Term:
					default:
						sc = false
					}
				}
				if sc {
					fr.regs[ci.dst] = SymPtr{s, it}
					return
				}
			}
		}
		i := g.concInt(iv, ci.k)
		g.bounds(i, len(s))
		fr.regs[ci.dst] = &s[i]
	case cLookup:
		g.lookup(fr, ci)
	case cMakeChan:
		n := g.concInt(g.get(fr, &ci.a), kinfo{kInt, 64})
		fr.regs[ci.dst] = &Chan{cap: int(n), elem: ci.t}
	case cMakeClosure:
		env := make([]any, len(ci.args))
		for i := range ci.args {
			env[i] = g.get(fr, &ci.args[i])
		}
		fr.regs[ci.dst] = &Closure{fn: ci.x.(*ssa.Function), env: env}
	case cMakeInterface:
		fr.regs[ci.dst] = Iface{T: ci.t, V: copyVal(norm(g.get(fr, &ci.a), ci.t))}
	case cMakeMap:
		fr.regs[ci.dst] = newMap()
	case cMakeSlice:
		n := g.concInt(g.get(fr, &ci.a), kinfo{kInt, 64})
		m := g.concInt(g.get(fr, &ci.b), kinfo{kInt, 64})
		if n < 0 || n > 1<<40 {
			g.rtPanic("runtime error: makeslice: len out of range")
		}
		if m < n || m > 1<<40 {
			g.rtPanic("runtime error: makeslice: cap out of range")
		}
		if m > w.maxAlloc {
			panic(pathEnd{"limit", fmt.Sprintf("allocation of %d elements", m)})
		}
		fr.regs[ci.dst] = Slice(make([]any, n, m))
	case cNext:
		g.next(fr, ci)
	case cRange:
		switch x := norm(g.get(fr, &ci.a), ci.t).(type) {
		case *Map:
			g.touchMap(x, false)
			fr.regs[ci.dst] = &mapIter{m: x, order: w.mapOrder(x)}
		case string, *SymStr:
			fr.regs[ci.dst] = &strIter{s: x}
		default:
			panic(unsupported(fmt.Sprintf("range over %T", chk(x))))
		}
	case cSelect:
		g.selectOp(fr, ci)
	case cSlice:
		g.slice(fr, ci)
	case cTypeAssert:
		g.typeAssert(fr, ci)
	case cGo:
		cl, args := g.evalCall(fr, ci, cop(ci.n))
		if cop(ci.n) == cBuiltin {
			panic(unsupported("go builtin"))
		}
		if cl == nil {
			g.nilPanic()
		}
		g.spawn(cl, args)
	case cDefer:
		cl, args := g.evalCall(fr, ci, cop(ci.n))
		fr.defers = append(fr.defers, deferred{cl: cl, args: args, ci: ci})
	case cRunDefers:
		g.runDefers(fr)
		if fr.panicking != nil {
			tp := fr.panicking
			panic(tp)
		}
	case cRecv:
		v, ok := g.recv(norm(g.get(fr, &ci.a), ci.t).(*Chan))
		if ci.flag {
			fr.regs[ci.dst] = Tuple{v, ok}
		} else {
			fr.regs[ci.dst] = v
		}
	case cSend:
		c, _ := g.get(fr, &ci.a).(*Chan)
		g.send(c, copyVal(g.get(fr, &ci.b)))
	case cMapUpdate:
		m, _ := chk(g.get(fr, &ci.a)).(*Map)
		if m == nil {
			g.rtPanic("assignment to entry in nil map")
		}
		mt := ci.t.Underlying().(*types.Map)
		g.touchMap(m, true)
		w.mapSet(g, m, mt.Key(), norm(g.get(fr, &ci.b), mt.Key()), norm(g.get(fr, &ci.args[0]), mt.Elem()))
	case cNop:
	case cUnsup:
		panic(unsupported(fmt.Sprint(ci.x)))
	default:
		panic(unsupported(fmt.Sprintf("op %d %v", ci.op, ci.in)))
	}
}

func (g *G) bounds(i int64, n int) {
	if i < 0 || i >= int64(n) {
		g.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
	}
}

// boundsT forks on whether a symbolic index is in range.
func (g *G) boundsT(it *Term, k kinfo, n int) {
	w := g.w
	wd := it.sort.width()
	var in *Term
	if uint64(n) > mask(wd) {
		if k.k == kInt {
			in = w.tb.Cmp(OSle, w.tb.Const(it.sort, 0), it)
		} else {
			in = w.tb.T
		}
	} else {
		in = w.tb.Cmp(OUlt, it, w.tb.Const(it.sort, uint64(n)))
		if k.k == kInt {
			in = w.tb.And(in, w.tb.Cmp(OSle, w.tb.Const(it.sort, 0), it))
		}
	}
	if !w.branch(lower(in)) {
		g.rtPanic("runtime error: index out of range")
	}
}

func (g *G) symLoad(sp SymPtr, t types.Type, k kinfo) any {
	w := g.w
	if !(k.k == kBool || k.isInt() || k.isFloat()) {
		i := w.concretize(sp.idx)
		return copyVal(norm(sp.s[i], t))
	}
	n := len(sp.s)
	if n == 0 {
		panic(unsupported("symLoad of empty"))
	}
	r := w.term(norm(sp.s[n-1], t), k)
	for i := n - 2; i >= 0; i-- {
		r = w.tb.Ite(w.tb.Eq(sp.idx, w.tb.Const(sp.idx.sort, uint64(i))), w.term(norm(sp.s[i], t), k), r)
	}
	return lower(r)
}

type mapIter struct {
	m     *Map
	i     int
	order []int
}
type strIter struct {
	s any
	i int
}

func (g *G) next(fr *frame, ci *cinstr) {
	switch it := g.get(fr, &ci.a).(type) {
	case *mapIter:
		g.touchMap(it.m, false)
		tt := ci.t.(*types.Tuple)
		if it.m != nil {
			for it.i < len(it.m.ents) {
				j := it.i
				if it.order != nil && j < len(it.order) {
					j = it.order[j]
				}
				e := it.m.ents[j]
				it.i++
				if e.dead {
					continue
				}
				fr.regs[ci.dst] = Tuple{true, copyVal(e.key), copyVal(e.val)}
				return
			}
		}
		fr.regs[ci.dst] = Tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	case *strIter:
		if it.i >= strLen(it.s) {
			fr.regs[ci.dst] = Tuple{false, uint64(0), uint64(0)}
			return
		}
		i := it.i
		if s, ok := it.s.(string); ok {
			r, n := utf8.DecodeRuneInString(s[i:])
			it.i += n
			fr.regs[ci.dst] = Tuple{true, uint64(i), uint64(uint32(r))}
			return
		}
		b := strByte(it.s, i)
		if t, ok := b.(*Term); ok {
			if g.w.branch(lower(g.w.tb.Cmp(OUlt, t, g.w.tb.Const(BV(8), 0x80)))) {
				it.i++
				fr.regs[ci.dst] = Tuple{true, uint64(i), lower(g.w.tb.Zext(t, 32))}
				return
			}
		}
		var buf []byte
		for j := i; j < strLen(it.s) && j < i+4; j++ {
			buf = append(buf, byte(g.concInt(strByte(it.s, j), kinfo{kUint, 8})))
		}
		r, n := utf8.DecodeRune(buf)
		it.i += n
		fr.regs[ci.dst] = Tuple{true, uint64(i), uint64(uint32(r))}
	default:
		panic(unsupported(fmt.Sprintf("next on %T", it)))
	}
}

func zeroOrNil(t types.Type) any {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (g *G) lookup(fr *frame, ci *cinstr) {
	x := g.get(fr, &ci.a)
	if m, ok := x.(*Map); ok {
		g.touchMap(m, false)
	}
	switch m := x.(type) {
	case string, *SymStr:
		n := strLen(m)
		if it, ok := g.get(fr, &ci.b).(*Term); ok {
			g.boundsT(it, ci.k, n)
			fr.regs[ci.dst] = g.symLoad(SymPtr{strBytes(m), it}, types.Typ[types.Uint8], kinfo{kUint, 8})
			return
		}
		i := g.concInt(g.get(fr, &ci.b), ci.k)
		g.bounds(i, n)
		fr.regs[ci.dst] = strByte(m, int(i))
	case *Map, nil:
		mm, _ := m.(*Map)
		mt := ci.t.Underlying().(*types.Map)
		e := g.w.mapFind(g, mm, mt.Key(), norm(g.get(fr, &ci.b), mt.Key()))
		var v any
		if e != nil {
			v = copyVal(norm(e.val, mt.Elem()))
		} else {
			v = zero(mt.Elem())
		}
		if ci.flag {
			fr.regs[ci.dst] = Tuple{v, e != nil}
		} else {
			fr.regs[ci.dst] = v
		}
	default:
		panic(unsupported(fmt.Sprintf("lookup in %T", chk(x))))
	}
}

func (g *G) slice(fr *frame, ci *cinstr) {
	x := g.get(fr, &ci.a)
	get := func(i int, def int64) int64 {
		if ci.args[i].k == oNone {
			return def
		}
		return g.concInt(g.get(fr, &ci.args[i]), kinfo{kInt, 64})
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := int64(strLen(s))
		lo, hi := get(0, 0), get(1, n)
		if hi < 0 || hi > n {
			g.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			g.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		fr.regs[ci.dst] = subStr(s, int(lo), int(hi))
		return
	case Slice:
		fr.regs[ci.dst] = g.sliceOf(s, get, false)
		return
	case *any:
		if s == nil {
			g.nilPanic()
		}
		if *s == nil {
			*s = zero(ci.t.Underlying().(*types.Pointer).Elem())
		}
		a, ok := (*s).(Array)
		if !ok {
			panic(unsupported("slice of pointer to non-array"))
		}
		fr.regs[ci.dst] = g.sliceOf(Slice(a), get, true)
		return
	case nil:
		fr.regs[ci.dst] = g.sliceOf(nil, get, false)
		return
	}
	panic(unsupported(fmt.Sprintf("slice of %T", chk(x))))
}

func (g *G) sliceOf(s Slice, get func(int, int64) int64, arr bool) Slice {
	lo := get(0, 0)
	hi := get(1, int64(len(s)))
	max := get(2, int64(cap(s)))
	if max < 0 || max > int64(cap(s)) {
		g.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", max, cap(s)))
	}
	if hi < 0 || hi > max {
		g.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, cap(s)))
	}
	if lo < 0 || lo > hi {
		g.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	if s == nil {
		return nil
	}
	return s[lo:hi:max]
}

func (g *G) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrType || t == fmtErrType {
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if !(n == "Error" || n == "RuntimeError" && t == rtErrType || n == "Unwrap" && t == fmtErrType) {
				return false
			}
		}
		return true
	}
	w := g.w
	k := implKey{t, it}
	if v, ok := w.implCache[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	w.implCache[k] = v
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (g *G) typeAssert(fr *frame, ci *cinstr) {
	x, ok := norm(g.get(fr, &ci.a), types.NewInterfaceType(nil, nil)).(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("typeassert on %T", chk(g.get(fr, &ci.a)))))
	}
	var v any
	ok = false
	if it, isI := ci.t.Underlying().(*types.Interface); isI {
		if x.T != nil && g.implements(x.T, it) {
			v, ok = x, true
		}
	} else if x.T != nil && identical(x.T, ci.t) {
		v, ok = copyVal(norm(x.V, x.T)), true
	}
	if !ok {
		if !ci.flag {
			have := "nil"
			if x.T != nil {
				have = x.T.String()
			}
			g.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, ci.t))
		}
		v = zero(ci.t)
	}
	if ci.flag {
		fr.regs[ci.dst] = Tuple{v, ok}
	} else {
		fr.regs[ci.dst] = v
	}
}

func (g *G) builtin(fr *frame, ci *cinstr, b *ssa.Builtin, args []any, ts []types.Type) any {
	w := g.w
	for _, a := range args {
		chk(a)
	}
	switch b.Name() {
	case "len":
		switch x := norm(args[0], ts[0]).(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			g.touchMap(x, false)
			return uint64(x.live)
		case Array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *any:
			if at, ok := ts[0].Underlying().(*types.Pointer); ok {
				return uint64(at.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "cap":
		switch x := norm(args[0], ts[0]).(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *any:
			return uint64(ts[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		s, _ := args[0].(Slice)
		var add []any
		if len(args) == 1 {
			return s
		}
		switch x := args[1].(type) {
		case Slice:
			add = x
		case string, *SymStr:
			add = strBytes(x)
		case nil:
		default:
			panic(unsupported(fmt.Sprintf("append %T", x)))
		}
		if len(add) == 0 {
			return s
		}
		if x, ok := args[1].(Slice); ok {
			g.touchSlice(x, false)
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			tmp := add
			if n > 0 || true {
				tmp = append([]any(nil), add...)
			}
			for i, e := range tmp {
				w.assign(&r[n+i], copyVal(e))
			}
			g.touchSlice(r[n:], true)
			return r
		}
		nc := growCap(cap(s), n+len(add))
		g.touchSlice(s, false)
		r := make(Slice, n+len(add), nc)
		for i, e := range s {
			r[i] = copyVal(e)
		}
		for i, e := range add {
			r[n+i] = copyVal(e)
		}
		return r
	case "copy":
		d, _ := args[0].(Slice)
		var src []any
		switch x := args[1].(type) {
		case Slice:
			src = x
		case string, *SymStr:
			src = strBytes(x)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := append([]any(nil), src[:n]...)
		for i, e := range tmp {
			w.assign(&d[i], e)
		}
		if x, ok := args[1].(Slice); ok {
			g.touchSlice(x[:n], false)
		}
		g.touchSlice(d[:n], true)
		return uint64(n)
	case "delete":
		m, _ := args[0].(*Map)
		if m != nil {
			mt := ts[0].Underlying().(*types.Map)
			g.touchMap(m, true)
			w.mapDelete(g, m, mt.Key(), norm(args[1], mt.Key()))
		}
		return nil
	case "close":
		g.closeChan(args[0].(*Chan))
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], trace: g.trace(fr)})
	case "recover":
		// valid only when called directly by a deferred function
		if fr.isDefer && fr.caller != nil && fr.caller.panicking != nil {
			v := fr.caller.panicking.v
			fr.caller.panicking = nil
			return norm(v, types.NewInterfaceType(nil, nil))
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		k := kindOf(ts[0])
		r := args[0]
		for _, y := range args[1:] {
			lt := g.cmpLess(k, y, r)
			if b.Name() == "max" {
				lt = g.cmpLess(k, r, y)
			}
			if c, ok := lt.(bool); ok {
				if c {
					r = y
				}
			} else {
				r = lower(w.tb.Ite(lt.(*Term), w.term(y, k), w.term(r, k)))
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				mt := ts[0].Underlying().(*types.Map)
				for _, e := range append([]*mapEntry(nil), x.ents...) {
					if !e.dead {
						w.mapDelete(g, x, mt.Key(), e.key)
					}
				}
			}
		case Slice:
			for i := range x {
				w.assign(&x[i], nil)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*any); ok && p == nil {
			g.nilPanic()
		}
		return args[0]
	case "String": // unsafe.String(ptr, len): handled by representing ptr as SlicePtr
		if sp, ok := args[0].(slicePtr); ok {
			n := g.concInt(args[1], kinfo{kInt, 64})
			return mkStr(sp.s[:n])
		}
		if n := g.concInt(args[1], kinfo{kInt, 64}); n == 0 {
			return ""
		}
	case "SliceData":
		s, _ := args[0].(Slice)
		return slicePtr{s: s}
	case "StringData":
		return slicePtr{s: strBytes(args[0])}
	case "Slice":
		if sp, ok := args[0].(slicePtr); ok {
			n := g.concInt(args[1], kinfo{kInt, 64})
			return Slice(sp.s[:n])
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

type slicePtr struct{ s []any }

// growCap mimics the runtime's growth policy closely enough (amortised doubling).
func growCap(old, need int) int {
	if old == 0 {
		if need <= 4 {
			return need
		}
		return need
	}
	n := old
	if n < 256 {
		n *= 2
	} else {
		n += (n + 3*256) / 4
	}
	if n < need {
		n = need
	}
	return n
}
