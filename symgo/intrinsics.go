package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(g *G, c *cfunc, args []any) any

const vxPath = "github.com/fairDataSociety/FaVe/zz_verif/vx"

var intrinsics = map[string]Intrinsic{}

// packages in which every function is a no-op returning zero values
var noopPkgs = []string{"github.com/sirupsen/logrus", "github.com/prometheus/", "github.com/weaviate/weaviate/usecases/monitoring",
	"github.com/davecgh/go-spew", "log", "runtime/debug", "internal/race", "internal/godebug", "internal/msan", "internal/asan"}

func lookupIntrinsic(name, pkg string, fn *ssa.Function) Intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, vxPath+".") {
		if f, ok := intrinsics["vx."+strings.TrimPrefix(name, vxPath+".")]; ok {
			return f
		}
	}
	for _, p := range noopPkgs {
		if pkg == p || strings.HasSuffix(p, "/") && strings.HasPrefix(pkg, p) || strings.HasPrefix(pkg, p+"/") && p != "log" {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				return noop
			}
			if name == "github.com/sirupsen/logrus.New" || name == "github.com/sirupsen/logrus.NewEntry" {
				return func(g *G, c *cfunc, args []any) any {
					p := new(any)
					*p = zero(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
					return p
				}
			}
			return noop
		}
	}
	return nil
}

func noop(g *G, c *cfunc, args []any) any { return zeroResults(c.fn.Signature) }

func reg(f Intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

var fmtErrType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("fmt", "fmt"), "wrapError#", nil), types.NewPointer(types.Typ[types.Int]), nil)

type fmtErr struct {
	msg     string
	wrapped []any
}

func mkErr(msg string, wrapped ...any) Iface {
	return Iface{T: fmtErrType, V: &fmtErr{msg, wrapped}}
}

func i64(g *G, v any) int64 { return g.concInt(v, kinfo{kInt, 64}) }

func init() {
	regVx()
	regSync()
	regMath()
	regMisc()
	regFmt()
	regJSON()
}

func regVx() {
	sym := func(kind string, s Sort, conv func(w *W, t *Term) any) Intrinsic {
		return func(g *G, c *cfunc, args []any) any {
			w := g.w
			name := g.concStr(args[0])
			t := w.fresh(name, s)
			w.inputs = append(w.inputs, Input{Name: name, Kind: kind, term: t})
			return conv(w, t)
		}
	}
	id := func(w *W, t *Term) any { return t }
	reg(func(g *G, c *cfunc, args []any) any {
		p := new(any)
		*p = zero(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	}, "os.NewFile")
	reg(noop, "os.runtime_args", "sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck")
	reg(sym("bool", SBool, id), "vx.Bool")
	reg(sym("u8", BV(8), id), "vx.U8")
	reg(sym("u16", BV(16), id), "vx.U16")
	reg(sym("u32", BV(32), id), "vx.U32")
	reg(sym("u64", BV(64), id), "vx.U64", "vx.Int", "vx.I64")
	reg(sym("f32", BV(32), func(w *W, t *Term) any { return w.tb.FFromBits(SF32, t) }), "vx.F32")
	reg(sym("f64", BV(64), func(w *W, t *Term) any { return w.tb.FFromBits(SF64, t) }), "vx.F64")
	reg(func(g *G, c *cfunc, args []any) any { // IntRange(name, lo, hi)
		w := g.w
		name := g.concStr(args[0])
		lo, hi := i64(g, args[1]), i64(g, args[2])
		if lo == hi {
			return uint64(lo)
		}
		// small unsigned offset keeps terms narrow
		span := uint64(hi - lo)
		bw := bits.Len64(span)
		t := w.fresh(name, BV(bw))
		full := w.tb.Bin(OAdd, w.tb.Zext(t, 64), w.tb.Const(BV(64), uint64(lo)))
		w.inputs = append(w.inputs, Input{Name: name, Kind: "int", term: full})
		if span != mask(bw) {
			w.assume(lower(w.tb.Cmp(OUle, t, w.tb.Const(BV(bw), span))))
		}
		return full
	}, "vx.IntRange")
	reg(func(g *G, c *cfunc, args []any) any {
		return uint64(g.w.choice(g.concStr(args[0]), int(i64(g, args[1])), true))
	}, "vx.Choice")
	bytesOf := func(g *G, args []any) []any {
		w := g.w
		name := g.concStr(args[0])
		n := int(i64(g, args[1]))
		r := make([]any, n)
		for i := range r {
			t := w.fresh(name, BV(8))
			w.inputs = append(w.inputs, Input{Name: name, Kind: "u8", term: t})
			r[i] = t
		}
		return r
	}
	reg(func(g *G, c *cfunc, args []any) any { return Slice(bytesOf(g, args)) }, "vx.Bytes")
	reg(func(g *G, c *cfunc, args []any) any {
		b := bytesOf(g, args)
		if len(b) == 0 {
			return ""
		}
		return &SymStr{b}
	}, "vx.Str")
	reg(func(g *G, c *cfunc, args []any) any { g.w.assume(args[0]); return nil }, "vx.Assume")
	reg(func(g *G, c *cfunc, args []any) any {
		g.w.assert(g, args[0], g.concStr(args[1]))
		return nil
	}, "vx.Assert")
	reg(func(g *G, c *cfunc, args []any) any {
		g.w.covers[g.concStr(args[0])]++
		return nil
	}, "vx.Cover")
	reg(func(g *G, c *cfunc, args []any) any {
		if v, ok := g.w.ex.params[g.concStr(args[0])]; ok {
			return uint64(int64(v))
		}
		return args[1]
	}, "vx.Param")
	reg(func(g *G, c *cfunc, args []any) any { return true }, "vx.Symbolic")
	reg(func(g *G, c *cfunc, args []any) any { g.w.preempt = int(i64(g, args[0])); return nil }, "vx.Preempt")
	reg(func(g *G, c *cfunc, args []any) any { g.w.raceOn(args[0].(bool)); return nil }, "vx.Races")
	reg(func(g *G, c *cfunc, args []any) any { g.w.pickFork = args[0].(bool); return nil }, "vx.Schedules")
	reg(func(g *G, c *cfunc, args []any) any { return nil }, "vx.Jitter")
	reg(func(g *G, c *cfunc, args []any) any { g.w.lifo = g.w.schedChoice(2) == 1; return nil }, "vx.Order")
	reg(func(g *G, c *cfunc, args []any) any { g.w.mapPerm = args[0].(bool); return nil }, "vx.MapOrder")
	reg(func(g *G, c *cfunc, args []any) any { g.yield(); return nil }, "vx.Yield")
	reg(func(g *G, c *cfunc, args []any) any { g.syncPoint("vx"); return nil }, "vx.SyncPoint")
	reg(func(g *G, c *cfunc, args []any) any { return uint64(i64(g, args[0])) }, "vx.Concrete")
	reg(func(g *G, c *cfunc, args []any) any {
		g.w.notes = append(g.w.notes, g.sprint(args[0]))
		return nil
	}, "vx.Note")
	reg(func(g *G, c *cfunc, args []any) any { return g.w.and(args[0], args[1]) }, "vx.And")
	reg(func(g *G, c *cfunc, args []any) any { return g.w.not(g.w.and(g.w.not(args[0]), g.w.not(args[1]))) }, "vx.Or")
	reg(func(g *G, c *cfunc, args []any) any { return g.w.not(g.w.and(args[0], g.w.not(args[1]))) }, "vx.Implies")
	ite := func(k kinfo) Intrinsic {
		return func(g *G, c *cfunc, args []any) any {
			if b, ok := args[0].(bool); ok {
				if b {
					return args[1]
				}
				return args[2]
			}
			return lower(g.w.tb.Ite(args[0].(*Term), g.w.term(args[1], k), g.w.term(args[2], k)))
		}
	}
	reg(ite(kinfo{kInt, 64}), "vx.IteInt", "vx.IteU64")
	reg(ite(kinfo{kF32, 32}), "vx.IteF32")
	reg(func(g *G, c *cfunc, args []any) any {
		for _, ch := range g.w.tickers() {
			if len(ch.buf) < 1 {
				ch.buf = append(ch.buf, zero(ch.elem))
			}
		}
		// let everything they wake run until it waits again
		for i := 0; i < 100000 && g.othersRunnable(); i++ {
			g.yield()
		}
		return nil
	}, "vx.FireTickers")
}

func (w *W) tickers() []*Chan {
	l, _ := w.side["tickers"].([]*Chan)
	return l
}

func regSync() {
	P := func(g *G, v any) *any { return g.ptr(v) }
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		g.syncPoint("lock")
		g.block("mutex lock", func() bool { return !l.writer && l.readers == 0 })
		l.writer = true
		g.acquire(l)
		g.acquire(readers{l})
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		if l.writer || l.readers > 0 {
			return false
		}
		l.writer = true
		g.acquire(l)
		g.acquire(readers{l})
		return true
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		if !l.writer {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex\n" + g.trace(g.callerFr)})
		}
		l.writer = false
		g.release(l)
		g.syncPoint("unlock")
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		g.syncPoint("rlock")
		g.block("rwmutex rlock", func() bool { return !l.writer })
		l.readers++
		g.acquire(l)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		if l.writer {
			return false
		}
		l.readers++
		g.acquire(l)
		return true
	}, "(*sync.RWMutex).TryRLock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		if l.readers <= 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex\n" + g.trace(g.callerFr)})
		}
		l.readers--
		g.release(readers{l})
		g.syncPoint("runlock")
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		l.wg += i64(g, args[1])
		if l.wg < 0 {
			g.rtPanic("sync: negative WaitGroup counter")
		}
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		l.wg--
		g.release(l)
		if l.wg < 0 {
			g.rtPanic("sync: negative WaitGroup counter")
		}
		g.syncPoint("wg done")
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		g.syncPoint("wg wait")
		g.block("waitgroup", func() bool { return l.wg == 0 })
		g.acquire(l)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(g *G, c *cfunc, args []any) any {
		l := g.w.lockOf(P(g, args[0]))
		if l.once == 2 {
			g.acquire(l)
			return nil
		}
		if l.once == 1 {
			g.block("once", func() bool { return l.once == 2 })
			g.acquire(l)
			return nil
		}
		if g.w.inInit > 0 {
			g.callClosure(args[1].(*Closure), nil, g.callerFr)
			return nil
		}
		l.once = 1
		func() {
			defer func() { l.once = 2; g.release(l) }()
			g.callClosure(args[1].(*Closure), nil, g.callerFr)
		}()
		return nil
	}, "(*sync.Once).Do")
	reg(func(g *G, c *cfunc, args []any) any {
		p := P(g, args[0])
		g.acquire(p)
		if l := g.w.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			g.w.pools[p] = l[:len(l)-1]
			return v
		}
		pt := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				s := load(p, pt).(Struct)
				cl, _ := s[i].(*Closure)
				if cl == nil {
					return Iface{}
				}
				return g.callClosure(cl, nil, g.callerFr)
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(g *G, c *cfunc, args []any) any {
		p := P(g, args[0])
		g.release(p)
		x := norm(args[1], types.NewInterfaceType(nil, nil)).(Iface)
		if x.T != nil {
			g.w.pools[p] = append(g.w.pools[p], x)
		}
		return nil
	}, "(*sync.Pool).Put")
	// atomics
	for _, T := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		T := T
		reg(func(g *G, c *cfunc, args []any) any {
			g.syncPoint("atomic")
			g.acqrel(P(g, args[0]))
			p := P(g, args[0])
			return load(p, c.fn.Signature.Results().At(0).Type())
		}, "sync/atomic.Load"+T, "internal/runtime/atomic.Load"+T)
		reg(func(g *G, c *cfunc, args []any) any {
			g.syncPoint("atomic")
			g.acqrel(P(g, args[0]))
			g.w.assign(P(g, args[0]), args[1])
			return nil
		}, "sync/atomic.Store"+T)
		reg(func(g *G, c *cfunc, args []any) any {
			g.syncPoint("atomic")
			g.acqrel(P(g, args[0]))
			t := c.fn.Signature.Results().At(0).Type()
			k := kindOf(t)
			p := P(g, args[0])
			o := load(p, t)
			var n any
			if a, ok := o.(uint64); ok {
				if b, ok := args[1].(uint64); ok {
					n = (a + b) & mask(k.w)
				}
			}
			if n == nil {
				n = lower(g.w.tb.Bin(OAdd, g.w.term(o, k), g.w.term(args[1], k)))
			}
			g.w.assign(p, n)
			return n
		}, "sync/atomic.Add"+T)
		reg(func(g *G, c *cfunc, args []any) any {
			g.syncPoint("atomic")
			g.acqrel(P(g, args[0]))
			t := c.fn.Signature.Results().At(0).Type()
			p := P(g, args[0])
			o := load(p, t)
			g.w.assign(p, args[1])
			return o
		}, "sync/atomic.Swap"+T)
		reg(func(g *G, c *cfunc, args []any) any {
			g.syncPoint("atomic")
			g.acqrel(P(g, args[0]))
			t := c.fn.Signature.Params().At(1).Type()
			p := P(g, args[0])
			o := load(p, t)
			if g.w.branch(g.w.eq(g, t, o, norm(args[1], t))) {
				g.w.assign(p, args[2])
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+T)
	}
	reg(func(g *G, c *cfunc, args []any) any {
		g.syncPoint("atomic")
		g.acqrel(P(g, args[0]))
		p := P(g, args[0])
		if v, ok := g.w.side[p]; ok {
			return v
		}
		s := load(p, c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()).(Struct)
		return norm(s[0], types.NewInterfaceType(nil, nil))
	}, "(*sync/atomic.Value).Load")
	reg(func(g *G, c *cfunc, args []any) any {
		g.syncPoint("atomic")
		g.acqrel(P(g, args[0]))
		p := P(g, args[0])
		materialize(p, c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
		s := (*p).(Struct)
		g.w.assign(&s[0], args[1])
		return nil
	}, "(*sync/atomic.Value).Store")
}

func regMath() {
	f1 := func(name string, f func(float64) float64, s func(w *W, t *Term) *Term) {
		reg(func(g *G, c *cfunc, args []any) any {
			switch x := args[0].(type) {
			case float64:
				return f(x)
			case *Term:
				if s != nil {
					return lower(s(g.w, x))
				}
			}
			panic(unsupported("math." + name + " on symbolic value"))
		}, "math."+name)
	}
	f1("Sqrt", math.Sqrt, func(w *W, t *Term) *Term { return w.tb.FSqrt(t) })
	f1("Abs", math.Abs, func(w *W, t *Term) *Term { return w.tb.FAbs(t) })
	f1("Floor", math.Floor, func(w *W, t *Term) *Term { return w.tb.FRound(0, t) })
	f1("Ceil", math.Ceil, func(w *W, t *Term) *Term { return w.tb.FRound(1, t) })
	f1("Trunc", math.Trunc, func(w *W, t *Term) *Term { return w.tb.FRound(2, t) })
	f1("Log", math.Log, nil)
	f1("Log2", math.Log2, nil)
	f1("Exp", math.Exp, nil)
	f1("Sin", math.Sin, nil)
	f1("Cos", math.Cos, nil)
	f1("Asin", math.Asin, nil)
	f1("Acos", math.Acos, nil)
	f1("Atan", math.Atan, nil)
	reg(func(g *G, c *cfunc, args []any) any {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		if ok2 && y == 2 {
			t := args[0].(*Term)
			return lower(g.w.tb.FBin(OFMul, t, t))
		}
		panic(unsupported("math.Pow on symbolic value"))
	}, "math.Pow")
	reg(func(g *G, c *cfunc, args []any) any {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			return math.Atan2(x, y)
		}
		panic(unsupported("math.Atan2 on symbolic value"))
	}, "math.Atan2")
	reg(func(g *G, c *cfunc, args []any) any {
		switch x := args[0].(type) {
		case float32:
			return uint64(math.Float32bits(x))
		case *Term:
			return lower(g.w.tb.FToBits(x))
		}
		panic(unsupported("Float32bits"))
	}, "math.Float32bits")
	reg(func(g *G, c *cfunc, args []any) any {
		switch x := args[0].(type) {
		case float64:
			return math.Float64bits(x)
		case *Term:
			return lower(g.w.tb.FToBits(x))
		}
		panic(unsupported("Float64bits"))
	}, "math.Float64bits")
	reg(func(g *G, c *cfunc, args []any) any {
		switch x := args[0].(type) {
		case uint64:
			return math.Float32frombits(uint32(x))
		case *Term:
			return lower(g.w.tb.FFromBits(SF32, x))
		}
		panic(unsupported("Float32frombits"))
	}, "math.Float32frombits")
	reg(func(g *G, c *cfunc, args []any) any {
		switch x := args[0].(type) {
		case uint64:
			return math.Float64frombits(x)
		case *Term:
			return lower(g.w.tb.FFromBits(SF64, x))
		}
		panic(unsupported("Float64frombits"))
	}, "math.Float64frombits")
	reg(func(g *G, c *cfunc, args []any) any {
		switch x := args[0].(type) {
		case float64:
			return math.IsNaN(x)
		case *Term:
			return lower(g.w.tb.FIsNaN(x))
		}
		panic(unsupported("IsNaN"))
	}, "math.IsNaN")
	reg(func(g *G, c *cfunc, args []any) any {
		if x, ok := args[0].(float64); ok {
			return math.IsInf(x, int(i64(g, args[1])))
		}
		t := args[0].(*Term)
		w := g.w
		switch s := i64(g, args[1]); {
		case s == 0:
			return lower(w.tb.FIsInf(t))
		case s > 0:
			return lower(w.tb.And(w.tb.FIsInf(t), w.tb.FCmp(OFLt, w.tb.F64(0), t)))
		default:
			return lower(w.tb.And(w.tb.FIsInf(t), w.tb.FCmp(OFLt, t, w.tb.F64(0))))
		}
	}, "math.IsInf")
}

// callNamed calls a package-level function of the interpreted program.
func (g *G) callNamed(pkg, name string, args ...any) any {
	pk := g.w.p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	g.w.p.buildPkg(pk)
	f := pk.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return g.call(f, args, nil, g.callerFr)
}

func (g *G) newPtrTo(t types.Type) *any {
	p := new(any)
	*p = zero(t)
	return p
}

func regMisc() {
	zeroFn := func(names ...string) { reg(noop, names...) }
	zeroFn("runtime.Callers", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.ReadMemStats",
		"time.Now", "time.Since", "time.Until", "time.runtimeNano", "runtime.FuncForPC", "runtime.CallersFrames", "runtime.Caller",
		"(*time.Ticker).Stop", "(*time.Ticker).Reset", "os.Getenv", "os.Hostname", "os.Getpid",
		"(*os.File).Write", "(*os.File).WriteString", "(*os.File).Sync", "(*os.File).Close",
		"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer/asm.Prefetch",
		"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer/asm.Prefetch")
	reg(func(g *G, c *cfunc, args []any) any { g.yield(); return nil }, "time.Sleep")
	reg(func(g *G, c *cfunc, args []any) any { return uint64(8) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(g *G, c *cfunc, args []any) any { return uint64(1) }, "runtime.NumGoroutine")
	reg(func(g *G, c *cfunc, args []any) any {
		if n, ok := args[0].(uint64); ok && sext(n, 64) <= 0 {
			g.rtPanic("non-positive interval for NewTicker")
		}
		t := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := g.newPtrTo(t)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "C" {
				ch := &Chan{cap: 1, elem: st.Field(i).Type().Underlying().(*types.Chan).Elem()}
				(*p).(Struct)[i] = ch
				if g.w.inInit == 0 && strings.Contains(c.name, "Ticker") {
					g.w.side["tickers"] = append(g.w.tickers(), ch)
				}
			}
		}
		return p
	}, "time.NewTicker", "time.NewTimer")
	reg(func(g *G, c *cfunc, args []any) any {
		return g.newPtrTo(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
	}, "time.AfterFunc")
	reg(func(g *G, c *cfunc, args []any) any { return true }, "(*time.Timer).Stop", "(*time.Timer).Reset")
	reg(func(g *G, c *cfunc, args []any) any {
		return &Chan{cap: 1, elem: c.fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()}
	}, "time.After", "time.Tick")
	// deadlines never expire inside the bounds explored
	reg(func(g *G, c *cfunc, args []any) any {
		return g.callNamed("context", "WithCancel", args[0])
	}, "context.WithTimeout", "context.WithDeadline")
	reg(func(g *G, c *cfunc, args []any) any {
		x := norm(args[0], types.NewInterfaceType(nil, nil)).(Iface)
		s, _ := x.V.(Slice)
		et := x.T.Underlying().(*types.Slice).Elem()
		w := g.w
		swap := &Closure{native: func(g *G, a []any) any {
			i, j := i64(g, a[0]), i64(g, a[1])
			vi, vj := copyVal(norm(s[i], et)), copyVal(norm(s[j], et))
			w.assign(&s[i], vj)
			w.assign(&s[j], vi)
			return nil
		}}
		ls := Struct{args[1], swap}
		n := len(s)
		if strings.HasSuffix(c.name, "SliceStable") {
			g.callNamed("sort", "stable_func", ls, uint64(n))
		} else {
			g.callNamed("sort", "pdqsort_func", ls, uint64(0), uint64(n), uint64(bits.Len(uint(n))))
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")
	reg(func(g *G, c *cfunc, args []any) any {
		a, b := args[0].(Slice), args[1].(Slice)
		return g.w.strEq(mkStr(a), mkStr(b))
	}, "bytes.Equal")
	reg(func(g *G, c *cfunc, args []any) any {
		s, b := args[0], args[1]
		n := strLen(s)
		for i := 0; i < n; i++ {
			if g.w.branch(g.w.eq(g, types.Typ[types.Uint8], strByte(s, i), b)) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(g *G, c *cfunc, args []any) any {
		s, _ := args[0].(Slice)
		for i := range s {
			if g.w.branch(g.w.eq(g, types.Typ[types.Uint8], s[i], args[1])) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	idx := func(g *G, s, sub any) any {
		if a, ok := s.(string); ok {
			if b, ok := sub.(string); ok {
				return uint64(int64(strings.Index(a, b)))
			}
		}
		n, m := strLen(s), strLen(sub)
		for i := 0; i+m <= n; i++ {
			if g.w.branch(g.w.strEq(subStr(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return uint64(math.MaxUint64)
	}
	reg(func(g *G, c *cfunc, args []any) any { return idx(g, args[0], args[1]) }, "strings.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(g *G, c *cfunc, args []any) any {
		return idx(g, mkStr(args[0].(Slice)), mkStr(args[1].(Slice)))
	}, "bytes.Index", "internal/bytealg.Index")
	cnt := func(g *G, s any, b any) any {
		n := uint64(0)
		for i := 0; i < strLen(s); i++ {
			if g.w.branch(g.w.eq(g, types.Typ[types.Uint8], strByte(s, i), b)) {
				n++
			}
		}
		return n
	}
	reg(func(g *G, c *cfunc, args []any) any { return cnt(g, args[0], args[1]) }, "internal/bytealg.CountString")
	reg(func(g *G, c *cfunc, args []any) any { return cnt(g, mkStr(args[0].(Slice)), args[1]) }, "internal/bytealg.Count")
	reg(func(g *G, c *cfunc, args []any) any {
		return Slice(make([]any, i64(g, args[0]), i64(g, args[0])))
	}, "internal/bytealg.MakeNoZero")
	reg(func(g *G, c *cfunc, args []any) any {
		a, b := mkStr(args[0].(Slice)), mkStr(args[1].(Slice))
		k := kinfo{kString, 0}
		if g.w.branch(g.cmpLess(k, a, b)) {
			return uint64(math.MaxUint64)
		}
		if g.w.branch(g.cmpLess(k, b, a)) {
			return uint64(1)
		}
		return uint64(0)
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(g *G, c *cfunc, args []any) any {
		p := g.ptr(args[0])
		s := load(p, c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()).(Struct)
		b, _ := s[len(s)-1].(Slice)
		return mkStr(b)
	}, "(*strings.Builder).String")
	reg(noop, "(*strings.Builder).copyCheck")
	reg(func(g *G, c *cfunc, args []any) any { return args[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape")
	bitsFn := func(name string, w int, f func(uint64) int) {
		reg(func(g *G, c *cfunc, args []any) any {
			return uint64(f(uint64(g.concInt(args[0], kinfo{kUint, w}))))
		}, "math/bits."+name)
	}
	bitsFn("Len64", 64, bits.Len64)
	bitsFn("Len", 64, bits.Len64)
	bitsFn("TrailingZeros64", 64, bits.TrailingZeros64)
	bitsFn("LeadingZeros64", 64, bits.LeadingZeros64)
	popcnt := func(w int) Intrinsic {
		return func(g *G, c *cfunc, args []any) any {
			if x, ok := args[0].(uint64); ok {
				return uint64(bits.OnesCount64(x))
			}
			t := args[0].(*Term)
			r := g.w.tb.Const(BV(64), 0)
			for i := 0; i < t.sort.width(); i++ {
				r = g.w.tb.Bin(OAdd, r, g.w.tb.Zext(g.w.tb.Extract(t, i, 1), 64))
			}
			return lower(r)
		}
	}
	reg(popcnt(64), "math/bits.OnesCount64", "math/bits.OnesCount", "math/bits.OnesCount32", "math/bits.OnesCount8")

	// errors
	reg(func(g *G, c *cfunc, args []any) any {
		return g.errorsIs(ifaceOf(args[0]), ifaceOf(args[1]))
	}, "errors.Is", "github.com/pkg/errors.Is")
	reg(func(g *G, c *cfunc, args []any) any {
		return g.errorsAs(ifaceOf(args[0]), ifaceOf(args[1]))
	}, "errors.As", "github.com/pkg/errors.As")
	reg(func(g *G, c *cfunc, args []any) any {
		u := g.unwrap(ifaceOf(args[0]))
		if len(u) == 1 {
			return u[0]
		}
		return Iface{}
	}, "errors.Unwrap")
	reg(func(g *G, c *cfunc, args []any) any {
		return Tuple{"00000000-0000-4000-8000-000000000000", Iface{}}
	}, "github.com/google/uuid.NewString#")
}

func ifaceOf(v any) Iface {
	if v == nil {
		return Iface{}
	}
	return v.(Iface)
}

func (g *G) unwrap(e Iface) []Iface {
	if e.T == nil {
		return nil
	}
	if e.T == fmtErrType {
		var r []Iface
		for _, x := range e.V.(*fmtErr).wrapped {
			r = append(r, ifaceOf(x))
		}
		return r
	}
	if e.T == rtErrType {
		return nil
	}
	f := g.w.p.methodByName(e.T, nil, "Unwrap")
	if f == nil {
		return nil
	}
	r := g.call(f, []any{copyVal(norm(e.V, e.T))}, nil, g.callerFr)
	switch x := r.(type) {
	case Iface:
		if x.T == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var l []Iface
		for _, y := range x {
			l = append(l, ifaceOf(y))
		}
		return l
	}
	return nil
}

func (g *G) errorsIs(e, target Iface) bool {
	if e.T == nil || target.T == nil {
		return e.T == nil && target.T == nil
	}
	switch kindOf(target.T).k {
	case kSlice, kMap, kFunc:
	default:
		if identical(e.T, target.T) && g.w.branch(g.w.eq(g, e.T, e.V, target.V)) {
			return true
		}
	}
	if e.T != fmtErrType && e.T != rtErrType {
		if f := g.w.p.methodByName(e.T, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if g.w.branch(g.call(f, []any{copyVal(norm(e.V, e.T)), target}, nil, g.callerFr)) {
				return true
			}
		}
	}
	for _, u := range g.unwrap(e) {
		if g.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (g *G) errorsAs(e, target Iface) bool {
	if e.T == nil {
		return false
	}
	if target.T == nil {
		g.rtPanic("errors: target cannot be nil")
	}
	et := target.T.Underlying().(*types.Pointer).Elem()
	ok := false
	if it, isI := et.Underlying().(*types.Interface); isI {
		ok = g.implements(e.T, it)
		if ok {
			g.w.assign(g.ptr(target.V), e)
			return true
		}
	} else if identical(e.T, et) {
		g.w.assign(g.ptr(target.V), copyVal(norm(e.V, e.T)))
		return true
	}
	for _, u := range g.unwrap(e) {
		if g.errorsAs(u, target) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
