package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Functions are translated once from go/ssa into a register form.

type okind uint8

const (
	oNone okind = iota
	oReg
	oConst
	oGlobal
)

type opnd struct {
	k   okind
	idx int
	v   any
}

type cinstr struct {
	in   ssa.Instruction
	op   cop
	dst  int
	a, b opnd
	args []opnd
	k    kinfo      // operand kind
	k2   kinfo      // result kind
	t    types.Type // relevant type
	t2   types.Type
	n    int
	tok  token.Token
	flag bool
	x    any
}

type cop uint8

const (
	cAlloc cop = iota
	cBinOp
	cUnOp
	cLoad
	cRecv
	cCall
	cInvoke
	cBuiltin
	cChangeInterface
	cChangeType
	cConvert
	cMultiConvert
	cExtract
	cField
	cFieldAddr
	cIndex
	cIndexAddr
	cLookup
	cMakeChan
	cMakeClosure
	cMakeInterface
	cMakeMap
	cMakeSlice
	cNext
	cRange
	cSelect
	cSlice
	cSliceToArrayPtr
	cTypeAssert
	cGo
	cDefer
	cRunDefers
	cIf
	cJump
	cReturn
	cPanic
	cSend
	cStore
	cMapUpdate
	cNop
	cUnsup
)

type cblock struct {
	phis  []*ssa.Phi
	phiD  []int
	phiO  [][]opnd // [phi][pred]
	ins   []cinstr
	succs []int
	preds []*ssa.BasicBlock
	// predIdx[from block index] -> edge index
	predIdx map[int]int
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	params   []int
	fvs      []int
	blocks   []cblock
	hasDefer bool
	recov    int // recover block or -1
	intr     Intrinsic
	pkgPath  string
	calls    int64
	noBody   bool
}

type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	funcs   sync.Map // *ssa.Function -> *cfunc
	built   map[*ssa.Package]bool
	methods sync.Map
	repo    string
	repoPfx string
}

func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return nil
}

func (p *Program) buildPkg(pk *ssa.Package) {
	if pk == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.built[pk] {
		return
	}
	p.built[pk] = true
	pk.Build()
}

// library calls that leave the process are answered by harness code
var redirects = map[string]string{
	"net/http.Get":            "vh.Get",
	"net/http.Post":           "vh.Post",
	"(*net/http.Client).Get":  "vh.ClientGet",
	"(*net/http.Client).Post": "vh.ClientPost",
	"(*net/http.Client).Do":   "vh.ClientDo",

	"github.com/go-openapi/runtime/middleware.NewRoutableContext":             "vr.NewRoutableContext",
	"(*github.com/go-openapi/runtime/middleware.Context).APIHandlerSwaggerUI": "vr.Handler",
	"(*github.com/go-openapi/runtime/middleware.Context).APIHandler":          "vr.Handler",
	"(*github.com/go-openapi/runtime/middleware.Context).RoutesHandler":       "vr.Handler",
	"(*github.com/go-openapi/runtime/middleware.Context).RouteInfo":           "vr.RouteInfo",
	"(*github.com/go-openapi/runtime/middleware.Context).BindValidRequest":    "vr.BindValidRequest",
	"(*github.com/go-openapi/runtime/middleware.Context).Respond":             "vr.Respond",
	"github.com/go-openapi/errors.ServeError":                                 "vr.ServeError",
	"github.com/go-openapi/swag.IsZero":                                       "vr.IsZero",
	"github.com/go-openapi/validate.FormatOf":                                 "vr.FormatOf",

	"context.WithValue": "vr.WithValue",

	"os.Getenv":    "ve.Getenv",
	"os.LookupEnv": "ve.LookupEnv",

	"time.Now":               "vf.Now",
	"os.Open":                "vf.Open",
	"os.Create":              "vf.Create",
	"os.OpenFile":            "vf.OpenFile",
	"os.Remove":              "vf.Remove",
	"os.RemoveAll":           "vf.RemoveAll",
	"os.Rename":              "vf.Rename",
	"os.MkdirAll":            "vf.MkdirAll",
	"os.MkdirTemp":           "vf.MkdirTemp",
	"os.Stat":                "vf.Stat",
	"os.ReadFile":            "vf.ReadFile",
	"os.WriteFile":           "vf.WriteFile",
	"os.ReadDir":             "vf.ReadDir",
	"(*os.File).Write":       "vf.FWrite",
	"(*os.File).WriteString": "vf.FWriteString",
	"(*os.File).Read":        "vf.FRead",
	"(*os.File).Close":       "vf.FClose",
	"(*os.File).Sync":        "vf.FSync",
	"(*os.File).Name":        "vf.FName",
	"(*os.File).Stat":        "vf.FStat",
	"(*os.File).ReadFrom":    "vf.FReadFrom",
	"(*os.File).WriteTo":     "vf.FWriteTo",
}

func (p *Program) redirect(fn *ssa.Function) *ssa.Function {
	t, ok := redirects[fn.String()]
	if !ok {
		return nil
	}
	pk := p.prog.ImportedPackage("github.com/fairDataSociety/FaVe/zz_verif/" + t[:2])
	if pk == nil {
		return nil
	}
	pk.Build()
	return pk.Func(t[3:])
}

func (p *Program) get(fn *ssa.Function) *cfunc {
	if c, ok := p.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	pk := fnPkg(fn)
	p.buildPkg(pk)
	p.mu.Lock()
	defer p.mu.Unlock()
	if c, ok := p.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	if t := p.redirect(fn); t != nil {
		c := p.compile(t)
		p.funcs.Store(fn, c)
		return c
	}
	c := p.compile(fn)
	p.funcs.Store(fn, c)
	return c
}

func (p *Program) compile(fn *ssa.Function) *cfunc {
	c := &cfunc{fn: fn, name: funcKey(fn), recov: -1}
	if pk := fnPkg(fn); pk != nil {
		c.pkgPath = pk.Pkg.Path()
	} else if fn.Signature.Recv() != nil {
		// wrappers: derive from the receiver
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			c.pkgPath = n.Obj().Pkg().Path()
		}
	}
	c.intr = lookupIntrinsic(c.name, c.pkgPath, fn)
	if c.intr != nil {
		return c
	}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return c
	}
	regs := map[ssa.Value]int{}
	newReg := func(v ssa.Value) int {
		i := len(regs)
		regs[v] = i
		return i
	}
	for _, x := range fn.Params {
		c.params = append(c.params, newReg(x))
	}
	for _, x := range fn.FreeVars {
		c.fvs = append(c.fvs, newReg(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	c.nregs = len(regs)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			return opnd{k: oConst, v: constVal(x)}
		case *ssa.Global:
			return opnd{k: oGlobal, v: x}
		case *ssa.Function:
			return opnd{k: oConst, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{k: oConst, v: &Closure{bi: x}}
		}
		return opnd{k: oReg, idx: regs[v]}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.predIdx = map[int]int{}
		for i, pb := range b.Preds {
			cb.predIdx[pb.Index] = i
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				cb.phiD = append(cb.phiD, regs[phi])
				var es []opnd
				for _, e := range phi.Edges {
					es = append(es, op(e))
				}
				cb.phiO = append(cb.phiO, es)
				cb.phis = append(cb.phis, phi)
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t2 = v.Type()
				if _, isTuple := v.Type().(*types.Tuple); !isTuple {
					ci.k2 = kindOf(v.Type())
				}
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = cAlloc
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
				k := kindOf(ci.t)
				ci.flag = k.k == kStruct || k.k == kArray
			case *ssa.BinOp:
				ci.op, ci.a, ci.b, ci.tok = cBinOp, op(x.X), op(x.Y), x.Op
				ci.t = x.X.Type()
				ci.k = kindOf(ci.t)
				// kind of the shift count
				ci.x = kindOf(x.Y.Type())
			case *ssa.UnOp:
				ci.a, ci.tok, ci.t = op(x.X), x.Op, x.X.Type()
				ci.k = kindOf(ci.t)
				switch x.Op {
				case token.MUL:
					ci.op = cLoad
				case token.ARROW:
					ci.op = cRecv
					ci.flag = x.CommaOk
				default:
					ci.op = cUnOp
				}
			case *ssa.Call:
				p.compCall(&ci, &x.Call, op)
			case *ssa.ChangeInterface:
				ci.op, ci.a = cChangeInterface, op(x.X)
			case *ssa.ChangeType:
				ci.op, ci.a = cChangeType, op(x.X)
				ci.t = x.X.Type()
			case *ssa.Convert:
				ci.op, ci.a, ci.t = cConvert, op(x.X), x.X.Type()
				ci.k = kindOf(ci.t)
			case *ssa.MultiConvert:
				ci.op, ci.a, ci.t = cConvert, op(x.X), x.X.Type()
				ci.k = kindOf(ci.t)
			case *ssa.Extract:
				ci.op, ci.a, ci.n = cExtract, op(x.Tuple), x.Index
				ci.t = x.Type()
			case *ssa.Field:
				ci.op, ci.a, ci.n, ci.t = cField, op(x.X), x.Field, x.Type()
			case *ssa.FieldAddr:
				ci.op, ci.a, ci.n = cFieldAddr, op(x.X), x.Field
				ci.t = x.X.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Index:
				ci.op, ci.a, ci.b, ci.t = cIndex, op(x.X), op(x.Index), x.X.Type()
				ci.k = kindOf(x.Index.Type())
			case *ssa.IndexAddr:
				ci.op, ci.a, ci.b, ci.t = cIndexAddr, op(x.X), op(x.Index), x.X.Type()
				ci.k = kindOf(x.Index.Type())
				ci.flag = true
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, dbg := r.(*ssa.DebugRef); !dbg {
							ci.flag = false
						}
					}
				}
			case *ssa.Lookup:
				ci.op, ci.a, ci.b, ci.t, ci.flag = cLookup, op(x.X), op(x.Index), x.X.Type(), x.CommaOk
				ci.k = kindOf(x.Index.Type())
			case *ssa.MakeChan:
				ci.op, ci.a = cMakeChan, op(x.Size)
				ci.t = x.Type().Underlying().(*types.Chan).Elem()
			case *ssa.MakeClosure:
				ci.op = cMakeClosure
				ci.x = x.Fn.(*ssa.Function)
				for _, bnd := range x.Bindings {
					ci.args = append(ci.args, op(bnd))
				}
			case *ssa.MakeInterface:
				ci.op, ci.a, ci.t = cMakeInterface, op(x.X), x.X.Type()
			case *ssa.MakeMap:
				ci.op = cMakeMap
			case *ssa.MakeSlice:
				ci.op, ci.a, ci.b = cMakeSlice, op(x.Len), op(x.Cap)
				ci.t = x.Type()
			case *ssa.Next:
				ci.op, ci.a, ci.flag = cNext, op(x.Iter), x.IsString
				ci.t = x.Type()
			case *ssa.Range:
				ci.op, ci.a, ci.t = cRange, op(x.X), x.X.Type()
			case *ssa.Select:
				ci.op = cSelect
				for _, st := range x.States {
					ci.args = append(ci.args, op(st.Chan), op(st.Send))
				}
				ci.flag = x.Blocking
			case *ssa.Slice:
				ci.op, ci.a, ci.t = cSlice, op(x.X), x.X.Type()
				ci.args = []opnd{op(x.Low), op(x.High), op(x.Max)}
			case *ssa.SliceToArrayPointer:
				ci.op = cUnsup
				ci.x = "slice to array pointer"
			case *ssa.TypeAssert:
				ci.op, ci.a, ci.t, ci.flag = cTypeAssert, op(x.X), x.AssertedType, x.CommaOk
				ci.k = kindOf(x.AssertedType)
			case *ssa.Go:
				p.compCall(&ci, &x.Call, op)
				ci.n = int(ci.op)
				ci.op = cGo
			case *ssa.Defer:
				p.compCall(&ci, &x.Call, op)
				ci.n = int(ci.op)
				ci.op = cDefer
				c.hasDefer = true
			case *ssa.RunDefers:
				ci.op = cRunDefers
			case *ssa.If:
				ci.op, ci.a = cIf, op(x.Cond)
			case *ssa.Jump:
				ci.op = cJump
			case *ssa.Return:
				ci.op = cReturn
				for _, r := range x.Results {
					ci.args = append(ci.args, op(r))
				}
			case *ssa.Panic:
				ci.op, ci.a = cPanic, op(x.X)
			case *ssa.Send:
				ci.op, ci.a, ci.b = cSend, op(x.Chan), op(x.X)
			case *ssa.Store:
				ci.op, ci.a, ci.b = cStore, op(x.Addr), op(x.Val)
			case *ssa.MapUpdate:
				ci.op, ci.a, ci.b = cMapUpdate, op(x.Map), op(x.Key)
				ci.args = []opnd{op(x.Value)}
				ci.t = x.Map.Type()
			default:
				ci.op = cUnsup
				ci.x = "instruction " + strings.TrimPrefix(in.String(), " ")
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	return c
}

func (p *Program) compCall(ci *cinstr, call *ssa.CallCommon, op func(ssa.Value) opnd) {
	for _, a := range call.Args {
		ci.args = append(ci.args, op(a))
	}
	if call.IsInvoke() {
		ci.op = cInvoke
		ci.a = op(call.Value)
		ci.x = call.Method
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		ci.op = cBuiltin
		ci.x = b
		var ts []types.Type
		for _, a := range call.Args {
			ts = append(ts, a.Type())
		}
		ci.a = opnd{k: oConst, v: ts}
		return
	}
	ci.op = cCall
	if f, ok := call.Value.(*ssa.Function); ok {
		ci.x = f
	}
	ci.a = op(call.Value)
}

func constVal(c *ssa.Const) any {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			return Poison{"type param const"}
		}
		return zero(t)
	}
	k := kindOf(t)
	switch k.k {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		return uint64(c.Int64()) & mask(k.w)
	case kUint:
		return c.Uint64() & mask(k.w)
	case kF32:
		f, _ := constant.Float32Val(constant.ToFloat(c.Value))
		return f
	case kF64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	return Poison{"const " + c.String()}
}
