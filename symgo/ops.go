package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (g *G) cmpLess(k kinfo, a, b any) any {
	w := g.w
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			if k.k == kInt {
				return sext(x, k.w) < sext(y, k.w)
			}
			return x < y
		}
	case float32:
		if y, ok := b.(float32); ok {
			return x < y
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x < y
		}
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	switch k.k {
	case kInt:
		return lower(w.tb.Cmp(OSlt, w.term(a, k), w.term(b, k)))
	case kUint:
		return lower(w.tb.Cmp(OUlt, w.term(a, k), w.term(b, k)))
	case kF32, kF64:
		return lower(w.tb.FCmp(OFLt, w.term(a, k), w.term(b, k)))
	case kString:
		x, y := strBytes(a), strBytes(b)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		r := w.tb.Bool(len(x) < len(y))
		bk := kinfo{kUint, 8}
		for i := n - 1; i >= 0; i-- {
			p, q := w.term(x[i], bk), w.term(y[i], bk)
			r = w.tb.Ite(w.tb.Eq(p, q), r, w.tb.Cmp(OUlt, p, q))
		}
		return lower(r)
	}
	panic(unsupported(fmt.Sprintf("less %T", a)))
}

func (g *G) binop(ci *cinstr, a, b any) any {
	w := g.w
	k := ci.k
	if a == nil {
		a = zero(ci.t)
	}
	if b == nil {
		b = zero(ci.t)
	}
	switch ci.tok {
	case token.EQL:
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok {
				return x == y
			}
		}
		return w.eq(g, ci.t, chk(a), chk(b))
	case token.NEQ:
		if x, ok := a.(uint64); ok {
			if y, ok := b.(uint64); ok {
				return x != y
			}
		}
		return w.not(w.eq(g, ci.t, chk(a), chk(b)))
	case token.LSS:
		return g.cmpLess(k, chk(a), chk(b))
	case token.GTR:
		return g.cmpLess(k, chk(b), chk(a))
	case token.LEQ, token.GEQ:
		if ci.tok == token.GEQ {
			a, b = b, a
		}
		chk(a)
		chk(b)
		switch x := a.(type) {
		case float32:
			if y, ok := b.(float32); ok {
				return x <= y
			}
		case float64:
			if y, ok := b.(float64); ok {
				return x <= y
			}
		}
		if k.isFloat() {
			return lower(w.tb.FCmp(OFLe, w.term(a, k), w.term(b, k)))
		}
		return w.not(g.cmpLess(k, b, a))
	}
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return g.intOp(ci, x, y)
		}
	case float32:
		if y, ok := b.(float32); ok {
			switch ci.tok {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			}
		}
	case float64:
		if y, ok := b.(float64); ok {
			switch ci.tok {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			}
		}
	case string:
		if y, ok := b.(string); ok && ci.tok == token.ADD {
			return x + y
		}
	case bool:
		if y, ok := b.(bool); ok {
			switch ci.tok {
			case token.AND, token.LAND:
				return x && y
			case token.OR, token.LOR:
				return x || y
			case token.XOR:
				return x != y
			}
		}
	}
	chk(a)
	chk(b)
	switch {
	case k.k == kString && ci.tok == token.ADD:
		return mkStr(append(append([]any(nil), strBytes(a)...), strBytes(b)...))
	case k.isFloat():
		ta, tb := w.term(a, k), w.term(b, k)
		switch ci.tok {
		case token.ADD:
			return lower(w.tb.FBin(OFAdd, ta, tb))
		case token.SUB:
			return lower(w.tb.FBin(OFSub, ta, tb))
		case token.MUL:
			return lower(w.tb.FBin(OFMul, ta, tb))
		case token.QUO:
			return lower(w.tb.FBin(OFDiv, ta, tb))
		}
	case k.k == kBool:
		ta, tb := w.term(a, k), w.term(b, k)
		switch ci.tok {
		case token.AND, token.LAND:
			return lower(w.tb.And(ta, tb))
		case token.OR, token.LOR:
			return lower(w.tb.Or(ta, tb))
		}
	case k.isInt():
		ta := w.term(a, k)
		if ci.tok == token.SHL || ci.tok == token.SHR {
			ks := ci.x.(kinfo)
			ts := w.term(b, ks)
			// bring the count to the operand width, saturating
			if ts.sort.width() > k.w {
				big := w.tb.Cmp(OUle, w.tb.Const(ts.sort, uint64(k.w)), ts)
				ts = w.tb.Ite(big, w.tb.Const(BV(k.w), uint64(k.w)), w.tb.Extract(ts, 0, k.w))
			} else {
				ts = w.tb.Zext(ts, k.w)
			}
			switch {
			case ci.tok == token.SHL:
				return lower(w.tb.Bin(OShl, ta, ts))
			case k.k == kInt:
				return lower(w.tb.Bin(OAshr, ta, ts))
			default:
				return lower(w.tb.Bin(OLshr, ta, ts))
			}
		}
		tb := w.term(b, k)
		switch ci.tok {
		case token.ADD:
			return lower(w.tb.Bin(OAdd, ta, tb))
		case token.SUB:
			return lower(w.tb.Bin(OSub, ta, tb))
		case token.MUL:
			return lower(w.tb.Bin(OMul, ta, tb))
		case token.AND:
			return lower(w.tb.Bin(OBAnd, ta, tb))
		case token.OR:
			return lower(w.tb.Bin(OBOr, ta, tb))
		case token.XOR:
			return lower(w.tb.Bin(OBXor, ta, tb))
		case token.AND_NOT:
			return lower(w.tb.Bin(OBAnd, ta, w.tb.BNot(tb)))
		case token.QUO, token.REM:
			if w.branch(lower(w.tb.Eq(tb, w.tb.Const(tb.sort, 0)))) {
				g.rtPanic("runtime error: integer divide by zero")
			}
			var op Op
			switch {
			case ci.tok == token.QUO && k.k == kInt:
				op = OSDiv
			case ci.tok == token.QUO:
				op = OUDiv
			case k.k == kInt:
				op = OSRem
			default:
				op = OURem
			}
			return lower(w.tb.Bin(op, ta, tb))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T", ci.tok, a, b)))
}

func (g *G) intOp(ci *cinstr, x, y uint64) any {
	k := ci.k
	m := mask(k.w)
	switch ci.tok {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.QUO, token.REM:
		if y == 0 {
			g.rtPanic("runtime error: integer divide by zero")
		}
		var r uint64
		if k.k == kInt {
			op := OSDiv
			if ci.tok == token.REM {
				op = OSRem
			}
			r, _ = foldBV(op, k.w, x, y)
		} else if ci.tok == token.QUO {
			r = x / y
		} else {
			r = x % y
		}
		return r
	case token.SHL, token.SHR:
		ks := ci.x.(kinfo)
		if ks.k == kInt && sext(y, ks.w) < 0 {
			g.rtPanic("runtime error: negative shift amount")
		}
		if ci.tok == token.SHL {
			if y >= uint64(k.w) {
				return uint64(0)
			}
			return (x << y) & m
		}
		if k.k == kInt {
			if y >= uint64(k.w) {
				y = uint64(k.w - 1)
			}
			return uint64(sext(x, k.w)>>y) & m
		}
		if y >= uint64(k.w) {
			return uint64(0)
		}
		return x >> y
	}
	panic(unsupported("int op " + ci.tok.String()))
}

func (g *G) unop(ci *cinstr, a any) any {
	w := g.w
	a = chk(norm(a, ci.t))
	switch ci.tok {
	case token.NOT:
		return w.not(a)
	case token.SUB:
		switch x := a.(type) {
		case uint64:
			return (-x) & mask(ci.k.w)
		case float32:
			return -x
		case float64:
			return -x
		case *Term:
			if ci.k.isFloat() {
				return lower(w.tb.FNeg(x))
			}
			return lower(w.tb.Neg(x))
		}
	case token.XOR:
		switch x := a.(type) {
		case uint64:
			return (^x) & mask(ci.k.w)
		case *Term:
			return lower(w.tb.BNot(x))
		}
	}
	panic(unsupported(fmt.Sprintf("unop %s on %T", ci.tok, a)))
}

func (g *G) convert(ci *cinstr, a any) any {
	return g.conv(ci.t, ci.t2, a)
}

func (g *G) conv(from, to types.Type, a any) any {
	w := g.w
	kf, kt := kindOf(from), kindOf(to)
	switch {
	case kf.isInt() && kt.isInt():
		switch x := a.(type) {
		case uint64:
			if kf.k == kInt {
				return uint64(sext(x, kf.w)) & mask(kt.w)
			}
			return x & mask(kt.w)
		case *Term:
			if kt.w <= kf.w {
				return lower(w.tb.Extract(x, 0, kt.w))
			}
			if kf.k == kInt {
				return lower(w.tb.Sext(x, kt.w))
			}
			return lower(w.tb.Zext(x, kt.w))
		}
	case kf.isInt() && kt.isFloat():
		switch x := a.(type) {
		case uint64:
			if kt.k == kF32 {
				return math.Float32frombits(uint32(intToF(SF32, kf.k == kInt, kf.w, x)))
			}
			return math.Float64frombits(intToF(SF64, kf.k == kInt, kf.w, x))
		case *Term:
			return lower(w.tb.FFromInt(kt.sort(), kf.k == kInt, x))
		}
	case kf.isFloat() && kt.isInt():
		switch x := a.(type) {
		case float32:
			return fToInt(SF32, kt.k == kInt, kt.w, uint64(math.Float32bits(x)))
		case float64:
			return fToInt(SF64, kt.k == kInt, kt.w, math.Float64bits(x))
		case *Term:
			return lower(w.tb.FToInt(kt.w, kt.k == kInt, x))
		}
	case kf.isFloat() && kt.isFloat():
		switch x := a.(type) {
		case float32:
			if kt.k == kF32 {
				return x
			}
			return float64(x)
		case float64:
			if kt.k == kF64 {
				return x
			}
			return float32(x)
		case *Term:
			return lower(w.tb.FToF(kt.sort(), x))
		}
	case kf.k == kString && kt.k == kString:
		return a
	case kf.k == kString && kt.k == kSlice:
		et := to.Underlying().(*types.Slice).Elem()
		if kindOf(et).w == 8 {
			b := strBytes(a)
			return Slice(append(make([]any, 0, len(b)), b...))
		}
		s, ok := a.(string)
		if !ok {
			s = g.concStr(a)
		}
		var r Slice = make(Slice, 0)
		for _, c := range s {
			r = append(r, uint64(uint32(c)))
		}
		return r
	case kf.k == kSlice && kt.k == kString:
		s := a.(Slice)
		et := from.Underlying().(*types.Slice).Elem()
		if kindOf(et).w == 8 {
			return mkStr(s)
		}
		var r []rune
		for _, c := range s {
			r = append(r, rune(g.concInt(norm(c, et), kinfo{kInt, 32})))
		}
		return string(r)
	case kf.isInt() && kt.k == kString:
		if t, ok := a.(*Term); ok {
			z := w.tb.Zext(t, 64)
			if t.sort.width() == 64 {
				z = t
			}
			if w.branch(lower(w.tb.Cmp(OUlt, z, w.tb.Const(BV(64), 0x80)))) {
				return mkStr([]any{lower(w.tb.Extract(t, 0, 8))})
			}
		}
		n := g.concInt(a, kf)
		if n < 0 || n > utf8.MaxRune {
			n = utf8.RuneError
		}
		return string(rune(n))
	case kf.k == kPtr && kt.k == kPtr:
		return a
	case kf.k == kPtr && kt.isInt():
		// uintptr(unsafe.Pointer(p)): only used for prefetch hints
		return uint64(0xc000000000)
	case kf.k == kSlice && kt.k == kSlice, kf.k == kFunc && kt.k == kFunc, kf.k == kStruct && kt.k == kStruct:
		return a
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, a)))
}

// concStr concretises a symbolic string byte by byte.
func (g *G) concStr(v any) string {
	switch s := v.(type) {
	case string:
		return s
	case nil:
		return ""
	case *SymStr:
		r := make([]byte, len(s.b))
		for i, x := range s.b {
			r[i] = byte(g.concInt(x, kinfo{kUint, 8}))
		}
		return string(r)
	}
	panic(unsupported(fmt.Sprintf("concStr %T", v)))
}
