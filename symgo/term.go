package main

// SMT terms: hash-consed, constant-folded. Sorts: Bool, bit-vectors up to 64
// bits, IEEE float32 and float64. Every free variable is a Bool or a
// bit-vector; symbolic floats are (to_fp bv) so that models are read back as
// bits and comparisons can be encoded as pure bit-vector formulas.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Sort uint8 // 0 = Bool, 1..64 = BV, 132 = F32, 164 = F64

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func BV(w int) Sort { return Sort(w) }

func (s Sort) isBV() bool { return s >= 1 && s <= 64 }
func (s Sort) isFP() bool { return s >= 100 }
func (s Sort) width() int {
	if s.isFP() {
		return int(s) - 100
	}
	return int(s)
}
func (s Sort) String() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	case s == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // k = lo ; sort gives width
	OZext
	OSext
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFNeg
	OFAbs
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFFromBits // BV -> FP
	OFToBits   // FP -> BV (z3 fp.to_ieee_bv)
	OFFromS    // signed BV -> FP
	OFFromU
	OFToS // FP -> signed BV (RTZ)
	OFToU
	OFToF   // FP -> FP
	OFRound // k: 0 floor 1 ceil 2 trunc
	OUF     // uninterpreted function, name
)

type Term struct {
	op   Op
	sort Sort
	fp   bool // contains FP arithmetic (needs the FP theory)
	id   int
	k    uint64
	name string
	a    []*Term
}

type tkey struct {
	op         Op
	sort       Sort
	k          uint64
	name       string
	a0, a1, a2 int
}

type TB struct { // term builder, one per worker
	tab  map[tkey]*Term
	next int
	vars []*Term
	T, F *Term
	ufs  map[string]string // uf name -> declaration
}

func NewTB() *TB {
	b := &TB{tab: map[tkey]*Term{}, ufs: map[string]string{}}
	b.T = b.mk(OConst, SBool, 1, "")
	b.F = b.mk(OConst, SBool, 0, "")
	return b
}

func (b *TB) mk(op Op, s Sort, k uint64, name string, a ...*Term) *Term {
	key := tkey{op: op, sort: s, k: k, name: name, a0: -1, a1: -1, a2: -1}
	fp := false
	for i, x := range a {
		fp = fp || x.fp
		switch i {
		case 0:
			key.a0 = x.id
		case 1:
			key.a1 = x.id
		case 2:
			key.a2 = x.id
		}
	}
	if t, ok := b.tab[key]; ok {
		return t
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFToBits, OFFromS, OFFromU, OFToS, OFToU, OFToF, OFRound:
		fp = true
	}
	t := &Term{op: op, sort: s, k: k, name: name, a: append([]*Term(nil), a...), id: b.next, fp: fp}
	b.next++
	b.tab[key] = t
	if op == OVar {
		b.vars = append(b.vars, t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *TB) Const(s Sort, v uint64) *Term {
	if s == SBool {
		return b.Bool(v != 0)
	}
	return b.mk(OConst, s, v&mask(s.width()), "")
}
func (b *TB) Var(s Sort, name string) *Term { return b.mk(OVar, s, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.k == 0 }

func (b *TB) Not(x *Term) *Term {
	if x.isConst() {
		return b.Bool(x.k == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return b.mk(ONot, SBool, 0, "", x)
}
func (b *TB) And(x, y *Term) *Term {
	switch {
	case x.isFalse() || y.isFalse():
		return b.F
	case x.isTrue():
		return y
	case y.isTrue(), x == y:
		return x
	}
	if b.Not(x) == y {
		return b.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, SBool, 0, "", x, y)
}
func (b *TB) Or(x, y *Term) *Term {
	switch {
	case x.isTrue() || y.isTrue():
		return b.T
	case x.isFalse():
		return y
	case y.isFalse(), x == y:
		return x
	}
	if b.Not(x) == y {
		return b.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OOr, SBool, 0, "", x, y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() || x == y {
		return y
	}
	if x.sort == SBool {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.a[0], y, x)
	}
	return b.mk(OIte, x.sort, 0, "", c, x, y)
}

// Eq is structural (bit) equality for BV/Bool; use FEq for IEEE equality.
func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.k == y.k)
	}
	if x.sort == SBool {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && x.sort.isBV() {
		// zext(t) == c
		if x.op == OZext {
			in := x.a[0]
			if y.k>>uint(in.sort.width()) != 0 {
				return b.F
			}
			return b.Eq(in, b.Const(in.sort, y.k))
		}
		if x.op == OSext {
			in := x.a[0]
			w := in.sort.width()
			if uint64(sext(y.k&mask(w), w))&mask(x.sort.width()) != y.k {
				return b.F
			}
			return b.Eq(in, b.Const(in.sort, y.k))
		}
		if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
			t, f := x.a[1].k == y.k, x.a[2].k == y.k
			switch {
			case t && f:
				return b.T
			case t:
				return x.a[0]
			case f:
				return b.Not(x.a[0])
			default:
				return b.F
			}
		}
		if x.op == OAdd && x.a[1].isConst() {
			return b.Eq(x.a[0], b.Const(x.sort, y.k-x.a[1].k))
		}
	}
	if !x.isConst() && !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, SBool, 0, "", x, y)
}

func foldBV(op Op, w int, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, c := sext(x, w), sext(y, w)
		if c == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if c == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/c) & m, true
	case OSRem:
		a, c := sext(x, w), sext(y, w)
		if c == 0 {
			return x, true
		}
		if c == -1 {
			return 0, true
		}
		return uint64(a%c) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sext(x, w)>>y) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	}
	return 0, false
}

func (b *TB) Bin(op Op, x, y *Term) *Term {
	w := x.sort.width()
	if x.isConst() && y.isConst() {
		if v, ok := foldBV(op, w, x.k, y.k); ok {
			return b.Const(x.sort, v)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OAdd, OSub, OShl, OLshr, OAshr, OBOr, OBXor:
			if y.k == 0 {
				return x
			}
		case OMul:
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
		case OBAnd:
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
		case OUDiv:
			if y.k == 1 {
				return x
			}
			if y.k != 0 && bits.OnesCount64(y.k) == 1 {
				return b.Bin(OLshr, x, b.Const(x.sort, uint64(bits.TrailingZeros64(y.k))))
			}
		case OURem:
			if y.k != 0 && bits.OnesCount64(y.k) == 1 {
				return b.Bin(OBAnd, x, b.Const(x.sort, y.k-1))
			}
		}
		if op == OSub {
			return b.Bin(OAdd, x, b.Const(x.sort, -y.k))
		}
		if op == OAdd && x.op == OAdd && x.a[1].isConst() {
			return b.Bin(OAdd, x.a[0], b.Const(x.sort, y.k+x.a[1].k))
		}
		if (op == OShl || op == OLshr) && y.k >= uint64(w) {
			return b.Const(x.sort, 0)
		}
	}
	if x == y {
		switch op {
		case OSub, OBXor:
			return b.Const(x.sort, 0)
		case OBAnd, OBOr:
			return x
		}
	}
	if x.isConst() && x.k == 0 && (op == OShl || op == OLshr || op == OAshr) {
		return x
	}
	return b.mk(op, x.sort, 0, "", x, y)
}

func (b *TB) BNot(x *Term) *Term {
	if x.isConst() {
		return b.Const(x.sort, ^x.k)
	}
	return b.mk(OBNot, x.sort, 0, "", x)
}
func (b *TB) Neg(x *Term) *Term {
	if x.isConst() {
		return b.Const(x.sort, -x.k)
	}
	return b.mk(ONeg, x.sort, 0, "", x)
}

// urange gives a cheap unsigned range.
func urange(t *Term) (lo, hi uint64) {
	m := mask(t.sort.width())
	switch t.op {
	case OConst:
		return t.k, t.k
	case OZext:
		return urange(t.a[0])
	case OBAnd:
		_, h0 := urange(t.a[0])
		_, h1 := urange(t.a[1])
		if h1 < h0 {
			h0 = h1
		}
		return 0, h0
	case OIte:
		l1, h1 := urange(t.a[1])
		l2, h2 := urange(t.a[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OLshr:
		if t.a[1].isConst() {
			l, h := urange(t.a[0])
			return l >> t.a[1].k, h >> t.a[1].k
		}
	}
	return 0, m
}

func (b *TB) Cmp(op Op, x, y *Term) *Term {
	w := x.sort.width()
	if x.isConst() && y.isConst() {
		switch op {
		case OUlt:
			return b.Bool(x.k < y.k)
		case OUle:
			return b.Bool(x.k <= y.k)
		case OSlt:
			return b.Bool(sext(x.k, w) < sext(y.k, w))
		case OSle:
			return b.Bool(sext(x.k, w) <= sext(y.k, w))
		}
	}
	if x == y {
		return b.Bool(op == OUle || op == OSle)
	}
	lx, hx := urange(x)
	ly, hy := urange(y)
	if op == OSlt || op == OSle {
		half := mask(w) >> 1
		if hx <= half && hy <= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
	}
	switch op {
	case OUlt:
		if hx < ly {
			return b.T
		}
		if lx >= hy {
			return b.F
		}
	case OUle:
		if hx <= ly {
			return b.T
		}
		if lx > hy {
			return b.F
		}
	case OSlt, OSle:
		half := mask(w) >> 1
		if hx <= half && y.isConst() && y.k > half { // x >= 0 > y
			return b.F
		}
		if hy <= half && x.isConst() && x.k > half { // x < 0 <= y
			return b.T
		}
	}
	return b.mk(op, SBool, 0, "", x, y)
}

func (b *TB) Extract(x *Term, lo, w int) *Term {
	if lo == 0 && w == x.sort.width() {
		return x
	}
	if x.isConst() {
		return b.Const(BV(w), x.k>>uint(lo))
	}
	if (x.op == OZext || x.op == OSext) && lo == 0 {
		in := x.a[0]
		if w <= in.sort.width() {
			return b.Extract(in, 0, w)
		}
		if x.op == OZext {
			return b.Zext(in, w)
		}
		return b.Sext(in, w)
	}
	if x.op == OZext && lo >= x.a[0].sort.width() {
		return b.Const(BV(w), 0)
	}
	if x.op == OExtract {
		return b.Extract(x.a[0], int(x.k)+lo, w)
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.Extract(x.a[1], lo, w), b.Extract(x.a[2], lo, w))
	}
	if lo == 0 && (x.op == OBOr || x.op == OBAnd || x.op == OBXor || x.op == OAdd) {
		return b.Bin(x.op, b.Extract(x.a[0], 0, w), b.Extract(x.a[1], 0, w))
	}
	if x.op == OLshr && x.a[1].isConst() && int(x.a[1].k)+lo+w <= x.sort.width() {
		return b.Extract(x.a[0], lo+int(x.a[1].k), w)
	}
	if x.op == OShl && x.a[1].isConst() {
		s := int(x.a[1].k)
		if lo >= s {
			return b.Extract(x.a[0], lo-s, w)
		}
		if lo+w <= s {
			return b.Const(BV(w), 0)
		}
	}
	if x.op == OBOr || x.op == OBAnd || x.op == OBXor {
		return b.Bin(x.op, b.Extract(x.a[0], lo, w), b.Extract(x.a[1], lo, w))
	}
	return b.mk(OExtract, BV(w), uint64(lo), "", x)
}
func (b *TB) Zext(x *Term, w int) *Term {
	if w == x.sort.width() {
		return x
	}
	if x.isConst() {
		return b.Const(BV(w), x.k)
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	return b.mk(OZext, BV(w), 0, "", x)
}
func (b *TB) Sext(x *Term, w int) *Term {
	if w == x.sort.width() {
		return x
	}
	if x.isConst() {
		return b.Const(BV(w), uint64(sext(x.k, x.sort.width())))
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	return b.mk(OSext, BV(w), 0, "", x)
}

// ---- floating point ----

func fpBits(s Sort, f float64) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fpVal(s Sort, k uint64) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func (b *TB) F32(f float32) *Term { return b.mk(OConst, SF32, uint64(math.Float32bits(f)), "") }
func (b *TB) F64(f float64) *Term { return b.mk(OConst, SF64, math.Float64bits(f), "") }

func foldF(op Op, s Sort, x, y uint64) uint64 {
	if s == SF32 {
		p, q := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		}
		return uint64(math.Float32bits(r))
	}
	p, q := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = p + q
	case OFSub:
		r = p - q
	case OFMul:
		r = p * q
	case OFDiv:
		r = p / q
	}
	return math.Float64bits(r)
}

func (b *TB) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.mk(OConst, x.sort, foldF(op, x.sort, x.k, y.k), "")
	}
	if x.op == OIte && y.isConst() && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.FBin(op, x.a[1], y), b.FBin(op, x.a[2], y))
	}
	return b.mk(op, x.sort, 0, "", x, y)
}

// bitsOf returns the IEEE bits of t as a BV term when available without FP theory.
func (b *TB) bitsOf(t *Term) *Term {
	w := BV(t.sort.width())
	switch t.op {
	case OConst:
		return b.Const(w, t.k)
	case OFFromBits:
		return t.a[0]
	case OIte:
		x, y := b.bitsOf(t.a[1]), b.bitsOf(t.a[2])
		if x != nil && y != nil {
			return b.Ite(t.a[0], x, y)
		}
	case OFNeg:
		if x := b.bitsOf(t.a[0]); x != nil {
			return b.Bin(OBXor, x, b.Const(w, uint64(1)<<uint(t.sort.width()-1)))
		}
	case OFAbs:
		if x := b.bitsOf(t.a[0]); x != nil {
			return b.Bin(OBAnd, x, b.Const(w, mask(t.sort.width())>>1))
		}
	}
	return nil
}
func (b *TB) expMask(s Sort) uint64 {
	if s == SF32 {
		return 0x7f800000
	}
	return 0x7ff0000000000000
}

func (b *TB) FIsNaN(x *Term) *Term {
	if x.isConst() {
		return b.Bool(math.IsNaN(fpVal(x.sort, x.k)))
	}
	if v := b.bitsOf(x); v != nil {
		mag := b.Bin(OBAnd, v, b.Const(v.sort, mask(x.sort.width())>>1))
		return b.Cmp(OUlt, b.Const(v.sort, b.expMask(x.sort)), mag)
	}
	return b.mk(OFIsNaN, SBool, 0, "", x)
}
func (b *TB) FIsInf(x *Term) *Term {
	if x.isConst() {
		return b.Bool(math.IsInf(fpVal(x.sort, x.k), 0))
	}
	if v := b.bitsOf(x); v != nil {
		mag := b.Bin(OBAnd, v, b.Const(v.sort, mask(x.sort.width())>>1))
		return b.Eq(b.Const(v.sort, b.expMask(x.sort)), mag)
	}
	return b.mk(OFIsInf, SBool, 0, "", x)
}

// order maps non-NaN bits to an unsigned key preserving IEEE order with -0 == +0.
func (b *TB) fkey(v *Term) *Term {
	w := v.sort.width()
	sign := b.Const(v.sort, uint64(1)<<uint(w-1))
	mag := b.Bin(OBAnd, v, b.Const(v.sort, mask(w)>>1))
	neg := b.Cmp(OUle, sign, v)
	// positive: sign + mag ; negative: sign - mag
	return b.Ite(neg, b.Bin(OSub, sign, mag), b.Bin(OAdd, sign, mag))
}

func (b *TB) FCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		p, q := fpVal(x.sort, x.k), fpVal(y.sort, y.k)
		switch op {
		case OFEq:
			return b.Bool(p == q)
		case OFLt:
			return b.Bool(p < q)
		case OFLe:
			return b.Bool(p <= q)
		}
	}
	vx, vy := b.bitsOf(x), b.bitsOf(y)
	if vx != nil && vy != nil {
		nn := b.And(b.Not(b.FIsNaN(x)), b.Not(b.FIsNaN(y)))
		if nn.isFalse() {
			return b.F
		}
		kx, ky := b.fkey(vx), b.fkey(vy)
		switch op {
		case OFEq:
			return b.And(nn, b.Eq(kx, ky))
		case OFLt:
			return b.And(nn, b.Cmp(OUlt, kx, ky))
		case OFLe:
			return b.And(nn, b.Cmp(OUle, kx, ky))
		}
	}
	return b.mk(op, SBool, 0, "", x, y)
}
func (b *TB) FNeg(x *Term) *Term {
	if x.isConst() {
		return b.mk(OConst, x.sort, x.k^(uint64(1)<<uint(x.sort.width()-1)), "")
	}
	if v := b.bitsOf(x); v != nil {
		return b.FFromBits(x.sort, b.Bin(OBXor, v, b.Const(v.sort, uint64(1)<<uint(x.sort.width()-1))))
	}
	return b.mk(OFNeg, x.sort, 0, "", x)
}
func (b *TB) FAbs(x *Term) *Term {
	if x.isConst() {
		return b.mk(OConst, x.sort, x.k&(mask(x.sort.width())>>1), "")
	}
	if v := b.bitsOf(x); v != nil {
		return b.FFromBits(x.sort, b.Bin(OBAnd, v, b.Const(v.sort, mask(x.sort.width())>>1)))
	}
	return b.mk(OFAbs, x.sort, 0, "", x)
}
func (b *TB) FFromBits(s Sort, v *Term) *Term {
	if v.isConst() {
		return b.mk(OConst, s, v.k, "")
	}
	if v.op == OFToBits {
		return v.a[0]
	}
	return b.mk(OFFromBits, s, 0, "", v)
}
func (b *TB) FToBits(x *Term) *Term {
	if v := b.bitsOf(x); v != nil {
		return v
	}
	return b.mk(OFToBits, BV(x.sort.width()), 0, "", x)
}
func (b *TB) FSqrt(x *Term) *Term {
	if x.isConst() {
		return b.mk(OConst, x.sort, fpBits(x.sort, math.Sqrt(fpVal(x.sort, x.k))), "")
	}
	return b.mk(OFSqrt, x.sort, 0, "", x)
}
func (b *TB) FRound(mode uint64, x *Term) *Term {
	if x.isConst() {
		f := fpVal(x.sort, x.k)
		switch mode {
		case 0:
			f = math.Floor(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Trunc(f)
		}
		return b.mk(OConst, x.sort, fpBits(x.sort, f), "")
	}
	return b.mk(OFRound, x.sort, mode, "", x)
}
func (b *TB) FToF(s Sort, x *Term) *Term {
	if s == x.sort {
		return x
	}
	if x.isConst() {
		return b.mk(OConst, s, fpBits(s, fpVal(x.sort, x.k)), "")
	}
	if x.op == OFToF && s == SF32 && x.a[0].sort == SF32 {
		return x.a[0]
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.FToF(s, x.a[1]), b.FToF(s, x.a[2]))
	}
	return b.mk(OFToF, s, 0, "", x)
}
func (b *TB) FFromInt(s Sort, signed bool, x *Term) *Term {
	if x.isConst() {
		return b.mk(OConst, s, intToF(s, signed, x.sort.width(), x.k), "")
	}
	if x.op == OZext && signed {
		return b.FFromInt(s, false, x.a[0])
	}
	if x.op == OZext || x.op == OSext && signed {
		return b.FFromInt(s, signed, x.a[0])
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return b.Ite(x.a[0], b.FFromInt(s, signed, x.a[1]), b.FFromInt(s, signed, x.a[2]))
	}
	if signed {
		return b.mk(OFFromS, s, 0, "", x)
	}
	return b.mk(OFFromU, s, 0, "", x)
}
func intToF(s Sort, signed bool, w int, k uint64) uint64 {
	if s == SF32 {
		if signed {
			return uint64(math.Float32bits(float32(sext(k, w))))
		}
		return uint64(math.Float32bits(float32(k)))
	}
	if signed {
		return math.Float64bits(float64(sext(k, w)))
	}
	return math.Float64bits(float64(k))
}
func fToInt(s Sort, signed bool, w int, k uint64) uint64 {
	f := fpVal(s, k)
	if signed {
		switch w {
		case 64:
			return uint64(int64(f))
		case 32:
			return uint64(uint32(int32(f)))
		case 16:
			return uint64(uint16(int16(f)))
		default:
			return uint64(uint8(int8(f)))
		}
	}
	return uint64(f) & mask(w)
}
func (b *TB) FToInt(w int, signed bool, x *Term) *Term {
	if x.isConst() {
		return b.Const(BV(w), fToInt(x.sort, signed, w, x.k))
	}
	if signed {
		return b.mk(OFToS, BV(w), 0, "", x)
	}
	return b.mk(OFToU, BV(w), 0, "", x)
}

// ---- printing ----

func (t *Term) ref(sb *strings.Builder) {
	switch t.op {
	case OConst:
		switch {
		case t.sort == SBool:
			if t.k == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		case t.sort == SF32:
			fmt.Fprintf(sb, "((_ to_fp 8 24) #x%08x)", t.k)
		case t.sort == SF64:
			fmt.Fprintf(sb, "((_ to_fp 11 53) #x%016x)", t.k)
		default:
			fmt.Fprintf(sb, "(_ bv%d %d)", t.k, t.sort.width())
		}
	case OVar:
		sb.WriteString("|" + t.name + "|")
	default:
		fmt.Fprintf(sb, "t%d", t.id)
	}
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult",
	OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE",
	OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFEq: "fp.eq",
	OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFToBits: "fp.to_ieee_bv"}

func (t *Term) body(sb *strings.Builder) {
	toFP := "(_ to_fp 8 24)"
	toFPU := "(_ to_fp_unsigned 8 24)"
	if t.sort == SF64 {
		toFP, toFPU = "(_ to_fp 11 53)", "(_ to_fp_unsigned 11 53)"
	}
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "(_ extract %d %d)", int(t.k)+t.sort.width()-1, t.k)
	case OZext:
		fmt.Fprintf(sb, "(_ zero_extend %d)", t.sort.width()-t.a[0].sort.width())
	case OSext:
		fmt.Fprintf(sb, "(_ sign_extend %d)", t.sort.width()-t.a[0].sort.width())
	case OFFromBits:
		sb.WriteString(toFP)
	case OFFromS, OFToF:
		sb.WriteString(toFP + " RNE")
	case OFFromU:
		sb.WriteString(toFPU + " RNE")
	case OFToS:
		fmt.Fprintf(sb, "(_ fp.to_sbv %d) RTZ", t.sort.width())
	case OFToU:
		fmt.Fprintf(sb, "(_ fp.to_ubv %d) RTZ", t.sort.width())
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ"}[t.k])
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range t.a {
		sb.WriteByte(' ')
		x.ref(sb)
	}
	sb.WriteByte(')')
}

// ---- evaluation under a model ----

type Model map[string]uint64 // missing variables are 0

type Evaluator struct {
	m    Model
	memo map[int]uint64
}

func NewEval(m Model) *Evaluator { return &Evaluator{m: m, memo: map[int]uint64{}} }

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return e.m[t.name]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	w := t.sort.width()
	switch t.op {
	case ONot:
		r = 1 - e.Eval(t.a[0])
	case OAnd:
		r = e.Eval(t.a[0])
		if r == 1 {
			r = e.Eval(t.a[1])
		}
	case OOr:
		r = e.Eval(t.a[0])
		if r == 0 {
			r = e.Eval(t.a[1])
		}
	case OIte:
		if e.Eval(t.a[0]) == 1 {
			r = e.Eval(t.a[1])
		} else {
			r = e.Eval(t.a[2])
		}
	case OEq:
		r = b2u(e.Eval(t.a[0]) == e.Eval(t.a[1]))
	case OBNot:
		r = ^e.Eval(t.a[0]) & mask(w)
	case ONeg:
		r = -e.Eval(t.a[0]) & mask(w)
	case OUlt:
		r = b2u(e.Eval(t.a[0]) < e.Eval(t.a[1]))
	case OUle:
		r = b2u(e.Eval(t.a[0]) <= e.Eval(t.a[1]))
	case OSlt:
		aw := t.a[0].sort.width()
		r = b2u(sext(e.Eval(t.a[0]), aw) < sext(e.Eval(t.a[1]), aw))
	case OSle:
		aw := t.a[0].sort.width()
		r = b2u(sext(e.Eval(t.a[0]), aw) <= sext(e.Eval(t.a[1]), aw))
	case OExtract:
		r = (e.Eval(t.a[0]) >> t.k) & mask(w)
	case OZext:
		r = e.Eval(t.a[0])
	case OSext:
		r = uint64(sext(e.Eval(t.a[0]), t.a[0].sort.width())) & mask(w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = foldF(t.op, t.sort, e.Eval(t.a[0]), e.Eval(t.a[1]))
	case OFSqrt:
		r = fpBits(t.sort, math.Sqrt(fpVal(t.sort, e.Eval(t.a[0]))))
	case OFNeg:
		r = e.Eval(t.a[0]) ^ (uint64(1) << uint(w-1))
	case OFAbs:
		r = e.Eval(t.a[0]) & (mask(w) >> 1)
	case OFEq, OFLt, OFLe:
		s := t.a[0].sort
		p, q := fpVal(s, e.Eval(t.a[0])), fpVal(s, e.Eval(t.a[1]))
		switch t.op {
		case OFEq:
			r = b2u(p == q)
		case OFLt:
			r = b2u(p < q)
		default:
			r = b2u(p <= q)
		}
	case OFIsNaN:
		r = b2u(math.IsNaN(fpVal(t.a[0].sort, e.Eval(t.a[0]))))
	case OFIsInf:
		r = b2u(math.IsInf(fpVal(t.a[0].sort, e.Eval(t.a[0])), 0))
	case OFFromBits, OFToBits:
		r = e.Eval(t.a[0])
	case OFFromS:
		r = intToF(t.sort, true, t.a[0].sort.width(), e.Eval(t.a[0]))
	case OFFromU:
		r = intToF(t.sort, false, t.a[0].sort.width(), e.Eval(t.a[0]))
	case OFToS:
		r = fToInt(t.a[0].sort, true, w, e.Eval(t.a[0]))
	case OFToU:
		r = fToInt(t.a[0].sort, false, w, e.Eval(t.a[0]))
	case OFToF:
		r = fpBits(t.sort, fpVal(t.a[0].sort, e.Eval(t.a[0])))
	case OFRound:
		f := fpVal(t.sort, e.Eval(t.a[0]))
		switch t.k {
		case 0:
			f = math.Floor(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Trunc(f)
		}
		r = fpBits(t.sort, f)
	default:
		var ok bool
		r, ok = foldBV(t.op, w, e.Eval(t.a[0]), e.Eval(t.a[1]))
		if !ok {
			panic(fmt.Sprintf("eval op %d", t.op))
		}
	}
	e.memo[t.id] = r
	return r
}
