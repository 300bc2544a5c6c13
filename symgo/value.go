package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Runtime values of the interpreted program.
//
//	bool | *Term                     booleans
//	uint64 (zero-extended) | *Term   integers of every width
//	float32, float64 | *Term         floats
//	string | *SymStr                 strings (symbolic bytes, concrete length)
//	*any                             pointers
//	Struct, Array                    aggregates, copied on load/store
//	Slice                            slices (host aliasing)
//	Iface, *Closure, *Map, *Chan, Tuple
//
// A nil host value in a slot means "zero value of the slot's type".
type (
	Struct []any
	Array  []any
	Slice  []any
	Tuple  []any
	SymStr struct{ b []any }
	Iface  struct {
		T types.Type
		V any
	}
	Closure struct {
		fn     *ssa.Function
		env    []any
		native func(g *G, args []any) any
		bi     *ssa.Builtin
	}
	Poison struct{ why string }
	// SymPtr is the address of an element selected by a symbolic index; only
	// ever produced when all uses are loads.
	SymPtr struct {
		s   []any
		idx *Term
	}
)

type mapEntry struct {
	key  any
	val  any
	dead bool
}
type Map struct {
	idx  map[any]int
	ents []*mapEntry
	live int
	sym  int // live entries with symbolic keys
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

type kkind uint8

const (
	kOther kkind = iota
	kBool
	kInt
	kUint
	kF32
	kF64
	kString
	kPtr
	kIface
	kSlice
	kStruct
	kArray
	kMap
	kFunc
	kChan
	kComplex
	kTuple
)

type kinfo struct {
	k kkind
	w int
}

func (k kinfo) isInt() bool   { return k.k == kInt || k.k == kUint }
func (k kinfo) isFloat() bool { return k.k == kF32 || k.k == kF64 }
func (k kinfo) sort() Sort {
	switch k.k {
	case kBool:
		return SBool
	case kF32:
		return SF32
	case kF64:
		return SF64
	}
	return BV(k.w)
}

func kindOf(t types.Type) kinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kinfo{kBool, 0}
		case types.Int, types.Int64, types.UntypedInt:
			return kinfo{kInt, 64}
		case types.Int32, types.UntypedRune:
			return kinfo{kInt, 32}
		case types.Int16:
			return kinfo{kInt, 16}
		case types.Int8:
			return kinfo{kInt, 8}
		case types.Uint, types.Uint64, types.Uintptr:
			return kinfo{kUint, 64}
		case types.Uint32:
			return kinfo{kUint, 32}
		case types.Uint16:
			return kinfo{kUint, 16}
		case types.Uint8:
			return kinfo{kUint, 8}
		case types.Float32:
			return kinfo{kF32, 32}
		case types.Float64, types.UntypedFloat:
			return kinfo{kF64, 64}
		case types.String, types.UntypedString:
			return kinfo{kString, 0}
		case types.UnsafePointer:
			return kinfo{kPtr, 0}
		case types.Complex64, types.Complex128:
			return kinfo{kComplex, 0}
		case types.UntypedNil:
			return kinfo{kPtr, 0}
		}
	case *types.Pointer:
		return kinfo{kPtr, 0}
	case *types.Interface:
		return kinfo{kIface, 0}
	case *types.Slice:
		return kinfo{kSlice, 0}
	case *types.Struct:
		return kinfo{kStruct, 0}
	case *types.Array:
		return kinfo{kArray, 0}
	case *types.Map:
		return kinfo{kMap, 0}
	case *types.Signature:
		return kinfo{kFunc, 0}
	case *types.Chan:
		return kinfo{kChan, 0}
	case *types.Tuple:
		return kinfo{kTuple, 0}
	}
	return kinfo{kOther, 0}
}

func zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k := kindOf(u); k.k {
		case kBool:
			return false
		case kInt, kUint:
			return uint64(0)
		case kF32:
			return float32(0)
		case kF64:
			return float64(0)
		case kString:
			return ""
		case kPtr:
			return (*any)(nil)
		case kComplex:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*any)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		return make(Struct, u.NumFields())
	case *types.Array:
		return make(Array, u.Len())
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported("zero of " + t.String()))
}

// norm replaces a lazy zero.
func norm(v any, t types.Type) any {
	if v == nil {
		return zero(t)
	}
	return v
}

func copyVal(v any) any {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

func (w *W) undoLen() int { return len(w.trail) }

type trailEnt struct {
	p   *any
	old any
	fn  func()
}

func (w *W) set(p *any, v any) {
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}
func (w *W) undoFn(f func()) {
	if !w.noTrail {
		w.trail = append(w.trail, trailEnt{fn: f})
	}
}

func (w *W) undoAll() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		t := &w.trail[i]
		if t.fn != nil {
			t.fn()
		} else {
			*t.p = t.old
		}
		*t = trailEnt{}
	}
	w.trail = w.trail[:0]
}

// assign stores v into *p, in place for aggregates so that interior pointers
// stay valid.
func (w *W) assign(p *any, v any) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.set(p, copyVal(x))
		return
	case nil:
		// storing a lazy zero over an aggregate must zero it in place
		switch d := (*p).(type) {
		case Struct:
			for i := range d {
				w.assign(&d[i], nil)
			}
			return
		case Array:
			for i := range d {
				w.assign(&d[i], nil)
			}
			return
		}
	}
	w.set(p, v)
}

func load(p *any, t types.Type) any {
	v := *p
	if v == nil {
		return zero(t)
	}
	switch v.(type) {
	case Struct, Array:
		return copyVal(v)
	}
	return v
}

// materialize makes sure *p holds an aggregate of type t.
func materialize(p *any, t types.Type) {
	if *p == nil {
		*p = zero(t)
	}
}

// ---- conversion to terms ----

func (w *W) term(v any, k kinfo) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return w.tb.Bool(x)
	case uint64:
		return w.tb.Const(BV(k.w), x)
	case float32:
		return w.tb.F32(x)
	case float64:
		return w.tb.F64(x)
	case nil:
		switch k.k {
		case kBool:
			return w.tb.F
		case kF32:
			return w.tb.F32(0)
		case kF64:
			return w.tb.F64(0)
		}
		return w.tb.Const(BV(k.w), 0)
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

// lower turns a constant term back into a concrete value.
func lower(t *Term) any {
	if !t.isConst() {
		return t
	}
	switch t.sort {
	case SBool:
		return t.k == 1
	case SF32:
		return math.Float32frombits(uint32(t.k))
	case SF64:
		return math.Float64frombits(t.k)
	}
	return t.k
}

// ---- strings ----

func strLen(v any) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen %T", v)))
}
func strByte(v any, i int) any {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic(unsupported("strByte"))
}
func strBytes(v any) []any {
	switch s := v.(type) {
	case string:
		r := make([]any, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported("strBytes"))
}
func mkStr(b []any) any {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{append([]any(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		if x != nil {
			r[i] = byte(x.(uint64))
		}
	}
	return string(r)
}
func subStr(v any, lo, hi int) any {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic(unsupported("subStr"))
}

// ---- equality ----

func (w *W) and(a, b any) any {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return lower(w.tb.And(a.(*Term), b.(*Term)))
}
func (w *W) not(a any) any {
	if x, ok := a.(bool); ok {
		return !x
	}
	return lower(w.tb.Not(a.(*Term)))
}

// eq compares two values of static type t.
func (w *W) eq(g *G, t types.Type, a, b any) any {
	k := kindOf(t)
	switch k.k {
	case kBool:
		a, b = norm(a, t), norm(b, t)
		x, ok1 := a.(bool)
		y, ok2 := b.(bool)
		if ok1 && ok2 {
			return x == y
		}
		return lower(w.tb.Eq(w.term(a, k), w.term(b, k)))
	case kInt, kUint:
		a, b = norm(a, t), norm(b, t)
		x, ok1 := a.(uint64)
		y, ok2 := b.(uint64)
		if ok1 && ok2 {
			return x == y
		}
		return lower(w.tb.Eq(w.term(a, k), w.term(b, k)))
	case kF32, kF64:
		a, b = norm(a, t), norm(b, t)
		switch x := a.(type) {
		case float32:
			if y, ok := b.(float32); ok {
				return x == y
			}
		case float64:
			if y, ok := b.(float64); ok {
				return x == y
			}
		}
		return lower(w.tb.FCmp(OFEq, w.term(a, k), w.term(b, k)))
	case kString:
		a, b = norm(a, t), norm(b, t)
		return w.strEq(a, b)
	case kPtr:
		a, b = norm(a, t), norm(b, t)
		pa, ok1 := a.(*any)
		pb, ok2 := b.(*any)
		if ok1 && ok2 {
			return pa == pb
		}
		return a == b
	case kIface:
		x := norm(a, t).(Iface)
		y := norm(b, t).(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !identical(x.T, y.T) {
			return false
		}
		switch kindOf(x.T).k {
		case kSlice, kMap, kFunc:
			g.rtPanic("runtime error: comparing uncomparable type " + x.T.String())
		}
		return w.eq(g, x.T, x.V, y.V)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		x := norm(a, t).(Struct)
		y := norm(b, t).(Struct)
		var r any = true
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.and(r, w.eq(g, st.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case kArray:
		at := t.Underlying().(*types.Array)
		x := norm(a, t).(Array)
		y := norm(b, t).(Array)
		var r any = true
		for i := range x {
			r = w.and(r, w.eq(g, at.Elem(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case kMap:
		x, _ := a.(*Map)
		y, _ := b.(*Map)
		return x == y
	case kFunc:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == y
	case kChan:
		x, _ := a.(*Chan)
		y, _ := b.(*Chan)
		return x == y
	case kSlice:
		x, _ := a.(Slice)
		y, _ := b.(Slice)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
	}
	panic(unsupported("eq on " + t.String()))
}

func (w *W) strEq(a, b any) any {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	k := kinfo{kUint, 8}
	r := w.tb.T
	for i := range x {
		r = w.tb.And(r, w.tb.Eq(w.term(x[i], k), w.term(y[i], k)))
	}
	return lower(r)
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// ---- maps ----

// hashKey gives a host-comparable key, or ok=false when the key is symbolic.
func (w *W) hashKey(t types.Type, v any) (any, bool) {
	switch x := v.(type) {
	case nil:
		return w.hashKey(t, zero(t))
	case bool, uint64, string, *any:
		return x, true
	case float32:
		if x != x {
			return nil, false
		}
		if x == 0 {
			x = 0
		}
		return x, true
	case float64:
		if x != x {
			return nil, false
		}
		return x, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case *Chan:
		return x, true
	case Iface:
		if x.T == nil {
			return "nil-iface", true
		}
		h, ok := w.hashKey(x.T, x.V)
		if !ok {
			return nil, false
		}
		return [2]any{types.TypeString(x.T, nil), h}, true
	case Struct:
		st := t.Underlying().(*types.Struct)
		var sb strings.Builder
		for i, e := range x {
			h, ok := w.hashKey(st.Field(i).Type(), e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", h)
		}
		return "S" + sb.String(), true
	case Array:
		at := t.Underlying().(*types.Array)
		var sb strings.Builder
		for _, e := range x {
			h, ok := w.hashKey(at.Elem(), e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", h)
		}
		return "A" + sb.String(), true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (w *W) mapFind(g *G, m *Map, kt types.Type, key any) *mapEntry {
	if m == nil {
		return nil
	}
	h, conc := w.hashKey(kt, key)
	if conc {
		if i, ok := m.idx[h]; ok {
			return m.ents[i]
		}
		if m.sym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := w.hashKey(kt, e.key); c {
				continue
			}
			if w.branch(w.eq(g, kt, e.key, key)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.branch(w.eq(g, kt, e.key, key)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(g *G, m *Map, kt types.Type, key, val any) {
	if e := w.mapFind(g, m, kt, key); e != nil {
		w.set(&e.val, copyVal(val))
		return
	}
	h, conc := w.hashKey(kt, key)
	e := &mapEntry{key: copyVal(key), val: copyVal(val)}
	n := len(m.ents)
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[h] = n
	} else {
		m.sym++
	}
	w.undoFn(func() {
		m.ents = m.ents[:n]
		m.live--
		if conc {
			delete(m.idx, h)
		} else {
			m.sym--
		}
	})
}

func (w *W) mapDelete(g *G, m *Map, kt types.Type, key any) {
	e := w.mapFind(g, m, kt, key)
	if e == nil {
		return
	}
	h, conc := w.hashKey(kt, e.key)
	var i int
	if conc {
		i = m.idx[h]
		delete(m.idx, h)
	} else {
		m.sym--
	}
	e.dead = true
	m.live--
	w.undoFn(func() {
		e.dead = false
		m.live++
		if conc {
			m.idx[h] = i
		} else {
			m.sym++
		}
	})
}
