package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// A model of encoding/json. Concrete leaves go through the host's
// encoding/json; symbolic leaves travel through the encoded text as markers
// that decode back to the same term. (The marker text is longer or shorter
// than the real text; nothing in the checked code depends on its length.)

type symLeaf struct {
	v any
	k kinfo
}

const symMark = "\x00sym:"

var jsonErrType = fmtErrType

type jerr struct{ msg string }

func (w *W) putSym(v any, k kinfo) string {
	w.symtab = append(w.symtab, symLeaf{v, k})
	return fmt.Sprintf("%s%d", symMark, len(w.symtab)-1)
}

func (w *W) getSym(s string) (symLeaf, bool) {
	if !strings.HasPrefix(s, symMark) {
		return symLeaf{}, false
	}
	n, err := strconv.Atoi(s[len(symMark):])
	if err != nil || n >= len(w.symtab) {
		return symLeaf{}, false
	}
	return w.symtab[n].(symLeaf), true
}

func (g *G) methodOf(t types.Type, name string, np, nr int) func(recv any, args ...any) any {
	f := g.w.p.methodByName(t, nil, name)
	if f == nil || f.Signature.Params().Len() != np || f.Signature.Results().Len() != nr {
		return nil
	}
	return func(recv any, args ...any) any {
		return g.call(f, append([]any{recv}, args...), nil, g.callerFr)
	}
}

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omitempty bool
	str       bool
	tagged    bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	seen := map[string]int{}
	var walk func(st *types.Struct, path []int, depth int)
	type lvl struct {
		st   *types.Struct
		path []int
	}
	walk = func(st *types.Struct, path []int, depth int) {
		var emb []lvl
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			p := append(append([]int(nil), path...), i)
			if f.Anonymous() && name == "" {
				ft := f.Type()
				if s, ok := ft.Underlying().(*types.Struct); ok {
					emb = append(emb, lvl{s, p})
					continue
				}
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
						panic(unsupported("json: embedded pointer"))
					}
				}
			}
			if !f.Exported() {
				continue
			}
			tagged := name != ""
			if name == "" {
				name = f.Name()
			}
			if j, dup := seen[name]; dup {
				_ = j
				continue
			}
			seen[name] = len(out)
			out = append(out, jfield{name: name, path: p, t: f.Type(), omitempty: hasOpt(opts, "omitempty"), str: hasOpt(opts, "string"), tagged: tagged})
		}
		for _, e := range emb {
			walk(e.st, e.path, depth+1)
		}
	}
	walk(st, nil, 0)
	return out
}

func hasOpt(opts, o string) bool {
	for _, x := range strings.Split(opts, ",") {
		if x == o {
			return true
		}
	}
	return false
}

func (g *G) jsonEmpty(v any, t types.Type) bool {
	v = norm(v, t)
	k := kindOf(t)
	switch x := v.(type) {
	case *Term:
		return g.w.branch(g.w.eq(g, t, v, zero(t)))
	case bool:
		return !x
	case uint64:
		return x == 0
	case float32:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return false
	case Slice:
		return len(x) == 0
	case *Map:
		return x == nil || x.live == 0
	case *any:
		return x == nil
	case Iface:
		return x.T == nil
	case Array:
		return len(x) == 0
	}
	_ = k
	return false
}

// jenc appends the encoding of v; it panics with jerr on encoding errors.
func (g *G) jenc(b *bytes.Buffer, v any, t types.Type, addr *any) {
	w := g.w
	k := kindOf(t)
	if k.k == kIface {
		x := ifaceOf(v)
		if x.T == nil {
			b.WriteString("null")
			return
		}
		g.jenc(b, x.V, x.T, nil)
		return
	}
	if t == fmtErrType || t == rtErrType {
		b.WriteString("{}")
		return
	}
	v = norm(v, t)
	if po, ok := v.(Poison); ok {
		panic(unsupported("json of poisoned value: " + po.why))
	}
	ptrNil := false
	if p, ok := v.(*any); ok && p == nil {
		ptrNil = true
	}
	if !ptrNil && types.TypeString(t, nil) != "encoding/json.Number" {
		mt := t
		recv := copyVal(v)
		m := g.methodOf(mt, "MarshalJSON", 0, 2)
		if m == nil && addr != nil && k.k != kPtr {
			mt = types.NewPointer(t)
			if m = g.methodOf(mt, "MarshalJSON", 0, 2); m != nil {
				recv = addr
			}
		}
		if m != nil {
			r := m(recv).(Tuple)
			if e := ifaceOf(r[1]); e.T != nil {
				panic(jerr{"json: error calling MarshalJSON: " + safeFmt(g, e)})
			}
			s, ok := mkStr(r[0].(Slice)).(string)
			if !ok {
				panic(unsupported("symbolic MarshalJSON output"))
			}
			if !json.Valid([]byte(s)) {
				panic(jerr{"json: error calling MarshalJSON: invalid output"})
			}
			b.WriteString(s)
			return
		}
		if m := g.methodOf(t, "MarshalText", 0, 2); m != nil {
			r := m(copyVal(v)).(Tuple)
			if e := ifaceOf(r[1]); e.T != nil {
				panic(jerr{"json: error calling MarshalText: " + safeFmt(g, e)})
			}
			s, ok := mkStr(r[0].(Slice)).(string)
			if !ok {
				panic(unsupported("symbolic MarshalText output"))
			}
			hs, _ := json.Marshal(s)
			b.Write(hs)
			return
		}
	}
	switch k.k {
	case kBool, kInt, kUint, kF32, kF64:
		if x, ok := v.(*Term); ok {
			if k.isFloat() {
				bad := w.tb.Or(w.tb.FIsNaN(x), w.tb.FIsInf(x))
				if w.branch(lower(bad)) {
					panic(jerr{"json: unsupported value: NaN or Inf"})
				}
			}
			hs, _ := json.Marshal(w.putSym(x, k))
			b.Write(hs)
			return
		}
		var h any
		switch x := v.(type) {
		case bool:
			h = x
		case uint64:
			if k.k == kInt {
				h = sext(x, k.w)
			} else {
				h = x
			}
		case float32:
			h = x
		case float64:
			h = x
		}
		hs, err := json.Marshal(h)
		if err != nil {
			panic(jerr{err.Error()})
		}
		b.Write(hs)
	case kString:
		if types.TypeString(t, nil) == "encoding/json.Number" {
			s, ok := v.(string)
			if !ok {
				panic(unsupported("symbolic json.Number"))
			}
			if s == "" {
				s = "0"
			}
			if _, ok := w.getSym(s); ok {
				hs, _ := json.Marshal(s)
				b.Write(hs)
				return
			}
			hs, err := json.Marshal(json.Number(s))
			if err != nil {
				panic(jerr{err.Error()})
			}
			b.Write(hs)
			return
		}
		switch s := v.(type) {
		case string:
			hs, _ := json.Marshal(s)
			b.Write(hs)
		case *SymStr:
			hs, _ := json.Marshal(w.putSym(s, k))
			b.Write(hs)
		}
	case kPtr:
		p, ok := v.(*any)
		if !ok || p == nil {
			b.WriteString("null")
			return
		}
		et := t.Underlying().(*types.Pointer).Elem()
		g.jenc(b, *p, et, p)
	case kStruct:
		b.WriteByte('{')
		st := t.Underlying().(*types.Struct)
		n := 0
		for _, f := range jsonFields(st) {
			var fv any = v
			ft := types.Type(st)
			for _, i := range f.path {
				s := norm(fv, ft).(Struct)
				fs := ft.Underlying().(*types.Struct)
				fv, ft = s[i], fs.Field(i).Type()
			}
			if f.omitempty && g.jsonEmpty(fv, ft) {
				continue
			}
			if n > 0 {
				b.WriteByte(',')
			}
			n++
			hs, _ := json.Marshal(f.name)
			b.Write(hs)
			b.WriteByte(':')
			if f.str {
				panic(unsupported("json string option"))
			}
			fp := new(any)
			*fp = fv
			if addr == nil {
				fp = nil
			}
			g.jenc(b, fv, ft, fp)
		}
		b.WriteByte('}')
	case kMap:
		m := v.(*Map)
		if m == nil {
			b.WriteString("null")
			return
		}
		mt := t.Underlying().(*types.Map)
		type kv struct {
			k string
			v any
		}
		var l []kv
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			kk := kindOf(mt.Key())
			var ks string
			switch kk.k {
			case kString:
				ks = g.concStr(norm(e.key, mt.Key()))
			case kInt:
				ks = strconv.FormatInt(g.concInt(norm(e.key, mt.Key()), kk), 10)
			case kUint:
				ks = strconv.FormatUint(uint64(g.concInt(norm(e.key, mt.Key()), kk)), 10)
			default:
				panic(unsupported("json map key"))
			}
			l = append(l, kv{ks, e.val})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		b.WriteByte('{')
		for i, e := range l {
			if i > 0 {
				b.WriteByte(',')
			}
			hs, _ := json.Marshal(e.k)
			b.Write(hs)
			b.WriteByte(':')
			g.jenc(b, e.v, mt.Elem(), nil)
		}
		b.WriteByte('}')
	case kSlice:
		s := v.(Slice)
		if s == nil {
			b.WriteString("null")
			return
		}
		et := t.Underlying().(*types.Slice).Elem()
		if ek := kindOf(et); ek.k == kUint && ek.w == 8 && g.methodOf(types.NewPointer(et), "MarshalJSON", 0, 2) == nil {
			x, ok := mkStr(s).(string)
			if !ok {
				hs, _ := json.Marshal(w.putSym(mkStr(s), kinfo{kSlice, 8}))
				b.Write(hs)
				return
			}
			hs, _ := json.Marshal(base64.StdEncoding.EncodeToString([]byte(x)))
			b.Write(hs)
			return
		}
		b.WriteByte('[')
		for i := range s {
			if i > 0 {
				b.WriteByte(',')
			}
			g.jenc(b, s[i], et, &s[i])
		}
		b.WriteByte(']')
	case kArray:
		s := v.(Array)
		et := t.Underlying().(*types.Array).Elem()
		b.WriteByte('[')
		for i := range s {
			if i > 0 {
				b.WriteByte(',')
			}
			g.jenc(b, s[i], et, nil)
		}
		b.WriteByte(']')
	default:
		panic(jerr{"json: unsupported type: " + t.String()})
	}
}

func (g *G) jmarshal(v any) (out []byte, err *jerr) {
	var b bytes.Buffer
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jerr)
			if !ok {
				panic(r)
			}
			err = &e
		}
	}()
	g.jenc(&b, v, types.NewInterfaceType(nil, nil), nil)
	return b.Bytes(), nil
}

func byteSlice(b []byte) Slice {
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = uint64(x)
	}
	return r
}

// ---- decoding ----

type jobj struct {
	keys []string
	vals []any
}

func jparse(d *json.Decoder) (any, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		switch x {
		case '{':
			o := &jobj{}
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := jparse(d)
				if err != nil {
					return nil, err
				}
				o.keys = append(o.keys, kt.(string))
				o.vals = append(o.vals, v)
			}
			_, err := d.Token()
			return o, err
		case '[':
			a := []any{}
			for d.More() {
				v, err := jparse(d)
				if err != nil {
					return nil, err
				}
				a = append(a, v)
			}
			_, err := d.Token()
			return a, err
		}
		return nil, fmt.Errorf("unexpected delimiter")
	}
	return tok, nil
}

func jraw(n any) []byte {
	var b bytes.Buffer
	var wr func(n any)
	wr = func(n any) {
		switch x := n.(type) {
		case *jobj:
			b.WriteByte('{')
			for i := range x.keys {
				if i > 0 {
					b.WriteByte(',')
				}
				hs, _ := json.Marshal(x.keys[i])
				b.Write(hs)
				b.WriteByte(':')
				wr(x.vals[i])
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				wr(x[i])
			}
			b.WriteByte(']')
		default:
			hs, _ := json.Marshal(x)
			b.Write(hs)
		}
	}
	wr(n)
	return b.Bytes()
}

type jdec struct {
	g         *G
	useNumber bool
	err       string
}

func (d *jdec) fail(s string) {
	if d.err == "" {
		d.err = s
	}
}

var emptyIface = types.NewInterfaceType(nil, nil)

func init() { emptyIface.Complete() }

func (d *jdec) jsonNumberType() types.Type {
	pk := d.g.w.p.prog.ImportedPackage("encoding/json")
	if pk == nil {
		panic(unsupported("encoding/json not loaded"))
	}
	return pk.Pkg.Scope().Lookup("Number").Type()
}

// generic decodes into an empty interface.
func (d *jdec) generic(n any) Iface {
	w := d.g.w
	switch x := n.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{types.Typ[types.Bool], x}
	case string:
		if s, ok := w.getSym(x); ok {
			switch s.k.k {
			case kString:
				return Iface{types.Typ[types.String], s.v}
			case kBool:
				return Iface{types.Typ[types.Bool], s.v}
			case kSlice:
				panic(unsupported("symbolic []byte into interface"))
			}
			if d.useNumber {
				return Iface{d.jsonNumberType(), x}
			}
			return Iface{types.Typ[types.Float64], d.symFloat(s)}
		}
		return Iface{types.Typ[types.String], x}
	case json.Number:
		if d.useNumber {
			return Iface{d.jsonNumberType(), string(x)}
		}
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			d.fail("json: cannot unmarshal number " + string(x) + " into Go value of type float64")
			return Iface{}
		}
		return Iface{types.Typ[types.Float64], f}
	case []any:
		s := make(Slice, len(x))
		for i := range x {
			s[i] = d.generic(x[i])
		}
		return Iface{types.NewSlice(emptyIface), s}
	case *jobj:
		m := newMap()
		for i := range x.keys {
			w.mapSet(d.g, m, types.Typ[types.String], x.keys[i], d.generic(x.vals[i]))
		}
		return Iface{types.NewMap(types.Typ[types.String], emptyIface), m}
	}
	panic(unsupported(fmt.Sprintf("json generic %T", n)))
}

func (d *jdec) symFloat(s symLeaf) any {
	w := d.g.w
	t := s.v.(*Term)
	switch s.k.k {
	case kF64:
		return t
	case kF32:
		return lower(w.tb.FToF(SF64, t))
	case kInt:
		return lower(w.tb.FFromInt(SF64, true, t))
	case kUint:
		return lower(w.tb.FFromInt(SF64, false, t))
	}
	panic(unsupported("symFloat"))
}

func jkind(n any) string {
	switch n.(type) {
	case string:
		return "string"
	case json.Number:
		return "number"
	case bool:
		return "bool"
	case []any:
		return "array"
	case *jobj:
		return "object"
	}
	return "null"
}

func (d *jdec) mismatch(n any, t types.Type) {
	d.fail("json: cannot unmarshal " + jkind(n) + " into Go value of type " + types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

// value decodes n as a value of type t, given the current value cur.
func (d *jdec) value(n any, t types.Type, cur any) any {
	g := d.g
	w := g.w
	k := kindOf(t)
	if n == nil {
		switch k.k {
		case kIface, kPtr, kMap, kSlice:
			return zero(t)
		}
		return cur
	}
	isNum := types.TypeString(t, nil) == "encoding/json.Number"
	if k.k != kPtr && k.k != kIface && !isNum {
		if m := g.methodOf(types.NewPointer(t), "UnmarshalJSON", 1, 1); m != nil {
			p := new(any)
			*p = copyVal(norm(cur, t))
			r := m(p, byteSlice(jraw(n)))
			if e := ifaceOf(r); e.T != nil {
				d.fail(safeFmt(g, e))
			}
			return *p
		}
		if s, ok := n.(string); ok {
			if m := g.methodOf(types.NewPointer(t), "UnmarshalText", 1, 1); m != nil {
				p := new(any)
				*p = copyVal(norm(cur, t))
				r := m(p, byteSlice([]byte(s)))
				if e := ifaceOf(r); e.T != nil {
					d.fail(safeFmt(g, e))
				}
				return *p
			}
		}
	}
	var leaf symLeaf
	isSym := false
	if s, ok := n.(string); ok {
		leaf, isSym = w.getSym(s)
	}
	switch k.k {
	case kPtr:
		et := t.Underlying().(*types.Pointer).Elem()
		p, _ := cur.(*any)
		if p == nil {
			p = new(any)
			*p = zero(et)
		}
		w.assign(p, d.value(n, et, *p))
		return p
	case kIface:
		if t.Underlying().(*types.Interface).NumMethods() > 0 {
			d.mismatch(n, t)
			return cur
		}
		return d.generic(n)
	case kBool:
		if isSym && leaf.k.k == kBool {
			return leaf.v
		}
		if b, ok := n.(bool); ok {
			return b
		}
	case kString:
		if isNum {
			switch x := n.(type) {
			case json.Number:
				return string(x)
			case string:
				if isSym {
					return x
				}
				if x == "" || json.Valid([]byte(x)) && (x[0] == '-' || x[0] >= '0' && x[0] <= '9') {
					return x
				}
				d.fail("json: invalid number literal, trying to unmarshal " + strconv.Quote(strconv.Quote(x)) + " into Number")
				return cur
			}
			break
		}
		if isSym {
			if leaf.k.k == kString {
				return leaf.v
			}
			break
		}
		if s, ok := n.(string); ok {
			return s
		}
	case kInt, kUint:
		if isSym {
			if leaf.k.k == k.k && leaf.k.w == k.w {
				return leaf.v
			}
			if leaf.k.isInt() {
				panic(unsupported("json: integer width change of symbolic value"))
			}
			if leaf.k.isFloat() {
				panic(unsupported("json: symbolic float into integer"))
			}
			break
		}
		if x, ok := n.(json.Number); ok {
			if k.k == kInt {
				i, err := strconv.ParseInt(string(x), 10, k.w)
				if err == nil {
					return uint64(i) & mask(k.w)
				}
			} else {
				i, err := strconv.ParseUint(string(x), 10, k.w)
				if err == nil {
					return i
				}
			}
			d.fail("json: cannot unmarshal number " + string(x) + " into Go value of type " + t.String())
			return cur
		}
	case kF32, kF64:
		if isSym {
			tm, ok := leaf.v.(*Term)
			if !ok {
				break
			}
			if leaf.k.k == k.k {
				return tm
			}
			f := d.symFloat(leaf)
			if k.k == kF64 {
				return f
			}
			return lower(w.tb.FToF(SF32, w.term(f, kinfo{kF64, 64})))
		}
		if x, ok := n.(json.Number); ok {
			bs := 64
			if k.k == kF32 {
				bs = 32
			}
			f, err := strconv.ParseFloat(string(x), bs)
			if err != nil {
				d.fail("json: cannot unmarshal number " + string(x) + " into Go value of type " + t.String())
				return cur
			}
			if bs == 32 {
				return float32(f)
			}
			return f
		}
	case kStruct:
		o, ok := n.(*jobj)
		if !ok {
			break
		}
		st := t.Underlying().(*types.Struct)
		fs := jsonFields(st)
		root := new(any)
		*root = copyVal(norm(cur, t))
		for i, key := range o.keys {
			fi := -1
			for j := range fs {
				if fs[j].name == key {
					fi = j
					break
				}
			}
			if fi < 0 {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key) {
						fi = j
						break
					}
				}
			}
			if fi < 0 {
				continue
			}
			p := root
			ft := types.Type(st)
			for _, ix := range fs[fi].path {
				materialize(p, ft)
				s := (*p).(Struct)
				p, ft = &s[ix], ft.Underlying().(*types.Struct).Field(ix).Type()
			}
			*p = d.value(o.vals[i], ft, *p)
		}
		return *root
	case kMap:
		o, ok := n.(*jobj)
		if !ok {
			break
		}
		mt := t.Underlying().(*types.Map)
		m, _ := cur.(*Map)
		if m == nil {
			m = newMap()
		}
		for i, key := range o.keys {
			var kv any
			kk := kindOf(mt.Key())
			switch kk.k {
			case kString:
				kv = key
			case kInt:
				x, err := strconv.ParseInt(key, 10, kk.w)
				if err != nil {
					d.mismatch(json.Number(key), mt.Key())
					continue
				}
				kv = uint64(x) & mask(kk.w)
			case kUint:
				x, err := strconv.ParseUint(key, 10, kk.w)
				if err != nil {
					d.mismatch(json.Number(key), mt.Key())
					continue
				}
				kv = x
			default:
				panic(unsupported("json map key"))
			}
			w.mapSet(g, m, mt.Key(), kv, d.value(o.vals[i], mt.Elem(), zero(mt.Elem())))
		}
		return m
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if isSym && leaf.k.k == kSlice {
			return Slice(append([]any(nil), strBytes(leaf.v)...))
		}
		if s, ok := n.(string); ok {
			if ek := kindOf(et); ek.k == kUint && ek.w == 8 {
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					d.fail(err.Error())
					return cur
				}
				return byteSlice(b)
			}
		}
		a, ok := n.([]any)
		if !ok {
			break
		}
		s := make(Slice, len(a))
		old, _ := cur.(Slice)
		for i := range a {
			var c any
			if i < len(old) { // encoding/json decodes over the existing elements
				c = copyVal(old[i])
			}
			s[i] = d.value(a[i], et, norm(c, et))
		}
		return s
	case kArray:
		a, ok := n.([]any)
		if !ok {
			break
		}
		at := t.Underlying().(*types.Array)
		s := zero(t).(Array)
		for i := range a {
			if i < len(s) {
				s[i] = d.value(a[i], at.Elem(), zero(at.Elem()))
			}
		}
		return s
	}
	d.mismatch(n, t)
	return cur
}

func (g *G) hostBytes(v any) []byte {
	s, _ := v.(Slice)
	str, ok := mkStr(s).(string)
	if !ok {
		panic(unsupported("json: symbolic input bytes"))
	}
	return []byte(str)
}

// unmarshalNode stores n into the pointer held in dst (an interface value).
func (d *jdec) into(n any, dst any) Iface {
	x := ifaceOf(dst)
	if x.T == nil || kindOf(x.T).k != kPtr {
		return mkErr("json: Unmarshal(non-pointer)")
	}
	p, _ := x.V.(*any)
	if p == nil {
		return mkErr("json: Unmarshal(nil " + x.T.String() + ")")
	}
	et := x.T.Underlying().(*types.Pointer).Elem()
	d.g.w.assign(p, d.value(n, et, load(p, et)))
	if d.err != "" {
		return mkErr(d.err)
	}
	return Iface{}
}

type hostDecoder struct {
	r         any
	buf       []byte
	loaded    bool
	useNumber bool
	rerr      Iface
}
type hostEncoder struct{ w any }

func (g *G) ioEOF() Iface {
	pk := g.w.p.prog.ImportedPackage("io")
	return ifaceOf(*g.w.global(pk.Var("EOF")))
}

func fmtFloat(x float64, f byte, prec, bs int) string { return strconv.FormatFloat(x, f, prec, bs) }

func regJSON() {
	reg(func(g *G, c *cfunc, args []any) any {
		b, err := g.jmarshal(args[0])
		if err != nil {
			return Tuple{Slice(nil), mkErr(err.msg)}
		}
		if strings.HasSuffix(c.name, "MarshalIndent") {
			var out bytes.Buffer
			json.Indent(&out, b, g.concStr(args[1]), g.concStr(args[2]))
			b = out.Bytes()
		}
		return Tuple{byteSlice(b), Iface{}}
	}, "encoding/json.Marshal", "encoding/json.MarshalIndent")
	reg(func(g *G, c *cfunc, args []any) any {
		b := g.hostBytes(args[0])
		var tmp any
		if err := json.Unmarshal(b, &tmp); err != nil {
			if _, ok := err.(*json.SyntaxError); ok {
				return mkErr(err.Error())
			}
		}
		hd := json.NewDecoder(bytes.NewReader(b))
		hd.UseNumber()
		n, err := jparse(hd)
		if err != nil {
			return mkErr(err.Error())
		}
		d := &jdec{g: g}
		return d.into(n, args[1])
	}, "encoding/json.Unmarshal")
	reg(func(g *G, c *cfunc, args []any) any {
		return json.Valid(g.hostBytes(args[0]))
	}, "encoding/json.Valid")
	reg(func(g *G, c *cfunc, args []any) any {
		p := g.newPtrTo(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		g.w.side[p] = &hostDecoder{r: args[0]}
		return p
	}, "encoding/json.NewDecoder")
	dec := func(g *G, v any) *hostDecoder {
		d, ok := g.w.side[g.ptr(v)].(*hostDecoder)
		if !ok {
			panic(unsupported("json.Decoder not made by NewDecoder"))
		}
		return d
	}
	reg(func(g *G, c *cfunc, args []any) any { dec(g, args[0]).useNumber = true; return nil }, "(*encoding/json.Decoder).UseNumber")
	reg(func(g *G, c *cfunc, args []any) any {
		d := dec(g, args[0])
		if !d.loaded {
			d.loaded = true
			r := g.callNamed("io", "ReadAll", d.r).(Tuple)
			d.buf = g.hostBytes(r[0])
			d.rerr = ifaceOf(r[1])
		}
		if d.rerr.T != nil && len(bytes.TrimSpace(d.buf)) == 0 {
			return d.rerr
		}
		if len(bytes.TrimSpace(d.buf)) == 0 {
			return g.ioEOF()
		}
		hd := json.NewDecoder(bytes.NewReader(d.buf))
		var raw json.RawMessage
		if err := hd.Decode(&raw); err != nil {
			if err == io.ErrUnexpectedEOF && d.rerr.T != nil {
				return d.rerr
			}
			return mkErr(err.Error())
		}
		d.buf = d.buf[hd.InputOffset():]
		h2 := json.NewDecoder(bytes.NewReader(raw))
		h2.UseNumber()
		n, err := jparse(h2)
		if err != nil {
			return mkErr(err.Error())
		}
		jd := &jdec{g: g, useNumber: d.useNumber}
		return jd.into(n, args[1])
	}, "(*encoding/json.Decoder).Decode")
	reg(func(g *G, c *cfunc, args []any) any {
		p := g.newPtrTo(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		g.w.side[p] = &hostEncoder{w: args[0]}
		return p
	}, "encoding/json.NewEncoder")
	reg(noop, "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent")
	reg(func(g *G, c *cfunc, args []any) any {
		e, ok := g.w.side[g.ptr(args[0])].(*hostEncoder)
		if !ok {
			panic(unsupported("json.Encoder"))
		}
		b, err := g.jmarshal(args[1])
		if err != nil {
			return mkErr(err.msg)
		}
		x := ifaceOf(e.w)
		m := g.methodOf(x.T, "Write", 1, 2)
		if m == nil {
			panic(unsupported("json.Encoder writer"))
		}
		r := m(copyVal(norm(x.V, x.T)), byteSlice(append(b, '\n'))).(Tuple)
		return r[1]
	}, "(*encoding/json.Encoder).Encode")
	reg(func(g *G, c *cfunc, args []any) any {
		s := g.concStr(args[0])
		if l, ok := g.w.getSym(s); ok {
			d := &jdec{g: g}
			return Tuple{d.symFloat(l), Iface{}}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return Tuple{f, mkErr(err.Error())}
		}
		return Tuple{f, Iface{}}
	}, "(encoding/json.Number).Float64")
	reg(func(g *G, c *cfunc, args []any) any {
		if s, ok := args[0].(string); ok {
			if _, ok := g.w.getSym(s); ok {
				panic(unsupported("json.Number.Int64 on a symbolic number"))
			}
		}
		pk := g.w.p.prog.ImportedPackage("strconv")
		if pk == nil {
			panic(unsupported("json.Number.Int64"))
		}
		g.w.p.buildPkg(pk)
		return g.call(pk.Func("ParseInt"), []any{args[0], uint64(10), uint64(64)}, nil, g.callerFr)
	}, "(encoding/json.Number).Int64")
	reg(func(g *G, c *cfunc, args []any) any {
		s := g.concStr(args[0])
		f, err := strconv.ParseFloat(s, int(i64(g, args[1])))
		if err != nil {
			return Tuple{f, mkErr(err.Error())}
		}
		return Tuple{f, Iface{}}
	}, "strconv.ParseFloat")
}

var _ = math.MaxInt
