package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// safeFmt renders a value without ever forking.
func safeFmt(g *G, v Iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	f := &formatter{g: g, noFork: true}
	return f.concat(f.arg(v, "%v"))
}

func (g *G) sprint(v any) string {
	f := &formatter{g: g, noFork: true}
	return f.concat(f.arg(ifaceOf(v), "%v"))
}

type formatter struct {
	g      *G
	noFork bool
}

// arg renders one argument with one verb; result is a list of byte values.
func (f *formatter) arg(v Iface, verb string) any {
	c := verb[len(verb)-1]
	if v.T == nil {
		return fmt.Sprintf(strings.Replace(verb, "w", "v", 1), nil)
	}
	if c == 'T' {
		return v.T.String()
	}
	if c == 'p' {
		return "0xc000000000"
	}
	if c == 'w' {
		verb = verb[:len(verb)-1] + "v"
		c = 'v'
	}
	if s, ok := v.V.(*SymStr); ok && kindOf(v.T).k == kString && (c == 's' || c == 'v') && (verb == "%s" || verb == "%v") {
		if f.noFork {
			return "<sym>"
		}
		return s
	}
	h := f.host(v, c, 0)
	if ss, ok := h.(*SymStr); ok {
		if f.noFork {
			return "<sym>"
		}
		if verb == "%s" || verb == "%v" {
			return ss
		}
		h = f.g.concStr(ss)
	}
	return fmt.Sprintf(verb, h)
}

func (f *formatter) concat(v any) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		if f.noFork {
			return "<sym>"
		}
		return f.g.concStr(s)
	}
	return fmt.Sprint(v)
}

type rawString string

func (r rawString) Format(s fmt.State, c rune) { s.Write([]byte(r)) }

// host converts an interpreted value into a host value for formatting.
func (f *formatter) host(v Iface, c byte, depth int) any {
	g := f.g
	if v.T == nil {
		return nil
	}
	if v.T == fmtErrType {
		return v.V.(*fmtErr).msg
	}
	if v.T == rtErrType {
		return v.V
	}
	k := kindOf(v.T)
	val := norm(v.V, v.T)
	if c == 'v' || c == 's' || c == 'q' {
		for _, name := range []string{"Error", "String"} {
			if m := g.w.p.methodByName(v.T, nil, name); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && kindOf(m.Signature.Results().At(0).Type()).k == kString {
				if p, ok := val.(*any); ok && p == nil {
					return "<nil>"
				}
				return g.call(m, []any{copyVal(val)}, nil, g.callerFr)
			}
		}
	}
	switch x := val.(type) {
	case Poison:
		return "<poison>"
	case *Term:
		if f.noFork {
			return rawString("<sym>")
		}
		if k.isFloat() {
			panic(unsupported("formatting a symbolic float"))
		}
		u := g.w.concretize(x)
		switch k.k {
		case kBool:
			return u == 1
		case kInt:
			return sext(u, k.w)
		}
		return u
	case uint64:
		if k.k == kInt {
			if k.w == 32 {
				return int32(sext(x, 32))
			}
			return sext(x, k.w)
		}
		if k.w == 8 {
			return uint8(x)
		}
		return x
	case bool, float32, float64, string:
		return x
	case *SymStr:
		if f.noFork {
			return "<sym>"
		}
		return x
	case Slice:
		et := v.T.Underlying().(*types.Slice).Elem()
		if kindOf(et).k == kUint && kindOf(et).w == 8 {
			s := mkStr(x)
			b, ok := s.(string)
			if !ok {
				if f.noFork {
					return "<sym>"
				}
				return s
			}
			return []byte(b)
		}
		var r []any
		for _, e := range x {
			if it, ok := e.(Iface); ok && kindOf(et).k == kIface {
				r = append(r, f.host(it, c, depth+1))
			} else if kindOf(et).k == kIface {
				r = append(r, nil)
			} else {
				r = append(r, f.host(Iface{et, e}, c, depth+1))
			}
		}
		return r
	case Array:
		et := v.T.Underlying().(*types.Array).Elem()
		var r []any
		for _, e := range x {
			r = append(r, f.host(Iface{et, e}, c, depth+1))
		}
		return r
	case *Map:
		if x == nil {
			return map[string]any{}
		}
		mt := v.T.Underlying().(*types.Map)
		r := map[any]any{}
		for _, e := range x.ents {
			if !e.dead {
				kk := f.host(wrapIf(mt.Key(), e.key), c, depth+1)
				if _, ok := kk.(*SymStr); ok {
					kk = "<sym>"
				}
				r[kk] = f.host(wrapIf(mt.Elem(), e.val), c, depth+1)
			}
		}
		return r
	case Struct:
		st := v.T.Underlying().(*types.Struct)
		var parts []string
		for i := range x {
			parts = append(parts, fmt.Sprintf("%v", f.host(wrapIf(st.Field(i).Type(), x[i]), 'd', depth+1)))
		}
		return rawString("{" + strings.Join(parts, " ") + "}")
	case *any:
		if x == nil {
			return rawString("<nil>")
		}
		if depth == 0 {
			if pt, ok := v.T.Underlying().(*types.Pointer); ok {
				if _, isS := pt.Elem().Underlying().(*types.Struct); isS {
					return rawString("&" + fmt.Sprint(f.host(Iface{pt.Elem(), *x}, c, depth+1)))
				}
			}
		}
		return rawString("0xc000000000")
	}
	return rawString(fmt.Sprintf("<%T>", val))
}

func wrapIf(t types.Type, v any) Iface {
	if kindOf(t).k == kIface {
		return ifaceOf(v)
	}
	return Iface{t, norm(v, t)}
}

// sprintf renders a format; the result is string or *SymStr.
func (f *formatter) sprintf(format string, args Slice) any {
	var out []any
	add := func(s any) { out = append(out, strBytes(s)...) }
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			add(format[i:])
			break
		}
		add(format[i : i+j])
		i += j
		e := i + 1
		for e < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[e]) >= 0 {
			e++
		}
		if e >= len(format) {
			add("%!(NOVERB)")
			break
		}
		verb := format[i : e+1]
		i = e + 1
		if verb == "%%" {
			add("%")
			continue
		}
		if strings.Contains(verb, "*") {
			panic(unsupported("fmt verb " + verb))
		}
		if ai >= len(args) {
			add(fmt.Sprintf("%%!%c(MISSING)", verb[len(verb)-1]))
			continue
		}
		add(f.arg(ifaceOf(args[ai]), verb))
		ai++
	}
	if ai < len(args) {
		add("%!(EXTRA)")
	}
	return mkStr(out)
}

func regFmt() {
	sl := func(v any) Slice { s, _ := v.(Slice); return s }
	reg(func(g *G, c *cfunc, args []any) any {
		f := &formatter{g: g}
		return f.sprintf(g.concStr(args[0]), sl(args[1]))
	}, "fmt.Sprintf")
	reg(func(g *G, c *cfunc, args []any) any {
		f := &formatter{g: g}
		return f.spr(sl(args[0]), false)
	}, "fmt.Sprint")
	reg(func(g *G, c *cfunc, args []any) any {
		f := &formatter{g: g}
		return f.spr(sl(args[0]), true)
	}, "fmt.Sprintln")
	reg(func(g *G, c *cfunc, args []any) any {
		f := &formatter{g: g, noFork: true}
		format := g.concStr(args[0])
		as := sl(args[1])
		m := f.concat(f.sprintf(format, as))
		var wr []any
		// arguments of %w verbs, in order
		ai := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
				i++
			}
			if i < len(format) && format[i] == '%' {
				continue
			}
			if i < len(format) && format[i] == 'w' && ai < len(as) {
				if e := ifaceOf(as[ai]); e.T != nil {
					wr = append(wr, e)
				}
			}
			ai++
		}
		return mkErr(m, wr...)
	}, "fmt.Errorf")
	reg(func(g *G, c *cfunc, args []any) any { return Tuple{uint64(0), Iface{}} },
		"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint")
	// strconv fast paths on concrete values; symbolic ones run the real code
	reg(func(g *G, c *cfunc, args []any) any {
		bs := int(i64(g, args[3]))
		x, ok := args[0].(float64)
		if !ok {
			panic(unsupported("strconv.FormatFloat on symbolic value"))
		}
		if math.IsNaN(x) {
			return "NaN"
		}
		return fmtFloat(x, byte(i64(g, args[1])), int(i64(g, args[2])), bs)
	}, "strconv.FormatFloat")
}

func (f *formatter) spr(args Slice, ln bool) any {
	var out []any
	for i, a := range args {
		v := ifaceOf(a)
		if i > 0 {
			prev := ifaceOf(args[i-1])
			str := func(x Iface) bool { return x.T != nil && kindOf(x.T).k == kString }
			if ln || !str(v) && !str(prev) {
				out = append(out, uint64(' '))
			}
		}
		out = append(out, strBytes(f.arg(v, "%v"))...)
	}
	if ln {
		out = append(out, uint64('\n'))
	}
	return mkStr(out)
}
