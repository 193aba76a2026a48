package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simple evaluates instructions that neither branch nor call. A non-empty
// second result is a run-time panic.
func (in *Interp) simple(f *frame, ins ssa.Instruction) (Val, string) {
	st := f.st

	switch x := ins.(type) {
	case *ssa.DebugRef:

	case *ssa.Alloc:
		o := st.alloc(x.Type().(*types.Pointer).Elem(), in.P.fname(f.fn)+":"+x.Comment)
		f.env[x] = P(o, "")

	case *ssa.UnOp:
		v := in.val(f, x.X)

		switch x.Op {
		case token.MUL:
			if isNil(v) {
				return rtPanic("nilderef"), "nil pointer dereference"
			}

			if in.OnLoad != nil {
				in.OnLoad(st, v, x.Pos(), f.fn)
			}

			f.env[x] = st.load(v, x.Type())
		case token.NOT:
			f.env[x] = st.norm(notVal(st, v))
		case token.SUB, token.XOR:
			if c, ok := asConst(v); ok {
				f.env[x] = Const{constant.UnaryOp(x.Op, c, 0), x.Type()}
			} else {
				f.env[x] = st.norm(T(x.Type(), "u"+x.Op.String(), v))
			}
		case token.ARROW:
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			r := T(et, "recv!"+st.fresh())
			st.event("recv", "", f.fn, x.Pos(), r, v)

			if x.CommaOk {
				f.env[x] = Tuple{r, T(types.Typ[types.Bool], "recvok", r)}
			} else {
				f.env[x] = r
			}
		default:
			f.env[x] = T(x.Type(), x.Op.String(), v)
		}

	case *ssa.BinOp:
		f.env[x] = in.binop(st, x.Op, in.val(f, x.X), in.val(f, x.Y), x.Type())

	case *ssa.Store:
		p := in.val(f, x.Addr)
		if isNil(p) {
			return rtPanic("nilderef"), "nil pointer dereference"
		}

		v := in.val(f, x.Val)
		if in.OnStore != nil {
			in.OnStore(st, p, v, x.Pos(), f.fn)
		}

		st.store(p, v, x.Val.Type())

	case *ssa.FieldAddr:
		p := in.val(f, x.X)
		if isNil(p) {
			return rtPanic("nilderef"), "nil pointer dereference"
		}

		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.env[x] = P(p, "."+fieldName(u, x.Field))

	case *ssa.Field:
		u := x.X.Type().Underlying().(*types.Struct)
		f.env[x] = st.norm(fieldOf(in.val(f, x.X), x.Field, "."+fieldName(u, x.Field), x.Type()))

	case *ssa.IndexAddr:
		p := in.val(f, x.X)
		i := in.val(f, x.Index)

		if isNil(p) {
			return rtPanic("index"), "index out of range of a nil slice"
		}

		if s, ok := p.(*Slice); ok {
			if n, ok := asInt(i); ok {
				if n < 0 || int(n) >= s.Len {
					return rtPanic("index"), fmt.Sprintf("index %d out of range with length %d", n, s.Len)
				}

				f.env[x] = P(s.Root, fmt.Sprintf("%s[%d]", s.Path, s.Off+int(n)))

				return nil, ""
			}

			f.env[x] = P(s.Root, fmt.Sprintf("%s[?%s]", s.Path, i.Key()))

			return nil, ""
		}

		if n, ok := asInt(i); ok {
			st.event("index", "", f.fn, x.Pos(), nil, p, i)
			f.env[x] = P(p, fmt.Sprintf("[%d]", n))
		} else {
			st.event("index", "", f.fn, x.Pos(), nil, p, i)
			f.env[x] = P(p, fmt.Sprintf("[?%s]", i.Key()))
		}

	case *ssa.Index:
		a, i := in.val(f, x.X), in.val(f, x.Index)
		f.env[x] = in.index(st, a, i, x.Type())

		if f.env[x] == nil {
			return rtPanic("index"), "index out of range"
		}

		if _, ok := a.(*Term); ok {
			st.event("index", "", f.fn, x.Pos(), nil, a, i)
		}

	case *ssa.Lookup:
		a, i := in.val(f, x.X), in.val(f, x.Index)

		mt, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap {
			f.env[x] = in.index(st, a, i, x.Type())
			if f.env[x] == nil {
				return rtPanic("index"), "string index out of range"
			}

			if _, ok := a.(*Term); ok {
				st.event("index", "", f.fn, x.Pos(), nil, a, i)
			}

			return nil, ""
		}

		if in.OnLoad != nil {
			in.OnLoad(st, a, x.Pos(), f.fn)
		}

		v, ok := in.mapGet(st, a, i, mt)
		if x.CommaOk {
			f.env[x] = Tuple{v, ok}
		} else {
			f.env[x] = v
		}

	case *ssa.MapUpdate:
		a := in.val(f, x.Map)
		if isNil(a) {
			return rtPanic("nilmap"), "assignment to entry in nil map"
		}

		if in.OnStore != nil {
			in.OnStore(st, a, in.val(f, x.Value), x.Pos(), f.fn)
		}

		in.mapSet(st, a, in.val(f, x.Key), in.val(f, x.Value))

	case *ssa.MakeInterface:
		f.env[x] = wrap(st, x.X.Type(), in.val(f, x.X))

	case *ssa.ChangeInterface:
		f.env[x] = in.val(f, x.X)

	case *ssa.ChangeType:
		f.env[x] = retype(in.val(f, x.X), x.Type())

	case *ssa.Convert:
		f.env[x] = in.convert(st, in.val(f, x.X), x.X.Type(), x.Type())

	case *ssa.MakeClosure:
		fn := &Fn{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fn.B = append(fn.B, in.val(f, b))
		}

		f.env[x] = fn

	case *ssa.MakeMap:
		id := st.fresh()
		st.maps[id] = &MapObj{}
		f.env[x] = &MapV{id}

	case *ssa.MakeChan:
		f.env[x] = T(x.Type(), "chan", in.val(f, x.Size), cStr(st.fresh()+":"+tstr(x.Type())))

	case *ssa.MakeSlice:
		n, ok := asInt(in.val(f, x.Len))
		if !ok {
			f.env[x] = T(x.Type(), "makeslice!"+st.fresh(), in.val(f, x.Len))

			return nil, ""
		}

		o := st.alloc(x.Type().Underlying().(*types.Slice).Elem(), "makeslice")
		c, ok := asInt(in.val(f, x.Cap))

		if !ok {
			c = n
		}

		f.env[x] = &Slice{Root: o, Len: int(n), Cap: int(c)}

	case *ssa.Slice:
		return in.slice(f, x)

	case *ssa.Extract:
		tu := in.val(f, x.Tuple)
		if t, ok := tu.(Tuple); ok && x.Index < len(t) {
			f.env[x] = st.norm(t[x.Index])
		} else {
			f.env[x] = st.norm(T(x.Type(), fmt.Sprintf("ext%d", x.Index), tu))
		}

	case *ssa.Range:
		id := st.fresh()
		st.User["iter:"+id] = in.val(f, x.X)
		st.iters[id] = 0
		f.env[x] = &Iter{id}

		if m, ok := st.norm(in.val(f, x.X)).(*MapV); ok {
			st.User["iter:"+id] = m
			if mo := st.getMap(m.ID); mo != nil {
				st.maps["snap:"+id] = mo
			}
		}

		if in.OnLoad != nil {
			in.OnLoad(st, in.val(f, x.X), x.Pos(), f.fn)
		}

	case *ssa.Send:
		st.event("send", "", f.fn, x.Pos(), nil, in.val(f, x.Chan), in.val(f, x.X))

	case *ssa.MultiConvert:
		f.env[x] = T(x.Type(), "conv", in.val(f, x.X))

	case *ssa.SliceToArrayPointer:
		f.env[x] = T(x.Type(), "s2a", in.val(f, x.X))

	default:
		panic(budgetError{fmt.Sprintf("unsupported instruction %T in %s", ins, f.fn)})
	}

	return nil, ""
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case Const:
		return Const{v.V, t}
	case *Struct:
		return &Struct{T: t, F: v.F}
	}

	return v
}

func (in *Interp) index(st *State, a, i Val, t types.Type) Val {
	if s, ok := asStr(a); ok {
		if n, ok := asInt(i); ok {
			if n < 0 || int(n) >= len(s) {
				return nil
			}

			return Const{constant.MakeInt64(int64(s[n])), t}
		}
	}

	if s, ok := a.(*Struct); ok {
		if n, ok := asInt(i); ok && int(n) < len(s.F) {
			return s.F[n]
		}
	}

	return st.norm(T(t, "idx", a, i))
}

func (in *Interp) mapGet(st *State, a, i Val, mt *types.Map) (Val, Val) {
	zero := zeroVal(mt.Elem())

	switch m := a.(type) {
	case Nil:
		return zero, cBool(false)
	case *MapV:
		mo := st.getMap(m.ID)
		if mo == nil {
			return zero, cBool(false)
		}

		unknown := mo.Sym

		for j := len(mo.Keys) - 1; j >= 0; j-- {
			e := st.eq(mo.Keys[j], i)
			if b, ok := asBool(e); ok {
				if b {
					return st.norm(mo.Vals[j]), cBool(true)
				}
			} else {
				unknown = true
			}
		}

		if !unknown {
			return zero, cBool(false)
		}
	}

	key := T(mt.Elem(), "mapval", a, i)
	okv := st.norm(T(types.Typ[types.Bool], "mapok", a, i))

	if b, ok := asBool(okv); ok && !b {
		return zero, okv
	}

	return st.norm(key), okv
}

func (in *Interp) mapSet(st *State, a, k, v Val) {
	m, ok := a.(*MapV)
	if !ok {
		st.event("mapset", "", nil, token.NoPos, nil, a, k, v)
		st.rep[T(types.Typ[types.Bool], "mapok", a, k).key] = cBool(true)

		if t := T(nil, "mapval", a, k); t.T != nil || true {
			st.rep[t.key] = v
		}

		return
	}

	mo := st.getMap(m.ID)
	n := &MapObj{Sym: mo != nil && mo.Sym}

	done := false

	if mo != nil {
		for j := range mo.Keys {
			n.Keys = append(n.Keys, mo.Keys[j])

			if mo.Keys[j].Key() == k.Key() {
				n.Vals = append(n.Vals, v)
				done = true
			} else {
				n.Vals = append(n.Vals, mo.Vals[j])
			}
		}
	}

	if !done {
		n.Keys, n.Vals = append(n.Keys, k), append(n.Vals, v)
	}

	st.maps[m.ID] = n
}

func (in *Interp) mapDel(st *State, a, k Val) {
	m, ok := a.(*MapV)
	if !ok {
		st.event("mapdel", "", nil, token.NoPos, nil, a, k)
		st.rep[T(types.Typ[types.Bool], "mapok", a, k).key] = cBool(false)

		return
	}

	mo := st.getMap(m.ID)
	n := &MapObj{Sym: mo != nil && mo.Sym}

	if mo != nil {
		for j := range mo.Keys {
			if mo.Keys[j].Key() != k.Key() {
				n.Keys, n.Vals = append(n.Keys, mo.Keys[j]), append(n.Vals, mo.Vals[j])
			}
		}
	}

	st.maps[m.ID] = n
}

func (in *Interp) slice(f *frame, x *ssa.Slice) (Val, string) {
	v := in.val(f, x.X)

	bound := func(b ssa.Value, def int64) (int64, Val, bool) {
		if b == nil {
			return def, nil, def >= 0
		}

		bv := in.val(f, b)
		n, ok := asInt(bv)

		return n, bv, ok
	}

	if s, ok := asStr(v); ok {
		lo, _, ok1 := bound(x.Low, 0)
		hi, _, ok2 := bound(x.High, int64(len(s)))

		if ok1 && ok2 {
			if lo < 0 || hi > int64(len(s)) || lo > hi {
				return rtPanic("slice"), "slice bounds out of range"
			}

			f.env[x] = Const{constant.MakeString(s[lo:hi]), x.Type()}

			return nil, ""
		}
	}

	if isNil(v) {
		f.env[x] = Nil{}

		return nil, ""
	}

	if s, ok := v.(*Slice); ok {
		lo, _, ok1 := bound(x.Low, 0)
		hi, _, ok2 := bound(x.High, int64(s.Len))

		if ok1 && ok2 {
			if lo < 0 || int(hi) > s.Cap || lo > hi {
				return rtPanic("slice"), "slice bounds out of range"
			}

			f.env[x] = &Slice{Root: s.Root, Path: s.Path, Off: s.Off + int(lo), Len: int(hi - lo), Cap: s.Cap - int(lo)}

			return nil, ""
		}
	}

	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			root, path, ok := addr(v)
			lo, _, ok1 := bound(x.Low, 0)
			hi, _, ok2 := bound(x.High, at.Len())

			if ok && ok1 && ok2 {
				f.env[x] = &Slice{Root: root, Path: path, Off: int(lo), Len: int(hi - lo), Cap: int(at.Len() - lo)}

				return nil, ""
			}
		}
	}

	args := []Val{v, Nil{}, Nil{}}
	if x.Low != nil {
		args[1] = in.val(f, x.Low)
	}

	if x.High != nil {
		args[2] = in.val(f, x.High)
	}

	f.st.event("slice", "", f.fn, x.Pos(), nil, args...)
	f.env[x] = f.st.norm(T(x.Type(), "slice", args...))

	return nil, ""
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	if c, ok := asConst(v); ok {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)

		if ok1 && ok2 {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				return Const{wrapInt(c, tb), to}
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return Const{c, to}
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				if n, ok := constant.Int64Val(c); ok {
					return Const{constant.MakeString(string(rune(n))), to}
				}
			case tb.Info()&types.IsFloat != 0:
				return Const{constant.ToFloat(c), to}
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				if i := constant.ToInt(c); i.Kind() == constant.Int {
					return Const{i, to}
				}
			}
		}
	}

	if r := in.spell(st, v, from, to); r != nil {
		return r
	}

	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)

	if ok1 && ok2 && (fb.Kind() == tb.Kind()) {
		return v
	}

	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		// Widening (or same-size) conversions keep the value.
		return st.norm(T(to, "conv:"+tb.Name(), v))
	}

	return st.norm(T(to, "conv:"+tstr(to), v))
}

// spell converts a known text to a slice of its bytes or characters, or back.
func (in *Interp) spell(st *State, v Val, from, to types.Type) Val {
	if !in.Bytes {
		return nil
	}

	unit := func(t types.Type) (*types.Basic, types.Type) {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, nil
		}

		b, ok := s.Elem().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int32 && b.Kind() != types.Uint8 {
			return nil, nil
		}

		return b, s.Elem()
	}

	if b, et := unit(to); b != nil {
		s, ok := asStr(v)
		if !ok {
			return nil
		}

		var ns []int64

		if b.Kind() == types.Int32 {
			for _, r := range []rune(s) {
				ns = append(ns, int64(r))
			}
		} else {
			for _, c := range []byte(s) {
				ns = append(ns, int64(c))
			}
		}

		o := st.alloc(et, "text")
		for i, n := range ns {
			st.storeAt(o, fmt.Sprintf("[%d]", i), cInt(n), et)
		}

		return &Slice{Root: o, Len: len(ns), Cap: len(ns)}
	}

	b, et := unit(from)
	if tb, ok := to.Underlying().(*types.Basic); b == nil || !ok || tb.Info()&types.IsString == 0 {
		return nil
	}

	if isNil(v) {
		return cStr("")
	}

	s, ok := v.(*Slice)
	if !ok {
		return nil
	}

	var (
		rs []rune
		bs []byte
	)

	for _, e := range in.elems(st, s, et) {
		n, ok := asInt(st.norm(e))
		if !ok {
			return nil
		}

		rs, bs = append(rs, rune(n)), append(bs, byte(n))
	}

	if b.Kind() == types.Uint8 {
		return cStr(string(bs))
	}

	return cStr(string(rs))
}

func wrapInt(c constant.Value, b *types.Basic) constant.Value {
	n, ok := new(big.Int).SetString(c.ExactString(), 10)
	if !ok {
		return c
	}

	bits := map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Int: 64, types.Int64: 64, types.Uint: 64, types.Uint64: 64, types.Uintptr: 64}[b.Kind()]
	if bits == 0 {
		return c
	}

	m := new(big.Int).Lsh(big.NewInt(1), bits)
	n.Mod(n, m)

	if b.Info()&types.IsUnsigned == 0 && n.Bit(int(bits-1)) == 1 {
		n.Sub(n, m)
	}

	return constant.MakeFromLiteral(n.String(), token.INT, 0)
}

func (in *Interp) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return st.eq(a, b)
	case token.NEQ:
		return st.norm(notVal(st, st.eq(a, b)))
	case token.LSS:
		return st.less(a, b)
	case token.GTR:
		return st.less(b, a)
	case token.LEQ:
		return st.norm(notVal(st, st.less(b, a)))
	case token.GEQ:
		return st.norm(notVal(st, st.less(a, b)))
	}

	ca, ok1 := asConst(a)
	cb, ok2 := asConst(b)

	if ok1 && ok2 && ca.Kind() == cb.Kind() || ok1 && ok2 && (op == token.SHL || op == token.SHR) {
		var r constant.Value

		func() {
			defer func() { _ = recover() }()

			switch op {
			case token.SHL, token.SHR:
				n, _ := constant.Uint64Val(cb)
				r = constant.Shift(ca, op, uint(n))
			case token.QUO:
				if constant.Sign(cb) != 0 {
					if ca.Kind() == constant.Int {
						r = constant.BinaryOp(ca, token.QUO_ASSIGN, cb)
					} else {
						r = constant.BinaryOp(ca, token.QUO, cb)
					}
				}
			case token.REM:
				if constant.Sign(cb) != 0 {
					r = constant.BinaryOp(ca, op, cb)
				}
			default:
				r = constant.BinaryOp(ca, op, cb)
			}
		}()

		if r != nil {
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				r = wrapInt(r, bt)
			}

			return Const{r, t}
		}
	}

	isStrT := false
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStrT = true
	}

	switch op {
	case token.ADD:
		if isStrT {
			if s, ok := asStr(a); ok && s == "" {
				return b
			}

			if s, ok := asStr(b); ok && s == "" {
				return a
			}

			return concat(t, a, b)
		}

		// (x + c1) + c2
		if n, ok := asInt(b); ok {
			if n == 0 {
				return a
			}

			if ta := asTerm(a); ta != nil && ta.Op == "+" && len(ta.Args) == 2 {
				if m, ok := asInt(ta.Args[1]); ok {
					if m+n == 0 {
						return st.norm(ta.Args[0])
					}

					return st.norm(T(t, "+", ta.Args[0], cInt(m+n)))
				}
			}

			return st.norm(T(t, "+", a, cInt(n)))
		}

		if _, ok := asInt(a); ok {
			return in.binop(st, op, b, a, t)
		}

		if b.Key() < a.Key() {
			a, b = b, a
		}

		return st.norm(T(t, "+", a, b))
	case token.SUB:
		if n, ok := asInt(b); ok {
			return in.binop(st, token.ADD, a, cInt(-n), t)
		}

		if a.Key() == b.Key() {
			return cInt(0)
		}
	case token.AND:
		if x, ok := asInt(a); ok && x == 0 {
			return Const{constant.MakeInt64(0), t}
		}

		if x, ok := asInt(b); ok && x == 0 {
			return Const{constant.MakeInt64(0), t}
		}
	case token.OR:
		if x, ok := asInt(a); ok && x == 0 {
			return b
		}

		if x, ok := asInt(b); ok && x == 0 {
			return a
		}
	}

	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if b.Key() < a.Key() {
			a, b = b, a
		}
	}

	return st.norm(T(t, op.String(), a, b))
}

// concat flattens string concatenation so that association does not matter.
func concat(t types.Type, a, b Val) Val {
	var parts []Val

	add := func(v Val) {
		if x := asTerm(v); x != nil && x.Op == "concat" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, v)
		}
	}

	add(a)
	add(b)

	var out []Val

	for _, p := range parts {
		if s, ok := asStr(p); ok && len(out) > 0 {
			if q, ok := asStr(out[len(out)-1]); ok {
				out[len(out)-1] = cStr(q + s)

				continue
			}
		}

		out = append(out, p)
	}

	if len(out) == 1 {
		return out[0]
	}

	return T(t, "concat", out...)
}

func (in *Interp) builtin(f *frame, name string, args []Val, c *ssa.CallCommon, res types.Type, pos token.Pos) []Out {
	st := f.st

	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case Nil:
			return ret(st, cInt(0))
		case *Slice:
			if name == "cap" {
				return ret(st, cInt(int64(v.Cap)))
			}

			return ret(st, cInt(int64(v.Len)))
		case Const:
			if s, ok := asStr(v); ok {
				return ret(st, cInt(int64(len(s))))
			}
		case *MapV:
			if m := st.getMap(v.ID); m != nil && !m.Sym {
				return ret(st, cInt(int64(len(m.Keys))))
			}
		case *Struct:
			return ret(st, cInt(int64(len(v.F))))
		}

		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return ret(st, cInt(at.Len()))
			}
		}

		return ret(st, st.norm(T(types.Typ[types.Int], name, args[0])))

	case "append":
		return ret(st, in.appendVal(st, args, c, res))

	case "copy":
		d, ok1 := args[0].(*Slice)
		s, ok2 := args[1].(*Slice)

		if ok1 && ok2 {
			n := d.Len
			if s.Len < n {
				n = s.Len
			}

			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()

			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, st.loadAt(s.Root, fmt.Sprintf("%s[%d]", s.Path, s.Off+i), et))
			}

			for i, v := range vs {
				st.storeAt(d.Root, fmt.Sprintf("%s[%d]", d.Path, d.Off+i), v, et)
			}

			return ret(st, cInt(int64(n)))
		}

		st.event("copy", "", f.fn, pos, nil, args...)

		return ret(st, T(types.Typ[types.Int], "copy!"+st.fresh()))

	case "delete":
		if in.OnStore != nil {
			in.OnStore(st, args[0], Nil{}, pos, f.fn)
		}

		in.mapDel(st, args[0], args[1])

		return ret(st, Tuple{})

	case "recover":
		if f.isDefer && len(st.pan) > 0 {
			r := &st.pan[len(st.pan)-1]
			if _, none := r.Val.(Nil); none || r.Recovered {
				return ret(st, Nil{})
			}

			v := r.Val
			st.pan[len(st.pan)-1] = PanRec{Val: v, Recovered: true}
			st.event("recover", "", f.fn, pos, v)

			if t := asTerm(v); t != nil {
				return ret(st, T(types.NewInterfaceType(nil, nil), "nonnil", t))
			}

			return ret(st, v)
		}

		return ret(st, Nil{})

	case "close":
		if in.Chan != nil {
			if outs, ok := in.Chan(&CallCtx{In: in, St: st, Pos: pos, From: f.fn, Depth: f.depth, fr: f}, "close", st.norm(args[0]), nil); ok {
				return outs
			}
		}

		st.event("close", "", f.fn, pos, nil, args...)

		return ret(st, Tuple{})

	case "panic":
		return []Out{{St: st, Kind: Panic, Val: args[0], Pos: pos, Why: "panic"}}

	case "print", "println":
		return ret(st, Tuple{})

	case "ssa:wrapnilchk":
		return ret(st, args[0])

	case "min", "max":
		if len(args) == 1 {
			return ret(st, args[0])
		}
	}

	v := resTerms(res, func(i int, t types.Type) Val { return T(t, "builtin-"+name+"."+fmt.Sprint(i), args...) })

	return ret(st, v)
}

func (in *Interp) appendVal(st *State, args []Val, c *ssa.CallCommon, res types.Type) Val {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()

	a := args[0]

	b := Val(Nil{})
	if len(args) > 1 {
		b = args[1]
	}

	if isNil(b) {
		return a
	}

	var s1 *Slice

	switch x := a.(type) {
	case Nil:
		s1 = &Slice{}
	case *Slice:
		s1 = x
	}

	s2, ok := b.(*Slice)
	if s, isS := asStr(b); isS {
		if len(s) == 0 {
			return a
		}
	}

	if s1 == nil || !ok {
		if s1 != nil && s1.Len == 0 {
			return T(c.Args[0].Type(), "append", Nil{}, in.seqVal(st, b, et))
		}

		return T(c.Args[0].Type(), "append", in.seqVal(st, a, et), in.seqVal(st, b, et))
	}

	o := st.alloc(et, "append")
	n := 0

	for _, s := range []*Slice{s1, s2} {
		for i := 0; i < s.Len; i++ {
			st.storeAt(o, fmt.Sprintf("[%d]", n), st.loadAt(s.Root, fmt.Sprintf("%s[%d]", s.Path, s.Off+i), et), et)
			n++
		}
	}

	return &Slice{Root: o, Len: n, Cap: n}
}

// seqVal is a value naming a slice's present contents.
func (in *Interp) seqVal(st *State, v Val, et types.Type) Val {
	s, ok := v.(*Slice)
	if !ok {
		return v
	}

	return T(nil, "seq", in.elems(st, s, et)...)
}

func (in *Interp) elems(st *State, s *Slice, et types.Type) []Val {
	var vs []Val
	for i := 0; i < s.Len; i++ {
		vs = append(vs, st.loadAt(s.Root, fmt.Sprintf("%s[%d]", s.Path, s.Off+i), et))
	}

	return vs
}

// pureFns are external functions whose results depend on their arguments
// alone and that touch nothing else.
func pureFn(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "errors.", "fmt.Sprint", "fmt.Errorf", "path.", "math.", "math/bits.", "sort.Search"} {
		if strings.HasPrefix(name, p) && !strings.Contains(name, "NewR") {
			return true
		}
	}

	if strings.HasPrefix(name, "path/filepath.") {
		switch strings.TrimPrefix(name, "path/filepath.") {
		case "Glob", "Walk", "WalkDir", "EvalSymlinks", "Abs":
			return false
		}

		return true
	}

	for _, p := range []string{"github.com/michaelmacinnis/adapted.CanonicalString", "github.com/michaelmacinnis/adapted.ActualBytes", "github.com/michaelmacinnis/adapted.Match", "regexp.MustCompile", "regexp.Compile", "(syscall.WaitStatus)", "(os.FileMode)", "(io/fs.FileMode)", "(*regexp.Regexp)", "regexp.QuoteMeta"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}

	return false
}

func (in *Interp) opaqueFn(c *CallCtx) []Out {
	if c.Fn.Blocks != nil && c.Fn.Synthetic != "" && strings.Contains(c.Fn.Synthetic, "package init") {
		return ret(c.St, Tuple{})
	}

	if fp := fnPkg(c.Fn); fp != nil && c.Fn.Name() == "init" && c.Fn.Synthetic != "" && !in.P.inModule(c.Fn) {
		return ret(c.St, Tuple{})
	}

	if pureFn(c.Name) {
		if v, ok := foldPure(c); ok {
			return ret(c.St, v)
		}

		if o := c.trim(); o != nil {
			return o
		}

		v := c.pureRes(c.Name)
		if c.Name == "errors.New" || c.Name == "fmt.Errorf" {
			if t := asTerm(v); t != nil {
				v = T(t.T, "nonnil", t)
			}
		}

		return ret(c.St, v)
	}

	switch c.Name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		c.St.event("call", c.Name, c.From, c.Pos, nil, c.Args...)

		return []Out{{St: c.St, Kind: Stop, Pos: c.Pos, Why: c.Name, Val: Nil{}}}
	}

	return c.effect("call", c.Name)
}

// sameAs gives a call that is another way of writing a simpler one that name.
func (c *CallCtx) sameAs() {
	switch c.Name {
	case "strconv.FormatInt":
		if n, ok := asInt(c.Args[1]); ok && n == 10 {
			x := c.St.norm(c.Args[0])
			if t := asTerm(x); t != nil && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 && t.Args[0] != nil {
				if it := asTerm(t.Args[0]); it != nil && it.T != nil && types.Identical(it.T, types.Typ[types.Int]) {
					x = it
				}
			}

			c.Name, c.Args = "strconv.Itoa", []Val{x}
		}
	}
}

// trim is what the functions that remove a known prefix or suffix do: one
// path for a text that has it and one for a text that does not.
func (c *CallCtx) trim() []Out {
	what, cut := "Prefix", strings.HasPrefix(c.Name, "strings.Cut")

	switch c.Name {
	case "strings.TrimPrefix", "strings.CutPrefix":
	case "strings.TrimSuffix", "strings.CutSuffix":
		what = "Suffix"
	default:
		return nil
	}

	x := c.St.norm(c.Args[0])

	p, ok := asStr(c.St.norm(c.Args[1]))
	if !ok || p == "" {
		return nil
	}

	str, i := types.Typ[types.String], int64(len(p))
	has := c.St.norm(T(types.Typ[types.Bool], "strings.Has"+what+".0", x, cStr(p)))

	var outs []Out

	for _, b := range []bool{true, false} {
		st := c.St.clone()
		if !st.assume(has, b) {
			continue
		}

		v := x

		switch {
		case b && what == "Prefix":
			v = st.norm(T(str, "slice", x, cInt(i), Nil{}))
		case b:
			n := c.In.binop(st, token.ADD, st.norm(T(types.Typ[types.Int], "len", x)), cInt(-i), types.Typ[types.Int])
			v = st.norm(T(str, "slice", x, Nil{}, n))
		}

		if cut {
			v = Tuple{v, cBool(b)}
		}

		outs = append(outs, Out{St: st, Kind: Ret, Val: v})
	}

	return outs
}

// foldPure evaluates a few string functions on constants.
func foldPure(c *CallCtx) (Val, bool) {
	switch c.Name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if s, ok := c.In.format(c.St, strings.TrimPrefix(c.Name, "fmt."), c.Args); ok {
			return cStr(s), ok
		}

		return c.In.joined(c.St, strings.TrimPrefix(c.Name, "fmt."), c.Args)
	}

	if c.Name == "strings.Join" {
		return c.In.join(c.St, c.Args[0], c.Args[1])
	}

	var ss []string

	for _, a := range c.Args {
		if s, ok := asStr(a); ok {
			ss = append(ss, s)
		} else if n, ok := asInt(a); ok {
			ss = append(ss, string(rune(n)))
		} else {
			return nil, false
		}
	}

	switch c.Name {
	case "strings.HasPrefix":
		return cBool(strings.HasPrefix(ss[0], ss[1])), true
	case "strings.HasSuffix":
		return cBool(strings.HasSuffix(ss[0], ss[1])), true
	case "strings.Contains":
		return cBool(strings.Contains(ss[0], ss[1])), true
	case "strings.ContainsAny":
		return cBool(strings.ContainsAny(ss[0], ss[1])), true
	case "strings.ContainsRune":
		return cBool(strings.Contains(ss[0], ss[1])), true
	case "strings.Index", "strings.IndexRune":
		return cInt(int64(strings.Index(ss[0], ss[1]))), true
	case "strings.IndexAny":
		return cInt(int64(strings.IndexAny(ss[0], ss[1]))), true
	case "strings.TrimSpace":
		return cStr(strings.TrimSpace(ss[0])), true
	case "strings.TrimSuffix":
		return cStr(strings.TrimSuffix(ss[0], ss[1])), true
	case "strings.TrimPrefix":
		return cStr(strings.TrimPrefix(ss[0], ss[1])), true
	case "strings.Trim":
		return cStr(strings.Trim(ss[0], ss[1])), true
	case "strings.ToLower":
		return cStr(strings.ToLower(ss[0])), true
	case "strings.ToUpper":
		return cStr(strings.ToUpper(ss[0])), true
	case "strings.TrimLeft":
		return cStr(strings.TrimLeft(ss[0], ss[1])), true
	case "strings.TrimRight":
		return cStr(strings.TrimRight(ss[0], ss[1])), true
	case "strings.LastIndex":
		return cInt(int64(strings.LastIndex(ss[0], ss[1]))), true
	case "strings.LastIndexAny":
		return cInt(int64(strings.LastIndexAny(ss[0], ss[1]))), true
	case "strings.IndexByte":
		return cInt(int64(strings.IndexByte(ss[0], ss[1][0]))), true
	case "strings.Count":
		return cInt(int64(strings.Count(ss[0], ss[1]))), true
	case "strings.EqualFold":
		return cBool(strings.EqualFold(ss[0], ss[1])), true
	case "strings.ReplaceAll":
		return cStr(strings.ReplaceAll(ss[0], ss[1], ss[2])), true
	case "strings.Replace":
		n, _ := asInt(c.Args[3])

		return cStr(strings.Replace(ss[0], ss[1], ss[2], int(n))), true
	case "strings.Repeat":
		n, ok := asInt(c.Args[1])
		if !ok || n < 0 || n > 1<<10 {
			return nil, false
		}

		return cStr(strings.Repeat(ss[0], int(n))), true
	case "strings.Cut":
		x, y, ok := strings.Cut(ss[0], ss[1])

		return Tuple{cStr(x), cStr(y), cBool(ok)}, true
	case "strings.Split":
		return texts2(c.St, strings.Split(ss[0], ss[1])...), true
	case "strings.SplitAfter":
		return texts2(c.St, strings.SplitAfter(ss[0], ss[1])...), true
	case "strings.SplitN":
		n, _ := asInt(c.Args[2])

		return texts2(c.St, strings.SplitN(ss[0], ss[1], int(n))...), true
	case "strings.Fields":
		return texts2(c.St, strings.Fields(ss[0])...), true
	case "path/filepath.IsAbs":
		return cBool(filepath.IsAbs(ss[0])), true
	case "path/filepath.Base":
		return cStr(filepath.Base(ss[0])), true
	}

	return nil, false
}

// join is the concatenation of the texts of a slice.
func (in *Interp) join(st *State, texts, sep Val) (Val, bool) {
	str := types.Typ[types.String]

	s, ok := texts.(*Slice)
	if !ok {
		return cStr(""), isNil(texts)
	}

	acc := Val(cStr(""))

	for i, e := range in.elems(st, s, str) {
		if i > 0 {
			acc = in.binop(st, token.ADD, acc, sep, str)
		}

		acc = in.binop(st, token.ADD, acc, e, str)
	}

	return acc, true
}

// joined is the text Sprintf makes of texts (and integers) not all of which
// are known: what "%s", "%v" and "%d" stand for, in its place.
func (in *Interp) joined(st *State, kind string, args []Val) (Val, bool) {
	if kind != "Sprintf" || len(args) != 2 {
		return nil, false
	}

	f, ok := asStr(st.norm(args[0]))
	sl, ok2 := args[1].(*Slice)

	if !ok || !ok2 {
		return nil, false
	}

	es := in.elems(st, sl, types.Universe.Lookup("any").Type())
	str := types.Typ[types.String]
	v := Val(cStr(""))

	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			v = concat(str, v, cStr(f[i:i+1]))

			continue
		}

		i++

		if i == len(f) {
			return nil, false
		}

		if f[i] == '%' {
			v = concat(str, v, cStr("%"))

			continue
		}

		if len(es) == 0 {
			return nil, false
		}

		e, ok := st.norm(es[0]).(*Iface)
		es = es[1:]

		if !ok {
			return nil, false
		}

		b, ok := types.Unalias(e.T).(*types.Basic)
		if !ok {
			return nil, false
		}

		x := st.norm(e.V)

		switch {
		case b.Kind() == types.String && (f[i] == 's' || f[i] == 'v'):
		case b.Kind() == types.Int && (f[i] == 'd' || f[i] == 'v'):
			if n, ok := asInt(x); ok {
				x = cStr(fmt.Sprint(n))
			} else {
				x = st.norm(T(str, "strconv.Itoa.0", x))
			}
		default:
			return nil, false
		}

		v = concat(str, v, x)
	}

	if len(es) != 0 {
		return nil, false
	}

	return st.norm(v), true
}

// format is the text a printing function makes of known arguments.
// said is what the String or Error method of a value returns, when that is a
// text that is known.
func (in *Interp) said(st *State, i *Iface) (string, bool) {
	for _, n := range []string{"Error", "String"} {
		sel := types.NewMethodSet(i.T).Lookup(nil, n)
		if sel == nil {
			continue
		}

		f := in.P.SSA.MethodValue(sel)
		if f == nil || f.Blocks == nil || f.Signature.Params().Len() != 0 {
			return "", false
		}

		if h := in.Hooks[in.P.fname(f)]; h == nil && !in.P.inModule(f) {
			return "", false
		}

		o := in.Call(st.clone(), f, []Val{i.V}, nil, 0, false)
		if len(o) != 1 || o[0].Kind != Ret {
			return "", false
		}

		return asStr(o[0].St.norm(o[0].Val))
	}

	return "", false
}

func (in *Interp) format(st *State, kind string, args []Val) (string, bool) {
	f := ""

	if strings.HasSuffix(kind, "f") {
		s, ok := asStr(args[0])
		if !ok {
			return "", false
		}

		f, args = s, args[1:]
	}

	var vs []any

	if len(args) == 1 && !isNil(args[0]) {
		sl, ok := args[0].(*Slice)
		if !ok {
			return "", false
		}

		for _, e := range in.elems(st, sl, types.Universe.Lookup("any").Type()) {
			i, ok := st.norm(e).(*Iface)
			if !ok {
				return "", false
			}

			if _, ok := types.Unalias(i.T).(*types.Basic); !ok {
				t, ok := in.said(st, i)
				if !ok {
					return "", false
				}

				vs = append(vs, t)

				continue
			}

			v := st.norm(i.V)
			if s, ok := asStr(v); ok {
				vs = append(vs, s)
			} else if n, ok := asInt(v); ok {
				vs = append(vs, int(n))
			} else {
				return "", false
			}
		}
	}

	switch {
	case strings.HasSuffix(kind, "f"):
		return fmt.Sprintf(f, vs...), true
	case strings.HasSuffix(kind, "ln"):
		return fmt.Sprintln(vs...), true
	}

	return fmt.Sprint(vs...), true
}
