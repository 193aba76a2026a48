package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kit evaluates library functions over abstract cells, with the arbitrary
// precision arithmetic of math/big replaced by an algebra of value terms.
type kit struct {
	c    *Check
	p    *Program
	w    *World
	in   *Interp
	cell types.Type
	st0  *State
}

func newKit(c *Check) *kit {
	p := c.P
	k := &kit{c: c, p: p, w: world(p, "internal/engine/commands"), in: newInterp(p)}

	cn := p.typ("internal/common/interface/cell", "I")
	if cn == nil {
		panic(budgetError{"type cell.I not found"})
	}

	k.cell = cn
	k.st0 = k.w.Init
	k.bigHooks()

	in := k.in
	in.MaxVisit = 6
	in.Hooks["invoke internal/common/interface/rational.I.Rat"] = func(c *CallCtx) ([]Out, bool) {
		v := T(c.Res, "nonnil", T(c.Res, "ratptr", c.Args[0]))

		return ret(c.St, v), true
	}
	in.Hooks["invoke fmt.Stringer.String"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.String], "text", c.Args[0]))), true
	}
	in.Hooks["invoke internal/common/interface/literal.I.Literal"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.String], "literal", c.Args[0]))), true
	}
	in.Hooks["invoke internal/common/interface/cell.I.Name"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(types.Typ[types.String], "name", c.Args...)), true
	}
	in.Hooks["invoke internal/common/interface/boolean.I.Bool"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "bool", c.Args...))), true
	}
	in.Hooks["invoke internal/common/interface/cell.I.Equal"] = func(c *CallCtx) ([]Out, bool) {
		a, b := c.St.norm(c.Args[0]), c.St.norm(c.Args[1])
		if b.Key() < a.Key() {
			a, b = b, a
		}

		return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "equal", a, b))), true
	}

	// Comparing lists recursively: what the comparison means for shorter
	// lists is what is being established for longer ones.
	pt := k.ptrT("internal/common/type/pair", "T")
	in.OnRec = map[*ssa.Function]Hook{}

	for _, f := range p.funcsIn("internal/common/type/pair") {
		rs := f.Signature.Results()
		if rs.Len() != 1 || !types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) || len(f.Params) < 2 {
			continue
		}

		pairs := true

		for _, q := range f.Params[:2] {
			if !types.Identical(q.Type(), pt) && !types.Identical(q.Type(), cn) {
				pairs = false
			}
		}

		if !pairs {
			continue
		}

		f := f
		in.OnRec[f] = func(c *CallCtx) ([]Out, bool) {
			a, b := wrap(c.St, f.Params[0].Type(), c.Args[0]), wrap(c.St, f.Params[1].Type(), c.Args[1])
			if b.Key() < a.Key() {
				a, b = b, a
			}

			return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "equal", a, b))), true
		}
	}

	// The text of a list is its own (recursive) business.
	for n, op := range map[string]string{"String": "text", "Literal": "literal"} {
		op := op
		if m := p.SSA.LookupMethod(k.ptrT("internal/common/type/pair", "T"), nil, n); m != nil {
			in.Hooks[p.fname(m)] = func(c *CallCtx) ([]Out, bool) {
				return ret(c.St, T(types.Typ[types.String], op, c.Args[0])), true
			}
		}
	}

	quiet := func(c *CallCtx) ([]Out, bool) { return ret(c.St, c.freshRes(c.Name)), true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		in.Hooks[n] = quiet
	}

	for _, n := range []string{"WriteString", "WriteByte", "WriteRune", "Write", "Grow", "Reset", "String", "Len"} {
		n := n
		in.Hooks["(*strings.Builder)."+n] = func(c *CallCtx) ([]Out, bool) { return k.builder(c, n) }
	}

	in.Hooks["strings.ReplaceAll"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.String], "strings.Replace.0", append(append([]Val{}, c.Args...), cInt(-1))...))), true
	}

	return k
}

func (k *kit) builder(c *CallCtx, n string) ([]Out, bool) {
	key := "builder:" + c.Args[0].Key()
	cur, ok := c.St.User[key]

	if !ok {
		cur = cStr("")
	}

	str := types.Typ[types.String]

	switch n {
	case "WriteString":
		c.St.User[key] = k.in.binop(c.St, token.ADD, cur, c.Args[1], str)
	case "WriteByte", "WriteRune":
		x := Val(T(str, "rune", c.Args[1]))
		if i, ok := asInt(c.Args[1]); ok {
			x = cStr(string(rune(i)))
		}

		c.St.User[key] = k.in.binop(c.St, token.ADD, cur, x, str)
	case "Reset":
		c.St.User[key] = cStr("")
	case "String":
		return ret(c.St, cur), true
	case "Grow":
	default:
		return nil, false
	}

	if tu, ok := c.Res.(*types.Tuple); ok && tu.Len() == 2 {
		return ret(c.St, Tuple{T(types.Typ[types.Int], "n"), Nil{}}), true
	}

	return ret(c.St, Nil{}), true
}

// The algebra of math/big values.

func freshPtr(v Val) bool {
	if t := asTerm(v); t != nil && (t.Op == "ratnum" || t.Op == "ratden") {
		return freshPtr(t.Args[0])
	}

	p, ok := v.(*Ptr)
	if !ok {
		return false
	}

	o, ok := p.Root.(*Obj)

	return ok && !o.Base && !o.Sym
}

// ratVal names the value a *big.Rat points to on this path.
func (k *kit) ratVal(st *State, p Val) Val {
	p = st.norm(p)
	if v, ok := st.User["rat:"+p.Key()]; ok {
		return v
	}

	if freshPtr(p) {
		return T(nil, "q0")
	}

	if t := asTerm(p); t != nil && t.Op == "nonnil" {
		p = t.Args[0]
	}

	return T(nil, "qv", p)
}

func (k *kit) intVal(st *State, p Val) Val {
	p = st.norm(p)
	if t := asTerm(p); t != nil && t.Op == "ratnum" {
		return T(nil, "num", k.ratVal(st, t.Args[0]))
	}

	if t := asTerm(p); t != nil && t.Op == "ratden" {
		return T(nil, "den", k.ratVal(st, t.Args[0]))
	}

	if v, ok := st.User["int:"+p.Key()]; ok {
		return v
	}

	if freshPtr(p) {
		return T(nil, "q0")
	}

	return T(nil, "zv", p)
}

func (k *kit) bigWrite(c *CallCtx, kind string, v Val) {
	c.St.event("bigwrite", c.Name, c.From, c.Pos, v, c.Args[0])
	c.St.User[kind+":"+c.St.norm(c.Args[0]).Key()] = v
}

// cmp3 decides the order of two value terms, forking when it is unknown.
func (k *kit) cmp3(c *CallCtx, a, b Val, mk func(int64) Val) []Out {
	neg := false
	if b.Key() < a.Key() {
		a, b, neg = b, a, true
	}

	sign := func(n int64) int64 {
		if neg {
			return -n
		}

		return n
	}

	if a.Key() == b.Key() {
		return ret(c.St, mk(0))
	}

	key := "cmp:" + a.Key() + "|" + b.Key()
	if v, ok := c.St.User[key]; ok {
		n, _ := asInt(v)

		return ret(c.St, mk(sign(n)))
	}

	var outs []Out

	for _, n := range []int64{-1, 0, 1} {
		s := c.St.clone()
		s.User[key] = cInt(n)
		outs = append(outs, Out{St: s, Kind: Ret, Val: mk(sign(n))})
	}

	return outs
}

// order is the recorded comparison of two values, if the path decided it.
func order(st *State, a, b Val) (int64, bool) {
	if a.Key() == b.Key() {
		return 0, true
	}

	sg := int64(1)
	if b.Key() < a.Key() {
		a, b, sg = b, a, -1
	}

	v, ok := st.User["cmp:"+a.Key()+"|"+b.Key()]
	if !ok {
		return 0, false
	}

	n, _ := asInt(v)

	return sg * n, true
}

func fork2(st *State, key string, a, b Out) []Out {
	if v, ok := st.User[key]; ok {
		if t, _ := asBool(v); t {
			a.St = st

			return []Out{a}
		}

		b.St = st

		return []Out{b}
	}

	s2 := st.clone()
	st.User[key] = cBool(true)
	s2.User[key] = cBool(false)
	a.St, b.St = st, s2

	return []Out{a, b}
}

func (k *kit) bigHooks() {
	in := k.in
	zero := T(nil, "q0")
	num := func(n int64) Val {
		if n == 0 {
			return zero
		}

		return T(nil, "qc", cInt(n))
	}

	for _, t := range []struct {
		typ, kind string
		val       func(*State, Val) Val
	}{{"Rat", "rat", k.ratVal}, {"Int", "int", k.intVal}} {
		t := t
		h := func(n string, f Hook) { in.Hooks["(*math/big."+t.typ+")."+n] = f }

		h("Cmp", func(c *CallCtx) ([]Out, bool) {
			return k.cmp3(c, t.val(c.St, c.Args[0]), t.val(c.St, c.Args[1]), cInt), true
		})
		h("Sign", func(c *CallCtx) ([]Out, bool) { return k.cmp3(c, t.val(c.St, c.Args[0]), zero, cInt), true })

		for n, op := range map[string]string{"Add": "q+", "Sub": "q-", "Mul": "q*"} {
			op := op
			h(n, func(c *CallCtx) ([]Out, bool) {
				k.bigWrite(c, t.kind, T(nil, op, t.val(c.St, c.Args[1]), t.val(c.St, c.Args[2])))

				return ret(c.St, c.Args[0]), true
			})
		}

		for _, n := range []string{"Quo", "Rem", "Div", "Mod"} {
			op := "q/"
			if t.typ == "Int" {
				op = "z" + strings.ToLower(n)
			}

			h(n, func(c *CallCtx) ([]Out, bool) {
				d := t.val(c.St, c.Args[2])
				outs := k.cmp3(c, d, zero, cInt)

				for i, o := range outs {
					if m, _ := asInt(o.Val); m == 0 {
						outs[i] = Out{St: o.St, Kind: Panic, Val: &Iface{types.Typ[types.String], cStr("division by zero")}, Pos: c.Pos, Why: "division by zero"}

						continue
					}

					cc := *c
					cc.St = o.St
					k.bigWrite(&cc, t.kind, T(nil, op, t.val(o.St, c.Args[1]), d))
					outs[i].Val = c.Args[0]
				}

				return outs, true
			})
		}

		h("Set", func(c *CallCtx) ([]Out, bool) {
			k.bigWrite(c, t.kind, t.val(c.St, c.Args[1]))

			return ret(c.St, c.Args[0]), true
		})
		h("Neg", func(c *CallCtx) ([]Out, bool) {
			k.bigWrite(c, t.kind, T(nil, "q-", zero, t.val(c.St, c.Args[1])))

			return ret(c.St, c.Args[0]), true
		})
		h("SetInt64", func(c *CallCtx) ([]Out, bool) {
			v := Val(T(nil, "qi", c.Args[1]))
			if n, ok := asInt(c.Args[1]); ok {
				v = num(n)
			}

			k.bigWrite(c, t.kind, v)

			return ret(c.St, c.Args[0]), true
		})
		h("SetString", func(c *CallCtx) ([]Out, bool) {
			v := T(nil, "parse", c.Args[1])
			key := "parses:" + c.Args[1].Key()
			_, known := c.St.User[key]
			outs := fork2(c.St, key, Out{Kind: Ret, Val: Tuple{c.Args[0], cBool(true)}}, Out{Kind: Ret, Val: Tuple{Nil{}, cBool(false)}})

			_ = known

			for _, o := range outs {
				if _, bad := o.Val.(Tuple)[0].(Nil); !bad {
					cc := *c
					cc.St = o.St
					k.bigWrite(&cc, t.kind, v)
				}
			}

			return outs, true
		})
		h("String", func(c *CallCtx) ([]Out, bool) {
			return ret(c.St, T(types.Typ[types.String], t.kind+"str", t.val(c.St, c.Args[0]))), true
		})
		h("IsInt64", func(c *CallCtx) ([]Out, bool) {
			return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "isint64", t.val(c.St, c.Args[0])))), true
		})
		h("Int64", func(c *CallCtx) ([]Out, bool) {
			return ret(c.St, c.St.norm(T(types.Typ[types.Int64], "int64", t.val(c.St, c.Args[0])))), true
		})
	}

	in.Hooks["(*math/big.Rat).RatString"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(types.Typ[types.String], "ratstring", k.ratVal(c.St, c.Args[0]))), true
	}
	in.Hooks["(*math/big.Rat).IsInt"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "isint", k.ratVal(c.St, c.Args[0])))), true
	}
	in.Hooks["(*math/big.Rat).Num"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(c.Res, "ratnum", c.St.norm(c.Args[0]))), true
	}
	in.Hooks["(*math/big.Rat).Denom"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(c.Res, "ratden", c.St.norm(c.Args[0]))), true
	}
	in.Hooks["(*math/big.Rat).SetInt"] = func(c *CallCtx) ([]Out, bool) {
		k.bigWrite(c, "rat", k.intVal(c.St, c.Args[1]))

		return ret(c.St, c.Args[0]), true
	}
	in.Hooks["math/big.NewRat"] = func(c *CallCtx) ([]Out, bool) {
		o := c.St.alloc(c.Res.(*types.Pointer).Elem(), "NewRat")
		v := Val(T(nil, "q/", T(nil, "qi", c.Args[0]), T(nil, "qi", c.Args[1])))

		if d, ok := asInt(c.Args[1]); ok && d == 1 {
			v = T(nil, "qi", c.Args[0])
			if n, ok := asInt(c.Args[0]); ok {
				v = num(n)
			}
		}

		c.St.User["rat:"+P(o, "").Key()] = v

		return ret(c.St, P(o, "")), true
	}
	in.Hooks["math/big.NewInt"] = func(c *CallCtx) ([]Out, bool) {
		o := c.St.alloc(c.Res.(*types.Pointer).Elem(), "NewInt")
		v := Val(T(nil, "qi", c.Args[0]))

		if n, ok := asInt(c.Args[0]); ok {
			v = num(n)
		}

		c.St.User["int:"+P(o, "").Key()] = v

		return ret(c.St, P(o, "")), true
	}
}

// qeval gives a value term a concrete rational, atoms at pseudo-random
// points: two terms built from + - * / are the same rational function iff
// they agree at generic points.
func qeval(v Val, salt string) (*big.Rat, bool) {
	t := asTerm(v)
	if t == nil {
		return nil, false
	}

	switch t.Op {
	case "q0":
		return new(big.Rat), true
	case "qc":
		n, _ := asInt(t.Args[0])

		return big.NewRat(n, 1), true
	case "q+", "q-", "q*", "q/":
		a, ok1 := qeval(t.Args[0], salt)
		b, ok2 := qeval(t.Args[1], salt)

		if !ok1 || !ok2 {
			return nil, false
		}

		switch t.Op {
		case "q+":
			return new(big.Rat).Add(a, b), true
		case "q-":
			return new(big.Rat).Sub(a, b), true
		case "q*":
			return new(big.Rat).Mul(a, b), true
		}

		if b.Sign() == 0 {
			return nil, false
		}

		return new(big.Rat).Quo(a, b), true
	}

	h := fnv.New64a()
	_, _ = h.Write([]byte(salt + v.Key()))
	x := h.Sum64()

	return big.NewRat(int64(x%1000003)+2, int64((x>>32)%7919)+1), true
}

func sameRat(a, b Val) bool {
	if a.Key() == b.Key() {
		return true
	}

	for _, salt := range []string{"a", "b", "c"} {
		x, ok1 := qeval(a, salt)
		y, ok2 := qeval(b, salt)

		if !ok1 || !ok2 || x.Cmp(y) != 0 {
			return false
		}
	}

	return true
}

// Cells.

func (k *kit) ptrT(rel, name string) types.Type {
	n := k.p.typ(rel, name)
	if n == nil {
		panic(budgetError{"type " + rel + "." + name + " not found"})
	}

	return types.NewPointer(n)
}

// obj is an existing cell of type *rel.name with unknown contents.
func (k *kit) obj(rel, name, id string) Val {
	t := k.ptrT("internal/common/type/"+rel, name)

	return &Iface{t, P(&Obj{ID: rel + ":" + id, T: t.(*types.Pointer).Elem(), Sym: true, Base: true}, "")}
}

func (k *kit) unk(st *State, name string) Val {
	t := T(k.cell, "arg:"+name)
	nonNil(st, t)

	return t
}

func (k *kit) glob(st *State, rel, name string) Val {
	g := k.p.global(rel, name)
	if g == nil {
		panic(budgetError{"variable " + rel + "." + name + " not found"})
	}

	return st.load(k.in.globalPtr(g), k.cell)
}

func (k *kit) null(st *State) Val  { return k.glob(st, "internal/common/type/pair", "Null") }
func (k *kit) truth(st *State) Val { return k.glob(st, "internal/common/type/sym", "True") }

// list builds a list of fresh or existing (base) pairs.
func (k *kit) list(st *State, vs ...Val) Val {
	l := k.null(st)

	for i := len(vs) - 1; i >= 0; i-- {
		outs := k.in.Call(st, k.p.fn("internal/common/type/pair", "Cons"), []Val{vs[i], l}, nil, 0, false)
		if len(outs) != 1 || outs[0].Kind != Ret || outs[0].St != st {
			panic(budgetError{"pair.Cons has more than one outcome"})
		}

		l = outs[0].Val
	}

	return l
}

func (k *kit) seal(v Val) {
	if i, ok := v.(*Iface); ok {
		markBase(i, 0)
	}
}

// elems lists a proper list's elements; ok is false for anything else.
func (k *kit) elems(st *State, l Val) (vs []Val, ok bool) {
	null := k.null(st)
	pt := k.ptrT("internal/common/type/pair", "T")

	for i := 0; i < 24; i++ {
		l = st.norm(l)
		if l.Key() == null.Key() {
			return vs, true
		}

		x, ok := l.(*Iface)
		if !ok || !types.Identical(x.T, pt) {
			return vs, false
		}

		root, path, ok := addr(x.V)
		if !ok {
			return vs, false
		}

		vs = append(vs, st.norm(st.loadAt(root, path+".car", k.cell)))
		l = st.loadAt(root, path+".cdr", k.cell)
	}

	return vs, false
}

// tname is the short dynamic type of a cell: num, str, pair, ...
func tname(v Val) string {
	i, ok := v.(*Iface)
	if !ok {
		return ""
	}

	n := namedOf(i.T)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}

	q := n.Obj().Pkg().Path()
	q = q[strings.LastIndex(q, "/")+1:]

	if n.Obj().Name() != "T" {
		q += "." + n.Obj().Name()
	}

	return q
}

func cellPtr(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}

	return v
}

// text is the string a str or sym cell holds.
func (k *kit) text(st *State, v Val) Val {
	root, path, ok := addr(cellPtr(v))
	if !ok {
		return nil
	}

	return st.norm(st.loadAt(root, path, types.Typ[types.String]))
}

// registry evaluates an exported name-to-function table.
func (k *kit) registry(name string) map[string]*ssa.Function {
	f := k.p.fn("internal/engine/commands", name)
	if f == nil {
		panic(budgetError{"commands." + name + " not found"})
	}

	outs := k.in.Call(k.st0.clone(), f, nil, nil, 0, false)
	if len(outs) != 1 || outs[0].Kind != Ret {
		panic(budgetError{"commands." + name + " has more than one outcome"})
	}

	m, ok := outs[0].Val.(*MapV)
	if !ok {
		panic(budgetError{"commands." + name + " does not return a literal table"})
	}

	mo := outs[0].St.getMap(m.ID)
	r := map[string]*ssa.Function{}

	for i, kv := range mo.Keys {
		s, ok := asStr(kv)
		f, ok2 := mo.Vals[i].(*Fn)

		if !ok || !ok2 {
			panic(budgetError{"commands." + name + " has an entry that is not a named function"})
		}

		r[s] = f.F
	}

	return r
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

// run evaluates f and drops the paths cut at a bound.
func (k *kit) run(st *State, f *ssa.Function, args ...Val) []Out {
	k.in.Steps = 0

	var outs []Out

	for _, o := range k.in.Call(st, f, args, nil, 0, false) {
		if o.Kind != Trunc {
			outs = append(outs, o)
		}
	}

	return outs
}

// implementors lists the module's concrete types with the given interface,
// as the type that implements it (usually a pointer).
func (p *Program) implementors(i types.Type) []types.Type {
	it := i.Underlying().(*types.Interface)

	var ts []types.Type

	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || isIface(tn.Type()) {
				continue
			}

			pt := types.NewPointer(tn.Type())

			switch {
			case types.Implements(tn.Type(), it) && !isStructLike(tn.Type()):
				ts = append(ts, tn.Type())
			case types.Implements(pt, it):
				ts = append(ts, pt)
			}
		}
	}

	sort.Slice(ts, func(a, b int) bool { return tstr(ts[a]) < tstr(ts[b]) })

	return ts
}

// boxed is the set of types some function converts to an interface type.
func (p *Program) boxed() map[string]bool {
	m := map[string]bool{}

	for _, f := range p.Src {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.MakeInterface); ok {
					m[tstr(x.X.Type())] = true
				}
			}
		}
	}

	return m
}

func isRuntime(v Val) bool {
	t := asTerm(v)

	return t != nil && strings.HasPrefix(t.Op, "runtime:")
}

// le proves a <= b from the facts of a path.
func le(st *State, a, b Val, d int) bool {
	a, b = st.norm(a), st.norm(b)
	if a.Key() == b.Key() {
		return true
	}

	_, h, _, ok1 := st.bounds(a)
	l, _, ok2, _ := st.bounds(b)

	if ok1 && ok2 && h <= l {
		return true
	}

	if v, ok := asBool(st.norm(st.less(b, a))); ok && !v {
		return true
	}

	if v, ok := asBool(st.norm(st.less(a, b))); ok && v {
		return true
	}

	if d == 0 {
		return false
	}

	if t := asTerm(a); t != nil && t.Op == "+" && len(t.Args) == 2 {
		for i := 0; i < 2; i++ {
			if _, h, _, ok := st.bounds(t.Args[i]); ok && h <= 0 && le(st, t.Args[1-i], b, d-1) {
				return true
			}
		}
	}

	return false
}

func typeLabel(t types.Type) string {
	s := tstr(t)

	return strings.TrimPrefix(strings.ReplaceAll(s, "github.com/michaelmacinnis/oh/internal/", ""), "*")
}

var _ = constant.MakeBool
var _ = fmt.Sprint
