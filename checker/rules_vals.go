package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C13"] = rule{
		explain: "Effect analysis. Every registered builtin, list method and string function is evaluated over abstract operands that existed before the call; any store into such an operand, and any arithmetic whose destination is one, is a violation except in the list methods that are defined to modify their list. Over the whole module, each math/big call that writes its receiver, each store into a value cell, and each call of a list mutator must have a destination that the function itself created.",
		assume:  []string{libBound, "no unsafe or reflective writes"},
		run:     checkC13,
	}
	rules["C20"] = rule{
		explain: "Every registered builtin, list method and string function is evaluated over abstract operands for each operand count; an operand count it does not take must raise an error, and no count or kind of operand may end in an internal fault (index out of range, nil dereference, failed conversion). List and string indexing is evaluated with a case split over the whole range of the index relative to the length, and the selected elements are compared with the documented ones.",
		assume:  []string{libBound, "string functions of the Go library"},
		run:     checkC20,
	}
}

// splitInt64 forks an integer operand into each value near zero and the two
// remaining tails, so that indexing is decided for every possible operand.
func (k *kit) splitInt64(m int64) {
	h := k.in.Hooks["(*math/big.Int).Int64"]
	k.in.Hooks["(*math/big.Int).Int64"] = func(c *CallCtx) ([]Out, bool) {
		outs, ok := h(c)
		if !ok || len(outs) != 1 {
			return outs, ok
		}

		key := "split:" + outs[0].Val.Key()
		if v, ok := c.St.User[key]; ok {
			return ret(c.St, v), true
		}

		var rs []Out

		for n := -m; n <= m; n++ {
			s := c.St.clone()
			s.User[key] = Const{cInt(n).(Const).V, types.Typ[types.Int64]}
			rs = append(rs, Out{St: s, Kind: Ret, Val: s.User[key]})
		}

		for _, hi := range []bool{false, true} {
			s := c.St.clone()
			t := T(types.Typ[types.Int64], map[bool]string{true: "above", false: "below"}[hi], outs[0].Val)

			if hi {
				s.setLo(t, m+1)
				s.setHi(t, 1<<60)
			} else {
				s.setHi(t, -m-1)
				s.setLo(t, -1<<60)
			}

			s.User[key] = t
			rs = append(rs, Out{St: s, Kind: Ret, Val: t})
		}

		return rs, true
	}
}

// valuePkgs are the packages whose cells are values.
func valueType(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}

	p := n.Obj().Pkg().Path()
	for _, q := range []string{"num", "status", "str", "sym", "pair"} {
		if strings.HasSuffix(p, "internal/common/type/"+q) {
			return q
		}
	}

	return ""
}

var listMutators = map[string]bool{"append": true, "extend": true, "set-head": true, "set-tail": true}

func checkC13(c *Check) {
	k := newKit(c)
	k.splitInt64(3)

	type write struct {
		what string
		pos  token.Pos
	}

	var bad []write

	mayModify := false

	k.in.OnStore = func(st *State, p, _ Val, pos token.Pos, fn *ssa.Function) {
		root, _, ok := addr(st.norm(p))
		if !ok {
			return
		}

		o, ok := root.(*Obj)
		if !ok || !o.Base && !o.Sym {
			return
		}

		if q := valueType(o.T); q != "" && !(mayModify && q == "pair") {
			bad = append(bad, write{fmt.Sprintf("%s writes to an existing %s", c.P.fname(fn), q), pos})
		}
	}

	null := func(st *State) Val { return k.null(st) }
	_ = null

	try := func(table, name string, f *ssa.Function, self func(st *State, n int) Val) {
		c.guard("effects", name, func() {
			mayModify = table == "list method" && listMutators[name]
			maxSelf := 0

			if self != nil {
				maxSelf = 3
			}

			paths := 0

			for _, kind := range []string{"any", "num", "str", "pair"} {
				for n := 0; n <= 3; n++ {
					for m := 0; m <= maxSelf; m++ {
						st := k.st0.clone()

						var vs []Val

						for i := 0; i < n; i++ {
							switch kind {
							case "any":
								vs = append(vs, k.unk(st, fmt.Sprint(i)))
							case "pair":
								e := k.list(st, k.unk(st, fmt.Sprint("a", i)), k.unk(st, fmt.Sprint("b", i)))
								k.sealList(st, e)
								vs = append(vs, e)
							default:
								vs = append(vs, k.obj(kind, "T", fmt.Sprint(i)))
							}
						}

						args := []Val{k.list(st, vs...)}
						if self != nil {
							s := self(st, m)
							k.sealList(st, s)
							args = append([]Val{s}, args...)
						}

						bad = nil

						outs := k.run(st, f, args...)
						paths += len(outs)

						for _, w := range bad {
							c.fail("operand-unchanged", table+" "+name, w.pos, "%s with %d operands (%s)", w.what, n, kind)
						}

						for _, o := range outs {
							for _, e := range o.St.events() {
								if e.Kind == "bigwrite" && !freshPtr(o.St.norm(e.Args[0])) {
									c.fail("operand-unchanged", table+" "+name, e.Pos, "%s writes its result into an operand", e.Name)
								}
							}

							if mayModify && o.Kind == Ret {
								nl := k.null(o.St).(*Iface)
								root, _, _ := addr(nl.V)
								a := o.St.norm(o.St.loadAt(root, ".car", k.cell))
								b := o.St.norm(o.St.loadAt(root, ".cdr", k.cell))
								c.ob("empty-list", table+" "+name, a.Key() == nl.Key() && b.Key() == nl.Key(), o.Pos, "the empty list now holds %s and %s", show(a), show(b))
							}
						}
					}
				}
			}

			c.ob("operand-unchanged", table+" "+name, paths > 0, f.Pos(), "%d paths analysed", paths)
		})
	}

	n := 0

	fs := k.registry("Functions")
	for _, name := range sorted(fs) {
		if name == "open" || name == "temp-fifo" || name == "pipe" || name == "debug" {
			continue
		}

		try("builtin", name, fs[name], nil)

		n++
	}

	fs = k.registry("StringFunctions")
	for _, name := range sorted(fs) {
		try("string function", name, fs[name], nil)

		n++
	}

	fs = k.registry("ListMethods")
	for _, name := range sorted(fs) {
		try("list method", name, fs[name], func(st *State, m int) Val {
			var vs []Val
			for i := 0; i < m; i++ {
				vs = append(vs, k.unk(st, fmt.Sprint("e", i)))
			}

			return k.list(st, vs...)
		})

		n++
	}

	c.atLeast("effects", n, 20)
	c.enter(k.in)

	// The whole module.
	fr := &freshness{p: c.P, memo: map[ssa.Value]bool{}}
	big, stores, muts := 0, 0, 0

	for _, f := range c.P.Src {
		pkg := ""
		if f.Package() != nil {
			pkg = f.Package().Pkg.Path()
		}

		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					cal := x.Common().StaticCallee()
					if cal == nil {
						continue
					}

					if bigMutator(cal) {
						big++
						c.ob("big-destination", c.P.fname(f), fr.fresh(x.Common().Args[0], 0), i.Pos(), "the destination of %s is a number this function created", cal.Name())
					}

					if listMutator(cal) && !strings.HasSuffix(pkg, "internal/common/type/list") && !strings.Contains(pkg, "internal/engine/commands") && !strings.Contains(pkg, "internal/reader/") {
						muts++
						c.ob("list-destination", c.P.fname(f), fr.fresh(x.Common().Args[0], 0), i.Pos(), "the list %s extends is one this function created", cal.Name())
					}
				case *ssa.Store:
					base := x.Addr
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							base = fa.X

							continue
						}

						break
					}

					pt, ok := base.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}

					q := valueType(pt.Elem())
					if q == "" {
						continue
					}

					stores++

					inPair := q == "pair" && strings.HasSuffix(pkg, "internal/common/type/pair")
					c.ob("value-store", c.P.fname(f), inPair || fr.fresh(base, 0), i.Pos(), "a %s is written where it is created", q)
				}
			}
		}
	}

	c.atLeast("big-destination", big, 3)
	c.atLeast("value-store", stores, 1)
	c.atLeast("list-destination", muts, 1)
}

func bigMutator(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "math/big" || f.Signature.Recv() == nil {
		return false
	}

	res := f.Signature.Results()

	// The setters return their receiver.
	return res.Len() > 0 && types.Identical(res.At(0).Type(), f.Signature.Recv().Type()) || f.Name() == "SetString" || f.Name() == "UnmarshalText" || f.Name() == "Scan"
}

func listMutator(f *ssa.Function) bool {
	if f.Package() == nil {
		return false
	}

	p := f.Package().Pkg.Path()

	return strings.HasSuffix(p, "internal/common/type/list") && (f.Name() == "Append" || f.Name() == "Join") ||
		strings.HasSuffix(p, "internal/common/type/pair") && (f.Name() == "SetCar" || f.Name() == "SetCdr")
}

// freshness decides whether a pointer can only denote an object created by
// the function itself.
type freshness struct {
	p    *Program
	memo map[ssa.Value]bool
}

func (r *freshness) fresh(v ssa.Value, d int) bool {
	if d > 30 {
		return false
	}

	if b, ok := r.memo[v]; ok {
		return b
	}

	r.memo[v] = true // coinductive over loops
	b := r.calc(v, d)
	r.memo[v] = b

	return b
}

func (r *freshness) calc(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !r.fresh(e, d+1) {
				return false
			}
		}

		return true
	case *ssa.ChangeType:
		return r.fresh(x.X, d+1)
	case *ssa.Convert:
		return r.fresh(x.X, d+1)
	case *ssa.MakeInterface:
		return r.fresh(x.X, d+1)
	case *ssa.ChangeInterface:
		return r.fresh(x.X, d+1)
	case *ssa.TypeAssert:
		return r.fresh(x.X, d+1)
	case *ssa.Extract:
		return r.fresh(x.Tuple, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}

		if g, ok := x.X.(*ssa.Global); ok {
			// The empty list, which the mutators replace or refuse.
			return g.Name() == "Null" && strings.HasSuffix(g.Pkg.Pkg.Path(), "internal/common/type/pair")
		}

		if a, ok := x.X.(*ssa.Alloc); ok {
			// A local variable: fresh if everything stored there is.
			for _, ref := range *a.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == a && !r.fresh(y.Val, d+1) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}

			return true
		}
	case *ssa.Parameter:
		// Every caller passes a fresh value.
		f := x.Parent()
		idx := -1

		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}

		if f.Referrers() == nil {
			n := 0

			for _, g := range r.p.Src {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
							n++

							if !r.fresh(ci.Common().Args[idx], d+1) {
								return false
							}
						} else if usesFn(i, f) {
							return false
						}
					}
				}
			}

			return n > 0
		}
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}

		if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/big" {
			if bigMutator(f) {
				return r.fresh(x.Common().Args[0], d+1)
			}

			return strings.HasPrefix(f.Name(), "New")
		}

		if !r.p.inModule(f) || f.Blocks == nil {
			return false
		}

		if listMutator(f) && (f.Name() == "Append") {
			return r.fresh(x.Common().Args[0], d+1)
		}

		// A function all of whose results are fresh.
		n := 0

		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if rt, ok := i.(*ssa.Return); ok {
					n++

					for _, rv := range rt.Results {
						if p, ok := rv.(*ssa.Parameter); ok {
							fresh := false

							for j, q := range f.Params {
								if q == p {
									fresh = r.fresh(x.Common().Args[j], d+1)
								}
							}

							if !fresh {
								return false
							}

							continue
						}

						if !r.fresh(rv, d+1) {
							return false
						}
					}
				}
			}
		}

		return n > 0
	}

	return false
}

// usesFn: the instruction uses f other than by calling it.
func usesFn(i ssa.Instruction, f *ssa.Function) bool {
	for _, op := range i.Operands(nil) {
		if *op == ssa.Value(f) {
			return true
		}
	}

	return false
}

// sealList marks the pairs of a list built for an operand as existing.
func (k *kit) sealList(st *State, l Val) {
	null := k.null(st)

	for i := 0; i < 24; i++ {
		l = st.norm(l)
		if l.Key() == null.Key() {
			return
		}

		x, ok := l.(*Iface)
		if !ok {
			return
		}

		root, path, ok := addr(x.V)
		if !ok {
			return
		}

		if o, ok := root.(*Obj); ok {
			o.Base = true
		}

		l = st.loadAt(root, path+".cdr", k.cell)
	}
}

// Operand counts and indexing.

type arity struct{ min, max int }

var builtinArity = map[string]arity{
	"add": {0, -1}, "bool": {1, 1}, "chan": {0, 1}, "chan?": {1, 1}, "cons": {2, 2}, "cons?": {1, 1}, "div": {1, -1},
	"equal?": {2, -1}, "ge?": {2, -1}, "gt?": {2, -1}, "le?": {2, -1}, "lt?": {2, -1}, "match": {2, 2}, "mend": {2, -1},
	"mod": {2, 2}, "mul": {1, -1}, "not": {1, 1}, "null?": {1, 1}, "number": {1, 1}, "number?": {1, 1}, "object?": {1, 1},
	"pipe": {0, 0}, "pipe?": {1, 1}, "random": {0, 1}, "sprintf": {1, -1}, "status": {1, 1}, "string": {1, 1},
	"string?": {1, 1}, "symbol": {1, 1}, "symbol?": {1, 1}, "sub": {1, -1}, "temp-fifo": {0, 0}, "umask": {0, 1},
}

var stringArity = map[string]arity{
	"format": {1, -1}, "length": {1, 1}, "lower": {1, 1}, "replace": {3, 4}, "slice": {2, 3}, "trim-prefix": {2, 2}, "trim-suffix": {2, 2}, "upper": {1, 1},
}

var listArity = map[string]arity{
	"append": {1, 1}, "extend": {1, 1}, "get": {0, -1}, "length": {0, 0}, "reverse": {0, 0}, "slice": {1, 2},
}

func checkC20(c *Check) {
	k := newKit(c)
	k.splitInt64(6)

	count := func(table, name string, f *ssa.Function, a arity, known bool, self func(st *State) Val) {
		for n := 0; n <= k.maxArgs(); n++ {
			on := fmt.Sprintf("%s %s with %d operand(s)", table, name, n)

			c.guard("operands", on, func() {
				rets := 0

				for _, kind := range []string{"any", "num", "str", "pair"} {
					st := k.st0.clone()

					var vs []Val

					for i := 0; i < n; i++ {
						switch kind {
						case "any":
							vs = append(vs, k.unk(st, fmt.Sprint(i)))
						case "pair":
							vs = append(vs, k.list(st, k.unk(st, fmt.Sprint("a", i))))
						default:
							vs = append(vs, k.obj(kind, "T", fmt.Sprint(i)))
						}
					}

					args := []Val{k.list(st, vs...)}
					if self != nil {
						args = append([]Val{self(st)}, args...)
					}

					for _, o := range k.run(st, f, args...) {
						switch {
						case o.Kind == Panic && isRuntime(o.Val):
							c.fail("no-internal-fault", on, o.Pos, "%s: %s (operands: %s)", show(o.Val), o.Why, kind)
						case known && (n < a.min || a.max >= 0 && n > a.max):
							rets++
							c.ob("operand-count", on, o.Kind == Panic, o.Pos, "must raise, returns %s", show(o.Val))
						case o.Kind == Ret:
							rets++
							v := o.St.norm(valOr(o.Val))
							c.ob("gives-value", on, !isNil(v), o.Pos, "gives %s", show(v))
						}
					}
				}

				c.ob("operand-count", on, rets > 0, f.Pos(), "%d paths give the required outcome", rets)
			})
		}
	}

	fs := k.registry("Functions")
	for _, name := range sorted(fs) {
		if name == "debug" || name == "open" || name == "temp-fifo" || name == "pipe" {
			continue
		}

		a, ok := builtinArity[name]
		count("builtin", name, fs[name], a, ok, nil)
	}

	for name := range builtinArity {
		c.ob("registered", name, fs[name] != nil, token.NoPos, "the builtin is registered")
	}

	sf := k.registry("StringFunctions")
	for _, name := range sorted(sf) {
		a, ok := stringArity[name]
		count("string function", name, sf[name], a, ok, nil)
	}

	for name := range stringArity {
		c.ob("registered", "string "+name, sf[name] != nil, token.NoPos, "the string function is registered")
	}

	lm := k.registry("ListMethods")
	for _, name := range sorted(lm) {
		a, ok := listArity[name]
		count("list method", name, lm[name], a, ok, func(st *State) Val {
			return k.list(st, k.unk(st, "e0"), k.unk(st, "e1"))
		})
	}

	for _, name := range []string{"append", "extend", "get", "head", "length", "reverse", "set-head", "set-tail", "slice", "tail"} {
		c.ob("registered", "list "+name, lm[name] != nil, token.NoPos, "the list method is registered")
	}

	k.checkLists(lm)
	k.checkStrings(fs, sf)
	k.checkSymbols()
	k.checkUmask(fs["umask"])
	c.enter(k.in)
}

// checkUmask: the mask the process is left with is the operand, or, when
// there is none, the one it had; what it had is what is given.
func (k *kit) checkUmask(f *ssa.Function) {
	c := k.c
	if f == nil {
		return
	}

	const had = 0o27

	mask := func(st *State) Val {
		if v, ok := st.User["umask"]; ok {
			return v
		}

		return cInt(had)
	}

	name := "golang.org/x/sys/unix.Umask"
	k.in.Hooks[name] = func(cc *CallCtx) ([]Out, bool) {
		was := mask(cc.St)
		cc.St.User["umask"] = cc.St.norm(cc.Args[0])

		return ret(cc.St, was), true
	}

	defer delete(k.in.Hooks, name)

	for n := 0; n <= 1; n++ {
		on := fmt.Sprintf("umask with %d operand(s)", n)

		c.guard("umask", on, func() {
			st := k.st0.clone()
			i := k.index("m")

			var args []Val
			if n == 1 {
				args = append(args, i.v)
			}

			paths := 0

			for _, o := range k.run(st, f, k.list(st, args...)) {
				if o.Kind != Ret {
					c.ob("umask", on, n == 1 && k.notInteger(o.St, i) && !isRuntime(o.Val), o.Pos, "ends with %s %s", o.Kind, show(o.Val))

					continue
				}

				paths++

				got := mask(o.St)
				m, exact := asInt(got)

				switch a, ok := k.at(o.St, i); {
				case n == 0:
					c.ob("umask", on, exact && m == had, o.Pos, "without an operand the mask 0%o becomes %s", had, show(got))
				case !ok:
					c.undecided("umask", on, "the operand was not consulted")
				case a == farAway || a == -farAway:
					c.ob("umask", on, !exact, o.Pos, "the mask becomes %s whatever the operand", show(got))
				default:
					c.ob("umask", on, exact && m == a, o.Pos, "with operand %d the mask 0%o becomes %s", a, had, show(got))
				}

				t := k.cellText(o.St, o.St.norm(valOr(o.Val)))
				if s, ok := asStr(valOr(t)); ok {
					c.ob("umask-gives", on, s == "0o27", o.Pos, "the mask was 0o27; it gives %s", s)
				}
			}

			c.atLeast(on, paths, 1)
		})
	}
}

// idx is a number operand and, on a path, its value: an exact integer, or
// one of the tails (far below or above every length in use).
type idx struct{ v Val }

func (k *kit) index(name string) idx { return idx{k.obj("num", "T", name)} }

const farAway = 1 << 40

func (k *kit) at(st *State, i idx) (n int64, known bool) {
	q := k.ratVal(st, cellPtr(i.v))
	t := T(types.Typ[types.Int64], "int64", T(nil, "num", q))

	v, ok := st.User["split:"+t.Key()]
	if !ok {
		return 0, false
	}

	if n, ok := asInt(v); ok {
		return n, true
	}

	if asTerm(v).Op == "above" {
		return farAway, true
	}

	return -farAway, true
}

// usable: the operand is an integer on this path.
func (k *kit) notInteger(st *State, is ...idx) bool {
	for _, i := range is {
		q := k.ratVal(st, cellPtr(i.v))

		if b, ok := asBool(st.norm(T(types.Typ[types.Bool], "isint", q))); ok && !b {
			return true
		}

		if b, ok := asBool(st.norm(T(types.Typ[types.Bool], "isint64", T(nil, "num", q)))); ok && !b {
			return true
		}
	}

	return false
}

func (k *kit) checkLists(lm map[string]*ssa.Function) {
	c := k.c

	mk := func(st *State, pre string, n int) (Val, []Val) {
		var vs []Val
		for i := 0; i < n; i++ {
			vs = append(vs, k.unk(st, fmt.Sprint(pre, i)))
		}

		l := k.list(st, vs...)
		k.sealList(st, l)

		return l, vs
	}

	same := func(a, b []Val) bool {
		if len(a) != len(b) {
			return false
		}

		for i := range a {
			if a[i].Key() != b[i].Key() {
				return false
			}
		}

		return true
	}

	each := func(name string, max int, f func(fn *ssa.Function, n int, on string)) {
		fn := lm[name]
		if fn == nil {
			return
		}

		for n := 0; n <= max; n++ {
			on := fmt.Sprintf("%s of a list of %d", name, n)
			c.guard("list", on, func() { f(fn, n, on) })
		}
	}

	unchanged := func(o Out, l Val, vs []Val) bool {
		es, ok := k.elems(o.St, l)

		return ok && same(es, vs)
	}

	each("length", 4, func(fn *ssa.Function, n int, on string) {
		st := k.st0.clone()
		l, _ := mk(st, "e", n)

		for _, o := range k.run(st, fn, l, k.null(st)) {
			v := o.St.norm(valOr(o.Val))
			want := Val(T(nil, "qc", cInt(int64(n))))

			if n == 0 {
				want = T(nil, "q0")
			}

			c.ob("list-length", on, o.Kind == Ret && tname(v) == "num" && sameRat(k.ratVal(o.St, cellPtr(v)), want), o.Pos, "gives %s %s %s", o.Kind, show(v), show(k.ratVal(o.St, cellPtr(v))))
		}
	})

	each("reverse", 4, func(fn *ssa.Function, n int, on string) {
		st := k.st0.clone()
		l, vs := mk(st, "e", n)

		for _, o := range k.run(st, fn, l, k.null(st)) {
			es, ok := k.elems(o.St, valOr(o.Val))

			var want []Val
			for i := len(vs) - 1; i >= 0; i-- {
				want = append(want, vs[i])
			}

			c.ob("list-reverse", on, o.Kind == Ret && ok && same(es, want) && unchanged(o, l, vs), o.Pos, "%s: elements %v", o.Kind, len(es))
		}
	})

	for _, m := range []struct {
		name string
		head bool
	}{{"head", true}, {"tail", false}} {
		each(m.name, 4, func(fn *ssa.Function, n int, on string) {
			if n == 0 {
				return
			}

			st := k.st0.clone()
			l, vs := mk(st, "e", n)

			for _, o := range k.run(st, fn, l, k.null(st)) {
				if m.head {
					c.ob("list-head", on, o.Kind == Ret && o.St.norm(o.Val).Key() == vs[0].Key(), o.Pos, "gives %s", show(o.Val))
				} else {
					es, ok := k.elems(o.St, valOr(o.Val))
					c.ob("list-tail", on, o.Kind == Ret && ok && same(es, vs[1:]), o.Pos, "gives %s", show(o.Val))
				}
			}
		})
	}

	each("get", 4, func(fn *ssa.Function, n int, on string) {
		for d := 0; d < 3; d++ {
			st := k.st0.clone()
			l, vs := mk(st, "e", n)
			i, df := k.index("i"), k.unk(st, "default")
			args := []Val{}
			on := on

			if d > 0 {
				args = append(args, i.v)
				on += " with an index"
			}

			if d > 1 {
				args = append(args, df)
				on += " and a default"
			}

			for _, o := range k.run(st, fn, l, k.list(st, args...)) {
				at := int64(0)

				if d > 0 {
					var ok bool
					if at, ok = k.at(o.St, i); !ok {
						c.ob("list-get", on, o.Kind == Panic && k.notInteger(o.St, i), o.Pos, "an index that is not an integer must raise: %s", o.Kind)

						continue
					}
				}

				pos := at
				if at < 0 {
					pos += int64(n)
				}

				v := o.St.norm(valOr(o.Val))

				switch {
				case pos >= 0 && pos < int64(n):
					c.ob("list-get", on, o.Kind == Ret && v.Key() == vs[pos].Key(), o.Pos, "element %d is %s %s", at, o.Kind, show(v))
				case d > 1:
					c.ob("list-get", on, o.Kind == Ret && v.Key() == df.Key(), o.Pos, "index %d out of range gives %s %s instead of the default", at, o.Kind, show(v))
				default:
					c.ob("list-get", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "index %d out of range gives %s %s", at, o.Kind, show(v))
				}
			}
		}
	})

	each("slice", 4, func(fn *ssa.Function, n int, on string) {
		for d := 1; d < 3; d++ {
			st := k.st0.clone()
			l, vs := mk(st, "e", n)
			is := []idx{k.index("i"), k.index("j")}[:d]

			var args []Val
			for _, i := range is {
				args = append(args, i.v)
			}

			if d == 2 {
				on += " with an end"
			}

			for _, o := range k.run(st, fn, l, k.list(st, args...)) {
				if k.notInteger(o.St, is...) {
					c.ob("list-slice", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "an index that is not an integer must raise: %s", o.Kind)

					continue
				}

				s, ok := k.at(o.St, is[0])
				e := int64(0)
				ok2 := true

				if d == 2 {
					e, ok2 = k.at(o.St, is[1])
				}

				if !ok || !ok2 {
					c.undecided("list-slice", on, "an index was not consulted")

					continue
				}

				N := int64(n)
				txt := fmt.Sprintf("slice %d %d", s, e)
				raise := false

				if s < 0 {
					s += N
				}

				if s < 0 {
					raise = true
				}

				if s > N {
					s = N
				}

				if e <= 0 {
					e += N
				}

				if e < 0 {
					raise = true
				}

				if e > N {
					e = N
				}

				if e < s {
					raise = true
				}

				if raise {
					c.ob("list-slice", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "%s must raise: %s %s", txt, o.Kind, show(o.Val))

					continue
				}

				es, ok := k.elems(o.St, valOr(o.Val))
				c.ob("list-slice", on, o.Kind == Ret && ok && same(es, vs[s:e]) && unchanged(o, l, vs), o.Pos, "%s selects %d element(s), must select [%d,%d)", txt, len(es), s, e)
				c.ob("list-slice-fresh", on, s == e || k.freshList(o.St, valOr(o.Val)), o.Pos, "the result does not share pairs with the list")
			}
		}
	})

	each("append", 3, func(fn *ssa.Function, n int, on string) {
		st := k.st0.clone()
		l, vs := mk(st, "e", n)
		x := k.unk(st, "x")

		for _, o := range k.run(st, fn, l, k.list(st, x)) {
			es, ok := k.elems(o.St, valOr(o.Val))
			want := append(append([]Val{}, vs...), x)
			c.ob("list-append", on, o.Kind == Ret && ok && same(es, want) && (n == 0 || unchanged(o, l, want)), o.Pos, "%s: %d element(s)", o.Kind, len(es))
		}
	})

	each("extend", 3, func(fn *ssa.Function, n int, on string) {
		for m := 0; m <= 2; m++ {
			st := k.st0.clone()
			l, vs := mk(st, "e", n)
			l2, vs2 := mk(st, "f", m)

			for _, o := range k.run(st, fn, l, k.list(st, l2)) {
				es, ok := k.elems(o.St, valOr(o.Val))
				want := append(append([]Val{}, vs...), vs2...)
				c.ob("list-extend", on, o.Kind == Ret && ok && same(es, want) && (n == 0 || unchanged(o, l, want)) && unchanged(o, l2, vs2), o.Pos, "%s: %d element(s)", o.Kind, len(es))
			}
		}
	})

	each("set-head", 3, func(fn *ssa.Function, n int, on string) {
		if n == 0 {
			return
		}

		st := k.st0.clone()
		l, vs := mk(st, "e", n)
		x := k.unk(st, "x")

		for _, o := range k.run(st, fn, l, k.list(st, x)) {
			c.ob("list-set-head", on, o.Kind == Ret && o.St.norm(o.Val).Key() == x.Key() && unchanged(o, l, append([]Val{x}, vs[1:]...)), o.Pos, "%s %s", o.Kind, show(o.Val))
		}
	})

	each("set-tail", 3, func(fn *ssa.Function, n int, on string) {
		if n == 0 {
			return
		}

		st := k.st0.clone()
		l, vs := mk(st, "e", n)
		x, xs := mk(st, "x", 2)

		for _, o := range k.run(st, fn, l, k.list(st, x)) {
			c.ob("list-set-tail", on, o.Kind == Ret && o.St.norm(o.Val).Key() == x.Key() && unchanged(o, l, append([]Val{vs[0]}, xs...)), o.Pos, "%s %s", o.Kind, show(o.Val))
		}
	})
}

// freshList: every pair of the list was created on this path.
func (k *kit) freshList(st *State, l Val) bool {
	null := k.null(st)

	for i := 0; i < 24; i++ {
		l = st.norm(l)
		if l.Key() == null.Key() {
			return true
		}

		x, ok := l.(*Iface)
		if !ok {
			return false
		}

		root, path, ok := addr(x.V)
		if !ok {
			return false
		}

		if o, ok := root.(*Obj); !ok || o.Base || o.Sym {
			return false
		}

		l = st.loadAt(root, path+".cdr", k.cell)
	}

	return false
}

func (k *kit) checkStrings(fs, sf map[string]*ssa.Function) {
	c := k.c
	str := types.Typ[types.String]

	textOf := func(st *State, v Val) Val { return st.norm(T(str, "text", v)) }
	_ = textOf

	// One string operand of known text, integer operands case split.
	strCell := func(st *State, id, s string) Val {
		v := k.obj("str", "T", id)
		root, path, _ := addr(cellPtr(v))
		st.storeAt(root, path, cStr(s), str)

		return v
	}

	texts := []string{"", "a", "ab", "abc"}

	if f := sf["slice"]; f != nil {
		for _, s := range texts {
			for d := 1; d < 3; d++ {
				on := fmt.Sprintf("string slice, length %d, %d index(es)", len(s), d)

				c.guard("string-slice", on, func() {
					st := k.st0.clone()
					v := strCell(st, "s", s)
					is := []idx{k.index("i"), k.index("j")}[:d]
					args := []Val{v}

					for _, i := range is {
						args = append(args, i.v)
					}

					for _, o := range k.run(st, f, k.list(st, args...)) {
						if k.notInteger(o.St, is...) {
							c.ob("string-slice", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "an index that is not an integer must raise: %s", o.Kind)

							continue
						}

						a, ok := k.at(o.St, is[0])
						N := int64(len(s))
						e, ok2 := N, true

						if ok && a < 0 {
							c.ob("string-slice", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "a start before the string must raise: %s %s", o.Kind, show(o.Val))

							continue
						}

						if d == 2 {
							e, ok2 = k.at(o.St, is[1])
						}

						if !ok || !ok2 {
							c.undecided("string-slice", on, "an index was not consulted")

							continue
						}

						txt := fmt.Sprintf("slice %d %d", a, e)

						if a > N {
							a = N
						}

						if e > N {
							e = N
						} else if e < 0 {
							e += N
						}

						if e < a {
							c.ob("string-slice", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "%s must raise: %s %s", txt, o.Kind, show(o.Val))

							continue
						}

						r := o.St.norm(valOr(o.Val))
						got, isC := asStr(valOr(k.text(o.St, r)))
						c.ob("string-slice", on, o.Kind == Ret && tname(r) == "str" && isC && got == s[a:e], o.Pos, "%s gives %s %q, must give %q", txt, o.Kind, got, s[a:e])
					}
				})
			}
		}
	}

	// Mappings of whole strings, over arbitrary texts.
	type m struct {
		fs   map[string]*ssa.Function
		name string
		n    int
		want func(a []Val) Val
		res  string
	}

	call := func(name string, a ...Val) Val { return T(str, name, a...) }

	for _, x := range []m{
		{sf, "lower", 1, func(a []Val) Val { return call("strings.ToLower.0", a[0]) }, "str"},
		{sf, "upper", 1, func(a []Val) Val { return call("strings.ToUpper.0", a[0]) }, "str"},
		{sf, "trim-prefix", 2, func(a []Val) Val { return call("strings.TrimPrefix.0", a[0], a[1]) }, "str"},
		{sf, "trim-suffix", 2, func(a []Val) Val { return call("strings.TrimSuffix.0", a[0], a[1]) }, "str"},
		{sf, "replace", 3, func(a []Val) Val { return call("strings.Replace.0", a[0], a[1], a[2], cInt(-1)) }, "str"},
		{fs, "string", 1, func(a []Val) Val { return a[0] }, "str"},
		{fs, "symbol", 1, func(a []Val) Val { return a[0] }, "sym"},
	} {
		f := x.fs[x.name]
		if f == nil {
			continue
		}

		for _, kind := range []string{"str", "sym"} {
			on := x.name + " of " + kind

			c.guard("string-map", on, func() {
				st := k.st0.clone()

				var vs, ts []Val

				for i := 0; i < x.n; i++ {
					v := k.obj(kind, "T", fmt.Sprint(i))
					vs = append(vs, v)
					ts = append(ts, k.text(st, v))
				}

				rets := 0

				for _, o := range k.run(st, f, k.list(st, vs...)) {
					if o.Kind != Ret {
						c.fail("string-map", on, o.Pos, "raises %s", show(o.Val))

						continue
					}

					rets++
					r := o.St.norm(o.Val)
					got := k.cellText(o.St, r)
					want := o.St.norm(x.want(ts))
					c.ob("string-map", on, tname(r) == x.res && got != nil && got.Key() == want.Key(), o.Pos, "gives %s %s, must be %s %s", tname(r), show(valOr(got)), x.res, show(want))
				}

				c.atLeast("string-map "+on, rets, 1)
			})
		}
	}

	if f := sf["length"]; f != nil {
		c.guard("string-map", "length", func() {
			st := k.st0.clone()
			v := k.obj("str", "T", "0")

			for _, o := range k.run(st, f, k.list(st, v)) {
				r := o.St.norm(valOr(o.Val))
				got := k.ratVal(o.St, cellPtr(r))
				t := asTerm(got)
				ok := t != nil && t.Op == "qi"

				if ok {
					lt := asTerm(t.Args[0])
					if lt != nil && strings.HasPrefix(lt.Op, "conv:") {
						lt = asTerm(lt.Args[0])
					}

					ok = lt != nil && lt.Op == "len" && lt.Args[0].Key() == k.text(o.St, v).Key()
				}

				c.ob("string-map", "length", o.Kind == Ret && tname(r) == "num" && ok, o.Pos, "gives %s", show(got))
			}
		})
	}

	// mend joins its pieces and is a string if any piece is.
	if f := fs["mend"]; f != nil {
		for n := 1; n <= 3; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				on := fmt.Sprintf("mend of %d piece(s)", n)

				c.guard("mend", on, func() {
					st := k.st0.clone()
					sep := k.obj("sym", "T", "sep")
					vs := []Val{sep}
					want := Val(cStr(""))

					for i := 0; i < n; i++ {
						kind := "sym"
						if mask>>i&1 == 1 {
							kind = "str"
						}

						v := k.obj(kind, "T", fmt.Sprint(i))
						vs = append(vs, v)

						if i > 0 {
							want = k.in.binop(st, token.ADD, want, k.text(st, sep), str)
						}

						want = k.in.binop(st, token.ADD, want, k.text(st, v), str)
					}

					res := "sym"
					if mask != 0 {
						res = "str"
					}

					rets := 0

					for _, o := range k.run(st, f, k.list(st, vs...)) {
						rets++
						r := o.St.norm(valOr(o.Val))
						got := k.cellText(o.St, r)
						c.ob("mend", on, o.Kind == Ret && tname(r) == res && got != nil && got.Key() == want.Key(), o.Pos, "gives %s %s %s, must be %s %s", o.Kind, tname(r), show(valOr(got)), res, show(want))
					}

					c.atLeast("mend "+on, rets, 1)
				})
			}
		}
	}

	// match asks whether the second operand matches the first.
	if f := fs["match"]; f != nil {
		c.guard("match", "match", func() {
			st := k.st0.clone()
			p, s := k.obj("str", "T", "p"), k.obj("str", "T", "s")

			for _, o := range k.run(st, f, k.list(st, p, s)) {
				found := false

				for key, v := range o.St.rep {
					if t := termTab[key]; t != nil && strings.Contains(t.Op, "adapted.Match.0") && len(t.Args) == 2 && t.Args[0].Key() == k.text(o.St, p).Key() && t.Args[1].Key() == k.text(o.St, s).Key() {
						b, ok := asBool(v)
						found = ok

						if o.Kind == Ret {
							r := o.St.norm(o.Val)
							c.ob("match", "match", ok && (b && r.Key() == k.truth(o.St).Key() || !b && r.Key() == k.null(o.St).Key()), o.Pos, "answers %s for a match of %v", show(r), b)
						}
					}
				}

				c.ob("match", "match", found || o.Kind == Panic && !isRuntime(o.Val), o.Pos, "the answer follows from matching the text against the pattern: %s", o.Kind)
			}
		})
	}
}

// cellText is the text of a str or sym result, read from memory or, for a
// cached symbol, from the name it was looked up by.
func (k *kit) cellText(st *State, v Val) Val {
	if _, ok := v.(*Iface); !ok {
		return nil
	}

	// A symbol found in the cache under a name has that text (checked below).
	if t := asTerm(cellPtr(v)); t != nil && t.Op == "mapval" && k.symCache(st) != "" && t.Args[0].Key() == k.symCache(st) {
		return st.norm(t.Args[1])
	}

	return k.text(st, v)
}

// symCache is the key of the table of interned symbols.
func (k *kit) symCache(st *State) string {
	q := k.p.pkg("internal/common/type/sym")
	if q == nil {
		return ""
	}

	for _, m := range q.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}

		mt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || valueType(deref(mt.Elem())) != "sym" {
			continue
		}

		return st.load(k.in.globalPtr(g), mt).Key()
	}

	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}

	return t
}

// checkSymbols: interning gives a symbol with the text asked for, and the
// table never maps a text to a symbol with another text.
func (k *kit) checkSymbols() {
	c := k.c
	f := k.p.fn("internal/common/type/sym", "New")

	if f == nil {
		c.undecided("symbol-text", "sym.New", "not found")

		return
	}

	c.guard("symbol-text", "sym.New", func() {
		st := k.st0.clone()
		// The interning switch may be in either position.
		q := k.p.pkg("internal/common/type/sym")
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				if et := g.Type().(*types.Pointer).Elem(); types.Identical(et.Underlying(), types.Typ[types.Bool]) {
					p := k.in.globalPtr(g)
					st.store(p, T(et, "global:"+g.Name()), et)
				}
			}
		}

		name := T(types.Typ[types.String], "name")
		n := 0

		for _, o := range k.run(st, f, name) {
			n++
			got := k.cellText(o.St, o.St.norm(valOr(o.Val)))
			c.ob("symbol-text", "sym.New", o.Kind == Ret && got != nil && got.Key() == name.Key(), o.Pos, "a symbol named %s has the text %s", show(name), show(valOr(got)))

			ck := k.symCache(o.St)
			mo := o.St.getMap(strings.TrimPrefix(ck, "m#"))

			if mo == nil {
				c.undecided("symbol-table", "sym.New", "the table of symbols was not found")

				continue
			}

			for i, key := range mo.Keys {
				root, path, ok := addr(o.St.norm(mo.Vals[i]))
				if !ok {
					continue // found there before
				}

				txt := o.St.norm(o.St.loadAt(root, path, types.Typ[types.String]))
				c.ob("symbol-table", "sym.New", txt.Key() == o.St.norm(key).Key() || strings.Contains(root.Key(), "mapval"), o.Pos, "the table has %s under %s", show(txt), show(key))
			}
		}

		c.atLeast("symbol-text", n, 1)
	})
}
