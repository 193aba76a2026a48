package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const libBound = "argument lists are followed to a stated length (4 quick, 6 thorough)"

func init() {
	rules["C14"] = rule{
		explain: "Every type that implements the cell interface is found by type; its Equal method is evaluated over abstract receivers against an argument of every such type, against itself, and against the empty list. Each path's answer is compared with the meaning of equality; no path may end in a panic.",
		assume:  []string{"math/big comparison is a total order", "sub-values' equality is the induction hypothesis"},
		run:     checkC14,
	}
	rules["C15"] = rule{
		explain: "Truth value of every cell type, the type predicates, not/bool, and the chained comparisons equal?/lt?/le?/gt?/ge? evaluated over abstract operands; each path's answer must follow from the comparisons it made, and every adjacent pair must have been compared before the answer is true.",
		assume:  []string{libBound},
		run:     checkC15,
	}
	rules["C24"] = rule{
		explain: "The arithmetic builtins are evaluated with math/big replaced by an algebra of value terms; the value of the result on every path is compared, as a rational function of the operands, with the fold the builtin's name stands for. Division by zero, a wrong number of operands and operands that are not numbers must raise.",
		assume:  []string{"math/big is exact", libBound},
		run:     checkC24,
	}
}

func (k *kit) maxArgs() int {
	if k.c.Tier == "thorough" {
		return 6
	}

	return 4
}

// sample is one abstract cell of a named kind.
type sample struct {
	name string
	mk   func(st *State, id string) Val
}

// samples has a maker for every cell type of the module; unknown types are
// given an opaque instance so that a new type is analysed without change.
func (k *kit) samples() (ss []sample) {
	boxed := k.p.boxed()

	for _, t := range k.p.implementors(k.cell) {
		t := t
		name := typeLabel(t)

		if !boxed[tstr(t)] {
			continue // Never used as an interface value of its own.
		}

		ss = append(ss, sample{name, func(st *State, id string) Val {
			et := t
			ptr := false

			if pt, ok := t.(*types.Pointer); ok {
				et, ptr = pt.Elem(), true
			}

			o := &Obj{ID: name + ":" + id, T: et, Sym: true, Base: true}

			if !ptr {
				return &Iface{t, T(t, "value:"+name+":"+id)}
			}

			v := P(o, "")
			k.fillEmbedded(st, o, "", et, id)

			return &Iface{t, v}
		}})
	}

	return
}

// fillEmbedded gives embedded pointers (sym.Plus's symbol, a method's
// closure) a concrete target so that promoted methods can be evaluated.
func (k *kit) fillEmbedded(st *State, o *Obj, path string, t types.Type, id string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || strings.Count(o.ID, ".") > 12 {
		return
	}

	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}

		if isIface(f.Type()) {
			// An embedded interface: any implementation but the holder's.
			for _, it := range k.p.implementors(f.Type()) {
				pt, ok := it.(*types.Pointer)
				if !ok || types.Identical(pt.Elem(), t) {
					continue
				}

				in := &Obj{ID: o.ID + path + "." + f.Name(), T: pt.Elem(), Sym: true, Base: true}
				st.storeAt(o, path+"."+f.Name(), &Iface{it, P(in, "")}, f.Type())

				break
			}
		} else if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
			in := &Obj{ID: o.ID + path + "." + f.Name(), T: pt.Elem(), Sym: true, Base: true}
			st.storeAt(o, path+"."+f.Name(), P(in, ""), f.Type())
			k.fillEmbedded(st, in, "", pt.Elem(), id)
		} else if _, ok := f.Type().Underlying().(*types.Struct); ok {
			k.fillEmbedded(st, o, path+"."+f.Name(), f.Type(), id)
		}
	}
}

func isValueKind(n string) string {
	switch {
	case strings.Contains(n, "type/num."):
		return "num"
	case strings.Contains(n, "type/status."):
		return "status"
	case strings.Contains(n, "type/str."):
		return "str"
	case strings.Contains(n, "type/sym."):
		return "sym"
	case strings.Contains(n, "type/pair."):
		return "pair"
	}

	return ""
}

func checkC14(c *Check) {
	k := newKit(c)
	ss := k.samples()
	c.atLeast("cell-types", len(ss), 10)

	equalOf := func(v Val) *ssa.Function {
		i := v.(*Iface)
		m := k.p.SSA.LookupMethod(i.T, nil, "Equal")

		return m
	}

	for _, a := range ss {
		a := a

		c.guard("equal", a.name, func() {
			st := k.st0.clone()
			x := a.mk(st, "x")
			f := equalOf(x)

			if f == nil {
				c.undecided("equal", a.name, "no Equal method")

				return
			}

			// Reflexive.
			for _, o := range k.run(st.clone(), f, x.(*Iface).V, x) {
				if isValueKind(a.name) == "pair" {
					// A list equals itself when its elements equal themselves.
					c.ob("reflexive", a.name, o.Kind == Ret && pairReflexive(o), o.Pos, "a list compared with itself: %s %s %s", o.Kind, o.Why, show(o.Val))

					continue
				}

				b, ok := asBool(o.St.norm(valOr(o.Val)))
				c.ob("reflexive", a.name, o.Kind == Ret && ok && b, o.Pos, "a value compared with itself gives %s (%s %s)", show(o.Val), o.Kind, o.Why)
			}

			// Against every type.
			for _, b := range ss {
				st := k.st0.clone()
				x, y := a.mk(st, "x"), b.mk(st, "y")
				ka, kb := isValueKind(a.name), isValueKind(b.name)
				on := a.name + " = " + b.name

				for _, o := range k.run(st, f, x.(*Iface).V, y) {
					if o.Kind != Ret {
						c.fail("total", on, o.Pos, "comparing raises: %s %s", o.Why, show(o.Val))

						continue
					}

					r := o.St.norm(o.Val)
					rb, known := asBool(r)

					switch {
					case ka == "" && kb == ka && a.name == b.name:
						// Distinct objects of an identity type.
						// or compared field by field (a continuation).
						same := asTerm(r) != nil && asTerm(r).Op == "=="
						c.ob("identity", on, known && !rb || same, o.Pos, "two different objects compare as %s", show(r))
					case ka == "" || kb == "" || ka != kb:
						c.ob("typed", on, known && !rb, o.Pos, "values of different types compare as %s", show(r))
					case ka == "num" || ka == "status":
						n, dec := order(o.St, k.ratVal(o.St, x.(*Iface).V), k.ratVal(o.St, y.(*Iface).V))
						c.ob("by-value", on, dec && known && rb == (n == 0), o.Pos, "numbers comparing %v (decided %v) are reported %s", n, dec, show(r))
					case ka == "str" || ka == "sym":
						want := o.St.eq(k.symText(o.St, x), k.symText(o.St, y))
						wb, wk := asBool(want)
						ok := known && wk && wb == rb || want.Key() == r.Key()
						c.ob("by-value", on, ok, o.Pos, "text equality %s is reported as %s", show(want), show(r))
					case ka == "pair":
						c.ob("by-value", on, pairEqual(o, x, y, k), o.Pos, "lists compare as %s", show(r))
					}
				}
			}

			// Against the empty list.
			st = k.st0.clone()
			x = a.mk(st, "x")
			null := k.null(st)

			for _, o := range k.run(st, f, x.(*Iface).V, null) {
				rb, known := asBool(o.St.norm(valOr(o.Val)))
				c.ob("empty", a.name+" = ()", o.Kind == Ret && known && !rb, o.Pos, "a value compared with the empty list gives %s (%s %s)", show(o.Val), o.Kind, o.Why)
			}

			st = k.st0.clone()
			x = a.mk(st, "x")

			if nf := equalOf(null); nf != nil {
				for _, o := range k.run(st, nf, null.(*Iface).V, x) {
					rb, known := asBool(o.St.norm(valOr(o.Val)))
					c.ob("empty", "() = "+a.name, o.Kind == Ret && known && !rb, o.Pos, "the empty list compared with a value gives %s (%s %s)", show(o.Val), o.Kind, o.Why)
				}
			}
		})
	}

	c.guard("empty", "() = ()", func() {
		st := k.st0.clone()
		null := k.null(st)

		for _, o := range k.run(st, equalOf(null), null.(*Iface).V, null) {
			rb, known := asBool(o.St.norm(valOr(o.Val)))
			c.ob("empty", "() = ()", o.Kind == Ret && known && rb, o.Pos, "the empty list compared with itself gives %s (%s %s)", show(o.Val), o.Kind, o.Why)
		}
	})

	// The equal? builtin: true exactly when every adjacent pair is equal.
	f := k.registry("Functions")["equal?"]
	if f == nil {
		c.undecided("equal?", "equal?", "builtin not registered")

		return
	}

	chain(k, "equal?", f, func(st *State, a, b Val) (bool, bool) {
		x, y := a, b
		if y.Key() < x.Key() {
			x, y = y, x
		}

		r, ok := asBool(st.norm(T(types.Typ[types.Bool], "equal", x, y)))

		return r, ok
	}, true)

	c.enter(k.in)
}

func valOr(v Val) Val {
	if v == nil {
		return Nil{}
	}

	return v
}

// symText is the text of a str, sym or located sym.
func (k *kit) symText(st *State, v Val) Val {
	i := v.(*Iface)
	et := i.T.(*types.Pointer).Elem()

	if _, ok := et.Underlying().(*types.Struct); ok {
		root, path, _ := addr(i.V)
		s := et.Underlying().(*types.Struct)

		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Embedded() {
				p := st.loadAt(root, path+"."+s.Field(j).Name(), s.Field(j).Type())
				if r, q, ok := addr(p); ok {
					return st.norm(st.loadAt(r, q, types.Typ[types.String]))
				}
			}
		}
	}

	return k.text(st, v)
}

// pairReflexive: the answer is the conjunction of self-comparisons.
func pairReflexive(o Out) bool {
	r := o.St.norm(valOr(o.Val))

	var selfOnly func(v Val) bool

	selfOnly = func(v Val) bool {
		t := asTerm(v)

		return t != nil && t.Op == "equal" && t.Args[0].Key() == t.Args[1].Key()
	}

	if b, ok := asBool(r); ok {
		if b {
			return true
		}

		// False only because an element differs from itself.
		for k, v := range o.St.rep {
			if strings.HasPrefix(k, "equal(") {
				if w, ok := asBool(v); ok && !w {
					if t := termTab[k]; t != nil && selfOnly(t) {
						return true
					}
				}
			}
		}

		return false
	}

	return selfOnly(r)
}

// pairEqual: two lists are equal iff their heads and tails are.
func pairEqual(o Out, x, y Val, k *kit) bool {
	st := o.St
	part := func(v Val, f string) Val {
		root, path, _ := addr(v.(*Iface).V)

		return st.norm(st.loadAt(root, path+f, k.cell))
	}
	eq := func(f string) Val {
		a, b := part(x, f), part(y, f)
		if b.Key() < a.Key() {
			a, b = b, a
		}

		return st.norm(T(types.Typ[types.Bool], "equal", a, b))
	}

	h, t := eq(".car"), eq(".cdr")
	hb, hk := asBool(h)
	tb, tk := asBool(t)
	r := st.norm(o.Val)
	rb, rk := asBool(r)

	switch {
	case hk && !hb || tk && !tb:
		return rk && !rb
	case hk && hb && tk && tb:
		return rk && rb
	case hk && hb:
		return r.Key() == t.Key()
	case tk && tb:
		return r.Key() == h.Key()
	}

	return false
}

// chain checks an n-ary comparison: the answer on each path must follow from
// the adjacent comparisons that path decided.
func chain(k *kit, name string, f *ssa.Function, rel func(st *State, a, b Val) (holds, known bool), anyCell bool) {
	c := k.c

	for n := 2; n <= k.maxArgs(); n++ {
		c.guard(name, fmt.Sprintf("%d operands", n), func() {
			st := k.st0.clone()

			var vs []Val

			for i := 0; i < n; i++ {
				if anyCell {
					vs = append(vs, k.unk(st, fmt.Sprint(i)))
				} else {
					vs = append(vs, k.obj("num", "T", fmt.Sprint(i)))
				}
			}

			args := k.list(st, vs...)
			tr, nl := k.truth(st), k.null(st)
			m := 0

			for _, o := range k.run(st, f, args) {
				on := fmt.Sprintf("%s with %d operands", name, n)

				if o.Kind != Ret {
					c.fail("comparison", on, o.Pos, "raises: %s %s", o.Why, show(o.Val))

					continue
				}

				m++

				all, some := true, false

				for i := 0; i+1 < n; i++ {
					h, known := rel(o.St, vs[i], vs[i+1])
					if !known || !h {
						all = false
					}

					if known && !h {
						some = true
					}
				}

				v := o.St.norm(o.Val)
				isT, isN := v.Key() == tr.Key(), v.Key() == nl.Key()
				c.ob("comparison", on, isT && all || isN && some, o.Pos, "answers %s where the adjacent comparisons made give all=%v, one fails=%v", map[bool]string{true: "true", false: show(v)}[isT], all, some)
			}

			c.atLeast(fmt.Sprintf("comparison %s with %d", name, n), m, n)
		})
	}

	// Fewer than two operands is an error.
	for n := 0; n < 2; n++ {
		c.guard(name, fmt.Sprintf("%d operands", n), func() {
			st := k.st0.clone()

			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, k.unk(st, fmt.Sprint(i)))
			}

			for _, o := range k.run(st, f, k.list(st, vs...)) {
				c.ob("comparison", fmt.Sprintf("%s with %d operand(s)", name, n), o.Kind == Panic && !isRuntime(o.Val), o.Pos, "must raise; %s %s", o.Kind, show(o.Val))
			}
		})
	}
}

func checkC15(c *Check) {
	k := newKit(c)
	fs := k.registry("Functions")
	ss := k.samples()

	get := func(n string) *ssa.Function {
		f := fs[n]
		if f == nil {
			c.undecided("builtin", n, "not registered")
		}

		return f
	}

	// Truth values.
	truthOf := func(st *State, name string, v Val) (want func(*State) (bool, bool)) {
		switch isValueKind(name) {
		case "num":
			return func(s *State) (bool, bool) {
				n, ok := order(s, k.ratVal(s, v.(*Iface).V), T(nil, "q0"))

				return n != 0, ok
			}
		case "status":
			return func(s *State) (bool, bool) {
				n, ok := order(s, k.ratVal(s, v.(*Iface).V), T(nil, "q0"))

				return n == 0, ok
			}
		}

		return func(*State) (bool, bool) { return true, true }
	}

	kinds := append([]sample{{"the empty list", func(st *State, _ string) Val { return k.null(st) }}}, ss...)

	for _, bi := range []struct {
		name string
		neg  bool
	}{{"bool", false}, {"not", true}} {
		f := get(bi.name)
		if f == nil {
			continue
		}

		for _, s := range kinds {
			c.guard("truth", bi.name+" "+s.name, func() {
				st := k.st0.clone()
				v := s.mk(st, "x")
				want := truthOf(st, s.name, v)

				if s.name == "the empty list" {
					want = func(*State) (bool, bool) { return false, true }
				}

				tr, nl := k.truth(st), k.null(st)
				n := 0

				for _, o := range k.run(st, f, k.list(st, v)) {
					n++
					w, known := false, false

					if o.Kind == Ret {
						w, known = want(o.St)
					}

					r := o.St.norm(valOr(o.Val))
					good := r.Key() == nl.Key()

					if w != bi.neg {
						good = r.Key() == tr.Key()
					}

					c.ob("truth", bi.name+" of "+s.name, o.Kind == Ret && known && good, o.Pos, "a value that is true=%v (decided %v) gives %s (%s %s)", w, known, show(r), o.Kind, o.Why)
				}

				c.atLeast("truth "+bi.name+" "+s.name, n, 1)
			})
		}
	}

	// What the evaluator's conditionals consult is the same function.
	bv := k.p.fn("internal/common/interface/boolean", "Value")
	if bv == nil {
		c.undecided("truth", "boolean.Value", "not found")
	} else {
		for _, s := range kinds {
			c.guard("truth", "conditionals on "+s.name, func() {
				st := k.st0.clone()
				v := s.mk(st, "x")
				want := truthOf(st, s.name, v)

				if s.name == "the empty list" {
					want = func(*State) (bool, bool) { return false, true }
				}

				for _, o := range k.run(st, bv, v) {
					w, known := false, false
					if o.Kind == Ret {
						w, known = want(o.St)
					}

					r, rk := asBool(o.St.norm(valOr(o.Val)))
					c.ob("truth", "conditionals on "+s.name, o.Kind == Ret && known && rk && r == w, o.Pos, "a value that is true=%v (decided %v) counts as %s (%s %s)", w, known, show(o.Val), o.Kind, o.Why)
				}
			})
		}
	}

	// Type predicates.
	scopeT := k.p.typ("internal/common/interface/scope", "I")
	preds := map[string]func(n string, t types.Type) bool{
		"number?": func(n string, _ types.Type) bool { return isValueKind(n) == "num" },
		"string?": func(n string, _ types.Type) bool { return isValueKind(n) == "str" },
		"symbol?": func(n string, _ types.Type) bool { return isValueKind(n) == "sym" },
		"cons?":   func(n string, _ types.Type) bool { return isValueKind(n) == "pair" || n == "the empty list" },
		"null?":   func(n string, _ types.Type) bool { return n == "the empty list" },
		"chan?":   func(n string, _ types.Type) bool { return strings.Contains(n, "type/chn.") },
		"pipe?":   func(n string, _ types.Type) bool { return strings.Contains(n, "type/pipe.") },
		"object?": func(n string, t types.Type) bool {
			return t != nil && scopeT != nil && types.Implements(t, scopeT.Underlying().(*types.Interface))
		},
	}

	for _, pn := range sorted(preds) {
		f := get(pn)
		if f == nil {
			continue
		}

		for _, s := range kinds {
			c.guard("predicate", pn+" "+s.name, func() {
				st := k.st0.clone()
				v := s.mk(st, "x")

				var dt types.Type
				if i, ok := v.(*Iface); ok && s.name != "the empty list" {
					dt = i.T
				}

				want := preds[pn](s.name, dt)
				tr, nl := k.truth(st), k.null(st)
				n := 0

				for _, o := range k.run(st, f, k.list(st, v)) {
					n++
					r := o.St.norm(valOr(o.Val))
					c.ob("predicate", pn+" of "+s.name, o.Kind == Ret && (want && r.Key() == tr.Key() || !want && r.Key() == nl.Key()), o.Pos, "must be %v, gives %s (%s %s)", want, show(r), o.Kind, o.Why)
				}

				c.atLeast("predicate "+pn+" "+s.name, n, 1)
			})
		}
	}

	// Chained orderings.
	rel := func(ok func(n int64) bool) func(st *State, a, b Val) (bool, bool) {
		return func(st *State, a, b Val) (bool, bool) {
			n, known := order(st, k.ratVal(st, cellPtr(a)), k.ratVal(st, cellPtr(b)))

			return known && ok(n), known
		}
	}

	for _, x := range []struct {
		n  string
		ok func(int64) bool
	}{
		{"lt?", func(n int64) bool { return n < 0 }}, {"le?", func(n int64) bool { return n <= 0 }},
		{"gt?", func(n int64) bool { return n > 0 }}, {"ge?", func(n int64) bool { return n >= 0 }},
	} {
		if f := get(x.n); f != nil {
			chain(k, x.n, f, rel(x.ok), false)
		}
	}

	c.enter(k.in)
}

func checkC24(c *Check) {
	k := newKit(c)
	fs := k.registry("Functions")

	fold := func(op string) func(vs []Val) Val {
		return func(vs []Val) Val {
			acc := vs[0]
			for _, v := range vs[1:] {
				acc = T(nil, op, acc, v)
			}

			return acc
		}
	}

	for _, b := range []struct {
		name string
		min  int
		want func(vs []Val) Val
	}{
		{"add", 0, func(vs []Val) Val {
			acc := Val(T(nil, "q0"))
			for _, v := range vs {
				acc = T(nil, "q+", acc, v)
			}

			return acc
		}},
		{"sub", 1, fold("q-")}, {"mul", 1, fold("q*")}, {"div", 1, fold("q/")},
	} {
		f := fs[b.name]
		if f == nil {
			c.undecided("arithmetic", b.name, "not registered")

			continue
		}

		for n := 0; n <= k.maxArgs(); n++ {
			on := fmt.Sprintf("%s of %d operand(s)", b.name, n)

			c.guard("arithmetic", on, func() {
				for _, mk := range []string{"number", "any", "status"} {
					st := k.st0.clone()

					var vs, qs []Val

					for i := 0; i < n; i++ {
						var v Val

						switch mk {
						case "number":
							v = k.obj("num", "T", fmt.Sprint(i))
						case "status":
							v = k.obj("status", "T", fmt.Sprint(i))
						default:
							v = k.unk(st, fmt.Sprint(i))
						}

						vs = append(vs, v)
					}

					args := k.list(st, vs...)
					rets := 0

					for _, o := range k.run(st, f, args) {
						if n < b.min {
							c.ob("arithmetic", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "must raise; %s %s", o.Kind, show(o.Val))

							rets++

							continue
						}

						if o.Kind == Panic {
							ok := !isRuntime(o.Val)
							why := show(o.Val)

							if mk != "any" {
								z := false

								for i := 1; i < n; i++ {
									if s, dec := order(o.St, k.ratVal(o.St, cellPtr(vs[i])), T(nil, "q0")); dec && s == 0 {
										z = true
									}
								}

								ok = ok && b.name == "div" && z
							}

							c.ob("arithmetic-raise", on, ok, o.Pos, "raises %s for operands that are %ss", why, mk)

							continue
						}

						rets++
						qs = qs[:0]

						for _, v := range vs {
							p := cellPtr(v)
							if mk == "any" {
								p = T(nil, "ratptr", v)
								qs = append(qs, T(nil, "qv", p))

								continue
							}

							qs = append(qs, T(nil, "qv", p))
						}

						want := Val(T(nil, "q0"))
						if len(qs) > 0 || b.min == 0 {
							want = b.want(qs)
						}

						r := o.St.norm(o.Val)
						got := k.ratVal(o.St, cellPtr(r))

						if b.name == "div" {
							for i := 1; i < n; i++ {
								if s, dec := order(o.St, qs[i], T(nil, "q0")); dec && s == 0 {
									c.fail("arithmetic", on, o.Pos, "returns a quotient although a divisor is zero")
								}
							}
						}

						c.ob("arithmetic", on, tname(r) == "num" && sameRat(got, want), o.Pos, "value is %s %s, must be %s", tname(r), show(got), show(want))
					}

					if rets == 0 {
						c.undecided("arithmetic", on, "no path gives a result for %s operands", mk)
					}
				}
			})
		}
	}

	// mod: Euclidean remainder of two integers.
	if f := fs["mod"]; f == nil {
		c.undecided("arithmetic", "mod", "not registered")
	} else {
		for n := 0; n <= 4; n++ {
			on := fmt.Sprintf("mod of %d operand(s)", n)

			c.guard("arithmetic", on, func() {
				st := k.st0.clone()

				var vs []Val
				for i := 0; i < n; i++ {
					vs = append(vs, k.obj("num", "T", fmt.Sprint(i)))
				}

				rets := 0

				for _, o := range k.run(st, f, k.list(st, vs...)) {
					if n != 2 {
						c.ob("arithmetic", on, o.Kind == Panic && !isRuntime(o.Val), o.Pos, "must raise; %s %s", o.Kind, show(o.Val))

						rets++

						continue
					}

					q0, q1 := T(nil, "qv", cellPtr(vs[0])), T(nil, "qv", cellPtr(vs[1]))
					isInt := func(q Val) (bool, bool) {
						return asBool(o.St.norm(T(types.Typ[types.Bool], "isint", q)))
					}
					i0, k0 := isInt(q0)
					i1, k1 := isInt(q1)

					if o.Kind == Panic {
						d, dec := order(o.St, T(nil, "num", q1), T(nil, "q0"))
						d2, dec2 := order(o.St, q1, T(nil, "q0"))
						c.ob("arithmetic-raise", on, !isRuntime(o.Val) && (k0 && !i0 || k1 && !i1 || dec && d == 0 || dec2 && d2 == 0), o.Pos, "raises %s for two integers and a divisor that is not zero", show(o.Val))

						continue
					}

					rets++
					r := o.St.norm(o.Val)
					got := k.ratVal(o.St, cellPtr(r))
					want := T(nil, "zmod", T(nil, "num", q0), T(nil, "num", q1))
					c.ob("arithmetic", on, tname(r) == "num" && k0 && i0 && k1 && i1 && got.Key() == want.Key(), o.Pos, "value is %s %s, must be %s with both operands integers", tname(r), show(got), show(want))
				}

				if rets == 0 {
					c.undecided("arithmetic", on, "no path gives a result")
				}
			})
		}
	}

	c.enter(k.in)
}

var _ = token.NoPos
