package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C25"] = rule{
		explain: "The scope and frame operations are evaluated over chains of scopes built through their own constructors, for every combination of places a name may be defined (private or exported, inner or outer, this frame or a calling one). The binding found, removed, replaced or copied on each is compared with the lexical-then-exported-dynamic order.",
		assume:  []string{"chains of three scopes and two frames stand for longer ones (each step is the same code)"},
		run:     checkC25,
	}
	rules["C19"] = rule{
		explain: "The scope interface of an object is evaluated over every combination of private, exported and enclosing definitions of a name: only exported names of the object itself may be found, set or removed through it, none may be added privately, and a clone shares no binding with its original.",
		assume:  []string{"as C25"},
		run:     checkC19,
	}
}

// scopes wraps a state with single-path calls of the scope operations.
type scopes struct {
	k  *kit
	st *State
}

func (s *scopes) fn(rel, name string) *ssa.Function {
	f := s.k.p.fn(rel, name)
	if f == nil {
		panic(budgetError{rel + "." + name + " not found"})
	}

	return f
}

// do calls f and requires a single outcome.
func (s *scopes) do(f *ssa.Function, args ...Val) (Val, bool) {
	outs := s.k.run(s.st, f, args...)
	if len(outs) != 1 {
		panic(budgetError{fmt.Sprintf("%s has %d outcomes where one is expected", s.k.p.fname(f), len(outs))})
	}

	s.st = outs[0].St

	return s.st.norm(valOr(outs[0].Val)), outs[0].Kind == Ret
}

// call invokes a method of a known dynamic value.
func (s *scopes) call(recv Val, name string, args ...Val) (Val, bool) {
	i, ok := recv.(*Iface)
	if !ok {
		panic(budgetError{"receiver of " + name + " is " + show(recv)})
	}

	m := s.k.p.SSA.LookupMethod(i.T, nil, name)
	if m == nil {
		panic(budgetError{"no method " + name + " on " + tstr(i.T)})
	}

	return s.do(m, append([]Val{i.V}, args...)...)
}

func (s *scopes) must(recv Val, name string, args ...Val) Val {
	v, ok := s.call(recv, name, args...)
	if !ok {
		panic(budgetError{name + " raises"})
	}

	return v
}

func (s *scopes) env(prev Val) Val {
	v, ok := s.do(s.fn("internal/common/type/env", "New"), prev)
	if !ok {
		panic(budgetError{"env.New raises"})
	}

	return v
}

func (s *scopes) value(name string) Val {
	return &Iface{s.k.ptrT("internal/common/type/str", "T"), P(&Obj{ID: "value:" + name, T: s.k.ptrT("internal/common/type/str", "T").(*types.Pointer).Elem(), Sym: true, Base: true}, "")}
}

// get is what a reference holds; ok is false for no reference.
func (s *scopes) get(ref Val) (Val, bool) {
	ref = s.st.norm(ref)

	switch r := ref.(type) {
	case Nil:
		return nil, false
	case *Iface:
		return s.must(r, "Get"), true
	case *Ptr:
		// A concrete reference type.
		for _, t := range s.k.p.implementors(s.k.p.typ("internal/common/interface/reference", "I")) {
			if pt, ok := t.(*types.Pointer); ok {
				if o, ok := r.Root.(*Obj); ok && types.Identical(o.T, pt.Elem()) {
					return s.must(&Iface{t, r}, "Get"), true
				}
			}
		}
	}

	panic(budgetError{"reference is " + show(ref)})
}

const theName = "k"

var placeNames = []string{"private", "exported"}

// chain builds n nested scopes (outermost last) defining the name in the
// places of mask: bits 2i (private) and 2i+1 (exported) of scope i.
func (s *scopes) chain(n, mask int, pre string) []Val {
	es := make([]Val, n)
	prev := Val(Nil{})

	for i := n - 1; i >= 0; i-- {
		es[i] = s.env(prev)
		prev = es[i]

		for b, op := range []string{"Define", "Export"} {
			if mask>>(2*i+b)&1 == 1 {
				s.must(es[i], op, cStr(theName), s.value(fmt.Sprint(pre, i, placeNames[b])))
			}

			// Another name everywhere, which must not interfere.
			s.must(es[i], op, cStr("other"), s.value("other"))
		}
	}

	return es
}

// want is the place a lexical lookup finds first.
func want(n, mask int, pre string) string {
	for i := 0; i < n; i++ {
		for b := range placeNames {
			if mask>>(2*i+b)&1 == 1 {
				return fmt.Sprint(pre, i, placeNames[b])
			}
		}
	}

	return ""
}

func (s *scopes) found(ref Val) string {
	v, ok := s.get(ref)
	if !ok {
		return ""
	}

	root, _, _ := addr(cellPtr(v))
	if o, ok := root.(*Obj); ok {
		return strings.TrimPrefix(o.ID, "value:")
	}

	return show(v)
}

func checkC25(c *Check) {
	k := newKit(c)
	pos := func(rel, name string) *ssa.Function { return k.p.fn(rel, name) }
	envPos := pos("internal/common/type/env", "New").Pos()

	// Lexical lookup, removal, redefinition and copying.
	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<(2*n); mask++ {
			on := fmt.Sprintf("%d nested scope(s)", n)

			c.guard("lexical", on, func() {
				s := &scopes{k, k.st0.clone()}
				es := s.chain(n, mask, "e")
				got := s.found(s.must(es[0], "Lookup", cStr(theName)))
				w := want(n, mask, "e")
				c.ob("lexical-order", on, got == w, envPos, "defined in %06b: finds %q, must find %q", mask, got, w)

				// unset removes that binding and no other.
				s2 := &scopes{k, s.st.clone()}
				r, ok := s2.call(es[0], "Remove", cStr(theName))
				rb, known := asBool(r)
				left := mask

				for i := 0; i < 2*n; i++ {
					if mask>>i&1 == 1 {
						left &^= 1 << i

						break
					}
				}

				got = s2.found(s2.must(es[0], "Lookup", cStr(theName)))
				c.ob("unset-nearest", on, ok && known && rb == (mask != 0) && got == want(n, left, "e"), envPos, "defined in %06b: unset answers %s and then %q is found, must be %q", mask, show(r), got, want(n, left, "e"))

				if got := s2.found(s2.must(es[0], "Lookup", cStr("other"))); got != "other" {
					c.fail("unset-nearest", on, envPos, "unset removed another name")
				}

				// Defining in the inner scope leaves the outer scopes alone.
				for b, op := range []string{"Define", "Export"} {
					s3 := &scopes{k, s.st.clone()}
					s3.must(es[0], op, cStr(theName), s3.value("new"))

					got := s3.found(s3.must(es[0], "Lookup", cStr(theName)))
					w := "new"

					if b == 1 && mask&1 == 1 {
						w = "e0private"
					}

					c.ob("define-inner", on, got == w, envPos, "%s where defined in %06b: then finds %q", op, mask, got)

					if n > 1 {
						got := s3.found(s3.must(es[1], "Lookup", cStr(theName)))
						c.ob("define-inner", on, got == shift(want(n-1, mask>>2, "e")), envPos, "%s in the inner scope changes the outer one to %q", op, got)
					}
				}

				// Setting through the binding found changes that binding only.
				if mask != 0 {
					s4 := &scopes{k, s.st.clone()}
					ref := s4.must(es[0], "Lookup", cStr(theName))
					s4.must(refIface(s4, ref), "Set", s4.value("new"))
					got := s4.found(s4.must(es[0], "Lookup", cStr(theName)))
					c.ob("set-found", on, got == "new", envPos, "set where defined in %06b: then finds %q", mask, got)

					s4.must(es[0], "Remove", cStr(theName))
					got = s4.found(s4.must(es[0], "Lookup", cStr(theName)))
					c.ob("set-found", on, got == want(n, left, "e"), envPos, "set changed another binding as well: %q is under the one set, must be %q", got, want(n, left, "e"))
				}
			})
		}
	}

	// Resolution across frames.
	newF, dup := pos("internal/common/struct/frame", "New"), pos("internal/common/struct/frame", "Dup")
	ft := k.p.typ("internal/common/struct/frame", "T")

	if newF == nil || dup == nil || ft == nil {
		c.undecided("dynamic", "frames", "package frame not found")

		return
	}

	resolve := k.p.SSA.LookupMethod(types.NewPointer(ft), nil, "Resolve")
	scopeOf := k.p.SSA.LookupMethod(types.NewPointer(ft), nil, "Scope")

	if resolve == nil || scopeOf == nil {
		c.undecided("dynamic", "frames", "frame.Resolve not found")

		return
	}

	for mask := 0; mask < 1<<8; mask++ {
		c.guard("dynamic", "two frames", func() {
			s := &scopes{k, k.st0.clone()}
			here, there := s.chain(2, mask&15, "h"), s.chain(2, mask>>4, "t")

			// The calling frame continues in a nested scope of its own.
			f1, _ := s.do(newF, there[1], Nil{})
			f1, _ = s.do(dup, there[0], f1)
			f0, _ := s.do(newF, here[1], f1)
			f0, _ = s.do(dup, here[0], f0)

			v, ok := s.do(resolve, f0, cStr(theName))
			tu, isT := v.(Tuple)

			if !ok || !isT || len(tu) != 2 {
				c.fail("dynamic-order", "frame.Resolve", resolve.Pos(), "gives %s", show(v))

				return
			}

			got := s.found(tu[1])
			w := want(2, mask&15, "h")
			in := here[0]

			if w == "" {
				for i := 0; i < 2; i++ {
					if mask>>(4+2*i+1)&1 == 1 {
						w = fmt.Sprint("t", i, "exported")
						in = there[i]

						break
					}
				}
			}

			c.ob("dynamic-order", "frame.Resolve", got == w, resolve.Pos(), "defined in %08b: finds %q, must find %q (private names of callers are invisible)", mask, got, w)

			if w != "" {
				c.ob("dynamic-scope", "frame.Resolve", s.st.norm(tu[0]).Key() == in.Key(), resolve.Pos(), "%q is attributed to %s", w, show(tu[0]))
			}

			// Resolving does not move the frame.
			sc, _ := s.do(scopeOf, f0)
			c.ob("dynamic-pure", "frame.Resolve", sc.Key() == here[0].Key(), resolve.Pos(), "after resolving the frame is in %s", show(sc))
		})
	}

	c.enter(k.in)
}

// shift renames e0.. to e1.. for the chain without its innermost scope.
func shift(w string) string {
	if w == "" {
		return ""
	}

	return fmt.Sprintf("e%d%s", int(w[1]-'0')+1, w[2:])
}

func refIface(s *scopes, ref Val) Val {
	if p, ok := ref.(*Ptr); ok {
		if o, ok := p.Root.(*Obj); ok {
			return &Iface{types.NewPointer(o.T), p}
		}
	}

	return ref
}

func checkC19(c *Check) {
	k := newKit(c)
	newO := k.p.fn("internal/common/type/obj", "New")

	if newO == nil {
		c.undecided("object", "obj.New", "not found")

		return
	}

	pos := newO.Pos()

	for mask := 0; mask < 1<<4; mask++ {
		c.guard("object", "obj", func() {
			s := &scopes{k, k.st0.clone()}
			es := s.chain(2, mask, "e")
			o, _ := s.do(newO, es[0])
			on := "object"
			w := ""

			if mask>>1&1 == 1 {
				w = "e0exported"
			}

			got := s.found(s.must(o, "Lookup", cStr(theName)))
			c.ob("only-exported", on, got == w, pos, "defined in %04b: member access finds %q, must find %q", mask, got, w)

			// Private names cannot be added through the object.
			s2 := &scopes{k, s.st.clone()}
			_, ok := s2.call(o, "Define", cStr("new"), s2.value("new"))
			c.ob("no-private-define", on, !ok, pos, "defining a private name in an object must raise")
			c.ob("no-private-define", on, s2.found(s2.must(es[0], "Lookup", cStr("new"))) == "", pos, "the name was defined all the same")

			// Removing through the object touches its exported names only.
			s3 := &scopes{k, s.st.clone()}
			r := s3.must(o, "Remove", cStr(theName))
			rb, known := asBool(r)
			left := mask &^ 2
			c.ob("remove-exported", on, known && rb == (w != ""), pos, "defined in %04b: unset answers %s", mask, show(r))
			got = s3.found(s3.must(es[0], "Lookup", cStr(theName)))
			c.ob("remove-exported", on, got == want(2, left, "e"), pos, "defined in %04b: after unset through the object the scope finds %q, must find %q", mask, got, want(2, left, "e"))

			// Exporting through the object is exporting in its scope.
			s4 := &scopes{k, s.st.clone()}
			s4.must(o, "Export", cStr("new"), s4.value("new"))
			c.ob("export-through", on, s4.found(s4.must(o, "Lookup", cStr("new"))) == "new" && s4.found(s4.must(es[0], "Lookup", cStr("new"))) == "new", pos, "a name exported through the object is found through it and in its scope")
			c.ob("export-through", on, s4.found(s4.must(es[1], "Lookup", cStr("new"))) == "", pos, "a name exported through the object is not found in the enclosing scope")

			// A clone has the same members and shares no binding.
			for _, h := range []struct {
				n string
				v Val
			}{{"object", o}, {"environment", es[0]}} {
				s5 := &scopes{k, s.st.clone()}
				cl, ok := s5.call(h.v, "Clone")

				if !ok {
					c.fail("clone", h.n, pos, "cloning raises")

					continue
				}

				c.ob("clone-kind", h.n, tname(cl) == tname(h.v) && cl.Key() != h.v.Key(), pos, "the clone of %s is %s", tname(h.v), tname(cl))

				a, b := s5.found(s5.must(h.v, "Lookup", cStr(theName))), s5.found(s5.must(cl, "Lookup", cStr(theName)))
				c.ob("clone-same", h.n, a == b, pos, "defined in %04b: the original has %q, the clone %q", mask, a, b)

				for _, dir := range []struct {
					n    string
					x, y Val
				}{{"original", h.v, cl}, {"clone", cl, h.v}} {
					// Only bindings of the scope itself are copied.
					own := mask & 3
					if h.n == "object" {
						own = mask & 2
					}

					if own != 0 {
						s6 := &scopes{k, s5.st.clone()}
						ref := s6.must(dir.x, "Lookup", cStr(theName))
						s6.must(refIface(s6, ref), "Set", s6.value("new"))
						got := s6.found(s6.must(dir.y, "Lookup", cStr(theName)))
						c.ob("clone-independent", h.n, got == a, pos, "defined in %04b: setting the name in the %s changes the other to %q", mask, dir.n, got)
					}

					s7 := &scopes{k, s5.st.clone()}
					s7.must(dir.x, "Export", cStr("new"), s7.value("new"))
					got := s7.found(s7.must(dir.y, "Lookup", cStr("new")))
					c.ob("clone-independent", h.n, got == "", pos, "exporting a name from the %s gives it to the other", dir.n)

					s8 := &scopes{k, s5.st.clone()}
					s8.must(dir.x, "Remove", cStr(theName))
					got = s8.found(s8.must(dir.y, "Lookup", cStr(theName)))

					if own != 0 {
						c.ob("clone-independent", h.n, got == a, pos, "defined in %04b: removing the name from the %s changes the other to %q", mask, dir.n, got)
					}
				}

				// Private names of the original are still private.
				if h.n == "object" {
					ex := s5.must(cl, "Expose")
					got := s5.found(s5.must(ex, "Lookup", cStr(theName)))
					c.ob("clone-same", h.n, got == want(2, mask, "e"), pos, "defined in %04b: inside the clone the name is %q, must be %q", mask, got, want(2, mask, "e"))
				}
			}
		})
	}

	c.enter(k.in)
}
