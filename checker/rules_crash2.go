package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// steps evaluates a step of a task whose operation raises an error.
func (k *crash) steps() {
	k.c.guard("C01.step", "(*task.T).Step", func() {
		t := newKit(k.c)
		t.w = world(k.p, relTask, "internal/engine/commands")
		t.st0 = t.w.Init
		in := t.in
		ot := k.p.typ(relTask, "Op")
		tt := t.ptrT(relTask, "T")
		step := methodOf(k.p, relTask, "T", "Step")

		if ot == nil || step == nil {
			panic(budgetError{"task.Op or Step not found"})
		}

		errs := map[string]func(st *State) Val{
			"a text": func(st *State) Val { return &Iface{types.Typ[types.String], T(types.Typ[types.String], "MESSAGE")} },
			"an error": func(st *State) Val {
				v := T(types.Universe.Lookup("error").Type(), "ERROR")
				nonNil(st, v)

				return v
			},
			"a runtime error": func(st *State) Val { return rtPanic("nilderef") },
			"a cell": func(st *State) Val {
				v := T(t.cell, "CELL")
				nonNil(st, v)

				return v
			},
		}

		for _, name := range []string{"a text", "an error", "a runtime error", "a cell", "nothing"} {
			name := name

			in.Hooks["invoke internal/engine/task.Op.Perform"] = func(c *CallCtx) ([]Out, bool) {
				// Whatever was done before the error.
				c.St.event("perform", "", c.From, c.Pos, nil)

				if e := errs[name]; e != nil {
					return []Out{{St: c.St, Kind: Panic, Val: e(c.St), Why: "the operation raises " + name, Pos: c.Pos}}, true
				}

				v := T(c.Res, "next")
				nonNil(c.St, v)

				return ret(c.St, v), true
			}

			// What the task already holds does not matter.
			in.Hooks["fmt.Sprintf"] = func(c *CallCtx) ([]Out, bool) {
				return ret(c.St, T(types.Typ[types.String], "message")), true
			}
			in.Hooks["fmt.Sprint"] = in.Hooks["fmt.Sprintf"]

			st := t.st0.clone()

			var task Val

			for _, o := range in.Call(st, k.p.fn(relTask, "New"), []Val{Nil{}, T(t.cell, "code"), Nil{}}, nil, 0, false) {
				if o.Kind == Ret {
					st, task = o.St, o.Val
				}
			}

			if task == nil {
				panic(budgetError{"task.New has no result"})
			}

			op := T(ot, "operation")
			nonNil(st, op)
			in.Steps = 0
			n := 0

			for _, o := range in.Call(st, step, []Val{wrapPtr(tt, task), op}, nil, 0, false) {
				if o.Kind == Trunc {
					continue
				}

				n++

				next := o.St.norm(valOr(o.Val))
				k.c.ob("C01.step", "(*task.T).Step", o.Kind == Ret && !isNil(next), o.Pos, "an operation that raises %s: the step must return and have an operation to go on with: %s %s %s", name, o.Kind, o.Why, show(next))

				if errs[name] == nil || o.Kind != Ret {
					continue
				}

				thrown := k.thrown(t, o.St, task)
				k.c.ob("C01.step", "(*task.T).Step", thrown == "", o.Pos, "an operation that raises %s: the task must go on by throwing it: %s", name, thrown)
			}

			k.c.ob("C01.step", "(*task.T).Step", n > 0, token.NoPos, "an operation that raises %s: the step has no outcome", name)
		}

		k.c.enter(in)
	})
}

func wrapPtr(t types.Type, v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}

	return v
}

// thrown explains how what the task does next is not throwing an error.
func (k *crash) thrown(t *kit, st *State, task Val) string {
	in := t.in
	get := func(f *ssa.Function, args ...Val) Val {
		if f == nil {
			panic(budgetError{"a function of the step's scenario is missing"})
		}

		in.Steps = 0

		for _, o := range in.Call(st.clone(), f, args, nil, 0, false) {
			if o.Kind == Ret {
				st = o.St

				return o.St.norm(valOr(o.Val))
			}
		}

		return Nil{}
	}

	rel := "internal/common/type/pair"
	code := get(methodOf(k.p, relTask, "T", "Code"), task)
	head := get(k.p.fn(rel, "Car"), code)
	rest := get(k.p.fn(rel, "Cdr"), code)
	msg := get(k.p.fn(rel, "Car"), rest)

	txt := get(k.p.fn("internal/common", "String"), head)
	if s, ok := asStr(txt); !ok || s != "throw" {
		return "it goes on with " + show(head)
	}

	if isNil(msg) {
		return "nothing is thrown"
	}

	op := get(methodOf(k.p, relTask, "T", "Op"), task)
	if isNil(op) {
		return "it has nothing to do"
	}

	return ""
}

// lists evaluates the text and the comparison of every list of a few cells,
// which may be their own elements.
func (k *crash) lists() {
	k.c.guard("C01.list", "lists", func() {
		t := newKit(k.c)
		in := t.in
		in.OnRec = nil
		in.MaxVisit, in.MaxRec, in.MaxDepth = 40, 40, 400

		pt := t.ptrT("internal/common/type/pair", "T")

		for _, n := range []string{"String", "Literal"} {
			if m := k.p.SSA.LookupMethod(pt, nil, n); m != nil {
				delete(in.Hooks, k.p.fname(m))
			}
		}

		for _, n := range []string{"invoke fmt.Stringer.String", "invoke internal/common/interface/literal.I.Literal", "invoke internal/common/interface/cell.I.Equal"} {
			delete(in.Hooks, n)
		}

		rel := "internal/common/type/pair"
		call := func(st *State, f *ssa.Function, args ...Val) []Out {
			if f == nil {
				panic(budgetError{"a function of the lists' scenario is missing"})
			}

			in.Steps = 0

			return in.Call(st, f, args, nil, 0, false)
		}
		one := func(st *State, f *ssa.Function, args ...Val) (*State, Val) {
			for _, o := range call(st, f, args...) {
				if o.Kind == Ret {
					return o.St, o.St.norm(valOr(o.Val))
				}
			}

			panic(budgetError{k.p.fname(f) + " does not return"})
		}

		cells := 2
		if k.c.Tier == "thorough" {
			cells = 3
		}

		st := t.st0.clone()

		var atom Val

		st, atom = one(st, k.p.fn("internal/common/type/str", "New"), cStr("a"))
		null := t.null(st)

		var ps []Val

		for i := 0; i < cells; i++ {
			var p Val

			st, p = one(st, k.p.fn(rel, "Cons"), null, null)
			ps = append(ps, p)
		}

		options := append(append([]Val{}, ps...), null, atom)
		shape := make([]int, 2*cells)
		n, trees := 0, 0

		for {
			s := st.clone()

			for i, o := range shape {
				f := "SetCar"
				if i%2 == 1 {
					f = "SetCdr"
				}

				s, _ = one(s, k.p.fn(rel, f), ps[i/2], options[o])
			}

			on := shapeName(shape, cells)
			finite := finiteShape(shape, cells, 0, map[int]bool{})

			for _, op := range []string{"String", "Literal"} {
				m := k.p.SSA.LookupMethod(pt, nil, op)

				for _, o := range call(s.clone(), m, wrapPtr(pt, ps[0])) {
					ends := o.Kind == Ret || o.Kind == Panic && !strings.HasPrefix(valOr(o.Val).Key(), "runtime:")
					k.c.ob("C01.list", op, ends && (!finite || o.Kind == Ret), o.Pos, "%s: the text of a list ends, or raises an error if the list is in itself: %s %s", on, o.Kind, o.Why)
				}
			}

			same := bisimilar(shape, cells, 0, 1, map[[2]int]bool{})

			for _, o := range call(s.clone(), k.p.SSA.LookupMethod(pt, nil, "Equal"), wrapPtr(pt, ps[0]), ps[1]) {
				b, known := asBool(o.St.norm(valOr(o.Val)))
				k.c.ob("C01.list", "Equal", o.Kind == Ret && known && b == same, o.Pos, "%s: comparing lists ends, with whether they have the same elements (%v): %s %s %s", on, same, o.Kind, o.Why, show(valOr(o.Val)))
			}

			n++
			trees += b2i(finite)

			i := 0
			for ; i < len(shape); i++ {
				shape[i]++
				if shape[i] < len(options) {
					break
				}

				shape[i] = 0
			}

			if i == len(shape) {
				break
			}
		}

		k.c.count("list_shapes", n)
		k.c.atLeast("list_shapes", trees, 20)
		k.c.enter(in)
	})
}

func shapeName(shape []int, cells int) string {
	var s []string

	name := func(o int) string {
		switch {
		case o < cells:
			return fmt.Sprint("cell ", o)
		case o == cells:
			return "()"
		}

		return "a"
	}

	for i := 0; i < len(shape); i += 2 {
		s = append(s, fmt.Sprintf("cell %d = (%s . %s)", i/2, name(shape[i]), name(shape[i+1])))
	}

	return strings.Join(s, ", ")
}

func finiteShape(shape []int, cells, c int, in map[int]bool) bool {
	if in[c] {
		return false
	}

	in[c] = true
	defer delete(in, c)

	for _, o := range shape[2*c : 2*c+2] {
		if o < cells && !finiteShape(shape, cells, o, in) {
			return false
		}
	}

	return true
}

func bisimilar(shape []int, cells, a, b int, seen map[[2]int]bool) bool {
	if seen[[2]int{a, b}] {
		return true
	}

	seen[[2]int{a, b}] = true

	for i := 0; i < 2; i++ {
		x, y := shape[2*a+i], shape[2*b+i]

		if x < cells && y < cells {
			if !bisimilar(shape, cells, x, y, seen) {
				return false
			}
		} else if x != y {
			return false
		}
	}

	return true
}

func methodOf(p *Program, rel, typ, name string) *ssa.Function {
	t := p.typ(rel, typ)
	if t == nil {
		return nil
	}

	return p.SSA.LookupMethod(types.NewPointer(t), p.pkg(rel).Pkg, name)
}
