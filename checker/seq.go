package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// seq is one scenario of a simulation: a straight line of calls. Where a call
// has several outcomes the scenario is evaluated again for each of them.
type seq struct {
	*sim
	st     *State
	choice []int
	arity  []int
	pos    int
}

type abandon struct{}

// explore evaluates f once for every combination of outcomes of its calls.
func (s *sim) explore(rule, on string, f func(q *seq)) {
	s.c.guard(rule, on, func() {
		s.rule, s.on = rule, on

		q := &seq{sim: s}

		for n := 0; ; n++ {
			if n > 4000 {
				panic(budgetError{"more than 4000 combinations of outcomes"})
			}

			q.st, q.pos = s.st0.clone(), 0

			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abandon); !ok {
							panic(r)
						}
					}
				}()

				f(q)
			}()

			q.choice, q.arity = q.choice[:q.pos], q.arity[:q.pos]

			for len(q.choice) > 0 && q.choice[len(q.choice)-1]+1 == q.arity[len(q.arity)-1] {
				q.choice = q.choice[:len(q.choice)-1]
				q.arity = q.arity[:len(q.arity)-1]
			}

			if len(q.choice) == 0 {
				return
			}

			q.choice[len(q.choice)-1]++
		}
	})
}

// pick chooses one of n alternatives of this run of the scenario.
func (q *seq) pick(n int) int {
	if n == 1 {
		return 0
	}

	if q.pos == len(q.choice) {
		q.choice = append(q.choice, 0)
		q.arity = append(q.arity, n)
	}

	i := q.choice[q.pos]
	if q.arity[q.pos] != n {
		panic(budgetError{"scenario is not repeatable"})
	}

	q.pos++

	return i
}

// outs evaluates f and chooses one outcome.
func (q *seq) out(f *ssa.Function, args ...Val) Out {
	return q.outB(f, nil, args...)
}

func (q *seq) outB(f *ssa.Function, binds []Val, args ...Val) Out {
	if f == nil {
		panic(budgetError{"a function of the scenario is missing"})
	}

	q.in.Steps = 0

	var os []Out

	for _, o := range q.in.Call(q.st, f, args, binds, 0, false) {
		if o.Kind != Trunc {
			os = append(os, o)
		}
	}

	if len(os) == 0 {
		panic(abandon{})
	}

	o := os[q.pick(len(os))]
	q.st = o.St

	return o
}

// call evaluates f, which must return.
func (q *seq) call(f *ssa.Function, args ...Val) Val {
	o := q.out(f, args...)
	q.must(f, o)

	return q.st.norm(valOr(o.Val))
}

func (q *seq) must(f *ssa.Function, o Out) {
	switch o.Kind {
	case Ret:
		return
	case Panic:
		q.c.fail(q.rule, q.on, o.Pos, "%s raises %s %s", q.p.fname(f), o.Why, show(valOr(o.Val)))
	default:
		q.c.fail(q.rule, q.on, o.Pos, "%s: %s", q.p.fname(f), o.Why)
	}

	panic(abandon{})
}

func (q *seq) callB(fn Val, args ...Val) Val {
	f, ok := fn.(*Fn)
	if !ok {
		panic(budgetError{"not a known function: " + show(fn)})
	}

	o := q.outB(f.F, f.B, args...)
	q.must(f.F, o)

	return q.st.norm(valOr(o.Val))
}

func (q *seq) ok(b bool, detail string, args ...any) bool {
	return q.c.ob(q.rule, q.on, b, token.NoPos, detail, args...)
}

// slice builds a slice holding vs.
func (q *seq) slice(et types.Type, vs ...Val) Val {
	o := q.st.alloc(et, "scenario")

	for i, v := range vs {
		q.st.storeAt(o, fmt.Sprintf("[%d]", i), v, et)
	}

	return &Slice{Root: o, Len: len(vs), Cap: len(vs)}
}

// since lists the events after e.
func (q *seq) since(e *Ev) []*Ev {
	var es []*Ev

	for x := q.st.ev; x != nil && x != e; x = x.Prev {
		es = append([]*Ev{x}, es...)
	}

	return es
}

// calls counts the calls of an unknown function since e.
func (q *seq) calls(fn Val, e *Ev) int {
	n := 0

	for _, x := range q.since(e) {
		if x.Kind == "call" && x.Name == "dynamic" && x.Args[0].Key() == fn.Key() {
			n++
		}
	}

	return n
}
