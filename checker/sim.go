package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sim evaluates a service in its sequential meaning: a function sent on a
// channel of functions is evaluated by the service before the sender goes on,
// and other channels are queues. A sender left without its reply, a request
// made by the service to itself, and a request that raises are stops.
type sim struct {
	c    *Check
	p    *Program
	in   *Interp
	st0  *State
	rule string
	on   string
}

func isFuncChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}

	_, ok = c.Elem().Underlying().(*types.Signature)

	return ok
}

func newSim(c *Check, rels ...string) *sim {
	p := c.P
	s := &sim{c: c, p: p, in: newInterp(p), st0: world(p, rels...).Init}
	in := s.in

	quiet := func(c *CallCtx) ([]Out, bool) { return ret(c.St, c.freshRes(c.Name)), true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		in.Hooks[n] = quiet
	}

	in.Hooks["sync.NewCond"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(c.Res, "nonnil", T(c.Res, "cond!"+c.St.fresh()))), true
	}

	in.Hooks["sort.Ints"] = func(c *CallCtx) ([]Out, bool) {
		sl, ok := c.Args[0].(*Slice)
		if !ok {
			return nil, false
		}

		it := types.Typ[types.Int]
		var ns []int

		for _, v := range in.elems(c.St, sl, it) {
			n, ok := asInt(v)
			if !ok {
				return nil, false
			}

			ns = append(ns, int(n))
		}

		sort.Ints(ns)

		for i, n := range ns {
			c.St.storeAt(sl.Root, fmt.Sprintf("%s[%d]", sl.Path, sl.Off+i), cInt(int64(n)), it)
		}

		return ret(c.St, Tuple{}), true
	}

	in.Chan = func(c *CallCtx, op string, ch, v Val) ([]Out, bool) {
		stop := func(why string) ([]Out, bool) {
			return []Out{{St: c.St, Kind: Stop, Pos: c.Pos, Why: why, Val: Nil{}}}, true
		}

		k := ch.Key()
		q, _ := c.St.User["chan:"+k].(Tuple)

		switch op {
		case "send":
			if f, ok := v.(*Fn); ok {
				if c.St.User["serving"] != nil {
					return stop("the service sends itself a request and waits for it")
				}

				c.St.User["serving"] = cBool(true)
				outs := in.Call(c.St, f.F, nil, f.B, c.Depth+1, false)

				for i := range outs {
					delete(outs[i].St.User, "serving")

					if outs[i].Kind == Panic {
						outs[i].Kind = Stop
						outs[i].Why = "a request raises in the service (" + outs[i].Why + " " + show(valOr(outs[i].Val)) + ")"
					}

					if outs[i].Kind == Ret {
						outs[i].Val = Tuple{}
					}
				}

				return outs, true
			}

			if c.St.User["closed:"+k] != nil {
				return stop("sends on a closed channel")
			}

			c.St.User["chan:"+k] = append(append(Tuple{}, q...), v)

			return ret(c.St, Tuple{}), true

		case "recv":
			if len(q) > 0 {
				c.St.User["chan:"+k] = append(Tuple{}, q[1:]...)

				return ret(c.St, Tuple{q[0], cBool(true)}), true
			}

			if c.St.User["closed:"+k] != nil {
				var z Val = Nil{}
				if t := asTerm(ch); t != nil && t.T != nil {
					if ct, ok := t.T.Underlying().(*types.Chan); ok {
						z = zeroVal(ct.Elem())
					}
				}

				return ret(c.St, Tuple{z, cBool(false)}), true
			}

			return stop("waits for a reply that never comes")

		case "close":
			if c.St.User["closed:"+k] != nil {
				return stop("closes a channel twice")
			}

			c.St.User["closed:"+k] = cBool(true)

			return ret(c.St, Tuple{}), true
		}

		return nil, false
	}

	return s
}

// do evaluates f on every path and continues with next on each normal one.
func (s *sim) do(st *State, f *ssa.Function, args []Val, next func(st *State, v Val)) {
	if f == nil {
		panic(budgetError{"a function of the scenario is missing"})
	}

	s.in.Steps = 0

	for _, o := range s.in.Call(st, f, args, nil, 0, false) {
		switch o.Kind {
		case Ret:
			next(o.St, o.St.norm(valOr(o.Val)))
		case Trunc:
		case Panic:
			s.c.fail(s.rule, s.on, o.Pos, "%s raises %s %s", s.p.fname(f), o.Why, show(valOr(o.Val)))
		default:
			s.c.fail(s.rule, s.on, o.Pos, "%s: %s", s.p.fname(f), o.Why)
		}
	}
}

func (s *sim) fn(rel, name string) *ssa.Function {
	f := s.p.fn(rel, name)
	if f == nil {
		panic(budgetError{rel + "." + name + " not found"})
	}

	return f
}

func (s *sim) method(rel, typ, name string) *ssa.Function {
	t := s.p.typ(rel, typ)
	if t == nil {
		panic(budgetError{"type " + rel + "." + typ + " not found"})
	}

	m := s.p.SSA.LookupMethod(types.NewPointer(t), nil, name)
	if m == nil {
		panic(budgetError{"no method " + name + " on " + rel + "." + typ})
	}

	return m
}

func (s *sim) ptrT(rel, typ string) types.Type {
	t := s.p.typ(rel, typ)
	if t == nil {
		panic(budgetError{"type " + rel + "." + typ + " not found"})
	}

	return types.NewPointer(t)
}

func (s *sim) scenario(rule, on string, f func()) {
	s.c.guard(rule, on, func() {
		s.rule, s.on = rule, on
		f()
	})
}

// boolFields lists the places of the boolean fields of a struct, through
// embedded structures and pointers, as they are in memory.
func (s *sim) boolFields(st *State, p Val, t types.Type, d int, visit func(name string, root Val, path string)) {
	root, path, ok := addr(p)
	if !ok || d > 4 {
		return
	}

	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}

	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fp := path + "." + f.Name()

		switch ft := f.Type().Underlying().(type) {
		case *types.Basic:
			if ft.Kind() == types.Bool {
				visit(f.Name(), root, fp)
			}
		case *types.Struct:
			if !isSync(f.Type()) {
				s.boolFields(st, P(root, fp), f.Type(), d+1, visit)
			}
		case *types.Pointer:
			if f.Embedded() && !isSync(f.Type()) {
				v := st.norm(st.loadAt(root, fp, f.Type()))
				if _, ok := v.(*Ptr); ok {
					s.boolFields(st, v, ft.Elem(), d+1, visit)
				}
			}
		}
	}
}

var _ = strings.TrimSpace
