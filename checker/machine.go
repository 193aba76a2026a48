package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine drives the shell's evaluator, step by step, over the abstract
// domain: an oh command goes in, every path's evaluation trace comes out.
// Sub-commands are summarised (evaluating one yields one fresh value and
// leaves everything else alone); that summary is the induction hypothesis
// whose step each construct's check establishes.
type Machine struct {
	W         *World
	P         *Program
	In        *Interp
	tT        types.Type // *task.T
	cell      types.Type
	evalCmd   *ssa.Function
	frameP    string // access path of the frame register from *task.T
	builtins  map[string]Val
	subVal    map[string]Val // value of an opaque sub-command, by object id
	Vars      map[string]Val // values of variables in the base scope
	subRaise  map[string]bool
	StepMax   int
	Err       error
	OpaqueFn  map[string]bool // builtins treated as opaque
	Debug     bool
	AfterEval func(st *State, name string)
	ViaStep   bool                             // operations are performed by the task's own loop step, which turns errors into exceptions
	ValueOf   func(st *State, name string) Val // overrides valOf when not nil
}

// MRes is the end of one abstract evaluation.
type MRes struct {
	St     *State
	Kind   string // Ret, Panic (escaped as an oh exception), Stop, Trunc
	Why    string
	Pos    token.Pos
	Result Val
	Under  Val // the dump below the result
	Frame  Val
	AtBase bool
	Evals  []string // opaque sub-commands evaluated, in order
	Bad    string   // machine-discipline violation noticed on the way
}

const (
	kBoolean = "internal/common/interface/boolean.Value"
)

func newMachine(w *World) (*Machine, error) {
	p := w.P
	m := &Machine{W: w, P: p, In: newInterp(p), subVal: map[string]Val{}, Vars: map[string]Val{}, StepMax: 400, subRaise: map[string]bool{}}

	tn := p.typ("internal/engine/task", "T")
	if tn == nil {
		return nil, fmt.Errorf("type task.T not found")
	}

	m.tT = types.NewPointer(tn)

	cn := p.typ("internal/common/interface/cell", "I")
	if cn == nil {
		return nil, fmt.Errorf("type cell.I not found")
	}

	m.cell = cn

	m.evalCmd = p.fn("internal/engine/task", "EvalCommand")
	if m.evalCmd == nil {
		return nil, fmt.Errorf("task.EvalCommand not found")
	}

	in := m.In
	in.MaxOuts = 4000
	in.Hooks[kBoolean] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, c.St.norm(T(types.Typ[types.Bool], "truth", c.Args[0]))), true
	}

	quiet := func(c *CallCtx) ([]Out, bool) { return ret(c.St, c.freshRes(c.Name)), true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "sync.NewCond"} {
		in.Hooks[n] = quiet
	}

	in.Hooks["invoke internal/common/interface/scope.I.Lookup"] = m.lookupHook
	in.Hooks["invoke internal/common/interface/reference.I.Get"] = func(c *CallCtx) ([]Out, bool) {
		t := asTerm(c.Args[0])
		if t != nil && t.Op == "nonnil" {
			t = asTerm(t.Args[0])
		}

		if t != nil && strings.HasPrefix(t.Op, "ref:") {
			k := strings.TrimPrefix(t.Op, "ref:")
			if v, ok := c.St.User["var:"+k]; ok {
				return ret(c.St, c.St.norm(v)), true
			}

			if v, ok := m.Vars[k]; ok {
				return ret(c.St, c.St.norm(v)), true
			}

			if v, ok := m.builtins[k]; ok {
				return ret(c.St, v), true
			}
		}

		return ret(c.St, c.St.norm(T(m.cell, "get", c.Args[0]))), true
	}
	in.Hooks["invoke internal/common/interface/reference.I.Set"] = func(c *CallCtx) ([]Out, bool) {
		c.St.event("refset", "", c.From, c.Pos, nil, c.Args...)

		return ret(c.St, Tuple{}), true
	}
	in.Hooks["invoke internal/common/interface/cell.I.Name"] = func(c *CallCtx) ([]Out, bool) {
		return ret(c.St, T(types.Typ[types.String], "name", c.Args...)), true
	}

	for _, n := range []string{"Enclosing", "Expose", "Public", "Visible", "Exported"} {
		n := n
		in.Hooks["invoke internal/common/interface/scope.I."+n] = func(c *CallCtx) ([]Out, bool) {
			return ret(c.St, c.pureRes("scope."+n)), true
		}
	}

	in.Hooks["github.com/michaelmacinnis/adapted.CanonicalString"] = func(c *CallCtx) ([]Out, bool) {
		s, ok := asStr(c.Args[0])
		if !ok || strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:?.") != "" {
			return nil, false
		}

		return ret(c.St, cStr("$'"+s+"'")), true
	}

	m.frameP = findField(tn, func(t types.Type) bool {
		n := namedOf(t)

		return n != nil && n.Obj().Name() == "T" && strings.HasSuffix(n.Obj().Pkg().Path(), "struct/frame")
	})
	if m.frameP == "" {
		return nil, fmt.Errorf("no frame register found in task.T")
	}

	if err := m.collect(); err != nil {
		return nil, err
	}

	return m, nil
}

// findField returns the path, through embedded pointers ("*" marks a
// dereference), of the first field accepted by f.
func findField(n *types.Named, f func(types.Type) bool) string {
	var walk func(t types.Type, d int) string

	walk = func(t types.Type, d int) string {
		if d > 3 {
			return ""
		}

		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}

		for i := 0; i < s.NumFields(); i++ {
			if f(s.Field(i).Type()) {
				return "." + s.Field(i).Name()
			}
		}

		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !s.Field(i).Embedded() {
				continue
			}

			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				if r := walk(pt.Elem(), d+1); r != "" {
					return "." + s.Field(i).Name() + "*" + r
				}
			} else if r := walk(ft, d+1); r != "" {
				return "." + s.Field(i).Name() + r
			}
		}

		return ""
	}

	return walk(n, 0)
}

func (m *Machine) lookupHook(c *CallCtx) ([]Out, bool) {
	k, ok := asStr(c.Args[1])
	if !ok {
		return ret(c.St, c.pureRes("scope.Lookup")), true
	}

	_, v1 := m.Vars[k]
	_, v2 := m.builtins[k]
	_, v3 := c.St.User["var:"+k]

	if v1 || v2 || v3 {
		t := T(c.Res, "ref:"+k)

		return ret(c.St, T(c.Res, "nonnil", t)), true
	}

	if strings.HasPrefix(k, "?") { // unknown on purpose
		return ret(c.St, c.pureRes("scope.Lookup")), true
	}

	return ret(c.St, Nil{}), true
}

// collect finds every builtin the start-up code registers, by interpreting
// the exported registration entry point and the engine's initialiser.
func (m *Machine) collect() error {
	m.builtins = map[string]Val{}

	f := m.P.fn("internal/engine/task", "Actions")
	if f == nil {
		return fmt.Errorf("task.Actions not found")
	}

	in := newInterp(m.P)
	sc := T(f.Params[0].Type(), "registry")

	save := map[string]Val{}
	in.Hooks["invoke internal/common/interface/scope.I.Define"] = func(c *CallCtx) ([]Out, bool) {
		if k, ok := asStr(c.Args[1]); ok {
			save[k] = c.Args[2]
		}

		return ret(c.St, Tuple{}), true
	}
	in.Hooks["invoke internal/common/interface/scope.I.Export"] = in.Hooks["invoke internal/common/interface/scope.I.Define"]

	outs := in.Call(m.W.Init.clone(), f, []Val{sc}, nil, 0, false)
	if len(outs) != 1 || outs[0].Kind != Ret {
		return fmt.Errorf("task.Actions has %d paths", len(outs))
	}

	m.W = &World{P: m.P, Init: outs[0].St.freeze()}

	for k, v := range save {
		m.builtins[k] = v
	}

	// The engine registers export itself, as syntax like define.
	m.addSyntax(m.W.Init, "export", "EvalExport")

	if len(m.builtins) < 30 {
		return fmt.Errorf("only %d builtins found", len(m.builtins))
	}

	return nil
}

func (m *Machine) addSyntax(st *State, name, entry string) {
	f, synT := m.P.fn("internal/engine/task", entry), m.P.typ("internal/engine/task", "Syntax")
	opT, act := m.P.typ("internal/engine/task", "Op"), m.P.typ("internal/engine/task", "Action")

	if f == nil || synT == nil || opT == nil || act == nil {
		return
	}

	path := findField(synT, func(t types.Type) bool { return types.Identical(t, opT) })
	if path == "" || strings.Contains(path, "*") {
		return
	}

	o := &Obj{ID: "syntax:" + name, T: synT, Base: true}
	st.storeAt(o, path, &Iface{act, &Fn{F: f}}, opT)
	m.builtins[name] = &Iface{types.NewPointer(synT), P(o, "")}
}

// call1 runs an exported helper that must have exactly one normal path.
func (m *Machine) call1(st *State, f *ssa.Function, args ...Val) (Val, *State, error) {
	if f == nil {
		return nil, st, fmt.Errorf("missing function")
	}

	outs := m.In.Call(st, f, args, nil, 0, false)

	var good []Out

	for _, o := range outs {
		if o.Kind == Ret {
			good = append(good, o)
		}
	}

	if len(good) != 1 {
		return nil, st, fmt.Errorf("%s: %d normal paths of %d", m.P.fname(f), len(good), len(outs))
	}

	return good[0].Val, good[0].St, nil
}

func (m *Machine) meth(name string) *ssa.Function {
	return m.P.SSA.LookupMethod(m.tT, nil, name)
}

// Code builders.

func (m *Machine) null(st *State) Val {
	g := m.P.global("internal/common/type/pair", "Null")

	return st.load(m.In.globalPtr(g), m.cell)
}

func (m *Machine) pairT() types.Type {
	return types.NewPointer(m.P.typ("internal/common/type/pair", "T"))
}

func (m *Machine) cons(st *State, a, d Val) Val {
	v, _, err := m.call1(st, m.P.fn("internal/common/type/pair", "Cons"), a, d)
	if err != nil {
		panic(budgetError{err.Error()})
	}

	return v
}

func (m *Machine) list(st *State, vs ...Val) Val {
	l := m.null(st)
	for i := len(vs) - 1; i >= 0; i-- {
		l = m.cons(st, vs[i], l)
	}

	return l
}

// sym builds the cell for a symbol as the shell itself would.
func (m *Machine) sym(st *State, s string) Val {
	o := &Obj{ID: "sym:" + s, T: m.P.typ("internal/common/type/sym", "T"), Base: true}
	st.storeAt(o, "", cStr(s), o.T)

	return &Iface{types.NewPointer(o.T), P(o, "")}
}

// str builds a string cell.
func (m *Machine) str(st *State, s string) Val {
	v, _, err := m.call1(st, m.P.fn("internal/common/type/str", "New"), cStr(s))
	if err != nil {
		panic(budgetError{err.Error()})
	}

	return v
}

// cmd is an opaque sub-command: a non-empty list of unknown content.
func (m *Machine) cmd(name string) Val {
	return &Iface{m.pairT(), P(&Obj{ID: "cmd:" + name, T: m.P.typ("internal/common/type/pair", "T"), Sym: true, Base: true}, "")}
}

// atom is a non-list argument of unknown type.
func (m *Machine) atom(st *State, name string) Val {
	t := T(m.cell, "atom:"+name)
	st.assumeType(t, m.pairT(), false)
	st.rep[T(types.Typ[types.Bool], "==", Nil{}, t).key] = cBool(false)
	st.rep[T(types.Typ[types.Bool], "==", t, Nil{}).key] = cBool(false)

	return t
}

func subName(v Val) (string, bool) {
	i, ok := v.(*Iface)
	if !ok {
		return "", false
	}

	p, ok := i.V.(*Ptr)
	if !ok {
		return "", false
	}

	o, ok := p.Root.(*Obj)
	if !ok || p.Path != "" || !strings.HasPrefix(o.ID, "cmd:") {
		return "", false
	}

	return strings.TrimPrefix(o.ID, "cmd:"), true
}

// valOf is the summarised value of evaluating sub-command name.
func (m *Machine) valOf(st *State, name string) Val {
	if m.ValueOf != nil {
		if v := m.ValueOf(st, name); v != nil {
			return v
		}
	}

	if v, ok := m.subVal[name]; ok {
		return v
	}

	k := 1
	for e := st.ev; e != nil; e = e.Prev {
		if e.Kind == "eval" && e.Name == name {
			k++
		}
	}

	return T(m.cell, fmt.Sprintf("val:%s.%d", name, k))
}

func (m *Machine) frameOf(st *State, t Val) Val {
	v := t
	parts := strings.Split(m.frameP, "*")

	var frameT types.Type = types.NewPointer(m.P.typ("internal/common/struct/frame", "T"))

	for i, p := range parts {
		root, path, _ := addr(v)
		v = st.loadAt(root, path+p, frameT)

		_ = i
	}

	return v
}

// Begin sets up a task about to evaluate code in a scope SCOPE, on top of a
// stack whose next operation is BASE and a dump holding OUTER.
func (m *Machine) Begin(st *State, code Val) (t Val, frame Val, err error) {
	jobT := m.P.fn("internal/engine/task", "New").Signature.Params().At(0).Type()
	scopeT := m.P.typ("internal/common/interface/scope", "I")

	sc := T(scopeT, "nonnil", T(scopeT, "SCOPE"))
	st.assumeType(sc, scopeT, true)

	frame, st2, err := m.call1(st, m.P.fn("internal/common/struct/frame", "New"), sc, Nil{})
	if err != nil {
		return nil, nil, err
	}

	if st2 != st {
		return nil, nil, fmt.Errorf("frame.New forked")
	}

	t, _, err = m.call1(st, m.P.fn("internal/engine/task", "New"), T(jobT, "nonnil", T(jobT, "JOB")), code, frame)
	if err != nil {
		return nil, nil, err
	}

	markFrame(frame)

	actT := m.P.typ("internal/engine/task", "Action")
	base := &Iface{actT, T(actT, "BASE")}

	if _, _, err = m.call1(st, m.meth("PushOp"), t, base); err != nil {
		return
	}

	if _, _, err = m.call1(st, m.meth("PushResult"), t, T(m.cell, "OUTER")); err != nil {
		return
	}

	if _, _, err = m.call1(st, m.meth("PushResult"), t, T(m.cell, "REPLACED")); err != nil {
		return
	}

	return
}

func markFrame(v Val) {
	if p, ok := v.(*Ptr); ok {
		if o, ok := p.Root.(*Obj); ok {
			o.Base = true
		}
	}
}

type mItem struct {
	st    *State
	op    Val
	evals []string
	steps int
}

// Eval evaluates code and returns the end of every path.
func (m *Machine) Eval(st *State, code Val) (res []MRes, frame Val, err error) {
	t, frame, err := m.Begin(st, code)
	if err != nil {
		return nil, nil, err
	}

	actT := m.P.typ("internal/engine/task", "Action")

	op, _, err := m.call1(st, m.meth("PushOp"), t, &Iface{actT, &Fn{F: m.evalCmd}})
	if err != nil {
		return nil, nil, err
	}

	return m.drive(t, mItem{st: st, op: op}), frame, nil
}

func (m *Machine) drive(t Val, start mItem) (res []MRes) {
	work := []mItem{start}
	opT := m.P.typ("internal/engine/task", "Op")
	perform := func(it mItem) []Out {
		if m.ViaStep {
			return m.In.Call(it.st, m.meth("Step"), []Val{t, it.op}, nil, 0, false)
		}

		f := &frame{fn: m.evalCmd, st: it.st}

		ms := types.NewMethodSet(opT)
		sel := ms.Lookup(nil, "Perform")

		return m.In.invoke(f, nil, sel.Obj().(*types.Func), []Val{it.op, t}, nil, opT, token.NoPos, false)
	}

	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]

		if m.Debug {
			c, _, _ := m.call1(it.st, m.meth("Code"), t)
			fmt.Println("step", it.steps, show(it.op), it.evals, m.flat(it.st, c))
		}

		it.steps++
		if it.steps > m.StepMax || len(it.evals) > 10 {
			res = append(res, MRes{St: it.st, Kind: Trunc, Evals: it.evals, Why: "evaluation bound"})

			continue
		}

		top, _, err := m.call1(it.st, m.meth("Op"), t)
		if err != nil {
			res = append(res, MRes{St: it.st, Kind: Stop, Bad: err.Error(), Evals: it.evals})

			continue
		}

		bad := ""
		if top.Key() != it.op.Key() {
			bad = fmt.Sprintf("the next operation %s is not the one on top of the stack (%s)", show(it.op), show(top))
		}

		if i, ok := it.op.(*Iface); ok {
			if tm := asTerm(i.V); tm != nil && tm.Op == "BASE" || bad != "" {
				res = append(res, m.finish(t, it, bad))

				continue
			}

			if fn, ok := i.V.(*Fn); ok && fn.F == m.evalCmd {
				code, _, err := m.call1(it.st, m.meth("Code"), t)
				if err == nil {
					if n, ok := subName(it.st.norm(code)); ok {
						m.summarise(t, &it, n)

						if m.subRaise[n] {
							res = append(res, MRes{St: it.st, Kind: Panic, Evals: it.evals, Why: "sub-command raises"})

							continue
						}

						work = append(work, it)

						continue
					}
				}
			}
		} else if isNil(it.op) {
			r := m.finish(t, it, "")
			r.Kind, r.Why = Stop, "task completed"
			res = append(res, r)

			continue
		} else {
			r := m.finish(t, it, "operation of unknown kind: "+show(it.op))
			res = append(res, r)

			continue
		}

		for _, o := range perform(it) {
			n := mItem{st: o.St, evals: append([]string(nil), it.evals...), steps: it.steps}

			switch o.Kind {
			case Ret:
				n.op = o.St.norm(o.Val)
				work = append(work, n)
			case Panic:
				res = append(res, MRes{St: o.St, Kind: Panic, Why: o.Why + " " + show(o.Val), Pos: o.Pos, Evals: n.evals, Frame: m.frameOf(o.St, t), Result: o.Val})
			default:
				res = append(res, MRes{St: o.St, Kind: o.Kind, Why: o.Why, Pos: o.Pos, Evals: n.evals})
			}
		}

		if len(work)+len(res) > 6000 {
			panic(budgetError{"too many evaluation paths"})
		}
	}

	return res
}

// summarise applies the induction hypothesis for sub-command n.
func (m *Machine) summarise(t Val, it *mItem, n string) {
	st := it.st
	it.evals = append(append([]string(nil), it.evals...), n)

	v := m.valOf(st, n)
	st.event("eval", n, nil, token.NoPos, v, m.frameOf(st, t))

	if _, _, err := m.call1(st, m.meth("ReplaceResult"), t, v); err != nil {
		panic(budgetError{err.Error()})
	}

	op, _, err := m.call1(st, m.meth("PreviousOp"), t)
	if err != nil {
		panic(budgetError{err.Error()})
	}

	it.op = st.norm(op)
	nonNil(st, v)

	// Code is scratch: evaluation leaves it unspecified.
	m.setCode(st, t, T(m.cell, "code-after:"+n+st.fresh()))

	if m.AfterEval != nil {
		m.AfterEval(st, n)
	}
}

func (m *Machine) setCode(st *State, t, code Val) {
	p := m.codePath()
	if p == "" {
		return
	}

	v := t
	parts := strings.Split(p, "*")

	for i, q := range parts {
		root, path, _ := addr(v)
		if i == len(parts)-1 {
			st.storeAt(root, path+q, code, m.cell)
		} else {
			v = st.loadAt(root, path+q, m.tT)
		}
	}
}

// codePath finds the code register: the field Code() returns.
func (m *Machine) codePath() string {
	f := m.meth("Code")
	if f == nil {
		return ""
	}

	tn := m.P.typ("internal/engine/task", "T")
	want := ""

	// Look for the cell-typed field read by the (possibly promoted) accessor.
	for g := range m.P.Fns {
		if g.Name() == "Code" && g.Synthetic == "" && fnPkg(g) == tn.Obj().Pkg() && g.Signature.Recv() != nil && g.Blocks != nil {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if fa, ok := i.(*ssa.FieldAddr); ok {
						u := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						want = u.Field(fa.Field).Name()
					}
				}
			}
		}
	}

	if want == "" {
		return ""
	}

	return findFieldNamed(tn, want, m.cell)
}

func findFieldNamed(n *types.Named, name string, typ types.Type) string {
	var walk func(t types.Type, d int) string

	walk = func(t types.Type, d int) string {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return ""
		}

		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name && types.Identical(s.Field(i).Type(), typ) {
				return "." + name
			}
		}

		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Embedded() {
				continue
			}

			if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				if r := walk(pt.Elem(), d+1); r != "" {
					return "." + s.Field(i).Name() + "*" + r
				}
			} else if r := walk(s.Field(i).Type(), d+1); r != "" {
				return "." + s.Field(i).Name() + r
			}
		}

		return ""
	}

	return walk(n, 0)
}

func (m *Machine) finish(t Val, it mItem, bad string) MRes {
	r := MRes{St: it.st, Kind: Ret, Evals: it.evals, Bad: bad, AtBase: bad == ""}

	defer func() {
		if x := recover(); x != nil {
			if be, ok := x.(budgetError); ok {
				r.Bad = be.s
			} else {
				panic(x)
			}
		}
	}()

	r.Frame = m.frameOf(it.st, t)

	v, _, err := m.call1(it.st, m.meth("PopResult"), t)
	if err != nil {
		r.Bad = "no result left: " + err.Error()

		return r
	}

	r.Result = it.st.norm(v)

	u, _, err := m.call1(it.st, m.meth("PopResult"), t)
	if err != nil {
		r.Bad = "the dump below the result is gone: " + err.Error()

		return r
	}

	r.Under = it.st.norm(u)

	return r
}

// nonNil records that v is not a nil interface.
func nonNil(st *State, v Val) {
	if e := asTerm(st.eq(Nil{}, v)); e != nil {
		st.rep[e.key] = cBool(false)
	}
}

// flat renders a list value.
func (m *Machine) flat(st *State, l Val) string {
	null := m.null(st)
	s := "("

	for i := 0; i < 12; i++ {
		l = st.norm(l)
		if l.Key() == null.Key() {
			return s + ")"
		}

		x, ok := l.(*Iface)
		if !ok {
			return s + " . " + show(l) + ")"
		}

		root, path, ok := addr(x.V)
		if !ok || !types.Identical(x.T, m.pairT()) {
			return s + " . " + show(l) + ")"
		}

		s += " " + m.cellStr(st, st.loadAt(root, path+".car", m.cell))
		l = st.loadAt(root, path+".cdr", m.cell)
	}

	return s + "...)"
}

func (m *Machine) cellStr(st *State, v Val) string {
	if x, ok := v.(*Iface); ok {
		root, path, ok := addr(x.V)
		if ok {
			if n, ok := subName(v); ok {
				return n
			}

			switch {
			case types.Identical(x.T, m.pairT()):
				return m.flat(st, v)
			case strings.HasSuffix(tstr(x.T), "type/sym.T"), strings.HasSuffix(tstr(x.T), "type/str.T"):
				return show(st.loadAt(root, path, types.Typ[types.String]))
			}
		}
	}

	return show(v)
}
