package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
)

// Graph is the call graph of the program with queries over it.
type Graph struct {
	p  *Program
	cg *callgraph.Graph
}

var theGraph *Graph

func (p *Program) graph() *Graph {
	if theGraph == nil || theGraph.p != p {
		theGraph = &Graph{p: p, cg: vta.CallGraph(p.Fns, nil)}
	}

	return theGraph
}

// callees lists what an instruction may call.
func (g *Graph) callees(i ssa.CallInstruction) (fs []*ssa.Function) {
	if f := i.Common().StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}

	n := g.cg.Nodes[i.Parent()]
	if n == nil {
		return nil
	}

	for _, e := range n.Out {
		if e.Site == i {
			fs = append(fs, e.Callee.Func)
		}
	}

	return fs
}

// callers lists the call sites that may call f.
func (g *Graph) callers(f *ssa.Function) (cs []ssa.CallInstruction) {
	n := g.cg.Nodes[f]
	if n == nil {
		return nil
	}

	for _, e := range n.In {
		if e.Site != nil {
			cs = append(cs, e.Site)
		}
	}

	return cs
}

func instrs(f *ssa.Function, visit func(i ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			visit(i)
		}
	}
}

// reach lists the module functions that may run, on the same goroutine, when
// f is called; stop prunes.
func (g *Graph) reach(f *ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]ssa.CallInstruction {
	seen := map[*ssa.Function]ssa.CallInstruction{f: nil}
	work := []*ssa.Function{f}

	for len(work) > 0 {
		f := work[0]
		work = work[1:]

		instrs(f, func(i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}

			if _, isGo := i.(*ssa.Go); isGo {
				return
			}

			for _, c := range g.callees(ci) {
				if _, ok := seen[c]; ok || stop != nil && stop(c) {
					continue
				}

				seen[c] = ci
				work = append(work, c)
			}
		})
	}

	return seen
}

// canon names the place a value denotes, stably across instructions.
func canon(v ssa.Value) string { return canonD(v, 0) }

func canonD(v ssa.Value, d int) string {
	if d > 20 {
		return "?" + v.Name()
	}

	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return "p" + string(rune('0'+i))
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return "fv" + string(rune('0'+i))
			}
		}
	case *ssa.Global:
		return "g:" + x.Pkg.Pkg.Path() + "." + x.Name()
	case *ssa.FieldAddr:
		return canonD(x.X, d+1) + "." + fieldOfPtr(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					return canonD(s, d+1)
				}
			}

			return canonD(x.X, d+1) + "*"
		}
	case *ssa.ChangeType:
		return canonD(x.X, d+1)
	case *ssa.MakeInterface:
		return canonD(x.X, d+1)
	case *ssa.Alloc:
		return "a:" + x.Name()
	}

	return v.Name()
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	var s ssa.Value

	n := 0

	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			n++
			s = st.Val
		}
	}

	if n == 1 {
		return s
	}

	return nil
}

func fieldOfPtr(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return s.Field(i).Name()
		}
	}

	return "?"
}

// Locks: a forward must-analysis of the locks held at each instruction.

type lockset map[string]int // place of the lock -> 1 shared, 2 exclusive

func (l lockset) copy() lockset {
	c := lockset{}
	for k, v := range l {
		c[k] = v
	}

	return c
}

func meet(a, b lockset) lockset {
	if a == nil {
		return b.copy()
	}

	c := lockset{}

	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}

			c[k] = v
		}
	}

	return c
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}

	for k, v := range a {
		if b[k] != v {
			return false
		}
	}

	return true
}

// lockOp recognises Lock/Unlock calls on sync mutexes.
func lockOp(c *ssa.CallCommon) (place string, op string) {
	var name string

	var recv ssa.Value

	if c.IsInvoke() {
		if n := namedOf(c.Value.Type()); n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
			return "", ""
		}

		name, recv = c.Method.Name(), c.Value
	} else {
		f := c.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 {
			return "", ""
		}

		t := deref(f.Signature.Recv().Type())
		n := namedOf(t)

		if n == nil || n.Obj().Pkg() == nil {
			return "", ""
		}

		name, recv = f.Name(), c.Args[0]

		if n.Obj().Pkg().Path() != "sync" {
			// A promoted method wrapper: (*hash.T).Lock.
			if f.Synthetic == "" {
				return "", ""
			}

			p := promotedLock(t)
			if p == "" {
				return "", ""
			}

			switch name {
			case "Lock", "Unlock", "RLock", "RUnlock":
				return canon(recv) + p, name
			}

			return "", ""
		}

		if s := n.Obj().Name(); s != "Mutex" && s != "RWMutex" {
			return "", ""
		}
	}

	switch name {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return canon(recv), name
	}

	return "", ""
}

func promotedLock(t types.Type) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}

	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() || !isMutex(f.Type()) {
			continue
		}

		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			return "." + f.Name() + "*"
		}

		return "." + f.Name()
	}

	return ""
}

func isMutex(t types.Type) bool {
	n := namedOf(deref(t))

	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isSync(t types.Type) bool {
	n := namedOf(deref(t))

	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// Locks holds the result of the analysis for every module function.
type Locks struct {
	g     *Graph
	entry map[*ssa.Function]lockset
	at    map[ssa.Instruction]lockset
	fns   []*ssa.Function
	owe   map[ssa.Instruction]lockset // locks taken and not going to be released
}

func (g *Graph) locks() *Locks {
	l := &Locks{g: g, entry: map[*ssa.Function]lockset{}, at: map[ssa.Instruction]lockset{}, owe: map[ssa.Instruction]lockset{}}

	for f := range g.p.Fns {
		if f.Blocks != nil && g.p.inModule(f) {
			l.fns = append(l.fns, f)
		}
	}

	// Optimistic start: unknown entry (nil); functions that may be called
	// from outside the module's own synchronous calls start with no locks.
	for round := 0; round < 12; round++ {
		next := map[*ssa.Function]lockset{}

		for _, f := range l.fns {
			if l.external(f) {
				next[f] = lockset{}
			}
		}

		for _, f := range l.fns {
			e, ok := l.entry[f]
			if round == 0 {
				if !l.external(f) {
					continue
				}

				e, ok = lockset{}, true
			}

			if !ok {
				continue
			}

			l.flow(f, e, func(ci ssa.CallInstruction, held lockset) {
				for _, c := range g.callees(ci) {
					if c.Blocks == nil || !g.p.inModule(c) {
						continue
					}

					t := l.translate(held, ci, c)
					if old, ok := next[c]; ok {
						next[c] = meet(old, t)
					} else {
						next[c] = t
					}
				}
			})
		}

		same := len(next) == len(l.entry)

		for f, e := range next {
			if o, ok := l.entry[f]; !ok || !sameLocks(o, e) {
				same = false
			}
		}

		l.entry = next

		if same {
			break
		}
	}

	for _, f := range l.fns {
		e := l.entry[f]
		if e == nil {
			e = lockset{}
		}

		l.flow(f, e, nil)
	}

	return l
}

// external: the function may be entered by something other than a
// synchronous call in the module.
func (l *Locks) external(f *ssa.Function) bool {
	n := 0

	for _, c := range l.g.callers(f) {
		if !l.g.p.inModule(c.Parent()) {
			return true
		}

		if _, ok := c.(*ssa.Go); ok {
			return true
		}

		n++
	}

	return n == 0
}

// translate renames the places of held locks from a call site to the callee,
// which may be a function literal the caller was itself passed.
func (l *Locks) translate(held lockset, ci ssa.CallInstruction, f *ssa.Function) lockset {
	par, ok := ci.Common().Value.(*ssa.Parameter)
	if !ok || ci.Common().IsInvoke() {
		return translate(held, ci, f)
	}

	outer := ci.Parent()
	at := -1

	for i, p := range outer.Params {
		if p == par {
			at = i
		}
	}

	var all lockset

	for _, site := range l.g.callers(outer) {
		c := site.Common()
		if c.IsInvoke() || at < 0 || at >= len(c.Args) {
			return translate(held, ci, f)
		}

		mc, ok := c.Args[at].(*ssa.MakeClosure)
		if !ok {
			if _, isFn := c.Args[at].(*ssa.Function); isFn {
				continue
			}

			if k, isConst := c.Args[at].(*ssa.Const); isConst && k.IsNil() {
				continue
			}

			return translate(held, ci, f)
		}

		if mc.Fn != f {
			continue
		}

		// Name the locks as the function that made the literal does.
		here := lockset{}

		for k, m := range held {
			if strings.HasPrefix(k, "g:") {
				here[k] = m

				continue
			}

			for i, a := range c.Args {
				p := "p" + string(rune('0'+i))
				if k == p || strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"*") {
					here[canon(a)+k[len(p):]] = m
				}
			}
		}

		t := lockset{}
		bindLocks(t, here, mc)

		if all == nil {
			all = t
		} else {
			all = meet(all, t)
		}
	}

	if all == nil {
		return translate(held, ci, f)
	}

	return all
}

// bindLocks names held locks as the function literal mc does.
func bindLocks(t, held lockset, mc *ssa.MakeClosure) {
	for k, m := range held {
		if strings.HasPrefix(k, "g:") {
			t[k] = m

			continue
		}

		for i, b := range mc.Bindings {
			p := canon(b)
			fv := "fv" + string(rune('0'+i))

			if a, ok := b.(*ssa.Alloc); ok {
				if s := onlyStore(a); s != nil {
					q := canon(s)
					if k == q || strings.HasPrefix(k, q+".") {
						t[fv+"*"+k[len(q):]] = m
					}
				}
			}

			if k == p || strings.HasPrefix(k, p+".") {
				t[fv+k[len(p):]] = m
			}
		}
	}
}

func translate(held lockset, ci ssa.CallInstruction, f *ssa.Function) lockset {
	t := lockset{}
	c := ci.Common()

	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}

	args = append(args, c.Args...)

	for k, m := range held {
		if strings.HasPrefix(k, "g:") {
			t[k] = m

			continue
		}

		for i, a := range args {
			if i >= len(f.Params) {
				break
			}

			p := canon(a)
			if k == p || strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"*") {
				t["p"+string(rune('0'+i))+k[len(p):]] = m
			}
		}

		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bindLocks(t, lockset{k: m}, mc)
		}
	}

	return t
}

// lockState is what is held, and what a deferred call will release, given the
// outcomes of the conditions the function tests more than once.
type lockState struct {
	held, defs lockset
	owe        lockset // taken, on some path, with no release pending
	conds      map[ssa.Value]bool
}

func (s *lockState) key() string {
	var ks []string
	for v, b := range s.conds {
		ks = append(ks, fmt.Sprint(v.Name(), b))
	}

	sort.Strings(ks)

	return strings.Join(ks, " ")
}

func (s *lockState) copy() *lockState {
	c := &lockState{held: s.held.copy(), defs: s.defs.copy(), owe: s.owe.copy(), conds: map[ssa.Value]bool{}}
	for k, v := range s.conds {
		c.conds[k] = v
	}

	return c
}

// condOf strips negations.
func condOf(v ssa.Value) (ssa.Value, bool) {
	neg := false

	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, neg
		}

		neg = !neg
		v = u.X
	}
}

func (l *Locks) flow(f *ssa.Function, entry lockset, call func(ssa.CallInstruction, lockset)) {
	// Conditions tested more than once correlate the branches they control.
	tested := map[ssa.Value]int{}

	for _, b := range f.Blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v, _ := condOf(x.Cond)
			tested[v]++
		}
	}

	type point struct {
		b *ssa.BasicBlock
		k string
	}

	for i := range f.Blocks {
		for _, ins := range f.Blocks[i].Instrs {
			delete(l.at, ins)
			delete(l.owe, ins)
		}
	}

	first := &lockState{held: entry.copy(), defs: lockset{}, owe: lockset{}, conds: map[ssa.Value]bool{}}
	in := map[point]*lockState{{f.Blocks[0], ""}: first}
	work := []point{{f.Blocks[0], ""}}

	for n := 0; len(work) > 0 && n < 4000; n++ {
		pt := work[0]
		work = work[1:]
		b := pt.b
		st := in[pt].copy()
		cur, defs := st.held, st.defs

		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				delete(st.conds, v)
			}

			l.note(i, cur, st.owe)

			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}

			place, op := lockOp(ci.Common())
			if place != "" {
				if _, isDefer := i.(*ssa.Defer); isDefer {
					if strings.HasSuffix(op, "Unlock") {
						defs[place] = 1
						delete(st.owe, place)
					}

					continue
				}

				switch op {
				case "Lock", "RLock":
					cur[place] = 2
					if op == "RLock" {
						cur[place] = 1
					}

					if _, ok := defs[place]; !ok {
						st.owe[place] = 1
					}
				case "Unlock", "RUnlock":
					delete(cur, place)
					delete(st.owe, place)
				}

				continue
			}

			// A helper may release or take locks of its arguments.
			for _, c := range l.g.callees(ci) {
				if _, isDefer := i.(*ssa.Defer); isDefer {
					for p := range l.effect(c, ci, "release") {
						defs[p] = 1
						delete(st.owe, p)
					}

					continue
				}

				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}

				for p := range l.effect(c, ci, "release") {
					delete(cur, p)
					delete(st.owe, p)
				}

				for p, m := range l.effect(c, ci, "acquire") {
					cur[p] = m
					if _, ok := defs[p]; !ok {
						st.owe[p] = 1
					}
				}
			}

			if call != nil {
				if _, isGo := i.(*ssa.Go); isGo {
					call(ci, lockset{})
				} else {
					call(ci, cur)
				}
			}
		}

		for k, s := range b.Succs {
			nx := st.copy()

			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				v, neg := condOf(x.Cond)
				want := (k == 0) != neg

				if have, known := nx.conds[v]; known && have != want {
					continue
				}

				if tested[v] > 1 {
					nx.conds[v] = want
				}
			}

			q := point{s, nx.key()}

			o, ok := in[q]
			if !ok {
				in[q] = nx
				work = append(work, q)

				continue
			}

			m := &lockState{held: meet(o.held, nx.held), defs: meet(o.defs, nx.defs), owe: join(o.owe, nx.owe), conds: nx.conds}
			if !sameLocks(o.held, m.held) || !sameLocks(o.defs, m.defs) || !sameLocks(o.owe, m.owe) {
				in[q] = m
				work = append(work, q)
			}
		}
	}
}

// note records the locks held before an instruction on every path to it.
func (l *Locks) note(i ssa.Instruction, held, owe lockset) {
	if o, ok := l.at[i]; ok {
		l.at[i] = meet(o, held)
		l.owe[i] = join(l.owe[i], owe)

		return
	}

	l.at[i] = held.copy()
	l.owe[i] = owe.copy()
}

func join(a, b lockset) lockset {
	c := a.copy()
	for k, v := range b {
		c[k] = v
	}

	return c
}

// effect summarises the locks of its parameters that a module helper takes
// without releasing, or releases without having taken (one level deep).
func (l *Locks) effect(f *ssa.Function, ci ssa.CallInstruction, kind string) lockset {
	out := lockset{}

	if f.Blocks == nil || !l.g.p.inModule(f) || f.Synthetic != "" {
		return out
	}

	taken, released, deferred := map[string]int{}, map[string]bool{}, map[string]bool{}

	instrs(f, func(i ssa.Instruction) {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return
		}

		place, op := lockOp(c.Common())
		if place == "" {
			return
		}

		_, isDefer := i.(*ssa.Defer)

		switch op {
		case "Lock":
			taken[place] = 2
		case "RLock":
			taken[place] = 1
		case "Unlock", "RUnlock":
			if isDefer {
				deferred[place] = true
			} else {
				released[place] = true
			}
		}
	})

	back := func(place string) string {
		if strings.HasPrefix(place, "g:") {
			return place
		}

		c := ci.Common()

		var args []ssa.Value
		if c.IsInvoke() {
			args = append(args, c.Value)
		}

		args = append(args, c.Args...)

		if strings.HasPrefix(place, "p") && len(place) > 1 {
			if n := int(place[1] - '0'); n >= 0 && n < len(args) {
				return canon(args[n]) + place[2:]
			}
		}

		if strings.HasPrefix(place, "fv") && len(place) > 2 {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				n := int(place[2] - '0')
				b := mc.Bindings[n]

				if a, ok := b.(*ssa.Alloc); ok {
					if s := onlyStore(a); s != nil {
						return canon(s) + strings.TrimPrefix(place[3:], "*")
					}
				}

				return canon(b) + place[3:]
			}
		}

		return ""
	}

	for p, m := range taken {
		if kind == "acquire" && !released[p] && !deferred[p] {
			if q := back(p); q != "" {
				out[q] = m
			}
		}
	}

	for p := range released {
		if _, t := taken[p]; kind == "release" && !t {
			if q := back(p); q != "" {
				out[q] = 1
			}
		}
	}

	return out
}
