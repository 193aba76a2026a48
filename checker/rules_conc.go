package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C10"] = rule{
		explain: "Lockset dataflow over SSA with a call graph (VTA). For every structure that embeds a mutex, and every package with a mutex of its own, each access to the other mutable fields or variables must hold that mutex on every path, exclusively for writes. No lock that guards data may be held across an operation that can block, none is taken twice or in conflicting orders, and each is released on every path, including one that panics.",
		assume:  []string{"structures are only shared after their constructor returns", "calls through interfaces resolved by variable type analysis"},
		run:     checkC10,
	}
}

// guard is a mutex with the fields or variables it protects.
type guardT struct {
	name   string
	fields map[string]bool
}

func checkC10(c *Check) {
	p := c.P
	g := p.graph()
	l := g.locks()
	fr := &freshness{p: p, memo: map[ssa.Value]bool{}}

	// Structures with an embedded mutex.
	structs := map[string]*types.Struct{}
	embedded := map[string]string{}

	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}

			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}

			if lk := promotedLock(s); lk != "" {
				structs[tstr(tn.Type())] = s
				embedded[tstr(tn.Type())] = lk
			}
		}
	}

	c.atLeast("guarded-structures", len(structs), 4)

	// Fields never written once the structure is built need no lock.
	mutable := map[string]bool{}
	access := func(f *ssa.Function, visit func(i ssa.Instruction, addr *ssa.FieldAddr, write bool)) {
		instrs(f, func(i ssa.Instruction) {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				return
			}

			if structs[tstr(deref(fa.X.Type()))] == nil {
				return
			}

			for _, r := range *fa.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr == fa {
						visit(x, fa, true)
					} else {
						visit(x, fa, true) // its address escapes
					}
				case *ssa.UnOp:
					visit(x, fa, false)

					// Uses of a map held by the field.
					if _, ok := x.Type().Underlying().(*types.Map); ok {
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.MapUpdate:
								visit(y, fa, true)
							case *ssa.Lookup, *ssa.Range:
								visit(u, fa, false)
							case *ssa.Call:
								if b, ok := y.Call.Value.(*ssa.Builtin); ok {
									visit(y, fa, b.Name() == "delete" || b.Name() == "clear")
								} else {
									visit(y, fa, true)
								}
							}
						}
					}
				case *ssa.FieldAddr, *ssa.DebugRef:
				default:
					visit(r, fa, true)
				}
			}
		})
	}

	for _, f := range p.Src {
		access(f, func(i ssa.Instruction, fa *ssa.FieldAddr, write bool) {
			if write && !fr.fresh(fa.X, 0) {
				mutable[tstr(deref(fa.X.Type()))+"."+fieldOfPtr(fa.X.Type(), fa.Field)] = true
			}
		})
	}

	n := 0

	for _, f := range p.Src {
		access(f, func(i ssa.Instruction, fa *ssa.FieldAddr, write bool) {
			t := tstr(deref(fa.X.Type()))
			field := fieldOfPtr(fa.X.Type(), fa.Field)
			ft := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Type()

			if isSync(ft) || !mutable[t+"."+field] || fr.fresh(fa.X, 0) {
				return
			}

			n++
			need, what := 1, "read"

			if write {
				need, what = 2, "written"
			}

			held := l.at[i][canon(fa.X)+embedded[t]]
			c.ob("guarded", p.fname(f)+" "+field, held >= need, i.Pos(), "field %s of %s is %s with its lock held %s", field, t, what, map[int]string{0: "not at all", 1: "shared", 2: "exclusively"}[held])
		})
	}

	c.atLeast("guarded", n, 8)

	// Package variables with a package mutex.
	n = 0

	for _, q := range p.Pkgs {
		sp := p.SSA.Package(q.Types)
		if sp == nil {
			continue
		}

		var lock *ssa.Global

		for _, m := range sp.Members {
			if gl, ok := m.(*ssa.Global); ok && isMutex(deref(gl.Type())) {
				lock = gl
			}
		}

		if lock == nil {
			continue
		}

		place := canon(lock)
		if _, ok := deref(lock.Type()).Underlying().(*types.Pointer); ok {
			place += "*"
		}

		isInit := func(f *ssa.Function) bool {
			for f.Parent() != nil {
				f = f.Parent()
			}

			return strings.HasPrefix(f.Name(), "init")
		}

		type use struct {
			i     ssa.Instruction
			g     *ssa.Global
			write bool
		}

		var uses []use

		for _, f := range p.Src {
			if isInit(f) {
				continue
			}

			instrs(f, func(i ssa.Instruction) {
				for _, op := range i.Operands(nil) {
					gl, ok := (*op).(*ssa.Global)
					if !ok || gl.Pkg != sp || gl == lock {
						continue
					}

					switch x := i.(type) {
					case *ssa.Store:
						uses = append(uses, use{i, gl, true})
					case *ssa.UnOp:
						uses = append(uses, use{i, gl, false})

						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.MapUpdate:
								if y.Map == x {
									uses = append(uses, use{u, gl, true})
								}
							case *ssa.Lookup, *ssa.Range:
								uses = append(uses, use{u, gl, false})
							case *ssa.Call:
								if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
									uses = append(uses, use{u, gl, true})
								}
							}
						}
					}
				}
			})
		}

		mut := map[*ssa.Global]bool{}
		for _, u := range uses {
			if u.write {
				mut[u.g] = true
			}
		}

		for _, u := range uses {
			if !mut[u.g] {
				continue
			}

			n++
			need, what := 1, "read"

			if u.write {
				need, what = 2, "written"
			}

			held := l.at[u.i][place]
			c.ob("guarded-variable", p.fname(u.i.Parent())+" "+u.g.Name(), held >= need, u.i.Pos(), "variable %s is %s with its lock held %s", u.g.Name(), what, map[int]string{0: "not at all", 1: "shared", 2: "exclusively"}[held])
		}
	}

	c.atLeast("guarded-variable", n, 4)

	// Locks and blocking operations, ordering, and release.
	data := func(place string) bool {
		// A lock that guards data: embedded or a package variable. A named
		// mutex field only serialises its holders.
		if strings.HasPrefix(place, "g:") {
			return true
		}

		q := place[strings.LastIndex(place, ".")+1:]
		q = strings.TrimSuffix(q, "*")

		return q == "Mutex" || q == "RWMutex"
	}

	blk := &blocking{g: g, memo: map[*ssa.Function]string{}}
	sites := 0
	order := map[string]map[string]token.Pos{}

	for _, f := range l.fns {
		instrs(f, func(i ssa.Instruction) {
			held := l.at[i]
			if len(held) == 0 {
				return
			}

			var hs []string

			for h := range held {
				if data(h) {
					hs = append(hs, h)
				}
			}

			sort.Strings(hs)

			ci, isCall := i.(ssa.CallInstruction)
			if isCall {
				if _, ok := i.(*ssa.Defer); ok {
					return
				}

				if _, ok := i.(*ssa.Go); ok {
					return
				}

				if place, op := lockOp(ci.Common()); place != "" {
					if op == "Lock" || op == "RLock" {
						sites++
						_, twice := held[place]
						c.ob("not-taken-twice", p.fname(f), !twice, i.Pos(), "%s is taken while it is already held", place)

						if !data(place) && len(hs) > 0 {
							c.fail("no-blocking", p.fname(f), i.Pos(), "waits for %s while holding %s", place, strings.Join(hs, ", "))
						}

						for h := range held {
							addOrder(order, lockClass(f, h), lockClass(f, place), i.Pos())
						}
					}

					return
				}

				// Locks the callee takes itself.
				for _, cal := range g.callees(ci) {
					if !p.inModule(cal) {
						continue
					}

					for fn := range g.reach(cal, func(x *ssa.Function) bool { return !p.inModule(x) }) {
						instrs(fn, func(j ssa.Instruction) {
							cj, ok := j.(ssa.CallInstruction)
							if !ok {
								return
							}

							if place, op := lockOp(cj.Common()); op == "Lock" || op == "RLock" {
								for h := range held {
									addOrder(order, lockClass(f, h), lockClass(fn, place), i.Pos())
								}
							}
						})
					}
				}
			}

			if len(hs) == 0 {
				return
			}

			sites++

			if why := blk.instr(i, hs); why != "" {
				c.fail("no-blocking", p.fname(f), i.Pos(), "%s while holding %s", why, strings.Join(hs, ", "))
			}
		})
	}

	c.ob("no-blocking", "instructions executed with a lock held", sites > 100, token.NoPos, "%d instructions examined", sites)

	for a, bs := range order {
		for b, pos := range bs {
			// Sibling instances of one class are ordered by construction
			// (a scope's table holds references); a cycle between classes,
			// or a class within itself, can deadlock.
			back := reaches(order, b, a, map[string]bool{})
			c.ob("lock-order", a+" then "+b, !back, pos, "these locks are also taken in the opposite order")
		}
	}

	// Release.
	n = 0

	for _, f := range l.fns {
		if f.Synthetic != "" {
			continue
		}

		took := false

		instrs(f, func(i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if _, op := lockOp(ci.Common()); op == "Lock" || op == "RLock" {
					took = true
				}
			}
		})

		if !took {
			continue
		}

		n++

		mine := func(i ssa.Instruction) (hs []string) {
			for h := range l.owe[i] {
				hs = append(hs, h)
			}

			sort.Strings(hs)

			return
		}

		isHelper := len(g.callers(f)) > 0 && takesForCaller(l, f)

		instrs(f, func(i ssa.Instruction) {
			hs := mine(i)
			if len(hs) == 0 {
				return
			}

			switch x := i.(type) {
			case *ssa.Return:
				c.ob("released", p.fname(f), isHelper, i.Pos(), "returns with %s still held", strings.Join(hs, ", "))
			case *ssa.Panic:
				c.fail("released", p.fname(f), i.Pos(), "panics with %s still held", strings.Join(hs, ", "))
			case *ssa.Call:
				if _, op := lockOp(x.Common()); op != "" {
					return
				}

				if why := mayPanic(g, x, map[*ssa.Function]bool{}); why != "" {
					c.fail("released", p.fname(f), i.Pos(), "%s with %s held and no deferred release", why, strings.Join(hs, ", "))
				}
			}
		})

		c.ob("released", p.fname(f), true, f.Pos(), "released on every path")
	}

	c.atLeast("released", n, 8)

	for _, f := range l.fns {
		c.Fns[p.fname(f)] = true
	}
}

func takesForCaller(l *Locks, f *ssa.Function) bool {
	for _, ci := range l.g.callers(f) {
		if len(l.effect(f, ci, "acquire")) > 0 {
			return true
		}
	}

	return false
}

func addOrder(o map[string]map[string]token.Pos, a, b string, pos token.Pos) {
	if a == "" || b == "" {
		return
	}

	if o[a] == nil {
		o[a] = map[string]token.Pos{}
	}

	if _, ok := o[a][b]; !ok {
		o[a][b] = pos
	}
}

func reaches(o map[string]map[string]token.Pos, a, b string, seen map[string]bool) bool {
	if a == b {
		return true
	}

	if seen[a] {
		return false
	}

	seen[a] = true

	for n := range o[a] {
		if reaches(o, n, b, seen) {
			return true
		}
	}

	return false
}

// lockClass names a lock by the type that holds it.
func lockClass(f *ssa.Function, place string) string {
	if strings.HasPrefix(place, "g:") {
		return place[strings.LastIndex(place, "/")+1:]
	}

	var t types.Type

	rest := ""

	for i := len(place); i > 0; i-- {
		if i < len(place) && place[i] != '.' && place[i] != '*' {
			continue
		}

		if v := valueNamed(f, place[:i]); v != nil {
			t, rest = v.Type(), place[i:]

			break
		}
	}

	if t == nil {
		return ""
	}

	// Walk the fields to the holder of the lock.
	for {
		rest = strings.TrimLeft(rest, "*")
		if !strings.HasPrefix(rest, ".") {
			break
		}

		name := rest[1:]
		if j := strings.IndexAny(name, ".*"); j >= 0 {
			name = name[:j]
		}

		s, ok := deref(deref(t)).Underlying().(*types.Struct)
		if !ok {
			return ""
		}

		var ft types.Type

		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				ft = s.Field(i).Type()
			}
		}

		if ft == nil {
			return ""
		}

		if isMutex(ft) {
			return typeLabel(deref(deref(t))) + "." + name
		}

		t, rest = ft, rest[1+len(name):]
	}

	return ""
}

func valueNamed(f *ssa.Function, name string) ssa.Value {
	for _, v := range f.Params {
		if canon(v) == name {
			return v
		}
	}

	for _, v := range f.FreeVars {
		if canon(v) == name {
			return v
		}
	}

	var r ssa.Value

	instrs(f, func(i ssa.Instruction) {
		if v, ok := i.(ssa.Value); ok && r == nil && canon(v) == name {
			r = v
		}
	})

	return r
}

// blocking decides whether an instruction may wait for something outside the
// process's own control.
type blocking struct {
	g    *Graph
	memo map[*ssa.Function]string
}

var blockingCalls = []string{
	"(*os.File).Read", "(*os.File).ReadAt", "(*os.File).ReadFrom", "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt",
	"(*bufio.Reader).", "(*bufio.Writer).", "(*bufio.Scanner).", "io.", "io/ioutil.", "time.Sleep", "(*sync.WaitGroup).Wait", "fmt.Fprint", "fmt.Print", "fmt.Scan", "fmt.Fscan",
	"os.ReadFile", "os.OpenFile", "os.Open", "os.Create", "(*os.Process).Wait", "(*os/exec.Cmd).", "net.",
}

func (b *blocking) instr(i ssa.Instruction, held []string) string {
	switch x := i.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receives from a channel"
		}
	case *ssa.Select:
		if x.Blocking {
			return "selects on channels"
		}
	case *ssa.Go, *ssa.Defer:
		return ""
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
				return "calls " + n.Obj().Name() + "." + cc.Method.Name()
			}
		}

		for _, f := range b.g.callees(x) {
			if f.Name() == "Wait" && f.Signature.Recv() != nil && tstr(deref(f.Signature.Recv().Type())) == "sync.Cond" {
				// Waiting releases the one lock the condition belongs to.
				if len(held) > 1 {
					return "waits on a condition"
				}

				continue
			}

			if why := b.fn(f); why != "" {
				return why
			}
		}
	}

	return ""
}

func (b *blocking) fn(f *ssa.Function) string {
	if w, ok := b.memo[f]; ok {
		return w
	}

	b.memo[f] = ""

	n := b.g.p.fname(f)
	for _, p := range blockingCalls {
		if strings.HasPrefix(n, p) {
			b.memo[f] = "calls " + n

			return b.memo[f]
		}
	}

	if !b.g.p.inModule(f) || f.Blocks == nil {
		return ""
	}

	why := ""

	instrs(f, func(i ssa.Instruction) {
		if why != "" {
			return
		}

		if ci, ok := i.(ssa.CallInstruction); ok {
			if place, op := lockOp(ci.Common()); place != "" {
				q := strings.TrimSuffix(place[strings.LastIndex(place, ".")+1:], "*")
				if (op == "Lock" || op == "RLock") && q != "Mutex" && q != "RWMutex" && !strings.HasPrefix(place, "g:") {
					why = "waits for " + place + " (in " + n + ")"
				}

				return
			}
		}

		if w := b.instr(i, nil); w != "" {
			why = w + " (in " + n + ")"
		}
	})

	b.memo[f] = why

	return why
}

// mayPanic explains how a call may panic; calls that cannot are the few
// library functions known to be total and module functions without panics.
func mayPanic(g *Graph, x *ssa.Call, seen map[*ssa.Function]bool) string {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "append", "delete", "copy", "print", "println", "min", "max", "clear", "real", "imag", "complex", "ssa:wrapnilchk":
			return ""
		case "recover":
			return ""
		}

		return "calls " + b.Name()
	}

	fs := g.callees(x)
	if len(fs) == 0 {
		return "makes a call that is not resolved"
	}

	for _, f := range fs {
		if seen[f] {
			continue
		}

		seen[f] = true

		if !g.p.inModule(f) || f.Blocks == nil {
			n := g.p.fname(f)
			total := strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "(*os.File)") || strings.HasPrefix(n, "(*sync.")

			if !total {
				return "calls " + n
			}

			continue
		}

		why := ""

		instrs(f, func(i ssa.Instruction) {
			if why != "" {
				return
			}

			switch y := i.(type) {
			case *ssa.Panic:
				why = "calls " + g.p.fname(f) + ", which may panic,"
			case *ssa.TypeAssert:
				if !y.CommaOk {
					why = "calls " + g.p.fname(f) + ", which may panic,"
				}
			case *ssa.Call:
				if place, _ := lockOp(y.Common()); place == "" {
					why = mayPanic(g, y, seen)
				}
			}
		})

		if why != "" {
			return why
		}
	}

	return ""
}

var _ = fmt.Sprint
