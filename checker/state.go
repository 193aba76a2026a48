package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Ev is one observable effect on a path.
type Ev struct {
	Prev *Ev
	Kind string // call, go, send, recv, close, lock..., or rule-defined
	Name string
	Fn   *ssa.Function
	Args []Val
	Ret  Val
	Pos  token.Pos
}

// MapObj is the content of a map; values are replaced, never mutated.
type MapObj struct {
	Keys []Val
	Vals []Val
	Sym  bool // may hold further, unknown entries
}

// PanRec describes the panic a deferred call is running under.
type PanRec struct {
	Val       Val
	Recovered bool
}

// State is the abstract store of one path.
type State struct {
	base  map[string]Val
	bmaps map[string]*MapObj
	mem   map[string]Val
	maps  map[string]*MapObj
	iters map[string]int
	rep   map[string]Val
	dyn   map[string]types.Type
	not   map[string][]types.Type
	impl  map[string][]types.Type
	lo    map[string]int64
	hi    map[string]int64
	ev    *Ev
	pan   []PanRec
	n     int
	Notes []string
	User  map[string]Val // rule-defined path facts
}

func newState() *State {
	return &State{
		base: map[string]Val{}, bmaps: map[string]*MapObj{},
		mem: map[string]Val{}, maps: map[string]*MapObj{}, iters: map[string]int{},
		rep: map[string]Val{}, dyn: map[string]types.Type{},
		not: map[string][]types.Type{}, impl: map[string][]types.Type{},
		lo: map[string]int64{}, hi: map[string]int64{}, User: map[string]Val{},
	}
}

func (s *State) clone() *State {
	c := *s
	c.mem = maps.Clone(s.mem)
	c.maps = maps.Clone(s.maps)
	c.iters = maps.Clone(s.iters)
	c.rep = maps.Clone(s.rep)
	c.dyn = maps.Clone(s.dyn)
	c.not = maps.Clone(s.not)
	c.impl = maps.Clone(s.impl)
	c.lo = maps.Clone(s.lo)
	c.hi = maps.Clone(s.hi)
	c.User = maps.Clone(s.User)
	c.pan = append([]PanRec(nil), s.pan...)

	return &c
}

// freeze turns everything known so far into the shared base.
func (s *State) freeze() *State {
	c := s.clone()
	b := maps.Clone(s.base)
	maps.Copy(b, s.mem)
	c.base, c.mem = b, map[string]Val{}

	m := maps.Clone(s.bmaps)
	maps.Copy(m, s.maps)
	c.bmaps, c.maps = m, map[string]*MapObj{}
	c.ev = nil

	for _, v := range b {
		markBase(v, 0)
	}

	for _, mo := range m {
		for _, v := range mo.Vals {
			markBase(v, 0)
		}
	}

	return c
}

func markBase(v Val, d int) {
	if d > 6 {
		return
	}

	switch v := v.(type) {
	case *Ptr:
		if o, ok := v.Root.(*Obj); ok {
			o.Base = true
		}
	case *Iface:
		markBase(v.V, d+1)
	case *Struct:
		for _, f := range v.F {
			markBase(f, d+1)
		}
	case *Fn:
		for _, f := range v.B {
			markBase(f, d+1)
		}
	case *Slice:
		if o, ok := v.Root.(*Obj); ok {
			o.Base = true
		}
	}
}

func (s *State) fresh() string {
	s.n++

	return strconv.Itoa(s.n)
}

func (s *State) event(kind, name string, fn *ssa.Function, pos token.Pos, ret Val, args ...Val) {
	s.ev = &Ev{Prev: s.ev, Kind: kind, Name: name, Fn: fn, Args: args, Ret: ret, Pos: pos}
}

// events lists the path's effects, oldest first.
func (s *State) events() []*Ev {
	var es []*Ev
	for e := s.ev; e != nil; e = e.Prev {
		es = append(es, e)
	}

	for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
		es[i], es[j] = es[j], es[i]
	}

	return es
}

func (s *State) norm(v Val) Val {
	for i := 0; i < 50; i++ {
		t, ok := v.(*Term)
		if !ok {
			return v
		}

		r, ok := s.rep[t.key]
		if !ok {
			return v
		}

		v = r
	}

	return v
}

func (s *State) getMap(id string) *MapObj {
	if m, ok := s.maps[id]; ok {
		return m
	}

	return s.bmaps[id]
}

func (s *State) alloc(t types.Type, site string) *Obj {
	return &Obj{ID: s.fresh(), T: t, Site: site}
}

func (s *State) memGet(k string) (Val, bool) {
	if v, ok := s.mem[k]; ok {
		return v, true
	}

	v, ok := s.base[k]

	return v, ok
}

func (s *State) load(p Val, t types.Type) Val {
	root, path, ok := addr(p)
	if !ok {
		return T(t, "load", p)
	}

	return s.loadAt(root, path, t)
}

func (s *State) loadAt(root Val, path string, t types.Type) Val {
	if isStructLike(t) {
		ps, ts := subs(t)
		st := &Struct{T: t}

		for i := range ps {
			st.F = append(st.F, s.loadAt(root, path+ps[i], ts[i]))
		}

		return st
	}

	if v, ok := s.memGet(root.Key() + path); ok {
		return s.norm(v)
	}

	if o, ok := root.(*Obj); ok && !o.Sym {
		return zeroVal(t)
	}

	return s.norm(T(t, "@"+path, root))
}

func (s *State) store(p Val, v Val, t types.Type) {
	root, path, ok := addr(p)
	if !ok {
		return
	}

	s.storeAt(root, path, v, t)
}

func (s *State) storeAt(root Val, path string, v Val, t types.Type) {
	if isStructLike(t) {
		ps, ts := subs(t)

		for i := range ps {
			s.storeAt(root, path+ps[i], fieldOf(v, i, ps[i], ts[i]), ts[i])
		}

		return
	}

	s.mem[root.Key()+path] = v
}

func fieldOf(v Val, i int, name string, t types.Type) Val {
	switch v := v.(type) {
	case *Struct:
		if i < len(v.F) {
			return v.F[i]
		}
	}

	return T(t, "fld"+name, v)
}

// interval facts

func (s *State) bounds(v Val) (lo, hi int64, hasLo, hasHi bool) {
	if i, ok := asInt(v); ok {
		return i, i, true, true
	}

	t, ok := v.(*Term)
	if !ok {
		return
	}

	lo, hasLo = s.lo[t.key]
	hi, hasHi = s.hi[t.key]

	if !hasLo && nonNegTerm(t) {
		lo, hasLo = 0, true
	}

	if t.Op == "+" && len(t.Args) == 2 {
		l1, h1, a, b := s.bounds(t.Args[0])
		l2, h2, c, d := s.bounds(t.Args[1])

		if !hasLo && a && c {
			lo, hasLo = l1+l2, true
		}

		if !hasHi && b && d {
			hi, hasHi = h1+h2, true
		}
	}

	return
}

func nonNegTerm(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	}

	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}

	return false
}

// eq decides equality of two abstract values, or returns a boolean term.
func (s *State) eq(a, b Val) Val {
	a, b = s.norm(a), s.norm(b)

	if r, known := s.eqKnown(a, b); known {
		return cBool(r)
	}

	if b.Key() < a.Key() {
		a, b = b, a
	}

	return s.norm(T(types.Typ[types.Bool], "==", a, b))
}

func (s *State) eqKnown(a, b Val) (bool, bool) {
	if x, ok := a.(*Iface); ok {
		switch y := b.(type) {
		case Nil:
			return false, true
		case *Iface:
			if !types.Identical(x.T, y.T) {
				return false, true
			}

			return s.eqKnown(s.norm(x.V), s.norm(y.V))
		case *Term:
			return s.eqIfaceTerm(x, y)
		}
	}

	if _, ok := b.(*Iface); ok {
		if _, ok := a.(*Iface); !ok {
			return s.eqKnown(b, a)
		}
	}

	if a.Key() == b.Key() {
		if t, ok := a.(*Term); ok && t.T != nil {
			if bt, ok := t.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
				return false, false
			}
		}

		return true, true
	}

	if x, ok := a.(Const); ok {
		if y, ok := b.(Const); ok && x.V != nil && y.V != nil {
			return constant.Compare(x.V, token.EQL, y.V), true
		}
	}

	_, an := a.(Nil)
	_, bn := b.(Nil)

	if an || bn {
		o := a
		if an {
			o = b
		}

		switch o := o.(type) {
		case *Ptr, *Fn, *Slice, *MapV, *Iface:
			return false, true
		case *Term:
			if _, ok := s.dyn[o.key]; ok {
				return false, true
			}

			if len(s.impl[o.key]) > 0 || o.Op == "dyn" || o.Op == "chan" || o.Op == "nonnil" {
				return false, true
			}
		}

		return false, false
	}

	if x, ok := a.(*Struct); ok {
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			all := true

			for i := range x.F {
				r, known := s.eqKnown(s.norm(x.F[i]), s.norm(y.F[i]))
				if known && !r {
					return false, true
				}

				all = all && known
			}

			return all, all
		}
	}

	pa, aok := a.(*Ptr)
	pb, bok := b.(*Ptr)

	if aok && bok {
		_, o1 := pa.Root.(*Obj)
		_, o2 := pb.Root.(*Obj)

		if o1 && o2 {
			return false, true // distinct keys, concrete roots
		}
	}

	if aok != bok {
		p := pa
		if bok {
			p = pb
		}

		if o, ok := p.Root.(*Obj); ok && !o.Base && !o.Sym {
			return false, true // a fresh object is not an older unknown one
		}
	}

	if properPart(a, b) || properPart(b, a) {
		return false, true
	}

	l1, h1, a1, b1 := s.bounds(a)
	l2, h2, a2, b2 := s.bounds(b)

	if a1 && b2 && l1 > h2 || a2 && b1 && l2 > h1 {
		return false, true
	}

	return false, false
}

// properPart tells if a is x[k:] or x[:len(x)-k] for the text x = b and some
// known k > 0, which is shorter than x.
func properPart(a, b Val) bool {
	t := asTerm(a)
	if t == nil || t.Op != "slice" || len(t.Args) != 3 || t.Args[0].Key() != b.Key() || t.T == nil {
		return false
	}

	if bt, ok := t.T.Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
		return false
	}

	if n, ok := asInt(t.Args[1]); ok && n > 0 {
		return true
	}

	h := asTerm(t.Args[2])
	if h == nil || h.Op != "+" || len(h.Args) != 2 {
		return false
	}

	n, ok := asInt(h.Args[1])
	l := asTerm(h.Args[0])

	return ok && n < 0 && l != nil && l.Op == "len" && len(l.Args) == 1 && l.Args[0].Key() == b.Key()
}

func (s *State) eqIfaceTerm(x *Iface, y *Term) (bool, bool) {
	if d, ok := s.dyn[y.key]; ok {
		if !types.Identical(d, x.T) {
			return false, true
		}

		return s.eqKnown(s.norm(x.V), s.norm(dynTerm(y, d)))
	}

	for _, n := range s.not[y.key] {
		if types.Identical(n, x.T) || isIface(n) && types.Implements(x.T, n.Underlying().(*types.Interface)) {
			return false, true
		}
	}

	for _, n := range s.impl[y.key] {
		if !types.Implements(x.T, n.Underlying().(*types.Interface)) {
			return false, true
		}
	}

	if p, ok := x.V.(*Ptr); ok {
		if o, ok := p.Root.(*Obj); ok && !o.Base && !o.Sym {
			return false, true
		}
	}

	return false, false
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)

	return ok
}

func dynTerm(x Val, t types.Type) Val { return T(t, "dyn:"+tstr(t), x) }

// less decides a < b, or returns a term.
func (s *State) less(a, b Val) Val {
	a, b = s.norm(a), s.norm(b)

	ca, ok1 := asConst(a)
	cb, ok2 := asConst(b)

	if ok1 && ok2 {
		return cBool(constant.Compare(ca, token.LSS, cb))
	}

	if a.Key() == b.Key() {
		return cBool(false)
	}

	l1, h1, a1, b1 := s.bounds(a)
	l2, h2, a2, b2 := s.bounds(b)

	if b1 && a2 && h1 < l2 {
		return cBool(true)
	}

	if a1 && b2 && l1 >= h2 {
		return cBool(false)
	}

	return s.norm(T(types.Typ[types.Bool], "<", a, b))
}

func notVal(s *State, v Val) Val {
	if b, ok := asBool(v); ok {
		return cBool(!b)
	}

	if t := asTerm(v); t != nil && t.Op == "!" {
		return t.Args[0]
	}

	return T(types.Typ[types.Bool], "!", v)
}

// assume records that the boolean v is b; false means contradiction.
func (s *State) assume(v Val, b bool) bool {
	v = s.norm(v)

	if k, ok := asBool(v); ok {
		return k == b
	}

	t := asTerm(v)
	if t == nil {
		return true
	}

	if t.Op == "!" {
		return s.assume(t.Args[0], !b)
	}

	s.rep[t.key] = cBool(b)

	switch t.Op {
	case "==":
		if b {
			return s.merge(t.Args[0], t.Args[1])
		}

		s.apart(t.Args[0], t.Args[1])
		s.apart(t.Args[1], t.Args[0])
	case "<":
		x, y := s.norm(t.Args[0]), s.norm(t.Args[1])
		l1, _, a1, _ := s.bounds(x)
		_, h2, _, b2 := s.bounds(y)
		l2, _, a2, _ := s.bounds(y)
		_, h1, _, b1 := s.bounds(x)

		if b { // x < y
			if b2 {
				s.setHi(x, h2-1)
			}

			if a1 {
				s.setLo(y, l1+1)
			}
		} else { // x >= y
			if a2 {
				s.setLo(x, l2)
			}

			if b1 {
				s.setHi(y, h1)
			}
		}
	}

	return true
}

// apart sharpens integer bounds from x != const.
func (s *State) apart(x, y Val) {
	c, ok := asInt(y)
	if !ok {
		return
	}

	lo, hi, a, b := s.bounds(x)
	if a && lo == c {
		s.setLo(x, c+1)
	}

	if b && hi == c {
		s.setHi(x, c-1)
	}
}

func (s *State) setLo(v Val, n int64) {
	if t := asTerm(v); t != nil {
		if o, ok := s.lo[t.key]; !ok || o < n {
			s.lo[t.key] = n
			s.pin(t)
		}
	}
}

func (s *State) setHi(v Val, n int64) {
	if t := asTerm(v); t != nil {
		if o, ok := s.hi[t.key]; !ok || o > n {
			s.hi[t.key] = n
			s.pin(t)
		}
	}
}

func (s *State) pin(t *Term) {
	lo, hi, a, b := s.bounds(t)
	if a && b && lo == hi {
		if _, done := s.rep[t.key]; !done {
			s.rep[t.key] = Const{constant.MakeInt64(lo), t.T}
		}
	}
}

// merge makes two values equal.
func (s *State) merge(a, b Val) bool {
	a, b = s.norm(a), s.norm(b)
	if a.Key() == b.Key() {
		return true
	}

	ta, tb := asTerm(a), asTerm(b)

	switch {
	case ta != nil && tb != nil:
		// keep the older/shorter name
		if len(tb.key) < len(ta.key) {
			ta, tb = tb, ta
		}

		s.rep[tb.key] = ta
	case ta != nil:
		s.rep[ta.key] = b
	case tb != nil:
		s.rep[tb.key] = a
	default:
		x, ok1 := a.(*Iface)
		y, ok2 := b.(*Iface)

		if ok1 && ok2 {
			return s.merge(x.V, y.V)
		}
	}

	return true
}

// typeIs decides a type assertion: yes, no, or unknown.
func (s *State) typeIs(v Val, t types.Type) (yes, known bool) {
	v = s.norm(v)

	switch v := v.(type) {
	case Nil:
		return false, true
	case *Iface:
		if isIface(t) {
			return types.Implements(v.T, t.Underlying().(*types.Interface)), true
		}

		return types.Identical(v.T, t), true
	case *Term:
		if d, ok := s.dyn[v.key]; ok {
			if isIface(t) {
				return types.Implements(d, t.Underlying().(*types.Interface)), true
			}

			return types.Identical(d, t), true
		}

		for _, n := range s.not[v.key] {
			if types.Identical(n, t) {
				return false, true
			}

			if isIface(n) && !isIface(t) && types.Implements(t, n.Underlying().(*types.Interface)) {
				return false, true
			}

			if isIface(n) && isIface(t) && types.Implements(t, n.Underlying().(*types.Interface)) {
				return false, true // t is stronger than n
			}
		}

		for _, n := range s.impl[v.key] {
			if isIface(t) && types.Implements(n, t.Underlying().(*types.Interface)) {
				return true, true
			}

			if !isIface(t) && !types.Implements(t, n.Underlying().(*types.Interface)) {
				return false, true
			}
		}

		return false, false
	}

	return false, false
}

func (s *State) assumeType(v Val, t types.Type, yes bool) {
	x := asTerm(s.norm(v))
	if x == nil {
		return
	}

	if yes {
		if isIface(t) {
			s.impl[x.key] = append(append([]types.Type(nil), s.impl[x.key]...), t)
		} else {
			s.dyn[x.key] = t
		}
	} else {
		s.not[x.key] = append(append([]types.Type(nil), s.not[x.key]...), t)
	}
}
