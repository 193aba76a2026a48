package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an element of the abstract value domain: constants, allocation
// sites, function values, and symbolic access paths ("terms").
type Val interface{ Key() string }

type (
	// Const is a known boolean, number or string.
	Const struct {
		V constant.Value
		T types.Type
	}

	// Nil is the nil pointer/interface/slice/map/chan/func.
	Nil struct{}

	// Term is an unknown value named by how it was obtained.
	Term struct {
		Op   string
		Args []Val
		T    types.Type
		key  string
	}

	// Obj is an allocation site instance or a global variable.
	Obj struct {
		ID   string
		T    types.Type
		Sym  bool // contents unknown rather than zero
		Base bool // existed before the analysed entry point started
		Site string
	}

	// Ptr is an address: a root object (or unknown pointer) and a path.
	Ptr struct {
		Root Val
		Path string
		key  string
	}

	// Fn is a function value with captured variables.
	Fn struct {
		F *ssa.Function
		B []Val
	}

	// Iface is an interface value with a known dynamic type.
	Iface struct {
		T types.Type
		V Val
	}

	// Tuple is a multiple result.
	Tuple []Val

	// Struct is a struct or array value.
	Struct struct {
		T types.Type
		F []Val
	}

	// Slice is a slice with known backing store and bounds.
	Slice struct {
		Root          Val
		Path          string
		Off, Len, Cap int
	}

	// MapV is a reference to a map object.
	MapV struct{ ID string }

	// Iter is a range iterator.
	Iter struct {
		ID string
	}
)

func (c Const) Key() string {
	if c.V == nil {
		return "c?"
	}

	return "c:" + c.V.ExactString()
}
func (Nil) Key() string     { return "nil" }
func (t *Term) Key() string { return t.key }
func (o *Obj) Key() string  { return "#" + o.ID }
func (p *Ptr) Key() string  { return p.key }
func (f *Fn) Key() string {
	s := "fn:" + f.F.String()
	if len(f.B) > 0 {
		s += "[" + keys(f.B) + "]"
	}

	return s
}
func (i *Iface) Key() string  { return "i{" + tstr(i.T) + ":" + i.V.Key() + "}" }
func (t Tuple) Key() string   { return "(" + keys(t) + ")" }
func (s *Struct) Key() string { return "{" + keys(s.F) + "}" }
func (s *Slice) Key() string {
	return fmt.Sprintf("sl(%s%s:%d:%d)", s.Root.Key(), s.Path, s.Off, s.Len)
}
func (m *MapV) Key() string { return "m#" + m.ID }
func (m *Iter) Key() string { return "it#" + m.ID }

func keys(vs []Val) string {
	var b strings.Builder

	for i, v := range vs {
		if i > 0 {
			b.WriteByte(',')
		}

		if v == nil {
			b.WriteString("_")
		} else {
			b.WriteString(v.Key())
		}
	}

	return b.String()
}

var tstrCache = map[types.Type]string{}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}

	if s, ok := tstrCache[t]; ok {
		return s
	}

	s := tstrRaw(t)
	tstrCache[t] = s

	return s
}

// tstrRaw names a type, looking through aliases.
func tstrRaw(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + tstr(u.Elem())
	case *types.Slice:
		return "[]" + tstr(u.Elem())
	case *types.Named:
		return types.TypeString(u, nil)
	}

	return types.TypeString(types.Unalias(t), nil)
}

var termTab = map[string]*Term{}

// T interns a term.
func T(typ types.Type, op string, args ...Val) *Term {
	k := op
	if len(args) > 0 {
		k += "(" + keys(args) + ")"
	}

	if t, ok := termTab[k]; ok {
		return t
	}

	t := &Term{Op: op, Args: args, T: typ, key: k}
	termTab[k] = t

	return t
}

// P makes an address; the empty path of an unknown pointer is that pointer.
func P(root Val, path string) Val {
	if q, ok := root.(*Ptr); ok {
		return P(q.Root, q.Path+path)
	}

	if t, ok := root.(*Term); ok && path == "" {
		return t
	}

	return &Ptr{Root: root, Path: path, key: "&" + root.Key() + path}
}

func addr(v Val) (Val, string, bool) {
	switch v := v.(type) {
	case *Ptr:
		return v.Root, v.Path, true
	case *Term:
		return v, "", true
	}

	return nil, "", false
}

func cBool(b bool) Val   { return Const{constant.MakeBool(b), types.Typ[types.Bool]} }
func cInt(i int64) Val   { return Const{constant.MakeInt64(i), types.Typ[types.Int]} }
func cStr(s string) Val  { return Const{constant.MakeString(s), types.Typ[types.String]} }
func isNil(v Val) bool   { _, ok := v.(Nil); return ok }
func asTerm(v Val) *Term { t, _ := v.(*Term); return t }
func asConst(v Val) (constant.Value, bool) {
	c, ok := v.(Const)
	if !ok || c.V == nil {
		return nil, false
	}

	return c.V, true
}

func asInt(v Val) (int64, bool) {
	c, ok := asConst(v)
	if !ok || c.Kind() != constant.Int {
		return 0, false
	}

	return constant.Int64Val(c)
}

func asStr(v Val) (string, bool) {
	c, ok := asConst(v)
	if !ok || c.Kind() != constant.String {
		return "", false
	}

	return constant.StringVal(c), true
}

func asBool(v Val) (bool, bool) {
	c, ok := asConst(v)
	if !ok || c.Kind() != constant.Bool {
		return false, false
	}

	return constant.BoolVal(c), true
}

func isStructLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return true
	case *types.Array:
		return u.Len() <= 32
	}

	return false
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return Const{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return Const{constant.ToFloat(constant.MakeInt64(0)), t}
		}

		return Nil{}
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}

		return s
	case *types.Array:
		s := &Struct{T: t}
		if u.Len() <= 32 {
			for i := int64(0); i < u.Len(); i++ {
				s.F = append(s.F, zeroVal(u.Elem()))
			}

			return s
		}

		return T(t, "zeroarray:"+tstr(t))
	case *types.Tuple:
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zeroVal(u.At(i).Type()))
		}

		return tu
	}

	return Nil{}
}

// subs lists the (path suffix, type) of the parts of a struct-like type.
func subs(t types.Type) (ps []string, ts []types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ps = append(ps, "."+fieldName(u, i))
			ts = append(ts, u.Field(i).Type())
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			ps = append(ps, "["+strconv.FormatInt(i, 10)+"]")
			ts = append(ts, u.Elem())
		}
	}

	return
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		n = "_" + strconv.Itoa(i)
	}

	return n
}

// show renders a value for a report.
func show(v Val) string {
	if v == nil {
		return "_"
	}

	s := v.Key()
	s = strings.ReplaceAll(s, "github.com/michaelmacinnis/oh/internal/", "")

	if len(s) > 160 {
		s = s[:160] + "…"
	}

	return s
}
