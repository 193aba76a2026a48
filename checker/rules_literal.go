package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C16"] = rule{
		explain: "The literal of a value is evaluated abstractly, and its text is put through the lexer and the parser, evaluated in the same way, as a line that another command follows. What is read has to be the values that were written, of the same types, as one command that is complete at the end of its own line. Values are every symbol and every text with each character in each position, whole and fractional numbers and statuses, and every tree of pairs of a size, proper or not, over leaves of every kind.",
		assume:  []string{"adapted.CanonicalString escapes what it does as documented and adapted.ActualBytes undoes it", "big.Rat.RatString writes a whole number as its digits and any other as numerator/denominator, and SetString reads both"},
		run:     checkC16,
	}
}

// lcanon is a text in oh's dollar single-quoted form.
func lcanon(s string) string {
	b := "$'"

	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)

		switch {
		case w == 1 && r == utf8.RuneError:
			b += fmt.Sprintf("\\x%02x", s[0])
		case strings.ContainsRune("\a\b\f\n\r\t\v'\\", r):
			b += "\\" + string("abfnrtv'\\"[strings.IndexRune("\a\b\f\n\r\t\v'\\", r)])
		case r < ' ':
			b += fmt.Sprintf("\\x%02x", r)
		case r <= '~':
			b += string(r)
		case r < 0x10000:
			b += fmt.Sprintf("\\u%04x", r)
		default:
			b += fmt.Sprintf("\\U%08x", r)
		}

		s = s[w:]
	}

	return b + "'"
}

// lactual undoes escapes.
func lactual(s string) (string, error) {
	b := ""

	for len(s) > 0 {
		if s[0] == '\\' && len(s) > 1 && (s[1] == '\'' || s[1] == '"') {
			b, s = b+s[1:2], s[2:]

			continue
		}

		r, multi, tail, err := strconv.UnquoteChar(s, 0)
		if err != nil {
			return "", err
		}

		if multi {
			b += string(r)
		} else {
			b += string([]byte{byte(r)})
		}

		s = tail
	}

	return b, nil
}

// literals evaluates the way of a value to its text and back.
type literals struct {
	c    *Check
	ps   *parSim
	text *ssa.Function
	nums map[string]string
	toks []rtok
	runs int
}

// lnumber is a number or a status.
func lnumber(kind, text string) lv { return llist(lsym("-"+kind), lsym(text)) }

func (l *literals) isNumber(v lv) (kind, text string, ok bool) {
	p, is := v.(*lpair)
	if !is || p == lNull {
		return "", "", false
	}

	h, is := p.car.(lsym)
	if !is || h != "-number" && h != "-status" {
		return "", "", false
	}

	return map[lsym]string{"-number": "num", "-status": "status"}[h], string(lcar(p.cdr).(lsym)), true
}

func (l *literals) number(kind, text string) Val {
	x := l.ps.k.obj(kind, "T", text)
	l.nums[cellPtr(x).Key()] = text

	return x
}

// value is what has been read.
func (l *literals) value(st *State, v Val, d int) lv {
	v = st.norm(v)

	if d > 60 {
		return lsym("...")
	}

	switch n := tname(v); n {
	case "pair":
		root, path, ok := addr(cellPtr(v))
		if !ok || v.Key() == l.ps.k.null(st).Key() {
			break
		}

		return lcons(l.value(st, st.loadAt(root, path+".car", l.ps.k.cell), d+1), l.value(st, st.loadAt(root, path+".cdr", l.ps.k.cell), d+1))
	case "num", "status":
		return lnumber(map[string]string{"num": "number", "status": "status"}[n], l.nums[cellPtr(v).Key()])
	}

	return l.ps.value(st, v, 0)
}

// show tells values apart.
func (l *literals) show(v lv) string {
	if _, t, ok := l.isNumber(v); ok {
		return string(v.(*lpair).car.(lsym))[1:] + " " + t
	}

	switch v := v.(type) {
	case *lpair:
		if v == lNull {
			return "()"
		}

		return "(" + l.show(v.car) + " . " + l.show(v.cdr) + ")"
	case lsym:
		return fmt.Sprintf("%q", string(v))
	case lstr:
		return fmt.Sprintf("$%q", string(v))
	}

	return lshow(v)
}

// make is the cell for a value.
func (l *literals) make(st *State, v lv) (*State, Val) {
	call := func(rel, name string, args ...Val) Val {
		f := l.c.P.fn("internal/common/type/"+rel, name)
		if f == nil {
			panic(budgetError{rel + "." + name + " was not found"})
		}

		o := l.ps.ls.one(st, f, args...)
		if o.Kind != Ret {
			panic(budgetError{rel + "." + name + ": " + o.Why})
		}

		st = o.St

		return o.Val
	}

	if k, t, ok := l.isNumber(v); ok {
		return st, l.number(k, t)
	}

	switch v := v.(type) {
	case *lpair:
		if v == lNull {
			return st, l.ps.k.null(st)
		}

		var a, d Val

		st, a = l.make(st, v.car)
		st, d = l.make(st, v.cdr)

		return st, call("pair", "Cons", a, d)
	case lsym:
		return st, call("sym", "New", cStr(string(v)))
	case lstr:
		return st, call("str", "New", cStr(string(v)))
	}

	panic(budgetError{"no such value"})
}

// back writes a list of values as write does, followed by another command, and
// reads what was written.
func (l *literals) back(v lv) (text, bad string) {
	s := l.ps
	st := s.k.st0
	l.runs++

	st, x := l.make(st, v)

	o := s.ls.one(st, l.text, x)
	if o.Kind != Ret {
		return "", "cannot be written: " + o.Why
	}

	text, ok := asStr(o.St.norm(o.Val))
	if !ok {
		panic(budgetError{"the literal is " + show(o.Val)})
	}

	lst := s.ls.st0
	lst, first, bad := s.ls.feed(lst, text+"\n")

	if bad != "" {
		return text, bad
	}

	_, rest, bad := s.ls.feed(lst, "after it\n")
	if bad != "" {
		return text, bad
	}

	l.toks = append(append([]rtok{}, first...), rest...)

	o = s.ls.one(s.k.st0, s.newp, s.emit, s.item)
	if o.Kind != Ret {
		panic(budgetError{"parser.New: " + o.Why})
	}

	o.St.User["first"] = cInt(int64(len(first)))
	o = s.ls.one(o.St, s.parse, o.Val)

	if o.Kind != Stop || o.Why != "waits for more" {
		why := o.Why

		if t := valOr(o.Val); o.Kind == Ret {
			why = "refused"

			if isNil(o.St.norm(t)) {
				why = "ended"
			}
		}

		return text, "reading it is " + why
	}

	got, _ := asStr(valOr(o.St.User["read"]))
	mid, _ := asStr(valOr(o.St.User["mid"]))
	want := l.show(v) + "\n"

	switch {
	case mid != want && got == want+l.show(llist(lsym("after"), lsym("it")))+"\n":
		return text, "it is not complete at the end of its line"
	case mid != want:
		return text, fmt.Sprintf("read as %s, not as %s", strings.TrimSpace(mid), strings.TrimSpace(want))
	case got != want+l.show(llist(lsym("after"), lsym("it")))+"\n":
		return text, fmt.Sprintf("what follows is read as %s", strings.TrimSpace(strings.TrimPrefix(got, want)))
	}

	return text, ""
}

func checkC16(c *Check) {
	l := &literals{c: c, ps: newParSim(c), nums: map[string]string{}}
	s := l.ps
	in := s.k.in

	l.text = c.P.fn("internal/common/interface/literal", "String")
	if l.text == nil {
		panic(budgetError{"literal.String was not found"})
	}

	for _, n := range []string{"num", "status"} {
		n := n
		in.Hooks["internal/common/type/"+n+".New"] = func(cc *CallCtx) ([]Out, bool) {
			t, ok := asStr(cc.St.norm(cc.Args[0]))
			if !ok {
				return nil, false
			}

			return ret(cc.St, l.number(n, t)), true
		}
	}

	// The texts are what is examined here.
	delete(in.Hooks, "invoke fmt.Stringer.String")
	delete(in.Hooks, "invoke internal/common/interface/literal.I.Literal")

	for _, n := range []string{"String", "Literal"} {
		if m := c.P.SSA.LookupMethod(s.k.ptrT("internal/common/type/pair", "T"), nil, n); m != nil {
			delete(in.Hooks, c.P.fname(m))
		}
	}

	in.Hooks["github.com/michaelmacinnis/adapted.CanonicalString"] = func(cc *CallCtx) ([]Out, bool) {
		t, ok := asStr(cc.St.norm(cc.Args[0]))
		if !ok {
			return nil, false
		}

		return ret(cc.St, cStr(lcanon(t))), true
	}

	in.Hooks["github.com/michaelmacinnis/adapted.ActualBytes"] = func(cc *CallCtx) ([]Out, bool) {
		t, ok := asStr(cc.St.norm(cc.Args[0]))
		if !ok {
			return nil, false
		}

		b, err := lactual(t)
		if err != nil {
			return ret(cc.St, Tuple{cStr(""), cc.freshRes("error")}), true
		}

		return ret(cc.St, Tuple{cStr(b), Nil{}}), true
	}

	rat := func(v Val) (r *big.Rat) {
		if root, _, ok := addr(cellPtr(v)); ok {
			for k, t := range l.nums {
				if k == v.Key() || k == root.Key() {
					r, _ = new(big.Rat).SetString(t)
				}
			}
		}

		return r
	}

	in.Hooks["(*math/big.Rat).FloatString"] = func(cc *CallCtx) ([]Out, bool) {
		r := rat(cc.Args[0])
		n, ok := asInt(cc.Args[1])

		if r == nil || !ok {
			return nil, false
		}

		return ret(cc.St, cStr(r.FloatString(int(n)))), true
	}

	// What is known of numbers.
	for n, f := range map[string]func(string) Val{
		"RatString": func(t string) Val { return cStr(t) },
		"IsInt":     func(t string) Val { return cBool(!strings.Contains(t, "/")) },
		"String": func(t string) Val {
			if !strings.Contains(t, "/") {
				t += "/1"
			}

			return cStr(t)
		},
	} {
		f := f
		in.Hooks["(*math/big.Rat)."+n] = func(cc *CallCtx) ([]Out, bool) {
			if r := rat(cc.Args[0]); r != nil {
				return ret(cc.St, f(r.RatString())), true
			}

			return nil, false
		}
	}

	in.Any = func(cc *CallCtx) ([]Out, bool) {
		if cc.Name != "dynamic" || len(cc.Args) == 0 {
			return nil, false
		}

		switch cc.Args[0].Key() {
		case s.emit.Key():
			t, _ := asStr(valOr(cc.St.User["read"]))
			cc.St.User["read"] = cStr(t + l.show(l.value(cc.St, cc.Args[1], 0)) + "\n")

			return ret(cc.St, Nil{}), true
		case s.item.Key():
			at, _ := asInt(valOr(cc.St.User["at"]))
			first, _ := asInt(valOr(cc.St.User["first"]))

			if at == first {
				cc.St.User["mid"] = valOr(cc.St.User["read"])
			}

			if at == int64(len(l.toks)) {
				return []Out{{St: cc.St, Kind: Stop, Pos: cc.Pos, Why: "waits for more", Val: Nil{}}}, true
			}

			cc.St.User["at"] = cInt(at + 1)
			t := l.toks[at]

			o := in.Call(cc.St, s.mk, []Val{retype(cInt(t.class), s.mk.Signature.Params().At(0).Type()), cStr(t.v), s.loc(cc.St)}, nil, 0, false)
			if len(o) != 1 || o[0].Kind != Ret {
				panic(budgetError{"token.New has more than one outcome"})
			}

			return o, true
		}

		return nil, false
	}

	l.characters()
	l.trees()

	c.count("values", l.runs)
	c.enter(in)
}

// lrunes are the characters a symbol or a text is tried with.
func (l *literals) runes() (rs []string) {
	for b := 0; b < 256; b++ {
		rs = append(rs, string([]byte{byte(b)}))
	}

	return append(rs, "\u0085", "é", "\u2028", "世", "\ufffd", "\ufeff", "😀")
}

func (l *literals) characters() {
	kinds := []struct {
		rule string
		mk   func(s string) lv
	}{
		{"symbol", func(s string) lv { return lsym(s) }},
		{"string", func(s string) lv { return lstr(s) }},
	}

	for _, k := range kinds {
		k := k
		rs := l.runes()

		try := func(on string, ts ...string) {
			l.c.guard(k.rule, on, func() {
				for _, t := range ts {
					for _, v := range []lv{llist(k.mk(t)), llist(llist(lsym("x"), k.mk(t)), lsym("y"))} {
						text, bad := l.back(v)
						if bad != "" {
							l.c.fail(k.rule, on, l.text.Pos(), "%s written as %q: %s", l.show(v), text, bad)

							return
						}
					}
				}

				l.c.pass(k.rule, on, "%d texts", len(ts))
			})
		}

		try("without characters", "")
		try("of digits", "1", "-1", "1234", "007")
		try("of words", "true", "if", "block", "abc", "a-b", "cons", "number", "symbol", "mend")

		for _, r := range rs {
			try(fmt.Sprintf("with %q", r), r, "a"+r, r+"a", "a"+r+"b", r+r)
		}

		l.c.atLeast(k.rule, len(rs), 256)
	}
}

func (l *literals) trees() {
	leaves := []lv{lsym("a"), lstr("b c"), lNull, lnumber("number", "1/3")}
	size := 3

	if l.c.Tier == "thorough" {
		size = 4
	}

	by := [][]lv{leaves}

	for n := 1; n <= size; n++ {
		var vs []lv

		if n == 4 {
			by[0] = by[0][1:3]
			for m := 1; m < 4; m++ {
				by[m] = grow(by, m)
			}
		}

		vs = grow(by, n)
		by = append(by, vs)

		on := fmt.Sprintf("of %d pairs", n)

		l.c.guard("list", on, func() {
			for _, v := range vs {
				for i, w := range []lv{llist(v), llist(v, lsym("z"))} {
					if i > 0 && n > 2 && l.c.Tier != "thorough" {
						break
					}

					text, bad := l.back(w)
					if bad != "" {
						l.c.fail("list", on, l.text.Pos(), "%s written as %q: %s", l.show(w), text, bad)

						return
					}
				}
			}

			l.c.pass("list", on, "%d values", len(vs))
		})

		l.c.atLeast("list", len(vs), 10)
	}

	for _, k := range []string{"number", "status"} {
		for _, t := range []string{"0", "7", "-7", "1/3", "-5/2", "1/1024", "1/3000", "2/1000003", "123456789012345678901234567890", "1/123456789012345678901234567890"} {
			k, t := k, t
			on := k + " " + t

			l.c.guard("number", on, func() {
				for _, w := range []lv{
					llist(lnumber(k, t)), llist(lnumber(k, t), lsym("z")), llist(lsym("z"), llist(lnumber(k, t))),
					llist(lcons(lnumber(k, t), lnumber(k, t))),
				} {
					text, bad := l.back(w)
					if bad != "" {
						l.c.fail("number", on, l.text.Pos(), "%s written as %q: %s", l.show(w), text, bad)

						return
					}
				}

				l.c.pass("number", on, "")
			})
		}
	}
}

// grow is every tree of n pairs.
func grow(by [][]lv, n int) (vs []lv) {
	for i := 0; i < n; i++ {
		for _, a := range by[i] {
			for _, d := range by[n-1-i] {
				vs = append(vs, lcons(a, d))
			}
		}
	}

	return vs
}
