package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	rules["C06"] = rule{
		explain: "The evaluator is evaluated on commands with quoted and unquoted words for arbitrary texts, several working and home directories (with pattern characters in their names) and every outcome of the file name search. What each word becomes, its place, and the pattern searched for are compared with a reference; the pattern is parsed and must match literally what stands for PWD or HOME. Joined words must be quoted when a part is. Interpolation is compared with a reference scanner, its pattern on all texts up to a bound and its replacement for every form of reference.",
		assume:  []string{"adapted.Glob and path/filepath behave as documented"},
		run:     checkC06,
	}
}

func checkC06(c *Check) {
	c.guard("words", "evaluator", func() { c.words() })
	c.guard("joined", "mend", func() { c.joined() })
	c.guard("interpolate", "interpolate", func() { c.interpolation() })
}

// A word of a command under test.
type word struct {
	kind byte // 'q' quoted, 'u' unquoted
	text string
}

type wordCase struct {
	pwd, home string
	words     []word
}

func ws(spec ...string) (r []word) {
	for _, s := range spec {
		r = append(r, word{s[0], s[1:]})
	}

	return
}

const kGlob = "github.com/michaelmacinnis/adapted.Glob"

// foldPaths evaluates on constants what expanding file names uses.
func foldPaths(in *Interp) {
	pathHooks(in)

	str := types.Typ[types.String]

	in.Hooks["path/filepath.Rel"] = func(c *CallCtx) ([]Out, bool) {
		a, ok1 := asStr(c.St.norm(c.Args[0]))
		b, ok2 := asStr(c.St.norm(c.Args[1]))

		if !ok1 || !ok2 {
			return nil, false
		}

		r, err := filepath.Rel(a, b)
		if err != nil {
			e := T(types.Universe.Lookup("error").Type(), "rel-error")
			nonNil(c.St, e)

			return ret(c.St, Tuple{cStr(""), e}), true
		}

		return ret(c.St, Tuple{cStr(r), Nil{}}), true
	}

	// A replacer is the list of its pairs.
	in.Hooks["strings.NewReplacer"] = func(c *CallCtx) ([]Out, bool) {
		s, ok := c.Args[0].(*Slice)
		if !ok {
			return nil, false
		}

		var vs []Val
		for _, e := range in.elems(c.St, s, str) {
			vs = append(vs, c.St.norm(e))
		}

		return ret(c.St, T(c.Res, "nonnil", T(c.Res, "replacer", vs...))), true
	}
	in.Hooks["(*strings.Replacer).Replace"] = func(c *CallCtx) ([]Out, bool) {
		t := asTerm(c.St.norm(c.Args[0]))
		if t != nil && t.Op == "nonnil" {
			t = asTerm(t.Args[0])
		}

		s, ok := asStr(c.St.norm(c.Args[1]))
		if t == nil || t.Op != "replacer" || !ok {
			return nil, false
		}

		var ss []string

		for _, a := range t.Args {
			x, ok := asStr(a)
			if !ok {
				return nil, false
			}

			ss = append(ss, x)
		}

		return ret(c.St, cStr(strings.NewReplacer(ss...).Replace(s))), true
	}
}

// words evaluates glob, which gives what its arguments expand to. External
// commands, cd and exists expand theirs the same way (expanders).
func (c *Check) words() {
	m := mustMachine(c.P)
	foldPaths(m.In)
	internSyms(m)
	symText(c, m, "symbol-text")

	str := types.Typ[types.String]
	mode := ""
	m.In.MaxVisit = 8

	matches := func(pwd string) []string {
		return []string{path.Join(pwd, "m1"), path.Join(pwd, "sub/m2"), "/elsewhere/m3"}
	}

	cur := ""

	m.In.Hooks[kGlob] = func(cc *CallCtx) ([]Out, bool) {
		cc.St.event("glob", kGlob, cc.From, cc.Pos, nil, cc.St.norm(cc.Args[0]))
		tu := cc.Res.(*types.Tuple)

		switch mode {
		case "none":
			return ret(cc.St, Tuple{Nil{}, Nil{}}), true
		case "error":
			e := T(tu.At(1).Type(), "bad-pattern")
			nonNil(cc.St, e)

			return ret(cc.St, Tuple{Nil{}, e}), true
		}

		o := cc.St.alloc(str, "matches")
		ms := matches(cur)

		for i, x := range ms {
			cc.St.storeAt(o, fmt.Sprintf("[%d]", i), cStr(x), str)
		}

		return ret(cc.St, Tuple{&Slice{Root: o, Len: len(ms), Cap: len(ms)}, Nil{}}), true
	}

	plain, odd := "/w/dir", `/w/q\x*[y]?`
	cases := []wordCase{}

	for _, pwd := range []string{plain, odd, "/"} {
		for _, home := range []string{"/home/u", `/h[1]\*`} {
			for _, w := range [][]word{
				ws("u*.go"), ws("ua?b"), ws("u[a-c]x"), ws("usub/*/[x-z]?"), ws("u/abs/*"), ws("u/a?/b"), ws("u~"), ws("u~/x"), ws("u~/*.c"), ws("u./*"), ws("u../*"), ws("u.*"),
				ws("q*.go"), ws("q~"), ws("q~/*"), ws("q[a]?"), ws("uplain"), ws("u-l"), ws("ua~b"), ws("qhas space"), ws("q"), ws("u"),
				ws("q*", "u*", "q?"), ws("u*", "u?"), ws("ua", "u*.x", "qb", "uc", "u~/y"), ws("u~", "q~", "u~/*"), ws(),
			} {
				cases = append(cases, wordCase{pwd, home, w})
			}
		}
	}

	for _, wc := range cases {
		wc := wc
		cur = wc.pwd

		for _, mode = range []string{"some", "none", "error"} {
			var show []string
			pats := 0

			for _, w := range wc.words {
				q := ""
				if w.kind == 'q' {
					q = "'"
				} else if strings.ContainsAny(w.text, "*?[") {
					pats++
				}

				show = append(show, q+w.text+q)
			}

			if mode != "some" && pats == 0 {
				continue
			}

			on := fmt.Sprintf("%s in %s with home %s, search: %s", strings.Join(show, " "), wc.pwd, wc.home, mode)

			c.guard("words", on, func() {
				st := m.W.Init.clone()
				m.Vars["PWD"], m.Vars["HOME"] = m.sym(st, wc.pwd), m.sym(st, wc.home)

				code := []Val{m.sym(st, "glob")}

				for _, w := range wc.words {
					if w.kind == 'q' {
						code = append(code, m.str(st, w.text))
					} else {
						code = append(code, m.sym(st, w.text))
					}
				}

				res, _, err := m.Eval(st, m.list(st, code...))
				if err != nil {
					panic(budgetError{err.Error()})
				}

				n := 0

				for _, r := range res {
					if r.Kind == Trunc {
						panic(budgetError{"expansion is not followed to its end"})
					}

					n++
					c.Counts["evaluations"]++

					var gl []string
					for _, e := range effects(r.St, kGlob) {
						s, ok := asStr(e.Args[0])
						if !ok {
							panic(budgetError{"the pattern searched for is " + show2(e.Args[0])})
						}

						gl = append(gl, s)
					}

					if mode != "some" {
						c.ob("no-match", on, r.Kind == Panic && len(gl) == 1, r.Pos, "%s after %d searches; must raise after the first", r.Kind, len(gl))

						continue
					}

					if r.Kind != Ret || r.Bad != "" {
						c.fail("words", on, r.Pos, "%s %s %s", r.Kind, r.Why, r.Bad)

						continue
					}

					var want []string

					k := 0

					for _, w := range wc.words {
						switch {
						case w.kind == 'q':
							want = append(want, "'"+w.text)
						case strings.ContainsAny(w.text, "*?["):
							rel := ""

							if !strings.HasPrefix(w.text, "/") && !strings.HasPrefix(w.text, "~") {
								rel = wc.pwd
							}

							if k < len(gl) {
								c.patternIs(on, gl[k], wc, w.text, r.Pos)
							}

							k++

							for _, x := range matches(wc.pwd) {
								if rel != "" {
									x, _ = filepath.Rel(filepath.Clean(rel), x)
								}

								want = append(want, "'"+x)
							}
						case strings.HasPrefix(w.text, "~"):
							want = append(want, "u"+path.Join(wc.home, w.text[1:]))
						default:
							want = append(want, "u"+w.text)
						}
					}

					c.ob("searches", on, len(gl) == k, r.Pos, "%d searches; must be %d", len(gl), k)

					got := m.wordsOf(r.St, r.Result)
					c.ob("words", on, strings.Join(got, " ") == strings.Join(want, " ") && len(got) == len(want), r.Pos, "become [%s]; must become [%s]", strings.Join(got, " "), strings.Join(want, " "))
				}

				c.atLeast("words "+on, n, 1)
			})
		}
	}

	// Any text at all: quoted, and unquoted without anything special.
	c.guard("any-text", "quoted", func() {
		st := m.W.Init.clone()
		x, y := T(str, "X"), T(str, "Y")

		sv := m.strVal(st, x)
		tn := c.P.typ("internal/common/type/sym", "T")
		o := &Obj{ID: "sym:" + y.Key(), T: tn, Base: true}
		st.storeAt(o, "", y, tn)
		uv := &Iface{types.NewPointer(tn), P(o, "")}

		st.rep[T(types.Typ[types.Bool], "strings.HasPrefix.0", y, cStr("~")).key] = cBool(false)

		res, _, err := m.Eval(st, m.list(st, m.sym(st, "glob"), sv, uv, sv))
		if err != nil {
			panic(budgetError{err.Error()})
		}

		n := 0

		for _, r := range res {
			if r.Kind == Trunc || len(effects(r.St, kGlob)) > 0 || r.Kind == Panic {
				continue
			}

			n++
			es := m.cells(r.St, r.Result)

			if !c.ob("any-text", "quoted", len(es) == 3, r.Pos, "three words become %d", len(es)) {
				continue
			}

			c.ob("any-text", "quoted", es[0].Key() == sv.Key() && es[2].Key() == sv.Key(), r.Pos, "quoted words become %s and %s", show2(es[0]), show2(es[2]))
			c.ob("any-text", "unquoted", textOf(r.St, es[1]).Key() == y.Key(), r.Pos, "a word with nothing special becomes %s", show2(textOf(r.St, es[1])))
		}

		c.atLeast("any-text", n, 1)
	})

	// External commands and exists expand their arguments.
	mode, cur = "some", plain

	for _, s := range []struct{ name, effect string }{{"prog", "Execute"}, {"exists", "os.Stat"}} {
		on := "arguments of " + s.name

		c.guard("expanders", on, func() {
			st := m.W.Init.clone()
			m.Vars["PWD"], m.Vars["HOME"] = m.sym(st, plain), m.sym(st, "/home/u")

			m.In.Hooks["github.com/michaelmacinnis/adapted.LookPath"] = func(cc *CallCtx) ([]Out, bool) {
				return ret(cc.St, Tuple{cStr("/bin/prog"), cBool(true), Nil{}}), true
			}
			m.In.Hooks["os.Stat"] = func(cc *CallCtx) ([]Out, bool) {
				tu := cc.Res.(*types.Tuple)
				v := T(tu.At(0).Type(), "info")
				nonNil(cc.St, v)
				cc.St.event("stat", "os.Stat", cc.From, cc.Pos, nil, cc.St.norm(cc.Args[0]))

				return ret(cc.St, Tuple{v, Nil{}}), true
			}

			code := []Val{m.sym(st, s.name), m.sym(st, "*.go"), m.str(st, "*.x"), m.sym(st, "~/y"), m.str(st, "~")}

			res, _, err := m.Eval(st, m.list(st, code...))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			want := append([]string{}, "m1", "sub/m2", "../../elsewhere/m3", "*.x", "/home/u/y", "~")
			n := 0

			for _, r := range res {
				ex := effects(r.St, s.effect)
				if r.Kind != Ret || len(ex) == 0 {
					continue
				}

				n++

				var got []string

				if s.effect == "Execute" {
					sl, ok := r.St.norm(ex[0].Args[3]).(*Slice)
					if !ok {
						panic(budgetError{"arguments are " + show(ex[0].Args[3])})
					}

					for _, v := range m.In.elems(r.St, sl, str) {
						got = append(got, fmt.Sprint(show(r.St.norm(v))))
					}

					got = got[1:]
				} else {
					for _, e := range ex {
						got = append(got, show(e.Args[0]))
					}
				}

				var exp []string
				for _, w := range want {
					exp = append(exp, show(cStr(w)))
				}

				c.ob("expanders", on, strings.Join(got, " ") == strings.Join(exp, " "), r.Pos, "its arguments are [%s]; must be [%s]", strings.Join(got, " "), strings.Join(exp, " "))
			}

			c.atLeast("expanders", n, 1)
		})
	}

	c.enter(m.In)
}

func show2(v Val) string { return show(v) }

// cells lists the elements of a list value.
func (m *Machine) cells(st *State, l Val) (vs []Val) {
	null := m.null(st)

	for i := 0; i < 64; i++ {
		l = st.norm(l)
		if l.Key() == null.Key() {
			return
		}

		x, ok := l.(*Iface)
		if !ok {
			panic(budgetError{"not a list: " + show(l)})
		}

		root, path, ok := addr(x.V)
		if !ok || !types.Identical(x.T, m.pairT()) {
			panic(budgetError{"not a list: " + show(l)})
		}

		vs = append(vs, st.norm(st.loadAt(root, path+".car", m.cell)))
		l = st.loadAt(root, path+".cdr", m.cell)
	}

	panic(budgetError{"list too long"})
}

// wordsOf renders a list of words: 'text when no further expansion applies.
func (m *Machine) wordsOf(st *State, l Val) (r []string) {
	for _, v := range m.cells(st, l) {
		x, ok := v.(*Iface)
		if !ok {
			r = append(r, show(v))

			continue
		}

		pre := "?" + tstr(x.T) + " "

		switch {
		case strings.HasSuffix(tstr(x.T), "type/sym.T"):
			pre = "u"
		case strings.HasSuffix(tstr(x.T), "type/str.T"):
			pre = "'"
		}

		s, ok := asStr(textOf(st, v))
		if !ok {
			s = show(textOf(st, v))
		}

		r = append(r, pre+s)
	}

	return
}

// patternIs decides whether the pattern searched for means the word: what
// stands for PWD or HOME literally, the rest as written.
func (c *Check) patternIs(on, got string, wc wordCase, text string, pos token.Pos) {
	lit, rest := "", text

	switch {
	case strings.HasPrefix(text, "~"):
		lit, rest = wc.home, text[1:]
	case !strings.HasPrefix(text, "/"):
		lit = wc.pwd
	}

	var want [][]string

	for _, s := range strings.Split(lit, "/") {
		if s != "" {
			want = append(want, litTokens(s))
		}
	}

	meta := false

	for _, s := range strings.Split(rest, "/") {
		meta = meta || strings.ContainsAny(s, "*?[")

		switch s {
		case "", ".":
		case "..":
			if n := len(want); n > 0 && !meta {
				want = append(want, litTokens(s))

				continue
			}

			want = append(want, litTokens(s))
		default:
			if meta {
				want = append(want, patTokens(s))
			} else {
				want = append(want, litTokens(s))
			}
		}
	}

	// A component before which nothing is a pattern is looked up as it is.
	var have [][]string

	meta = false

	for _, s := range splitPattern(got) {
		meta = meta || strings.ContainsAny(s, "*?[")

		switch {
		case s == "" || s == ".":
		case meta:
			have = append(have, patTokens(s))
		default:
			have = append(have, litTokens(s))
		}
	}

	h, w := fmt.Sprintf("%q", lexUp(have)), fmt.Sprintf("%q", lexUp(want))
	c.ob("pattern", on, strings.HasPrefix(got, "/") && h == w, pos, "searches for %q, which means %s; must mean %s", got, h, w)
}

// splitPattern splits at separators; a character class cannot hold one.
func splitPattern(s string) []string { return strings.Split(s, "/") }

// lexUp removes name/.. pairs, which cleaning a path does lexically.
func lexUp(cs [][]string) (r [][]string) {
	for _, x := range cs {
		if len(x) == 2 && x[0] == "." && x[1] == "." && len(r) > 0 {
			r = r[:len(r)-1]

			continue
		}

		r = append(r, x)
	}

	return
}

func litTokens(s string) (r []string) {
	for _, c := range s {
		r = append(r, string(c))
	}

	return
}

// patTokens parses one component of a pattern. A class with one character is
// that character; an escaped character is itself.
func patTokens(s string) (r []string) {
	rs := []rune(s)

	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '*':
			if len(r) == 0 || r[len(r)-1] != "ANY*" {
				r = append(r, "ANY*")
			}
		case '?':
			r = append(r, "ANY")
		case '\\':
			if i+1 < len(rs) {
				i++
				r = append(r, string(rs[i]))
			} else {
				r = append(r, "BAD")
			}
		case '[':
			j := i + 1
			class := ""
			n := 0

			for j < len(rs) && (rs[j] != ']' || n == 0) {
				if rs[j] == '\\' && j+1 < len(rs) {
					j++
				}

				class += string(rs[j])
				n++
				j++
			}

			if n == 1 {
				r = append(r, class)
			} else {
				r = append(r, "CLASS "+class)
			}

			i = j
		default:
			r = append(r, string(rs[i]))
		}
	}

	return
}

// joined checks that a word made of several parts is quoted when one is.
func (c *Check) joined() {
	k := newKit(c)
	k.in.MaxVisit = 8

	f := k.registry("Functions")["mend"]
	if f == nil {
		panic(budgetError{"no function mend"})
	}

	str := types.Typ[types.String]

	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for _, sep := range []string{"", "-"} {
				on := fmt.Sprintf("%d parts, quoted %03b, separator %q", n, mask, sep)

				c.guard("joined", on, func() {
					st := k.st0.clone()

					var want Val = cStr("")

					args := []Val{k.cellOf(st, "sym", cStr(sep))}

					for i := 0; i < n; i++ {
						t := T(str, fmt.Sprintf("PART%d", i))
						kind := "sym"

						if mask>>i&1 == 1 {
							kind = "str"
						}

						args = append(args, k.cellOf(st, kind, t))

						if i > 0 {
							want = cat(want, cStr(sep))
						}

						want = cat(want, t)
					}

					outs := k.run(st, f, k.list(st, args...))
					n := 0

					for _, o := range outs {
						if !c.ob("joined", on, o.Kind == Ret, o.Pos, "%s %s", o.Kind, o.Why) {
							continue
						}

						n++
						v, _ := o.St.norm(o.Val).(*Iface)

						if v == nil {
							// The symbol kept for that text.
							if t := asTerm(o.St.norm(o.Val)); t != nil {
								panic(budgetError{"the joined word is " + show(t)})
							}

							continue
						}

						quoted := strings.HasSuffix(tstr(v.T), "type/str.T")
						c.ob("joined", on, quoted == (mask != 0), o.Pos, "the joined word is quoted: %v; must be %v", quoted, mask != 0)

						got := k.text(o.St, v)
						if t := asTerm(v.V); t != nil && t.Op == "mapval" {
							got = o.St.norm(t.Args[1])
						}

						c.ob("joined-text", on, got != nil && got.Key() == o.St.norm(want).Key(), o.Pos, "the joined word is %s; must be %s", showNil(got), show(want))
					}

					c.atLeast("joined", n, 1)
				})
			}
		}
	}

	c.enter(k.in)
}

// cellOf is a string or symbol with a text.
func (k *kit) cellOf(st *State, kind string, text Val) Val {
	tn := k.p.typ("internal/common/type/"+kind, "T")
	o := &Obj{ID: kind + ":" + text.Key(), T: tn, Base: true}
	st.storeAt(o, "", text, tn)

	return &Iface{types.NewPointer(tn), P(o, "")}
}

// segment is the reference scanner for interpolated texts: literal pieces
// and references, in order.
func segment(s string) (r []string) {
	name := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' || strings.IndexByte("!%*+-?@[]^_", b) >= 0
	}

	lit := ""
	put := func(ref string) {
		r = append(r, "="+lit, "$"+ref)
		lit = ""
	}

	for i := 0; i < len(s); {
		if s[i] != '$' || i+1 == len(s) {
			lit += s[i : i+1]
			i++

			continue
		}

		switch {
		case s[i+1] == '$':
			lit += "$"
			i += 2
		case s[i+1] == '{':
			// The first closing brace after at least one character.
			j := -1
			if i+3 <= len(s) {
				j = strings.IndexByte(s[min(i+3, len(s)):], '}')
			}

			if j < 0 || strings.Contains(s[i+2:i+3+j], "\n") {
				lit += "$"
				i++

				continue
			}

			put(s[i+2 : i+3+j])
			i += 4 + j
		case name(s[i+1]):
			j := i + 1
			for j < len(s) && name(s[j]) {
				j++
			}

			put(s[i+1 : j])
			i = j
		default:
			lit += "$"
			i++
		}
	}

	return append(r, "="+lit)
}

func (c *Check) interpolation() {
	m := mustMachine(c.P)
	internSyms(m)

	str := types.Typ[types.String]
	pattern := ""

	m.In.Hooks["(*regexp.Regexp).ReplaceAllStringFunc"] = func(cc *CallCtx) ([]Out, bool) {
		t := asTerm(cc.St.norm(cc.Args[0]))
		for t != nil && t.Op == "nonnil" {
			t = asTerm(t.Args[0])
		}

		fn, isFn := cc.Args[2].(*Fn)
		s, ok := asStr(cc.St.norm(cc.Args[1]))

		if t == nil || len(t.Args) == 0 || !isFn || !ok {
			return nil, false
		}

		p, ok := asStr(t.Args[0])
		if !ok {
			return nil, false
		}

		pattern = p

		re, err := regexp.Compile(p)
		if err != nil {
			return []Out{{St: cc.St, Kind: Panic, Pos: cc.Pos, Why: err.Error()}}, true
		}

		type way struct {
			o   Out
			acc Val
		}

		last := 0
		ways := []way{{Out{St: cc.St, Kind: Ret}, cStr("")}}

		for _, ix := range re.FindAllStringIndex(s, -1) {
			var next []way

			for _, w := range ways {
				if w.o.Kind != Ret {
					next = append(next, w)

					continue
				}

				for _, o := range m.In.Call(w.o.St, fn.F, []Val{cStr(s[ix[0]:ix[1]])}, fn.B, cc.Depth+1, false) {
					acc := w.acc
					if o.Kind == Ret {
						acc = cat(acc, cStr(s[last:ix[0]]), o.St.norm(o.Val))
					}

					next = append(next, way{o, acc})
				}
			}

			ways, last = next, ix[1]
		}

		var outs []Out

		for _, w := range ways {
			if w.o.Kind == Ret {
				w.o.Val = cat(w.acc, cStr(s[last:]))
			}

			outs = append(outs, w.o)
		}

		return outs, true
	}

	vars := map[string]Val{"v": T(str, "V"), "long-name": T(str, "LONG"), "a b": T(str, "AB"), "?": T(str, "QM"), "1": T(str, "ONE"), "[x]": T(str, "BX"), "}": T(str, "BRACE"), "$": T(str, "DOLLAR"), "{": T(str, "OPEN")}

	check := func(text string) {
		c.guard("interpolate", text, func() {
			st := m.W.Init.clone()

			for n, v := range vars {
				st.User["var:"+n] = m.strVal(st, v)
			}

			var want Val = cStr("")

			missing := false

			for _, p := range segment(text) {
				if p[0] == '=' {
					want = cat(want, cStr(p[1:]))
				} else if v, ok := vars[p[1:]]; ok {
					want = cat(want, v)
				} else if p[1:] != "" {
					missing = true
				}
			}

			res, _, err := m.Eval(st, m.list(st, m.sym(st, "interpolate"), m.str(st, text)))
			if err != nil {
				panic(budgetError{err.Error()})
			}

			n := 0

			for _, r := range res {
				if r.Kind == Trunc {
					continue
				}

				n++
				c.Counts["evaluations"]++

				if missing {
					c.ob("interpolate-missing", text, r.Kind == Panic, r.Pos, "a reference to a name not defined: %s giving %s; must raise", r.Kind, showNil(r.Result))

					continue
				}

				if r.Kind != Ret || r.Bad != "" || r.Result == nil {
					c.fail("interpolate", text, r.Pos, "%s %s %s", r.Kind, r.Why, r.Bad)

					continue
				}

				x, _ := r.Result.(*Iface)
				c.ob("interpolate-quoted", text, x != nil && strings.HasSuffix(tstr(x.T), "type/str.T"), r.Pos, "gives %s; must be a string", show(r.Result))

				got := textOf(r.St, r.Result)
				c.ob("interpolate", text, got.Key() == r.St.norm(want).Key(), r.Pos, "becomes %s; must become %s", show(got), show(want))
			}

			c.atLeast("interpolate "+text, n, 1)
		})
	}

	for _, t := range []string{"", "plain", "$$", "$$v", "$v", "${v}", "a${v}b", "a$v b", "$v$v", "${v}${long-name}", "$long-name.", "${a b}", "$?", "$1", "$[x]", "$", "a$", "$ v", "${v", "${}}", "$$$v", "$$$$", "${nope}", "$nope", "$v${nope}", "{v}", "$.v", "\\$v", "é$v", "$vé", "${$}", "$${v}", "${{}", "\n$v\n"} {
		check(t)
	}

	if pattern == "" {
		// No pattern to compare: evaluate every short text.
		texts("${}v-", 4, check)
		c.enter(m.In)

		return
	}

	re, err := regexp.Compile(pattern)
	if err != nil {
		c.fail("interpolate-pattern", pattern, token.NoPos, "%v", err)

		return
	}

	n := 0
	bad := 0

	alphabets := []string{"${}v- ", "$$v.\n"}
	for _, a := range alphabets {
		texts(a, 7, func(s string) {
			n++

			if x, y := fmt.Sprintf("%q", refsOf(re, s)), fmt.Sprintf("%q", segRefs(s)); x != y && bad < 5 {
				bad++

				c.fail("interpolate-pattern", pattern, token.NoPos, "in %q finds the references %s; must find %s", s, x, y)
			}
		})
	}

	// Every character directly after the sign.
	for b := 0; b < 256; b++ {
		for _, s := range []string{"$" + string(rune(b)), "$v" + string(rune(b)) + "w"} {
			n++

			if x, y := fmt.Sprintf("%q", refsOf(re, s)), fmt.Sprintf("%q", segRefs(s)); x != y && bad < 5 {
				bad++

				c.fail("interpolate-pattern", pattern, token.NoPos, "in %q finds the references %s; must find %s", s, x, y)
			}
		}
	}

	if bad == 0 {
		c.pass("interpolate-pattern", pattern, fmt.Sprintf("finds the references of all %d texts", n))
	}

	c.Counts["texts compared"] += n
	c.enter(m.In)
}

// texts calls f with every text over an alphabet up to a length.
func texts(alphabet string, max int, f func(string)) {
	var rec func(s string)

	rec = func(s string) {
		f(s)

		if len(s) < max {
			for i := range alphabet {
				rec(s + alphabet[i:i+1])
			}
		}
	}

	rec("")
}

func refsOf(re *regexp.Regexp, s string) (r []string) {
	for _, x := range re.FindAllString(s, -1) {
		if x == "$$" {
			continue
		}

		x = x[1:]
		if x != "" && x[0] == '{' {
			x = x[1 : len(x)-1]
		}

		r = append(r, x)
	}

	return
}

func segRefs(s string) (r []string) {
	for _, p := range segment(s) {
		if p[0] == '$' {
			r = append(r, p[1:])
		}
	}

	return
}
