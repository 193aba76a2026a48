package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C17"] = rule{
		explain: "The lexer's state functions are evaluated over the abstract domain from every configuration reachable (the functions it holds, and the start of the token it is in), for every class of character, alone and followed by every other; the tokens are compared with those of a lexical grammar written independently, so the product of the two is explored to a fixpoint and texts of every length are covered. The parser is evaluated over every sequence of tokens up to a bound and over sentences that nest every pair of productions; what it emits, and when, is compared with a parser written from the grammar. The reader's hand-over between lines and commands is explored over schedules of its two goroutines.",
		assume: []string{
			"characters that no comparison in the lexer names behave alike; the classes are taken from the source",
			"adapted.ActualBytes (a dependency) decodes the escapes of a quoted string",
		},
		run: checkC17,
	}
}

func checkC17(c *Check) {
	c.guard("tokens", "lexer", func() { c.lexer() })
	c.guard("commands", "parser", func() { c.parser() })
	c.guard("lines", "reader", func() { c.lines() })
}

// lclass is the token class a token of the lexical grammar has.
func lclass(k byte, names map[string]int64) int64 {
	if n, ok := map[byte]string{
		'w': "symbol", '_': "space", '>': "redirect", '|': "pipe", 'A': "andf", 'O': "orf", '&': "background",
		's': "substitute", '"': "doublequoted", '\'': "singlequoted", 'd': "dollarsinglequoted", '[': "metaopen", ']': "metaclose",
	}[k]; ok {
		i, ok := names[n]
		if !ok {
			panic(budgetError{"no token class " + n})
		}

		return i
	}

	return int64(k)
}

// ltext is the value of a token of the lexical grammar.
func ltokText(t ltok) string {
	switch t.k {
	case '"', '\'':
		return string(t.k) + t.v + string(t.k)
	case 'd':
		return "$'" + t.v + "'"
	}

	return t.v
}

func sameToks(is []rtok, ls []ltok, names map[string]int64) string {
	for i := 0; i < len(is) || i < len(ls); i++ {
		if i >= len(is) {
			return fmt.Sprintf("%c %q is not yielded", ls[i].k, ls[i].v)
		}

		if i >= len(ls) {
			return fmt.Sprintf("%s is yielded too soon", is[i])
		}

		a, b := is[i], ls[i]
		if a.class != lclass(b.k, names) || b.k != '\n' && a.v != ltokText(b) {
			return fmt.Sprintf("%s is yielded, not %c %q", a, b.k, b.v)
		}

		if a.line != int64(b.line) {
			return fmt.Sprintf("%s is said to be on line %d, not %d", a, a.line, b.line)
		}
	}

	return ""
}

// alphabet is a representative of every class of characters: those that the
// package names and one for the others, for each length of encoding.
func (s *lexSim) alphabet() (as []string) {
	seen := map[string]bool{}
	add := func(r rune) {
		if !seen[string(r)] {
			seen[string(r)] = true
			as = append(as, string(r))
		}
	}

	for _, r := range "\t\n \"#$&'();<>`|{}\\,./:=@~" {
		add(r)
	}

	for _, f := range s.c.P.funcsIn("internal/reader/lexer") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}

					if n, ok := k.Type().(*types.Named); ok && n.Obj().Name() == "Class" {
						if i, ok := asInt(Const{k.Value, k.Type()}); ok && i > 0 && i < 0x10ffff {
							add(rune(i))
						}
					}
				}
			}
		}
	}

	add('a')
	add('é')
	add('世')
	add('😀')
	sort.Strings(as)

	return as
}

func (p *Program) funcsIn(rel string) (fs []*ssa.Function) {
	q := p.pkg(rel)

	var visit func(f *ssa.Function)

	visit = func(f *ssa.Function) {
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}

	for _, m := range q.Members {
		switch m := m.(type) {
		case *ssa.Function:
			visit(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if f := p.SSA.FuncValue(n.Method(i)); f != nil {
						visit(f)
					}
				}
			}
		}
	}

	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })

	return fs
}

// holds names the functions a lexer holds.
func (s *lexSim) holds(st *State) string {
	n := s.c.P.typ("internal/reader/lexer", "T")
	t := n.Underlying().(*types.Struct)
	k := ""

	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)

		switch u := f.Type().Underlying().(type) {
		case *types.Signature:
		case *types.Basic:
			if u.Info()&types.IsBoolean == 0 {
				continue
			}
		default:
			continue
		}

		k += show(s.field(st, s.l, f)) + " "
	}

	return k
}

// short abstracts the text of an unfinished token: what it starts with.
func short(s string) string {
	t := strings.TrimLeft(s, " \t")

	switch {
	case t == "":
		return s[:min(len(s), 1)]
	case strings.IndexByte("#'\"", t[0]) >= 0:
		return t[:1]
	case strings.IndexByte("&|<>($`;)", t[0]) >= 0:
		return t[:min(len(t), 2)]
	case t[0] == '\\' && len(t) == 1:
		return t
	}

	return "a"
}

func (c *Check) lexer() {
	const rule = "tokens"

	s := newLexSim(c)
	s.k.in.MaxVisit = 64
	names := s.classes()
	chars := s.alphabet()
	text := c.P.method(c.P.typ("internal/reader/lexer", "T"), "Text")

	s.feed(s.st0, "a\n")

	type config struct {
		st      *State
		witness string
		toks    int
	}

	// Sentences that end an unfinished token one way or another.
	ends := []string{"a b\n", "'b' c\n", "\"b\" c\n", "| b\n", "\\\n b\n", " b\n", "\n"}

	start := config{st: s.st0}
	seen := map[string]bool{}
	queue := []config{start}
	t0 := time.Now()
	pairs := 0

	for n := 0; n < len(queue); n++ {
		if n > 400 {
			c.undecided(rule, "configurations", "more than %d", n)

			break
		}

		q := queue[n]
		bad := ""

		try := func(more string) (*State, bool) {
			st, ts, stuck := s.feed(q.st, more)
			ls, _, _ := lscan(q.witness + more)

			if stuck == "" {
				if q.toks > len(ls) {
					stuck = "tokens yielded too soon"
				} else {
					stuck = sameToks(ts, ls[q.toks:], names)
				}
			}

			if stuck != "" && bad == "" {
				bad = fmt.Sprintf("after %q, then %q: %s", q.witness, more, stuck)
			}

			return st, stuck == ""
		}

		for _, a := range chars {
			st, ok := try(a)
			if !ok {
				continue
			}

			w := q.witness + a
			ls, mode, rest := lscan(w)
			o := s.one(st, text, s.l)
			pending, _ := asStr(o.Val)
			key := fmt.Sprintf("%s|%s|%d|%s", s.holds(st), short(pending), mode, short(rest))

			if !seen[key] {
				seen[key] = true
				queue = append(queue, config{st, w, len(ls)})
			}

			for _, b := range chars {
				try(a + b)

				pairs++
			}
		}

		for _, e := range ends {
			try(e)
		}

		c.ob(rule, fmt.Sprintf("configuration after %q", q.witness), bad == "", s.scan.Pos(), "%s", bad)
	}

	if os.Getenv("OHCHECK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "lexer: %d configurations, %d chars, %d pairs, %v\n", len(queue), len(chars), pairs, time.Since(t0))
	}

	c.count("lexer_configurations", len(queue))
	c.count("character_classes", len(chars))
	c.atLeast(rule, len(queue), 30)
	c.enter(s.k.in)
	_ = strings.TrimSpace
}

// lspell is how a token the parser is given is spelled.
var lspell = map[string]ltok{
	"a": {k: 'w', v: "a"}, "b": {k: 'w', v: "b"}, "=": {k: 'w', v: "="}, "_": {k: '_', v: " "}, "N": {k: '\n', v: "\n"},
	";": {k: ';', v: ";"}, "|": {k: '|', v: "pipe-output-to"}, "&": {k: '&', v: "spawn"}, "&&": {k: 'A', v: "and"},
	"||": {k: 'O', v: "or"}, ">": {k: '>', v: "output-to"}, "|<": {k: 's', v: "-named-pipe-input-from"},
	"(": {k: '(', v: "("}, ")": {k: ')', v: ")"}, "(|": {k: '[', v: "(|"}, "|)": {k: ']', v: "|)"},
	"`": {k: '`', v: "`"}, "{": {k: '{', v: "{"}, "}": {k: '}', v: "}"}, "$": {k: '$', v: "$"},
	"'q'": {k: '\'', v: "q"}, `"r"`: {k: '"', v: "r"}, "$'s'": {k: 'd', v: "s"},
	"cons": {k: 'w', v: "cons"}, "number": {k: 'w', v: "number"}, "symbol": {k: 'w', v: "symbol"}, "status": {k: 'w', v: "status"},
}

// trie is a set of token sequences: every sequence of the free alphabet to a
// depth, or the ones listed.
type trie struct {
	free int
	all  []string
	next map[string]*trie
}

func (t *trie) add(ws []string) {
	for _, w := range ws {
		if t.next == nil {
			t.next = map[string]*trie{}
		}

		if t.next[w] == nil {
			t.next[w] = &trie{}
		}

		t = t.next[w]
	}
}

func (t *trie) kids() (ws []string) {
	if t.free > 0 {
		ws = append(ws, t.all...)
	}

	for _, w := range sorted(t.next) {
		if t.free == 0 || !contains(t.all, w) {
			ws = append(ws, w)
		}
	}

	return ws
}

func (t *trie) kid(w string) *trie {
	n := t.next[w]
	if n == nil {
		n = &trie{}
	}

	if t.free > 1 && contains(t.all, w) {
		return &trie{free: t.free - 1, all: t.all, next: n.next}
	}

	return n
}

func contains(ws []string, w string) bool {
	for _, x := range ws {
		if x == w {
			return true
		}
	}

	return false
}

// parSim interprets the reader's parser over the abstract domain.
type parSim struct {
	ls    *lexSim
	c     *Check
	k     *kit
	names map[string]int64
	mk    *ssa.Function
	newp  *ssa.Function
	parse *ssa.Function
	emit  *Term
	item  *Term
	root  *trie
	seen  int
	bad   map[string]string
}

func newParSim(c *Check) *parSim {
	ls := newLexSim(c)
	s := &parSim{c: c, k: ls.k, ls: ls, names: ls.classes(), bad: map[string]string{}}
	in := s.k.in
	in.MaxVisit, in.MaxRec, in.MaxDepth, in.MaxSteps = 64, 40, 400, 1<<40
	in.MaxOuts = 1 << 20

	s.mk = c.P.fn("internal/common/struct/token", "New")
	s.newp = c.P.fn("internal/reader/parser", "New")
	s.parse = c.P.method(c.P.typ("internal/reader/parser", "T"), "Parse")

	if s.mk == nil || s.newp == nil || s.parse == nil {
		panic(budgetError{"the parser was not found"})
	}

	fs := s.newp.Signature.Params()
	s.emit, s.item = T(fs.At(0).Type(), "emit"), T(fs.At(1).Type(), "item")

	in.Hooks["github.com/michaelmacinnis/adapted.ActualBytes"] = func(cc *CallCtx) ([]Out, bool) {
		t, ok := asStr(cc.St.norm(cc.Args[0]))
		if !ok {
			return nil, false
		}

		return ret(cc.St, Tuple{cStr("<" + t + ">"), Nil{}}), true
	}

	for _, n := range []string{"num", "status"} {
		n := n
		in.Hooks["internal/common/type/"+n+".New"] = func(cc *CallCtx) ([]Out, bool) {
			v := T(s.k.cell, "made:"+n, cc.Args[0])
			nonNil(cc.St, v)

			return ret(cc.St, v), true
		}
	}

	in.Any = func(cc *CallCtx) ([]Out, bool) {
		if cc.Name != "dynamic" || len(cc.Args) == 0 {
			return nil, false
		}

		switch cc.Args[0].Key() {
		case s.emit.Key():
			cc.St.event("emit", "emit", cc.From, cc.Pos, Nil{}, cc.Args[1])
			cc.St.User["shown"] = cStr(s.emitted(cc.St) + s.show(cc.St, cc.Args[1]) + "\n")

			return ret(cc.St, Nil{}), true
		case s.item.Key():
			return s.more(cc), true
		}

		return nil, false
	}

	return s
}

func (s *parSim) emitted(st *State) string {
	t, _ := asStr(valOr(st.User["shown"]))

	return t
}

func (s *parSim) sofar(st *State) []string {
	t, _ := asStr(valOr(st.User["toks"]))
	if t == "" {
		return nil
	}

	return strings.Split(t, " ")
}

// show is a command as the grammar's parser shows it.
func (s *parSim) show(st *State, v Val) string { return lshow(s.value(st, v, 0)) }

func (s *parSim) value(st *State, v Val, d int) lv {
	if d > 60 {
		return lsym("...")
	}

	v = st.norm(v)
	if v.Key() == s.k.null(st).Key() {
		return lNull
	}

	switch tname(v) {
	case "pair":
		root, path, ok := addr(cellPtr(v))
		if !ok {
			return lsym(show(v))
		}

		return lcons(s.value(st, st.loadAt(root, path+".car", s.k.cell), d+1), s.value(st, st.loadAt(root, path+".cdr", s.k.cell), d+1))
	case "sym", "sym.Plus", "str":
		f := s.c.P.SSA.LookupMethod(v.(*Iface).T, nil, "String")

		o := s.k.in.Call(st.clone(), f, []Val{v.(*Iface).V}, nil, 0, false)
		if len(o) == 1 && o[0].Kind == Ret {
			if t, ok := asStr(o[0].St.norm(o[0].Val)); ok {
				if tname(v) == "str" {
					return lstr(t)
				}

				return lsym(t)
			}
		}
	}

	if t := asTerm(v); t != nil && strings.HasPrefix(t.Op, "made:") {
		if x, ok := asStr(st.norm(t.Args[0])); ok {
			return llist(lsym("-"+map[string]string{"num": "number", "status": "status"}[t.Op[5:]]), lsym(x))
		}
	}

	if isNil(v) {
		return lsym("nothing!")
	}

	return lsym(show(v))
}

// judge compares what has been read with the grammar.
func (s *parSim) judge(st *State, ws []string, failed bool) bool {
	var ts []ltok
	for _, w := range ws {
		ts = append(ts, lspell[w])
	}

	cs, err, said := lread(ts)
	if !said {
		return false
	}

	want := ""

	for _, c := range cs {
		want += lshow(c) + "\n"
	}

	s.seen++

	text := strings.Join(ws, " ")
	group := text

	if len(ws) > 0 {
		group = ws[0]
	}

	if len(ws) > 1 {
		group += " " + ws[1]
	}

	if _, ok := s.bad[group]; !ok {
		s.bad[group] = ""
	}

	complain := func(f string, args ...any) bool {
		if s.bad[group] == "" {
			s.bad[group] = fmt.Sprintf("%q: ", text) + fmt.Sprintf(f, args...)
		}

		return false
	}

	switch got := s.emitted(st); {
	case err != failed && failed:
		return complain("is refused")
	case err != failed:
		return complain("is not refused")
	case got != want:
		return complain("read as %q, not %q", got, want)
	}

	return true
}

// more is the parser asking for a token.
func (s *parSim) more(cc *CallCtx) (outs []Out) {
	st := cc.St
	ws := s.sofar(st)
	stop := []Out{{St: st, Kind: Stop, Pos: cc.Pos, Why: "waits for more", Val: Nil{}}}

	if !s.judge(st, ws, false) {
		return stop
	}

	t := s.root
	for _, w := range ws {
		t = t.kid(w)
	}

	for _, w := range t.kids() {
		k := lspell[w]
		s2 := st.clone()
		s2.User["toks"] = cStr(strings.TrimSpace(strings.Join(ws, " ") + " " + w))

		o := s.k.in.Call(s2, s.mk, []Val{retype(cInt(lclass(k.k, s.names)), s.mk.Signature.Params().At(0).Type()), cStr(ltokText(k)), s.loc(s2)}, nil, 0, false)
		if len(o) != 1 || o[0].Kind != Ret {
			panic(budgetError{"token.New has more than one outcome"})
		}

		outs = append(outs, o...)
	}

	if outs == nil {
		return stop
	}

	return outs
}

// loc is where a token is said to be.
func (s *parSim) loc(st *State) Val {
	t := s.mk.Signature.Params().At(2).Type().(*types.Pointer).Elem()

	return P(&Obj{ID: "loc", T: t, Sym: true, Base: true}, "")
}

// run reads the sequences of a set of tokens.
func (s *parSim) run(t *trie) {
	s.root = t
	in := s.k.in
	in.Steps = 0

	o := in.Call(s.k.st0.clone(), s.newp, []Val{s.emit, s.item}, nil, 0, false)
	if len(o) != 1 || o[0].Kind != Ret {
		panic(budgetError{"parser.New has more than one outcome"})
	}

	for _, o := range in.Call(o[0].St, s.parse, []Val{o[0].Val}, nil, 0, false) {
		ws := s.sofar(o.St)

		switch {
		case o.Kind == Stop && o.Why == "waits for more":
		case o.Kind == Ret:
			if e := o.St.norm(o.Val); isNil(e) {
				s.judge(o.St, ws, false)
				s.bad[strings.Join(ws, " ")] = "the parser ends before the text does"
			} else {
				s.judge(o.St, ws, true)
			}
		default:
			s.bad[strings.Join(ws, " ")] = o.Kind + " " + o.Why
		}
	}
}

func (c *Check) parser() {
	const rule = "commands"

	s := newParSim(c)
	t0 := time.Now()

	words := sorted(lspell)

	deep := []string{"a", "_", "N", ";", "|", "&&", "||", "&", ">", "|<", "(", ")", "{", "}", "`", "$", "="}

	// Every sequence of a few tokens, longer ones of the operators alone.
	depth, nest := 3, 2
	if c.Tier == "thorough" {
		depth = 4
		deep = []string{"a", "_", "N", ";", "|", "&&", ">", "|<", "(", ")", "{", "}", "$"}
	}

	for _, a := range words {
		s.run(&trie{next: map[string]*trie{a: {free: depth - 1, all: words}}})
	}

	for _, a := range deep {
		for _, b := range deep {
			s.run(&trie{next: map[string]*trie{a: {next: map[string]*trie{b: {free: depth - 1, all: deep}}}}})
		}
	}

	s.sentences(nest)

	for _, g := range sorted(s.bad) {
		c.ob(rule, "tokens "+g, s.bad[g] == "", s.parse.Pos(), "%s", s.bad[g])
	}

	if os.Getenv("OHCHECK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "parser: %d sequences, %v\n", s.seen, time.Since(t0))
	}

	c.count("token_sequences", s.seen)
	c.enter(s.k.in)
}

// sentences reads sentences that nest the productions to a depth, followed by
// the end of a line and another command.
func (s *parSim) sentences(depth int) {
	t := &trie{}
	n := 0

	add := func(x string) {
		t.add(strings.Fields(x + " N b N"))

		n++
		if n%400 == 0 {
			s.run(t)
			t = &trie{}
		}
	}

	simple := []string{"a", "a _ b"}
	forms := []func(x, y string) string{
		func(x, y string) string { return x + " && " + y },
		func(x, y string) string { return x + " || " + y },
		func(x, y string) string { return x + " | " + y },
		func(x, y string) string { return x + " ; " + y },
		func(x, y string) string { return x + " ;" },
		func(x, y string) string { return x + " > b" },
		func(x, y string) string { return x + " > b _ > $ a" },
		func(x, y string) string { return x + " |< ( " + y + " )" },
		func(x, y string) string { return x + " |< ( " + y + " ) _ b" },
		func(x, y string) string { return x + " |< ( " + y + " ) |< ( a )" },
		func(x, y string) string { return "( " + x + " )" },
		func(x, y string) string { return "( " + x + " ) _ ( " + y + " )" },
		func(x, y string) string { return "a _ ( " + x + " ) b" },
		func(x, y string) string { return "a _ ` ( " + x + " )" },
		func(x, y string) string { return "a _ $ ( " + x + " ) 'q'" },
		func(x, y string) string { return "a _ { N " + x + " N " + y + " N }" },
		func(x, y string) string { return "a _ { N N " + x + " & N } _ b" },
		func(x, y string) string { return "a _ { N } _ { N " + x + " N }" },
		func(x, y string) string { return "{ N " + x + " N }" },
		func(x, y string) string { return "a _ { ( " + x + " ) }" },
		func(x, y string) string { return "a _ $ { ( " + x + " ) } b" },
		func(x, y string) string { return "a _ { { N " + x + " N } }" },
		func(x, y string) string { return "b = 'q' _ " + x },
		func(x, y string) string { return "b = ( " + x + " ) _ a = b" },
		func(x, y string) string { return "a b \"r\" $ a ` a _ " + x },
		func(x, y string) string { return "(| cons _ ( " + x + " ) _ ( " + y + " ) |)" },
	}

	add("a &")

	level := simple

	for d := 0; d < depth; d++ {
		var next []string

		for _, f := range forms {
			for _, x := range level {
				for _, y := range simple[:1] {
					next = append(next, f(x, y))
					if v := f(y, x); v != f(x, y) {
						next = append(next, v)
					}
				}
			}
		}

		for _, x := range next {
			add(x)
			add(x + " &")
		}

		level = next
	}

	s.run(t)
}

// lscripts are texts as they are given to a reader, line by line.
var lscripts = [][]string{
	{"a\n"},
	{"a b\n", "b\n"},
	{"\n", "# nothing\n", "a\n"},
	{"a {\n", "b\n", "\n", "}\n", "b\n"},
	{"a |\n", "b &&\n", "\n", "a\n"},
	{"a 'q\n", "b' a\n", "b\n"},
	{"a & b & a\n", "b\n"},
	{"a & b & a & b |\n", "a & b\n", "a\n"},
	{"a\nb\n", "a\n"},
	{"a \\\n", "b\n", "a\n"},
	{"a", " b", "\n", "a\n"},
	{")\n"},
	{"a\n", "b )\n"},
	{"a\n", "b & )\n"},
	{"a {\n", "b |\n", "}\n"},
	{""}, {"", "a\n"},
}

// lines checks the hand-over between the lines a reader is given and the
// commands it yields.
func (c *Check) lines() {
	const rule = "lines"

	ps := newParSim(c)
	ps.k.in.Any = nil

	m := func(n string) *ssa.Function {
		f := c.P.method(c.P.typ("internal/reader", "T"), n)
		if f == nil {
			panic(budgetError{"reader." + n + " was not found"})
		}

		return f
	}

	newr, scan, next, closer := c.P.fn("internal/reader", "New"), m("Scan"), m("Next"), m("Close")
	s := &sim{c: c, p: c.P, in: ps.k.in, st0: ps.k.st0}
	runs := 0

	for _, lines := range lscripts {
		for _, drain := range []bool{true, false} {
			lines, drain := lines, drain
			on := fmt.Sprintf("%q", lines)

			if !drain {
				on += " read at the end"
			}

			runs += s.schedules(s.st0, s.in, rule, on, 3, func(co *coro) {
				co.thread("user", func(th *cthread) {
					text := ""
					given := 0
					want := []string{}

					o := th.call(newr, cStr("label"))
					if o.Kind != Ret {
						co.fail(o.Pos, "New: %s", o.Why)

						return
					}

					r := o.Val

					take := func(v Val) bool {
						v = co.st.norm(valOr(v))
						if isNil(v) {
							return false
						}

						got := ps.show(co.st, v)

						switch {
						case given >= len(want):
							co.fail(scan.Pos(), "after %q the command %s is yielded unexpectedly", text, got)
						case want[given] != got:
							co.fail(scan.Pos(), "after %q command %s is yielded, not %s", text, got, want[given])
						default:
							given++

							return true
						}

						return false
					}

					all := func() {
						for !co.failed {
							o := th.call(next, r)
							if o.Kind != Ret {
								co.fail(o.Pos, "Next: %s", o.Why)

								return
							}

							if !take(o.Val) {
								return
							}
						}
					}

					for _, l := range lines {
						text += l

						ls, _, _ := lscan(text)
						cs, err, _ := lread(ls)
						had := len(want)

						for _, x := range cs[min(len(cs), len(want)):] {
							want = append(want, lshow(x))
						}

						o := th.call(scan, r, cStr(l))
						if o.Kind != Ret {
							co.fail(o.Pos, "Scan: %s", o.Why)

							return
						}

						res := o.Val.(Tuple)

						if got := !isNil(co.st.norm(res[1])); got != err {
							co.fail(scan.Pos(), "after %q an error is reported: %v, not %v", text, got, err)

							return
						}

						if err {
							// What the line held before the error is not run.
							if !isNil(co.st.norm(res[0])) {
								co.fail(scan.Pos(), "after %q a command is yielded with an error", text)
							}

							want = want[:had]

							break
						}

						if !take(res[0]) && given < len(want) {
							co.fail(scan.Pos(), "after %q the command %s is not yielded", text, want[given])
						}

						if drain {
							all()
						}

						if co.failed {
							return
						}
					}

					all()

					if given < len(want) {
						co.fail(scan.Pos(), "after %q the command %s is not yielded", text, want[given])
					}

					o = th.call(closer, r)
					if o.Kind != Ret {
						co.fail(o.Pos, "Close: %s", o.Why)
					}
				})

				co.run()

				if w := co.end(); len(w) > 0 && !co.failed {
					co.fail(scan.Pos(), "%s forever", strings.Join(w, "; "))
				}
			})
		}
	}

	c.atLeast(rule, runs, 2*len(lscripts))
	c.enter(s.in)
}

// reads checks that the reader's parser takes sentences apart as the grammar does.
func (c *Check) reads(rule string, sentences ...string) {
	c.guard(rule, "sentences", func() {
		s := newParSim(c)
		t := &trie{}

		for _, x := range sentences {
			t.add(strings.Fields(x + " N b N"))
		}

		s.run(t)

		for _, g := range sorted(s.bad) {
			c.ob(rule, "sentences "+g, s.bad[g] == "", s.parse.Pos(), "%s", s.bad[g])
		}

		c.count("token_sequences", s.seen)
		c.enter(s.k.in)
	})
}

// mixed joins commands with every sequence of n operators.
func mixed(n int, ops ...string) (xs []string) {
	xs = []string{"a _ b"}

	for i := 0; i < n; i++ {
		var next []string

		for _, x := range xs {
			for _, o := range ops {
				c := "_ a _ b"
				if o == ">" {
					c = "b"
				}

				next = append(next, x+" "+o+" "+c)
			}
		}

		xs = append(next, xs...)
	}

	return xs
}
