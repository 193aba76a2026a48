package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C22"] = rule{
		explain: "The function the session gives the line editor for completion is evaluated abstractly, with directories modelled as a tree (with links, hidden names, names with colons and with characters of several bytes, unreadable and missing directories), for words of every form at the end and in the middle of lines, in several working and home directories, for what the complete method can return and for readers that refuse the text. What it proposes is compared with what an independent reading of the word and of the tree gives.",
		assume:  []string{"filepath.Walk, os.ReadDir, os.Stat and the functions on paths behave as documented", "the position the line editor passes counts characters, as its documentation shows", "the complete method, when it returns, returns at least one text"},
		run:     checkC22,
	}
}

// A tree of files. Names map to what they are.
type tree map[string]node

type node struct {
	dir  bool
	exec bool
	link string
	shut bool // cannot be read
	gone bool // listed, and no longer there when examined
}

var forest = tree{
	"/":                    {dir: true},
	"/.root":               {},
	"/bin":                 {link: "/usr/bin"},
	"/usr":                 {dir: true},
	"/usr/bin":             {dir: true},
	"/usr/bin/ls":          {exec: true},
	"/usr/bin/uniq":        {exec: true},
	"/usr/share":           {dir: true},
	"/usr/share/doc":       {dir: true},
	"/home":                {dir: true},
	"/home/me":             {dir: true},
	"/home/me/.rc":         {},
	"/home/me/notes":       {},
	"/home/me/do":          {},
	"/home/me/docs":        {dir: true},
	"/home/me/docs/draft":  {},
	"/home/me/docs/deep":   {dir: true},
	"/home/me/docs/deep/x": {dir: true},
	"/home/me/docs/dying":  {gone: true},
	"/home/me/docs/.git":   {dir: true},
	"/home/me/docs2":       {exec: true},
	"/home/me/été":         {},
	"/home/me/étage":       {dir: true},
	"/home/menu":           {dir: true},
	"/w":                   {dir: true},
	"/w/a:b":               {dir: true},
	"/w/a:b/docile":        {},
	"/w/lnk":               {link: "/home/me/docs"},
	"/w/up":                {link: "/"},
	"/w/gone":              {link: "/nowhere"},
	"/w/locked":            {dir: true, shut: true},
	"/w/locked/secret":     {},
	"/w/w":                 {dir: true},
	"/w/w/w":               {},
	"/w/dodo":              {},
}

// real follows links.
func (t tree) real(p string) (string, bool) {
	for n := 0; n < 20; n++ {
		p = path.Clean(p)
		if _, ok := t[p]; ok && t[p].link == "" {
			return p, true
		}

		// The first link on the way.
		done := true
		at := ""

		for _, e := range strings.Split(strings.Trim(p, "/"), "/") {
			at += "/" + e

			x, ok := t[at]
			if !ok {
				return p, false
			}

			if x.link != "" {
				p = x.link + p[len(at):]
				done = false

				break
			}
		}

		if done {
			_, ok := t[p]

			return p, ok
		}
	}

	return p, false
}

// in lists the names in directory d, in order.
func (t tree) in(d string) ([]string, bool) {
	d, ok := t.real(d)
	if !ok || !t[d].dir || t[d].shut {
		return nil, false
	}

	var ns []string

	for k := range t {
		if k != "/" && path.Dir(k) == d {
			ns = append(ns, path.Base(k))
		}
	}

	sort.Strings(ns)

	return ns, true
}

// continued is what word, an argument, can be continued to.
func (t tree) continued(cwd, home, word string) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}

	if word == "~" {
		word = "~/"
	}

	i := strings.LastIndex(word, "/") + 1
	dir, base := word[:i], word[i:]

	switch {
	case strings.HasPrefix(dir, "/"):
	case strings.HasPrefix(dir, "~"):
		dir = home + "/" + dir[1:]
	case strings.HasPrefix(word, "~"):
		dir, base = home, word[1:]
	default:
		dir = cwd + "/" + dir
	}

	ns, _ := t.in(path.Clean(dir))

	for _, n := range ns {
		if !strings.HasPrefix(n, base) {
			continue
		}

		d, _ := t.real(dir)
		x := t[path.Join(d, n)]
		p := word + n[len(base):]

		if x.gone {
			may[p] = true

			continue
		}

		switch {
		case x.dir:
			p += "/"
		case x.link != "":
			may[p+"/"] = true
		}

		may[p] = true

		if base != "" || !strings.HasPrefix(n, ".") {
			must[p] = true
		} else if word != "/" {
			// Hidden unless asked for.
			delete(may, p)
		}
	}

	return must, may
}

type completion struct {
	*tty
	calls int
	skip  Val
	info  types.Type
	walk  string
	fail  Val
}

func checkC22(c *Check) {
	c.completes()
	c.copies()
}

// texts reads a slice of texts.
func (in *Interp) texts(st *State, v Val) ([]string, bool) {
	v = st.norm(v)
	if isNil(v) {
		return nil, true
	}

	s, ok := v.(*Slice)
	if !ok {
		return nil, false
	}

	var ts []string

	for _, e := range in.elems(st, s, types.Typ[types.String]) {
		t, ok := asStr(st.norm(e))
		if !ok {
			return nil, false
		}

		ts = append(ts, t)
	}

	return ts, true
}

// fold evaluates functions of constants.
func fold(in *Interp, name string, f func(args []string) []Val) {
	in.Hooks[name] = func(cc *CallCtx) ([]Out, bool) {
		var ss []string

		for _, a := range cc.Args {
			a = cc.St.norm(a)

			if t, ok := asStr(a); ok {
				ss = append(ss, t)
			} else if ts, ok := in.texts(cc.St, a); ok {
				ss = append(ss, ts...)
			} else {
				return nil, false
			}
		}

		vs := f(ss)
		if len(vs) == 1 {
			return ret(cc.St, vs[0]), true
		}

		return ret(cc.St, Tuple(vs)), true
	}
}

func foldNames(in *Interp) {
	one := func(f func(string) string) func([]string) []Val {
		return func(a []string) []Val { return []Val{cStr(f(a[0]))} }
	}

	for _, p := range []string{"path", "path/filepath"} {
		fold(in, p+".Base", one(path.Base))
		fold(in, p+".Dir", one(path.Dir))
		fold(in, p+".Ext", one(path.Ext))
		fold(in, p+".Clean", one(path.Clean))
		fold(in, p+".IsAbs", func(a []string) []Val { return []Val{cBool(path.IsAbs(a[0]))} })
		fold(in, p+".Join", func(a []string) []Val { return []Val{cStr(path.Join(a...))} })
		fold(in, p+".Split", func(a []string) []Val {
			d, f := path.Split(a[0])

			return []Val{cStr(d), cStr(f)}
		})
	}
}

func (k *completion) infoOf(st *State, p string) Val {
	v := T(k.info, "info", cStr(p))
	nonNil(st, v)

	return v
}

func infoPath(st *State, v Val) (string, bool) {
	t := asTerm(st.norm(v))
	if t == nil || t.Op != "info" {
		return "", false
	}

	return asStr(t.Args[0])
}

func (k *completion) files() {
	in := k.in
	foldNames(in)

	k.info = k.p.extType("io/fs", "FileInfo")
	if k.info == nil {
		panic(budgetError{"io/fs.FileInfo is not loaded"})
	}

	k.skip = k.global("io/fs", "SkipDir")
	all := k.global("io/fs", "SkipAll")

	for n, v := range map[string]Val{"SkipDir": k.skip, "SkipAll": all} {
		for _, q := range k.p.SSA.AllPackages() {
			if q.Pkg.Path() == "path/filepath" {
				if g := q.Var(n); g != nil {
					k.st0.storeAt(in.globalPtr(g).(*Ptr).Root, "", v, k.err)
				}
			}
		}
	}

	k.fail = k.failure("no such file")
	none := Nil{}

	stat := func(follow bool) Hook {
		return func(cc *CallCtx) ([]Out, bool) {
			p, ok := asStr(cc.St.norm(cc.Args[0]))
			if !ok {
				return nil, false
			}

			x := path.Clean(p)
			if follow || strings.HasSuffix(p, "/") {
				x, ok = forest.real(p)
			} else if d, okd := forest.real(path.Dir(x)); okd {
				x = path.Join(d, path.Base(x))
				_, ok = forest[x]
			} else {
				ok = false
			}

			if !ok || forest[x].gone || strings.HasSuffix(p, "/") && !forest[x].dir {
				return ret(cc.St, Tuple{none, k.fail}), true
			}

			return ret(cc.St, Tuple{k.infoOf(cc.St, x), none}), true
		}
	}
	in.Hooks["os.Stat"], in.Hooks["os.Lstat"] = stat(true), stat(false)

	fold(in, "path/filepath.EvalSymlinks", func(a []string) []Val {
		p, ok := forest.real(a[0])
		if !ok {
			return []Val{cStr(""), k.fail}
		}

		return []Val{cStr(p), none}
	})

	of := func(f func(p string, x node) Val) Hook {
		return func(cc *CallCtx) ([]Out, bool) {
			p, ok := infoPath(cc.St, cc.Args[0])
			if !ok {
				return nil, false
			}

			return ret(cc.St, f(p, forest[p])), true
		}
	}

	mt := k.p.extType("io/fs", "FileMode")
	mode := func(p string, x node) uint32 {
		m := uint32(0o644)

		switch {
		case x.link != "":
			m = 0o777 | 1<<27
		case x.dir:
			m = 0o755 | 1<<31
		case x.exec:
			m = 0o755
		}

		return m
	}

	for _, i := range []string{"FileInfo", "DirEntry"} {
		n := "invoke io/fs." + i + "."
		in.Hooks[n+"IsDir"] = of(func(p string, x node) Val { return cBool(x.dir) })
		in.Hooks[n+"Name"] = of(func(p string, x node) Val { return cStr(path.Base(p)) })
		in.Hooks[n+"Mode"] = of(func(p string, x node) Val { return kInt(int64(mode(p, x)), mt) })
		in.Hooks[n+"Type"] = of(func(p string, x node) Val { return kInt(int64(mode(p, x)&^0o777), mt) })
		in.Hooks[n+"Info"] = func(cc *CallCtx) ([]Out, bool) { return ret(cc.St, Tuple{cc.St.norm(cc.Args[0]), none}), true }
	}

	bits := func(f func(m int64) Val) Hook {
		return func(cc *CallCtx) ([]Out, bool) {
			m, ok := asInt(cc.St.norm(cc.Args[0]))
			if !ok {
				return nil, false
			}

			return ret(cc.St, f(m)), true
		}
	}
	in.Hooks["(io/fs.FileMode).IsDir"] = bits(func(m int64) Val { return cBool(m&(1<<31) != 0) })
	in.Hooks["(io/fs.FileMode).IsRegular"] = bits(func(m int64) Val { return cBool(m>>26 == 0) })
	in.Hooks["(io/fs.FileMode).Perm"] = bits(func(m int64) Val { return kInt(m&0o777, mt) })
	in.Hooks["(io/fs.FileMode).Type"] = bits(func(m int64) Val { return kInt(m&^0o777, mt) })

	dirs := func(cc *CallCtx) ([]Out, bool) {
		p, ok := asStr(cc.St.norm(cc.Args[0]))
		if !ok {
			return nil, false
		}

		ns, ok := forest.in(p)
		if !ok {
			return ret(cc.St, Tuple{Nil{}, k.fail}), true
		}

		et := cc.Res.(*types.Tuple).At(0).Type().Underlying().(*types.Slice).Elem()
		d, _ := forest.real(p)
		o := cc.St.alloc(et, "entries")

		for i, n := range ns {
			v := T(et, "info", cStr(path.Join(d, n)))
			nonNil(cc.St, v)
			cc.St.storeAt(o, fmt.Sprintf("[%d]", i), v, et)
		}

		return ret(cc.St, Tuple{&Slice{Root: o, Len: len(ns), Cap: len(ns)}, Nil{}}), true
	}
	in.Hooks["os.ReadDir"], in.Hooks["io/ioutil.ReadDir"] = dirs, dirs

	in.Hooks["path/filepath.Walk"] = k.walks
	in.Hooks["path/filepath.WalkDir"] = k.walks

	in.Hooks["sort.Strings"] = func(cc *CallCtx) ([]Out, bool) {
		s, ok := cc.St.norm(cc.Args[0]).(*Slice)
		if !ok {
			return ret(cc.St, Tuple{}), isNil(cc.St.norm(cc.Args[0]))
		}

		ts, ok := in.texts(cc.St, s)
		if !ok {
			return nil, false
		}

		sort.Strings(ts)

		for i, t := range ts {
			cc.St.storeAt(s.Root, fmt.Sprintf("%s[%d]", s.Path, s.Off+i), cStr(t), types.Typ[types.String])
		}

		return ret(cc.St, Tuple{}), true
	}
}

// walks is filepath.Walk, as documented, for a function that does not fork.
func (k *completion) walks(cc *CallCtx) ([]Out, bool) {
	root, ok := asStr(cc.St.norm(cc.Args[0]))
	f, okf := cc.St.norm(cc.Args[1]).(*Fn)

	if !ok || !okf {
		return nil, false
	}

	st := cc.St

	var failed *Out

	call := func(p string, info, err Val) Val {
		outs := k.in.Call(st, f.F, []Val{cStr(p), info, err}, f.B, cc.Depth+1, false)
		if len(outs) != 1 {
			panic(budgetError{"what is called for an entry of a directory forks"})
		}

		st = outs[0].St

		if outs[0].Kind != Ret {
			failed = &outs[0]

			return k.fail
		}

		return st.norm(valOr(outs[0].Val))
	}

	var visit func(p, at string) Val

	visit = func(p, at string) Val {
		x := forest[at]
		if x.gone {
			return call(p, Nil{}, k.fail)
		}

		info := k.infoOf(st, at)
		err := call(p, info, Nil{})

		if !isNil(err) || !x.dir {
			if err.Key() == k.skip.Key() && x.dir {
				return Nil{}
			}

			return err
		}

		ns, ok := forest.in(at)
		if !ok {
			err = call(p, info, k.fail)
			if err.Key() == k.skip.Key() {
				return Nil{}
			}

			return err
		}

		for _, n := range ns {
			q := path.Join(at, n)

			err := visit(path.Join(p, n), q)
			if !isNil(err) {
				if err.Key() == k.skip.Key() {
					return Nil{}
				}

				return err
			}
		}

		return Nil{}
	}

	var err Val

	// The root is examined without following it if it is a link.
	at := path.Clean(root)
	if d, ok := forest.real(path.Dir(at)); ok {
		at = path.Join(d, path.Base(at))
	}

	if _, ok := forest[at]; !ok {
		err = call(root, Nil{}, k.fail)
	} else {
		err = visit(root, at)
	}

	if failed != nil {
		return []Out{*failed}, true
	}

	if err.Key() == k.skip.Key() {
		err = Nil{}
	}

	return ret(st, err), true
}

// what the complete method can return: the name of a completer and texts.
var completers = [][]string{{"_filedir"}, {"_minimal", "hidden"}, {"_command", "dozen", "dozen", "ax"}}

func (c *Check) completes() {
	on := "completion"

	c.guard("completion", on, func() {
		s := newSim(c, "")
		t := &tty{c: c, p: c.P, in: s.in, st0: s.st0, depth: 1, on: on, load: "ok"}
		t.cell = c.P.typ("internal/common/interface/cell", "I")
		t.err = types.Universe.Lookup("error").Type()

		k := &completion{tty: t}
		in := k.in
		in.MaxVisit, in.MaxSteps, in.MaxOuts = 400, 400000000, 4000000
		in.Bytes = true
		k.top = c.sessionStart()

		if k.top == nil {
			panic(budgetError{"no interactive session found"})
		}

		k.hooks()
		k.files()
		delete(in.Hooks, "internal/common.String")

		var fn *Fn

		in.Hooks["(*"+linerPkg+".State).SetWordCompleter"] = func(cc *CallCtx) ([]Out, bool) {
			fn, _ = cc.St.norm(cc.Args[1]).(*Fn)

			return ret(cc.St, Tuple{}), true
		}
		in.Hooks["(*"+linerPkg+".State).Prompt"] = func(cc *CallCtx) ([]Out, bool) {
			return []Out{{St: cc.St, Kind: Stop, Pos: cc.Pos, Why: "asks", Val: Nil{}}}, true
		}
		in.Hooks["internal/engine.System"] = func(cc *CallCtx) ([]Out, bool) {
			v := T(k.cell, "PROMPT")
			nonNil(cc.St, v)

			return ret(cc.St, Tuple{v, cBool(false)}), true
		}
		in.Hooks["internal/common.String"] = func(cc *CallCtx) ([]Out, bool) {
			if x := asTerm(unIface(cc.St.norm(cc.Args[0]))); x != nil && x.Op == "PROMPT" {
				return ret(cc.St, cStr(": ")), true
			}

			return nil, false
		}

		var from *State

		for _, o := range in.Call(k.st0.clone(), k.top, nil, nil, 0, false) {
			if o.Kind == Stop && o.Why == "asks" {
				from = o.St
			}
		}

		if from == nil || fn == nil {
			panic(budgetError{"the session does not ask for a line, or gives the line editor no completion"})
		}

		k.reader()

		n := 0

		for _, x := range k.cases(c.Tier == "thorough") {
			n += k.try(from, fn, x)
		}

		c.atLeast("completions", n, 200)
		c.Counts["completions"] += n
		c.enter(in)
	})
}

func unIface(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}

	return v
}

// A line to complete.
type tab struct {
	cwd, home string
	before    string // up to the word
	word      string
	after     string
	command   bool // the word is in the place of a command
	either    bool // it may be taken for a command or an argument
}

func (x tab) String() string {
	return fmt.Sprintf("%q<Tab>%q in %s (home %s)", x.before+x.word, x.after, x.cwd, x.home)
}

func (k *completion) cases(thorough bool) []tab {
	words := []string{
		"", "d", "do", "docs", "docs/", "docs/d", "docs/.", "docs2", "docs2/", "./d", "./", "../m", "../", "..", ".", "./docs/d",
		"~", "~/", "~d", "~/d", "~/docs/", "~/docs/dr", "/", "/u", "/.", "/..", "/usr", "/usr/", "/usr/b", "/usr/.", "/usr/../h", "/usr//b", "//u",
		"docs//d", "docs/../n", "/w/lnk/", "/w/lnk/d", "lnk/d", "lnk", "/w/up/u", "up/", "/bin/l", "gone/", "gone", "/w/gone", "locked/", "/w/l",
		"é", "été", "/home/me/ét", "nothing", "notes/", "/nowhere/x", "w", "w/w", "/w/w", "/w/w/w", "dodo", "u", "usr/", "home/me/d", "x",
	}
	cwds := []string{"/home/me", "/", "/w/a:b", "/w", "/w/lnk"}
	homes := []string{"/home/me", "/"}

	var xs []tab

	for _, cwd := range cwds {
		for _, home := range homes {
			for _, w := range words {
				if home != homes[0] && !strings.HasPrefix(w, "~") && !thorough {
					continue
				}

				xs = append(xs, tab{cwd: cwd, home: home, before: "ls ", word: w})
			}
		}
	}

	befores := []string{"ls été ", "été étage/ ", "日本語 x  ", "if (f \"é\") ", "ls (f x)", "été (f été)"}
	afters := []string{"", "s", " tail", "é", " (日本 x)"}

	for _, b := range befores {
		for _, a := range afters {
			for _, w := range []string{"", "do", "ét", "/usr/b", "nothing"} {
				xs = append(xs, tab{cwd: "/home/me", home: "/home/me", before: b, word: w, after: a})
			}
		}
	}

	for _, b := range []string{"", "(", "echo (", "été (", "ls;", "if true { "} {
		for _, a := range afters {
			for _, w := range []string{"", "do", "ét", "/usr/b"} {
				if b == "ls;" {
					// The word is not divided at a semicolon.
					w = b + w
					xs = append(xs, tab{cwd: "/w", home: "/home/me", word: w, after: a, command: true})

					continue
				}

				xs = append(xs, tab{cwd: "/w", home: "/home/me", before: b, word: w, after: a, command: true})
			}
		}
	}

	// The text continues a command begun on an earlier line.
	for _, w := range []string{"", "do", "ét"} {
		for _, a := range afters {
			xs = append(xs, tab{cwd: "/home/me", home: "/home/me", word: w, after: a, either: true})
		}
	}

	return xs
}

// reader gives the session's reader and parser stand-ins.
func (k *completion) reader() {
	in := k.in

	made := func(typ types.Type, op string) Hook {
		return func(cc *CallCtx) ([]Out, bool) {
			v := T(typ, op, cc.St.norm(cc.Args[0]))
			nonNil(cc.St, v)

			return ret(cc.St, v), true
		}
	}

	lt := types.NewPointer(k.p.typ("internal/reader/lexer", "T"))
	pt := types.NewPointer(k.p.typ("internal/reader/parser", "T"))
	in.Hooks[k.method("internal/reader", "T", "Lexer")] = made(lt, "LEXER")
	in.Hooks[k.method("internal/reader", "T", "Parser")] = made(pt, "PARSER")
	in.Hooks[k.method("internal/reader/lexer", "T", "Copy")] = made(lt, "LEXER-COPY")

	isCopy := func(cc *CallCtx, v Val, op string) bool {
		t := asTerm(cc.St.norm(v))

		return t != nil && t.Op == op
	}

	touched := func(cc *CallCtx, what string) ([]Out, bool) {
		cc.St.User["touched"] = cStr(what)

		return ret(cc.St, cc.freshRes("touched")), true
	}
	raise := func(cc *CallCtx) Out {
		st := cc.St.clone()

		return Out{St: st, Kind: Panic, Pos: cc.Pos, Why: "raised", Val: &Iface{types.Typ[types.String], cStr("raised")}}
	}

	in.Hooks[k.method("internal/reader/lexer", "T", "Scan")] = func(cc *CallCtx) ([]Out, bool) {
		if !isCopy(cc, cc.Args[0], "LEXER-COPY") {
			return touched(cc, "the session's own lexer scans the text")
		}

		cc.St.User["scanned"] = cc.St.norm(cc.Args[1])

		return ret(cc.St, Tuple{}), true
	}
	in.Hooks[k.method("internal/reader/lexer", "T", "Expected")] = func(cc *CallCtx) ([]Out, bool) {
		if !isCopy(cc, cc.Args[0], "LEXER-COPY") {
			return touched(cc, "asks the session's own lexer what it expects")
		}

		some := cc.St.clone()
		some.User["expected"] = cBool(true)

		return []Out{{St: cc.St, Kind: Ret, Val: Nil{}}, {St: some, Kind: Ret, Val: texts2(some, "exp", "exq")}}, true
	}
	in.Hooks[k.method("internal/reader/parser", "T", "Copy")] = func(cc *CallCtx) ([]Out, bool) {
		v := T(pt, "PARSER-COPY")
		nonNil(cc.St, v)

		if f, ok := cc.St.norm(cc.Args[2]).(*Fn); ok && strings.HasSuffix(f.F.Name(), "$bound") && len(f.B) == 1 && !isCopy(cc, f.B[0], "LEXER-COPY") {
			cc.St.User["touched"] = cStr("the copy of the parser takes tokens from the session's own lexer")
		}

		return ret(cc.St, v), true
	}
	in.Hooks[k.method("internal/reader/parser", "T", "Parse")] = func(cc *CallCtx) ([]Out, bool) {
		if !isCopy(cc, cc.Args[0], "PARSER-COPY") {
			return touched(cc, "the session's own parser parses the text")
		}

		e := T(k.err, "syntax-error")
		bad := cc.St.clone()
		nonNil(bad, e)

		up := raise(cc)
		up.St.User["raised"] = cBool(true)

		return []Out{{St: cc.St, Kind: Ret, Val: Nil{}}, {St: bad, Kind: Ret, Val: e}, up}, true
	}
}

// try completes one line and gives the number of ways that took.
func (k *completion) try(from *State, fn *Fn, x tab) int {
	c, in := k.c, k.in
	line := x.before + x.word + x.after
	pos := utf8.RuneCountInString(x.before + x.word)
	on := x.String()

	st := from.clone()
	in.Steps = 0

	in.Hooks["internal/engine.Resolve"] = func(cc *CallCtx) ([]Out, bool) {
		switch n, _ := asStr(cc.St.norm(cc.Args[0])); n {
		case "PWD":
			return ret(cc.St, cStr(x.cwd)), true
		case "HOME":
			return ret(cc.St, cStr(x.home)), true
		}

		return ret(cc.St, cStr("")), true
	}

	cmd := func(st *State) Val {
		if x.command {
			return k.list(st)
		}

		return k.list(st, "ls", "arg")
	}
	in.Hooks[k.method("internal/reader/parser", "T", "Current")] = func(cc *CallCtx) ([]Out, bool) {
		return ret(cc.St, cmd(cc.St)), true
	}
	in.Hooks["internal/engine.System"] = func(cc *CallCtx) ([]Out, bool) {
		cc.St.event("complete", "asks", cc.From, cc.Pos, nil, cc.St.norm(cc.Args[1]))

		var outs []Out

		for i, r := range completers {
			st := cc.St.clone()
			st.User["completer"] = cInt(int64(i))
			outs = append(outs, Out{St: st, Kind: Ret, Val: Tuple{k.list(st, r...), cBool(false)}})
		}

		return outs, true
	}

	n := 0

	for _, o := range in.Call(st, fn.F, []Val{cStr(line), cInt(int64(pos))}, fn.B, 0, false) {
		if o.Kind == Trunc {
			panic(budgetError{on + ": not followed to its end: " + o.Why})
		}

		n++

		st := o.St

		if !c.ob("completion-faults", on, o.Kind == Ret, o.Pos, "%s %s %s", o.Kind, o.Why, show(valOr(o.Val))) {
			continue
		}

		touched, _ := asStr(valOr(st.User["touched"]))
		c.ob("completion-reader", on, touched == "", o.Pos, "%s", touched)

		rs, ok := st.norm(o.Val).(Tuple)
		if !ok || len(rs) != 3 {
			panic(budgetError{on + ": an unknown result"})
		}

		head, ok1 := asStr(st.norm(rs[0]))
		tail, ok2 := asStr(st.norm(rs[2]))
		got, ok3 := in.texts(st, rs[1])

		if !ok1 || !ok2 || !ok3 {
			panic(budgetError{on + ": an unknown result: " + show(rs[0]) + " " + show(rs[1]) + " " + show(rs[2])})
		}

		if s, ok := asStr(valOr(st.User["scanned"])); ok {
			c.ob("completion-scans", on, s == x.before+x.word, o.Pos, "the text up to the cursor is taken to be %q", s)
		}

		c.ob("completion-tail", on, tail == x.after, o.Pos, "what follows the cursor becomes %q", tail)

		if len(got) == 0 {
			// Nothing is proposed, and the line stays as it is.
			c.ob("completion-none", on, st.User["raised"] != nil, o.Pos, "proposes nothing, not even what was typed")

			continue
		}

		if st.User["expected"] != nil {
			c.ob("completion-head", on, head == x.before+x.word, o.Pos, "what precedes what the lexer expects becomes %q", head)

			continue
		}

		c.ob("completion-head", on, head == x.before, o.Pos, "what precedes the word becomes %q", head)

		seen := map[string]bool{}

		for _, g := range got {
			c.ob("completion-once", on, !seen[g], o.Pos, "proposes %q twice", g)
			seen[g] = true
		}

		if x.either {
			continue
		}

		want, may := map[string]bool{}, map[string]bool{}
		which, asked := asInt(valOr(st.User["completer"]))

		if !x.command {
			want, may = forest.continued(x.cwd, x.home, x.word)
		} else if x.word == "" {
			want["    "], may["    "] = true, true
		}

		if asked && (x.command || which == 2) {
			for _, w := range completers[which][1:] {
				want[w], may[w] = true, true
			}
		}

		if len(want) == 0 {
			want[x.word], may[x.word] = true, true
		}

		for w := range want {
			c.ob("completion-complete", on, seen[w] || strings.HasSuffix(w, "/") == false && seen[w+"/"] && may[w+"/"], o.Pos, "does not propose %q; proposes %q", w, got)
		}

		for _, g := range got {
			c.ob("completion-exists", on, may[g] || want[g], o.Pos, "proposes %q", g)
		}
	}

	return n
}

// list is a list of texts.
func (k *completion) list(st *State, ss ...string) Val {
	g := k.p.global("internal/common/type/pair", "Null")
	if g == nil {
		panic(budgetError{"variable pair.Null not found"})
	}

	one := func(f *ssa.Function, args ...Val) Val {
		outs := k.in.Call(st, f, args, nil, 0, false)
		if len(outs) != 1 || outs[0].Kind != Ret || outs[0].St != st {
			panic(budgetError{k.p.fname(f) + " has more than one outcome"})
		}

		return outs[0].Val
	}

	l := st.load(k.in.globalPtr(g), k.cell)

	for i := len(ss) - 1; i >= 0; i-- {
		l = one(k.p.fn("internal/common/type/pair", "Cons"), one(k.p.fn("internal/common/type/str", "New"), cStr(ss[i])), l)
	}

	return l
}

// copies evaluates the lexer on text entered, on text completed by a copy of
// it, and on text entered afterwards, which must read as if nothing had been
// completed.
func (c *Check) copies() {
	c.guard("copies", "lexer", func() {
		s := newLexSim(c)
		lt := c.P.typ("internal/reader/lexer", "T")
		cp := c.P.method(lt, "Copy")

		if cp == nil {
			panic(budgetError{"the lexer cannot be copied"})
		}

		entered := []string{"", "if true {\n", "echo \"a\n", "echo 'a\n", "echo a \\\n", "echo (a\n", "echo $(\n", "a |\n", "f a >\n", "# c\n", "é\n"}
		typed := []string{"", "ec", "echo ", "\"b", "'b", "\\", "}", "x y (z", "été", "${", "a >(", "b\" c", "\"\\x", "# d"}
		after := []string{"b\n", "b\" c\n", "}\n", "' | d)\n"}
		n := 0

		for _, e := range entered {
			st, _, bad := s.feed(s.st0, e)
			if bad != "" {
				continue
			}

			for _, t := range typed {
				on := fmt.Sprintf("%q typed after %q", t, e)
				_, want, bad := s.feed(st, t)

				o := s.one(st, cp, s.l)
				if !c.ob("copy", on, o.Kind == Ret, o.Pos, "Copy: %s %s", o.Kind, o.Why) {
					continue
				}

				own := s.l
				s.l = o.Val
				mid, got, why := s.feed(o.St, t)
				s.l = own
				n++

				c.ob("copy-reads", on, bad == why && fmt.Sprint(got) == fmt.Sprint(want), cp.Pos(), "the copy reads %v %s; the lexer would read %v %s", got, why, want, bad)

				mids := []*State{mid}

				// What is typed may not be read to its end.
				part := o.St
				so := s.one(part, s.scan, o.Val, cStr(t))

				for part = so.St; len(mids) < 4; {
					mids = append(mids, part)

					o := s.one(part, s.next, o.Val)
					if o.Kind != Ret || isNil(o.St.norm(o.Val)) {
						break
					}

					part = o.St
				}

				for i, mid := range mids {
					for _, a := range after {
						_, want, bad := s.feed(st, a)
						_, got, why := s.feed(mid, a)
						c.ob("copy-apart", fmt.Sprintf("%s, then %q (%d)", on, a, i), bad == why && fmt.Sprint(got) == fmt.Sprint(want), cp.Pos(), "is read as %v %s; it would have been %v %s", got, why, want, bad)
					}
				}
			}
		}

		c.atLeast("copies of the lexer", n, 80)
		c.enter(s.k.in)
	})

	c.guard("copies", "parser", func() {
		in := newInterp(c.P)
		st := world(c.P, "internal/reader/parser").Init.clone()
		pt := c.P.typ("internal/reader/parser", "T")
		cp := c.P.method(pt, "Copy")

		if cp == nil {
			panic(budgetError{"the parser cannot be copied"})
		}

		arg := func(i int, of string) Val { return T(cp.Params[i].Type(), of) }
		one := func(f *ssa.Function, args ...Val) Val {
			outs := in.Call(st, f, args, nil, 0, false)
			if len(outs) != 1 || outs[0].Kind != Ret {
				panic(budgetError{c.P.fname(f) + " has no single outcome"})
			}

			st = outs[0].St

			return outs[0].Val
		}

		p := one(c.P.fn("internal/reader/parser", "New"), arg(1, "EMIT"), arg(2, "ITEM"))
		root, at, ok := addr(p)
		if !ok {
			panic(budgetError{"no address for the parser"})
		}

		fields := func(root Val, at string) map[string]Val {
			m := map[string]Val{}
			ty := pt.Underlying().(*types.Struct)

			for i := 0; i < ty.NumFields(); i++ {
				m[ty.Field(i).Name()] = st.norm(st.loadAt(root, at+"."+ty.Field(i).Name(), ty.Field(i).Type()))
			}

			return m
		}

		before := fields(root, at)
		q := one(cp, p, arg(1, "EMIT2"), arg(2, "ITEM2"))
		qr, qa, ok := addr(q)
		c.ob("copy-apart", "parser", ok && (qr.Key() != root.Key() || qa != at), cp.Pos(), "the copy is the parser itself")

		if !ok {
			return
		}

		now, theirs := fields(root, at), fields(qr, qa)
		given := 0

		for f, v := range now {
			c.ob("copy-apart", "parser's "+f, v.Key() == before[f].Key(), cp.Pos(), "copying changes it")

			t := theirs[f]
			if t.Key() == arg(1, "EMIT2").Key() || t.Key() == arg(2, "ITEM2").Key() {
				given++

				continue
			}

			switch t.(type) {
			case *Slice, *MapV:
				c.ob("copy-apart", "parser's "+f, t.Key() != v.Key(), cp.Pos(), "is shared with the copy")
			}
		}

		c.ob("copy-apart", "parser's functions", given == 2, cp.Pos(), "the copy uses %d of the functions it is given", given)
		c.enter(in)
	})
}

func kInt(n int64, t types.Type) Val { return Const{constant.MakeInt64(n), t} }
