package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// A reader for the oh language, written from the language's grammar, so that
// the shell's own start-up script can be analysed without the shell.

type (
	lv   any
	lsym string
	lstr string
	lnum int64
)

type lpair struct{ car, cdr lv }

var lNull = &lpair{}

func lIsPair(v lv) bool { _, ok := v.(*lpair); return ok }

func lcar(v lv) lv {
	p, ok := v.(*lpair)
	if !ok {
		panic(lerr("not a pair"))
	}

	if p == lNull {
		return lNull
	}

	return p.car
}

func lcdr(v lv) lv {
	p, ok := v.(*lpair)
	if !ok {
		panic(lerr("not a pair"))
	}

	if p == lNull {
		return lNull
	}

	return p.cdr
}

func lcons(a, d lv) lv { return &lpair{a, d} }

func llist(vs ...lv) lv { return llistTail(vs, lNull) }

func llistTail(vs []lv, tail lv) lv {
	l := tail
	for i := len(vs) - 1; i >= 0; i-- {
		l = lcons(vs[i], l)
	}

	return l
}

func lslice(l lv) (vs []lv) {
	for l != lv(lNull) {
		p, ok := l.(*lpair)
		if !ok {
			panic(lerr("not a list"))
		}

		vs, l = append(vs, p.car), p.cdr
	}

	return vs
}

type lerr string

type ltok struct {
	k    byte // the character, or: w word, _ space, > redirect, | pipe, A and, O or, & background, s substitution, " ' and d quoted, [ and ] meta
	v    string
	line int
}

var lops = map[string]string{
	"&": "spawn", "&&": "and", "<": "input-from", ">": "output-to", ">&": "output-errors-to", ">&|": "output-errors-clobbers",
	">>": "append-output-to", ">>&": "append-output-errors-to", ">|": "output-clobbers", "|": "pipe-output-to",
	"|&": "pipe-output-errors-to", "|<": "-named-pipe-input-from", "|>": "-named-pipe-output-to", "||": "or",
}

// The modes of the lexical grammar between tokens.
const (
	lcollect = iota // after a token: space separates
	lskip           // spaces are ignored
	lskipAll        // newlines are ignored as well
)

// llex splits a text into tokens.
func llex(s string) []ltok {
	ts, _, rest := lscan(s + "\n")
	if rest != "" {
		panic(lerr("unterminated " + rest))
	}

	return ts
}

// lscan splits a text into the tokens it completes: a token ends where the
// character after it shows that it does. The rest is what is not yet a token.
func lscan(s string) (ts []ltok, mode int, rest string) {
	mode, i, line := lskipAll, 0, 1

	emit := func(k byte, v string) {
		ts = append(ts, ltok{k, v, line})
		if v == "\n" {
			line++
		}
	}

	// Operators, and the characters after which they may be longer.
	type oper struct {
		k    byte
		mode int
		more string
	}

	opers := map[string]oper{
		"&": {'&', lcollect, "&"}, "&&": {'A', lskipAll, ""},
		"|": {'|', lskipAll, "|&<>)"}, "||": {'O', lskipAll, ""}, "|&": {'|', lskipAll, ""},
		"|<": {'s', lskip, ""}, "|>": {'s', lskip, ""}, "|)": {']', lcollect, ""},
		">": {'>', lskip, ">&|"}, ">>": {'>', lskip, "&"}, ">>&": {'>', lskip, ""},
		">&": {'>', lskip, "|"}, ">&|": {'>', lskip, ""}, ">|": {'>', lskip, ""},
		"<": {'>', lskip, ""}, "(": {'(', lskipAll, "|"}, "(|": {'[', lskipAll, ""},
	}

	for i < len(s) {
		c := s[i]

		switch {
		case c == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				return ts, mode, s[i:]
			}

			i += j + 1
			emit('\n', "\n")

			mode = lskipAll

			continue
		case c == '\n':
			i++

			if mode == lskipAll {
				line++
			} else {
				emit('\n', "\n")

				mode = lskipAll
			}

			continue
		case c == ' ' || c == '\t':
			j := i
			for j < len(s) && (s[j] == ' ' || s[j] == '\t') {
				j++
			}

			if mode == lcollect {
				if j == len(s) {
					return ts, mode, s[i:]
				}

				if s[j] != '\n' && s[j] != '#' {
					emit('_', s[i:j])

					mode = lskip
				}
			}

			i = j

			continue
		case c == '\\' && (i+1 == len(s) || s[i+1] == '\n'):
			if mode == lcollect {
				mode = lskip
			}

			if i+1 == len(s) {
				return ts, mode, s[i:]
			}

			i += 2
			line++

			continue
		}

		if _, ok := opers[string(c)]; ok {
			j := i + 1

			for {
				if o := opers[s[i:j]]; o.more == "" {
					break
				} else if j == len(s) {
					return ts, mode, s[i:]
				} else if strings.IndexByte(o.more, s[j]) < 0 {
					break
				}

				j++
			}

			t := s[i:j]
			v := lops[t]

			if v == "" {
				v = t
			}

			i = j
			emit(opers[t].k, v)

			mode = opers[t].mode

			continue
		}

		switch {
		case strings.IndexByte(");`{}", c) >= 0:
			i++
			emit(c, string(c))

			mode = lcollect
		case c == '$' && i+1 == len(s):
			return ts, mode, s[i:]
		case c == '$' && s[i+1] == '\'', c == '"', c == '\'':
			j, q := i+1, c
			if c == '$' {
				j, q = i+2, '\''
			}

			for j < len(s) && s[j] != q {
				if s[j] == '\\' && (c != '\'') {
					j++
				}

				j++
			}

			if j >= len(s) {
				return ts, mode, s[i:]
			}

			text := s[i : j+1]
			k := c

			line += strings.Count(text, "\n")

			if c == '$' {
				k, text = 'd', text[1:]
			}

			ts = append(ts, ltok{k, text[1 : len(text)-1], line})

			i, mode = j+1, lcollect
		case c == '$':
			i++

			switch {
			case s[i] == '$':
				emit('$', "$")
				emit('w', "$")

				i++
			case strings.IndexByte("\t\n \"#&();<>`|}", s[i]) >= 0:
				emit('w', "$")
			default:
				emit('$', "$")
			}

			mode = lcollect
		case strings.IndexByte(",./:=@~", c) >= 0:
			i++
			emit('w', string(c))

			mode = lcollect
		default:
			j := i
			for j < len(s) && strings.IndexByte("\t\n \"#&'();<>`{|},./:=@~$", s[j]) < 0 {
				if s[j] == '\\' {
					j++
				}

				j++
			}

			if j >= len(s) {
				return ts, mode, s[i:]
			}

			line += strings.Count(s[i:j], "\n")
			emit('w', s[i:j])

			i, mode = j, lcollect
		}
	}

	return ts, mode, ""
}

// lparser is a recursive descent parser for the documented grammar.
type lparser struct {
	ts     []ltok
	pos    int
	strict bool // More tokens may come.
}

// lmore is raised where a token is needed that has not come.
type lmore struct{}

// lunsaid is raised by text whose meaning nothing defines.
type lunsaid struct{}

// lread reads the commands that tokens complete, as they come.
func lread(ts []ltok) (cs []lv, err, said bool) {
	said = true
	p := &lparser{ts: ts, strict: true}

	defer func() {
		switch r := recover().(type) {
		case nil, lmore:
		case lerr:
			err = true
		case lunsaid:
			said = false
		default:
			panic(r)
		}
	}()

	for {
		if !p.eat('\n') {
			cs = append(cs, p.must(p.background()))
		}
	}
}

// lparse reads every command of a text.
func lparse(s string) (cs []lv, err error) {
	p := &lparser{}

	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(lerr)
			if !ok {
				panic(r)
			}

			err = fmt.Errorf("line %d: %s", p.line(), string(e))
		}
	}()

	p.ts = llex(s)

	for p.pos < len(p.ts) {
		if p.eat('\n') {
			continue
		}

		cs = append(cs, p.must(p.background()))
	}

	return cs, nil
}

func (p *lparser) line() int {
	if p.pos < len(p.ts) {
		return p.ts[p.pos].line
	}

	return 0
}

func (p *lparser) is(ks string) bool {
	if p.strict && p.pos >= len(p.ts) {
		panic(lmore{})
	}

	return p.pos < len(p.ts) && strings.IndexByte(ks, p.ts[p.pos].k) >= 0
}

func (p *lparser) eat(k byte) bool {
	if p.is(string(k)) {
		p.pos++

		return true
	}

	return false
}

func (p *lparser) next() ltok {
	p.pos++

	return p.ts[p.pos-1]
}

func (p *lparser) must(v lv) lv {
	if v == nil {
		panic(lerr("unexpected token"))
	}

	return v
}

func (p *lparser) expect(k byte) {
	if !p.eat(k) {
		panic(lerr(fmt.Sprintf("expected %c", k)))
	}
}

func (p *lparser) background() lv {
	c := p.command()
	if p.is("&") {
		c = llist(lsym(p.next().v), p.must(c))
	}

	return c
}

func (p *lparser) chain(k string, sub func() lv) lv {
	c := sub()
	if !p.is(k) {
		return c
	}

	vs := []lv{lsym(p.ts[p.pos].v), p.must(c)}
	for p.is(k) {
		p.pos++
		vs = append(vs, p.must(sub()))
	}

	return llist(vs...)
}

func (p *lparser) command() lv {
	return p.chain("O", func() lv { return p.chain("A", p.pipeline) })
}

func (p *lparser) pipeline() lv {
	c := p.sequence()
	if p.is("|") {
		c = p.must(c)
		s := lsym(p.next().v)

		return lcons(s, lcons(p.must(p.pipeline()), c))
	}

	return c
}

func (p *lparser) sequence() lv {
	c := p.redirection()
	if !p.is(";") {
		return c
	}

	vs := []lv{lsym("block"), p.must(c)}

	for p.eat(';') {
		if r := p.redirection(); r != nil {
			vs = append(vs, r)
		}
	}

	return llist(vs...)
}

func (p *lparser) redirection() lv {
	c := p.substitution()

	for p.is(">") {
		c = p.must(c)
		s := lsym(p.next().v)
		c = llist(s, p.must(p.join(p.element())), c)

		for p.eat('_') {
		}
	}

	return c
}

func (p *lparser) substitution() lv {
	c := p.statement()
	if c == nil || !p.is("s") {
		return c
	}

	vs := append([]lv{lsym("process-substitution")}, lslice(c)...)

	for p.is("s") {
		s := lsym(p.next().v)
		vs = append(vs, lcons(s, p.must(p.element())))

		if !p.is("s") {
			if t := p.statement(); t != nil {
				vs = append(vs, lslice(t)...)
			}
		}
	}

	return llist(vs...)
}

// braces reads a brace group: the list of what it stands for.
func (p *lparser) braces() (vs []lv, ok bool) {
	if !p.eat('{') {
		return nil, false
	}

	switch {
	case p.eat('\n'):
		for !p.is("}") {
			if p.pos >= len(p.ts) {
				panic(lerr("unterminated block"))
			}

			if p.eat('\n') {
				continue
			}

			vs = append(vs, p.must(p.background()))
		}

		p.expect('}')

		for p.eat('_') {
		}

		if s := p.statement(); s != nil {
			vs = append(vs, lslice(s)...)
		}
	case p.is("{"):
		vs, _ = p.braces()

		p.expect('}')
	default:
		vs = []lv{p.must(p.join(p.element()))}

		p.expect('}')
	}

	return vs, true
}

func (p *lparser) statement() lv {
	var exports, c []lv

	for {
		for p.eat('_') {
		}

		if vs, ok := p.braces(); ok {
			// A command cannot start with a group that stands for several words.
			c = []lv{llist(vs...)}

			break
		}

		e := p.element()
		if e == nil {
			break
		}

		if _, ok := e.(lsym); ok && p.is("w") && p.ts[p.pos].v == "=" {
			p.pos++
			exports = append(exports, llist(lsym("export"), e, p.must(p.join(p.element()))))

			continue
		}

		c = []lv{p.join(e)}

		break
	}

	for c != nil {
		if p.eat('_') {
			continue
		}

		if vs, ok := p.braces(); ok {
			c = append(c, vs...)

			continue
		}

		e := p.join(p.element())
		if e == nil {
			break
		}

		c = append(c, e)
	}

	if exports == nil {
		if c == nil {
			return nil
		}

		return llist(c...)
	}

	vs := append([]lv{lsym("block")}, exports...)
	if c != nil {
		vs = append(vs, llist(c...))
	}

	return llist(vs...)
}

func (p *lparser) join(c lv) lv {
	if c == nil {
		return nil
	}

	vs := []lv{c}
	for e := p.element(); e != nil; e = p.element() {
		vs = append(vs, e)
	}

	if len(vs) == 1 {
		return c
	}

	return llist(append([]lv{lsym("mend"), lsym("")}, vs...)...)
}

func (p *lparser) element() lv {
	if p.eat('`') {
		return llist(lsym("splice"), llist(lsym("capture"), p.must(p.value())))
	}

	return p.expression()
}

func (p *lparser) expression() lv {
	if p.eat('$') {
		if vs, ok := p.braces(); ok {
			if len(vs) == 0 {
				panic(lunsaid{})
			}

			return llist(lsym("resolve"), vs[0])
		}

		return llist(lsym("resolve"), p.must(p.expression()))
	}

	return p.value()
}

func (p *lparser) value() lv {
	switch {
	case p.is("["):
		p.pos++

		v := p.command()
		if v == nil {
			p.expect(')')

			return lNull
		}

		p.expect(']')

		c := lslice(v)

		if len(c) == 0 {
			panic(lerr("invalid meta command"))
		}

		if _, ok := c[0].(lsym); !ok {
			panic(lerr("invalid meta command"))
		}

		if p.strict && (len(c) < 2 || c[0] == lsym("cons") && len(c) < 3 || c[0] != lsym("cons") && lIsPair(c[1])) {
			panic(lunsaid{})
		}

		if len(c) < 2 || c[0] == lsym("cons") && len(c) < 3 {
			panic(lerr("invalid meta command"))
		}

		switch c[0] {
		case lsym("cons"):
			return lcons(c[1], c[2])
		case lsym("symbol"):
			return lsym(fmt.Sprint(c[1]))
		case lsym("status"):
			return llist(lsym("-status"), lsym(fmt.Sprint(c[1])))
		case lsym("number"):
			if p.strict {
				return llist(lsym("-number"), lsym(fmt.Sprint(c[1])))
			}

			n, err := strconv.ParseInt(fmt.Sprint(c[1]), 10, 64)
			if err != nil {
				panic(lerr("number"))
			}

			return lnum(n)
		}

		panic(lerr("invalid meta command"))
	case p.eat('('):
		c := p.command()
		p.expect(')')

		if c == nil {
			return lNull
		}

		return c
	case p.is("'"):
		return lstr(p.next().v)
	case p.is("d"):
		return lstr(p.unescape(p.next().v))
	case p.is("\""):
		return llist(lsym("interpolate"), lstr(p.unescape(p.next().v)))
	case p.is("w"):
		return lsym(p.next().v)
	}

	return nil
}

var lescapes = regexp.MustCompile(`\\.`)

// unescape decodes the escapes of a quoted string; where the parser itself is
// being judged, what it hands to the decoder is what counts.
func (p *lparser) unescape(s string) string {
	if p.strict {
		return "<" + s + ">"
	}

	return lunescape(s)
}

func lunescape(s string) string {
	return lescapes.ReplaceAllStringFunc(s, func(e string) string {
		if r, ok := map[string]string{`\n`: "\n", `\t`: "\t", `\r`: "\r"}[e]; ok {
			return r
		}

		return e[1:]
	})
}

// lshow is the text of a value.
func lshow(v lv) string {
	switch v := v.(type) {
	case *lpair:
		if v == lNull {
			return "()"
		}

		s := "("

		for {
			s += lshow(v.car)

			d, ok := v.cdr.(*lpair)
			if !ok {
				return s + " . " + lshow(v.cdr) + ")"
			}

			if d == lNull {
				return s + ")"
			}

			s += " "
			v = d
		}
	case lsym:
		return string(v)
	case lstr:
		return "'" + string(v) + "'"
	case lnum:
		return fmt.Sprint(int64(v))
	case fmt.Stringer:
		return v.String()
	case nil:
		return "nothing"
	}

	return fmt.Sprintf("%T", v)
}
