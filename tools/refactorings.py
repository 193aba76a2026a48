T = "internal/common/type/"
S = "internal/common/struct/"
C = "internal/engine/commands/"
A = "internal/engine/task/"
J = "internal/system/job/job_unix.go"
ACT = A + "action.go"

ref("hash-del-plain", (S + "hash/hash.go", """	_, ok := h.m[k]
	if !ok {
		return false
	}

	delete(h.m, k)

	return true""", """	if _, found := h.m[k]; found {
		delete(h.m, k)

		return true
	}

	return false"""))
ref("hash-get-explicit-unlock", (S + "hash/hash.go", """	h.RLock()
	defer h.RUnlock()

	return h.m[k]""", """	h.RLock()
	v := h.m[k]
	h.RUnlock()

	return v"""))
ref("hash-set-outside", (S + "hash/hash.go", """	h.Lock()
	defer h.Unlock()

	h.m[k] = slot.New(v)""", """	s := slot.New(v)

	h.Lock()
	h.m[k] = s
	h.Unlock()"""))
ref("hash-copy-lock", (S + "hash/hash.go", """	h.RLock()
	defer h.RUnlock()

	fresh := New()
	for k, v := range h.m {
		fresh.m[k] = v.Copy()
	}

	return fresh""", """	fresh := New()

	h.RLock()

	for k := range h.m {
		fresh.m[k] = h.m[k].Copy()
	}

	h.RUnlock()

	return fresh"""))
ref("env-lookup-loop", (T + "env/env.go", """	v := e.private.Get(k)

	if v == nil {
		v = e.public.Get(k)
	}

	if v == nil && e.previous != nil {
		v = e.previous.Lookup(k)
	}

	return v""", """	if v := e.private.Get(k); v != nil {
		return v
	}

	if v := e.public.Get(k); v != nil {
		return v
	}

	if e.previous == nil {
		return nil
	}

	return e.previous.Lookup(k)"""))
ref("env-lookup-own", (T + "env/env.go", """	v := e.private.Get(k)

	if v == nil {
		v = e.public.Get(k)
	}

	if v == nil &&""", """	v := e.own(k)
	if v == nil &&"""), (T + "env/env.go", """func (e *env) Name() string {""", """func (e *env) own(k string) reference.I {
	for _, h := range []*hash.T{e.private, e.public} {
		if v := h.Get(k); v != nil {
			return v
		}
	}

	return nil
}

func (e *env) Name() string {"""))
ref("env-remove-switch", (T + "env/env.go", """	if e.private.Del(k) || e.public.Del(k) {
		return true
	}

	parent := e.Enclosing()
	if parent == nil {
		return false
	}

	return parent.Remove(k)""", """	switch {
	case e.private.Del(k), e.public.Del(k):
		return true
	case e.previous == nil:
		return false
	default:
		return e.previous.Remove(k)
	}"""))
ref("env-visible-helper", (T + "env/env.go", """	for o != nil && o.Exported() == 0 {
		o = o.Enclosing()
	}

	if o == nil {
		return true
	}

	p := o.Expose()

	o = e
	for o != nil && o.Exported() == 0 {
		o = o.Enclosing()
	}

	if o == nil {
		return false
	}

	return p == o.Expose()""", """	p := nearest(o)
	if p == nil {
		return true
	}

	q := nearest(e)
	if q == nil {
		return false
	}

	return p.Expose() == q.Expose()"""), (T + "env/env.go", "func (e *env) Name() string {", """func nearest(o scope.I) scope.I {
	for ; o != nil; o = o.Enclosing() {
		if o.Exported() != 0 {
			return o
		}
	}

	return nil
}

func (e *env) Name() string {"""))
ref("env-new-fields", (T + "env/env.go", """	return &env{
		previous: previous,
		private:  hash.New(),
		public:   hash.New(),
	}""", """	e := &env{}
	e.public = hash.New()
	e.private = hash.New()
	e.previous = previous

	return e"""))
ref("frame-resolve-walk", (S + "frame/frame.go", """	s = f.scope

	r = s.Lookup(k)
	if r != nil {
		return
	}

	for f = f.previous; f != nil; f = f.previous {
		for s = f.scope; s != nil; s = s.Enclosing() {
			r = s.Public().Get(k)
			if r != nil {
				return
			}
		}
	}

	return""", """	if r = f.scope.Lookup(k); r != nil {
		return f.scope, r
	}

	for p := f.previous; p != nil; p = p.Previous() {
		if s, r = p.public(k); r != nil {
			return s, r
		}
	}

	return nil, nil"""), (S + "frame/frame.go", "func (f *frame) Scope() scope.I {", """func (f *frame) public(k string) (scope.I, reference.I) {
	for s := f.scope; s != nil; s = s.Enclosing() {
		if r := s.Public().Get(k); r != nil {
			return s, r
		}
	}

	return nil, nil
}

func (f *frame) Scope() scope.I {"""))
ref("frame-dup-literal", (S + "frame/frame.go", """	dup := *f
	dup.scope = s

	return &dup""", """	return &frame{
		previous: f.previous,
		scope:    s,
		source:   f.source,
	}"""))
ref("add-array", (C + "arithmetic.go", """	sum := &big.Rat{}

	for args != pair.Null {
		sum.Add(sum, rational.Number(pair.Car(args)))

		args = pair.Cdr(args)
	}

	return num.Rat(sum)""", """	sum := new(big.Rat)

	for ; args != pair.Null; args = pair.Cdr(args) {
		sum = sum.Add(sum, rational.Number(pair.Car(args)))
	}

	return num.Rat(sum)"""))
ref("fold-helper", (C + "arithmetic.go", """	v, args := validate.Variadic(args, 1, 1)

	product := &big.Rat{}
	product.Set(rational.Number(v[0]))

	for args != pair.Null {
		product.Mul(product, rational.Number(pair.Car(args)))

		args = pair.Cdr(args)
	}

	return num.Rat(product)""", """	return fold(args, (*big.Rat).Mul)"""), (C + "arithmetic.go", """	v, args := validate.Variadic(args, 1, 1)

	difference := &big.Rat{}
	difference.Set(rational.Number(v[0]))

	for args != pair.Null {
		difference.Sub(difference, rational.Number(pair.Car(args)))

		args = pair.Cdr(args)
	}

	return num.Rat(difference)
}""", """	return fold(args, (*big.Rat).Sub)
}

func fold(args cell.I, op func(z, x, y *big.Rat) *big.Rat) cell.I {
	v, rest := validate.Variadic(args, 1, 1)

	result := new(big.Rat).Set(rational.Number(v[0]))

	for rest != pair.Null {
		op(result, result, rational.Number(pair.Car(rest)))

		rest = pair.Cdr(rest)
	}

	return num.Rat(result)
}"""))
ref("fold-list-array", (C + "arithmetic.go", """	difference := &big.Rat{}
	difference.Set(rational.Number(v[0]))

	for args != pair.Null {
		difference.Sub(difference, rational.Number(pair.Car(args)))

		args = pair.Cdr(args)
	}

	return num.Rat(difference)""", """	difference := &big.Rat{}
	difference.Set(rational.Number(v[0]))

	for _, c := range list.Array(args) {
		difference.Sub(difference, rational.Number(c))
	}

	return num.Rat(difference)"""), (C + "arithmetic.go", '''	"github.com/michaelmacinnis/oh/internal/common/type/num"
''', '''	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/num"
'''))
ref("mod-inline", (C + "arithmetic.go", """	dividend := &big.Int{}
	dividend.Set(remainder.Num())

	dividend.Mod(dividend, divisor.Num())

	remainder = &big.Rat{}
	remainder.SetInt(dividend)

	return num.Rat(remainder)""", """	r := new(big.Int).Mod(remainder.Num(), divisor.Num())

	return num.Rat(new(big.Rat).SetInt(r))"""))
ref("mod-order", (C + "arithmetic.go", """	if !remainder.IsInt() {
		panic("dividend must be an integer")
	}

	if !divisor.IsInt() {
		panic("divisor must be an integer")
	}
""", """	integers(remainder, divisor)
"""), (C + "arithmetic.go", "func mul(", """func integers(dividend, divisor *big.Rat) {
	switch {
	case !dividend.IsInt():
		panic("dividend must be an integer")
	case !divisor.IsInt():
		panic("divisor must be an integer")
	}
}

func mul("""))
ref("compare-helper", (C + "relational.go", """	prev := rational.Number(v[0])
	curr := rational.Number(v[1])

	for {
		if prev.Cmp(curr) > 0 {
			return pair.Null
		}

		if rest == pair.Null {
			return sym.True
		}

		prev = curr
		curr = rational.Number(pair.Car(rest))

		rest = pair.Cdr(rest)
	}
}""", """	return chain(v, rest, func(n int) bool { return n <= 0 })
}

func chain(v []cell.I, rest cell.I, ok func(int) bool) cell.I {
	prev := rational.Number(v[0])
	curr := rational.Number(v[1])

	for ok(prev.Cmp(curr)) {
		if rest == pair.Null {
			return sym.True
		}

		prev, curr = curr, rational.Number(pair.Car(rest))
		rest = pair.Cdr(rest)
	}

	return pair.Null
}"""))
ref("equal-prev", (C + "relational.go", """	for {
		if !v[0].Equal(v[1]) {
			return pair.Null
		}

		if rest == pair.Null {
			return sym.True
		}

		v[0] = v[1]
		v[1] = pair.Car(rest)

		rest = pair.Cdr(rest)
	}""", """	prev, curr := v[0], v[1]

	for prev.Equal(curr) {
		if rest == pair.Null {
			return sym.True
		}

		prev, curr, rest = curr, pair.Car(rest), pair.Cdr(rest)
	}

	return pair.Null"""))
ref("validate-loop", ("internal/common/validate/validate.go", """	for i := 0; i < max; i++ {
		if actual == pair.Null {
			if i < min {
				s := Count(min, "argument", "s")
				panic(fmt.Sprintf("expected %s, passed %d", s, i))
			}

			break
		}

		expected = append(expected, pair.Car(actual))

		actual = pair.Cdr(actual)
	}

	return expected, actual""", """	for len(expected) < max && actual != pair.Null {
		expected = append(expected, pair.Car(actual))
		actual = pair.Cdr(actual)
	}

	if len(expected) < min {
		s := Count(min, "argument", "s")
		panic(fmt.Sprintf("expected %s, passed %d", s, len(expected)))
	}

	return expected, actual"""))
ref("validate-early", ("internal/common/validate/validate.go", """	expected, rest := Variadic(actual, min, max)
	if rest != pair.Null {
		s := Count(max, "argument", "s")
		n := int(list.Length(actual))

		panic(fmt.Sprintf("expected %s, passed %d", s, n))
	}

	return expected""", """	expected, rest := Variadic(actual, min, max)
	if rest == pair.Null {
		return expected
	}

	tooMany(max, len(expected)+int(list.Length(rest)))

	return nil"""), ("internal/common/validate/validate.go", "// Count", "func tooMany(max, n int) {\n\tpanic(fmt.Sprintf(\"expected %s, passed %d\", Count(max, \"argument\", \"s\"), n))\n}\n\n// Count"))
ref("sslice-switch", (C + "string.go", """	start := integer.Value(v[1])
	if start < 0 {
		panic("slice starts before first element")
	} else if start > length {
		start = length
	}

	end := length
	if len(v) == 3 { //nolint:gomnd
		end = integer.Value(v[2])
		if end > length {
			end = length
		} else if end < 0 {
			end = length + end
		}
	}
""", """	start := integer.Value(v[1])

	switch {
	case start < 0:
		panic("slice starts before first element")
	case start > length:
		start = length
	}

	end := length
	if len(v) > 2 { //nolint:gomnd
		end = sliceEnd(integer.Value(v[2]), length)
	}
"""), (C + "string.go", "func sreplace(", """func sliceEnd(end, length int64) int64 {
	if end < 0 {
		return end + length
	}

	if end > length {
		return length
	}

	return end
}

func sreplace("""))
ref("lslice-loop", (T + "list/list.go", """	slice := pair.Cons(pair.Car(list), pair.Null)

	for c := slice; end > 1; end-- {
		list = pair.Cdr(list)
		n := pair.Cons(pair.Car(list), pair.Null)
		pair.SetCdr(c, n)
		c = n
	}

	return slice""", """	elements := make([]cell.I, 0, end)

	for ; end > 0; end-- {
		elements = append(elements, pair.Car(list))
		list = pair.Cdr(list)
	}

	return New(elements...)"""))
ref("list-length-for", (T + "list/list.go", """	for list != nil && list != pair.Null {
		length++

		list = pair.Cdr(list)
	}

	return length""", """	for c := list; c != nil && c != pair.Null; c = pair.Cdr(c) {
		length++
	}

	return length"""))
ref("list-tail-dflt", (T + "list/list.go", """	if msg != "" {
		if dflt == nil {
			panic(msg)
		} else {
			return dflt
		}
	}

	for index > 0 {
		list = pair.Cdr(list)

		index--
	}
""", """	if msg != "" && dflt != nil {
		return dflt
	}

	if msg != "" {
		panic(msg)
	}

	for i := int64(0); i < index; i++ {
		list = pair.Cdr(list)
	}
"""))
ref("list-new-append", (T + "list/list.go", """	if len(elements) == 0 {
		return pair.Null
	}

	start := pair.Cons(elements[0], pair.Null)
	end := start

	for _, e := range elements[1:] {
		p := pair.Cons(e, pair.Null)
		pair.SetCdr(end, p)
		end = p
	}

	return start""", """	l := pair.Null

	for i := len(elements) - 1; i >= 0; i-- {
		l = pair.Cons(elements[i], l)
	}

	return l"""))
ref("block-order", (ACT, """	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

	t.ReplaceResult(pair.Null)

	return t.PushOp(Action(evalBlock))""", """	t.ReplaceResult(pair.Null)
	t.enter()

	return t.PushOp(Action(evalBlock))"""), (ACT, "func continuation(", """// enter arranges for a new scope and the return to the current one.
func (t *T) enter() {
	current := t.frame

	t.ReplaceOp(&registers{frame: current})

	t.frame = frame.Dup(env.New(current.Scope()), current)
}

func continuation("""))
ref("if-while-enter", (ACT, """	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

	return t.PushOp(Action(execIfTest))""", """	return nested(t, execIfTest)"""), (ACT, """	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

	return t.PushOp(Action(execWhileTest))""", """	return nested(t, execWhileTest)"""), (ACT, "func continuation(", """func nested(t *T, a Action) Op {
	f := t.frame
	t.ReplaceOp(&registers{frame: f})
	t.frame = frame.Dup(env.New(f.Scope()), f)

	return t.PushOp(a)
}

func continuation("""))
ref("define-set-common", (ACT, """	t.ReplaceOp(Action(execDefine))
	t.PushOp(Action(evalArg))
	t.PushOp(Action(sublistKey))
	t.PushOp(&registers{code: pair.Cdr(t.code)})

	t.code = pair.Car(t.code)

	return t.PushOp(Action(evalArg))""", """	return keyAndValue(t, execDefine)"""), (ACT, """	t.ReplaceOp(Action(execSet))
	t.PushOp(Action(evalArg))
	t.PushOp(Action(sublistKey))
	t.PushOp(&registers{code: pair.Cdr(t.code)})

	t.code = pair.Car(t.code)

	return t.PushOp(Action(evalArg))""", """	return keyAndValue(t, execSet)"""), (ACT, "func continuation(", """func keyAndValue(t *T, then Action) Op {
	k, v := pair.Car(t.code), pair.Cdr(t.code)

	t.ReplaceOp(then)
	t.PushOp(Action(evalArg))
	t.PushOp(Action(sublistKey))
	t.PushOp(&registers{code: v})

	t.code = k

	return t.PushOp(Action(evalArg))
}

func continuation("""))
ref("execdefine-common", (ACT, """	v := t.PopResult()
	k := literal.String(t.PopResult())
	b := bound(t.Result())

	scope.To(b.self).Define(k, v)

	return t.Return(v)""", """	s, k, v := target(t)
	s.Define(k, v)

	return t.Return(v)"""), (ACT, """	v := t.PopResult()
	k := literal.String(t.PopResult())
	b := bound(t.Result())

	scope.To(b.self).Export(k, v)

	return t.Return(v)""", """	s, k, v := target(t)
	s.Export(k, v)

	return t.Return(v)"""), (ACT, "func continuation(", """func target(t *T) (s scope.I, k string, v cell.I) {
	v = t.PopResult()
	k = literal.String(t.PopResult())
	s = scope.To(bound(t.Result()).self)

	return
}

func continuation("""))
ref("evalblock-helper", (ACT, """	next := pair.Cdr(t.code)
	if next == pair.Null {
		t.RemoveOp()
	} else {
		t.PushOp(&registers{code: next})
	}

	t.code = current

	return t.PushOp(Action(EvalCommand))""", """	t.rest(pair.Cdr(t.code))

	t.code = current

	return t.PushOp(Action(EvalCommand))"""), (ACT, "func continuation(", """func (t *T) rest(next cell.I) {
	if next != pair.Null {
		t.PushOp(&registers{code: next})

		return
	}

	t.RemoveOp()
}

func continuation("""))
ref("execcommand-if", (ACT, """	case *binding:
		return v.Execute(t)

	case *registers:
		t.ReplaceOp(Action(continuation))
		t.code = pair.Car(t.code)

		return t.PushOp(Action(evalArg))
""", """	case *registers:
		t.code = pair.Car(t.code)
		t.ReplaceOp(Action(continuation))

		return t.PushOp(Action(evalArg))

	case *binding:
		return v.Execute(t)
"""))
ref("apply-bind-helper", (ACT, """	args := t.code
	plabels := c.Labels.Params

	actual := int(list.Length(args))
	expected := int(list.Length(plabels))

	for args != pair.Null && plabels != pair.Null {
		label := pair.Car(plabels)
		if !sym.Is(label) {
			break
		}

		e.Define(literal.String(label), pair.Car(args))
		args, plabels = pair.Cdr(args), pair.Cdr(plabels)
	}

	rest := pair.Car(plabels)
	if plabels != pair.Null && pair.Is(rest) && pair.Cdr(rest) == pair.Null {
		e.Define(literal.String(pair.Car(rest)), args)
	} else if actual != expected {
		panic("expected " + validate.Count(expected, "argument", "s") + ", passed " + strconv.Itoa(actual))
	}

	t.code = c.Body

	e.Define("return", cc)
""", """	bindParams(e, c.Labels.Params, t.code)

	e.Define("return", cc)

	t.code = c.Body
"""), (ACT, "func continuation(", """func bindParams(e scope.I, params, args cell.I) {
	actual := int(list.Length(args))
	expected := int(list.Length(params))

	for ; args != pair.Null && params != pair.Null; args, params = pair.Cdr(args), pair.Cdr(params) {
		label := pair.Car(params)
		if !sym.Is(label) {
			break
		}

		e.Define(literal.String(label), pair.Car(args))
	}

	if params != pair.Null {
		rest := pair.Car(params)
		if pair.Is(rest) && pair.Cdr(rest) == pair.Null {
			e.Define(literal.String(pair.Car(rest)), args)

			return
		}
	}

	if actual == expected {
		return
	}

	panic("expected " + validate.Count(expected, "argument", "s") + ", passed " + strconv.Itoa(actual))
}

func continuation("""))
ref("apply-frame-if", (ACT, """	if !c.Scope.Visible(s) {
		t.frame = frame.New(e, t.frame)
	} else {
		t.frame = frame.Dup(e, t.frame)
	}

	if c.Labels.Env""", """	newFrame := frame.New
	if c.Scope.Visible(s) {
		newFrame = frame.Dup
	}

	t.frame = newFrame(e, t.frame)

	if c.Labels.Env"""))
ref("ifbody-loop", (ACT, """	alternate := !boolean.Value(t.Result())
	if alternate {
		t.code = pair.Cdr(t.code)
		c := pair.Car(t.code)

		for pair.Is(c) && c != pair.Null {
			t.code = pair.Cdr(t.code)
			c = pair.Car(t.code)
		}

		if c != pair.Null && literal.String(c) != "else" {
			panic("expected else")
		}
	}
""", """	alternate := !boolean.Value(t.Result())
	if alternate {
		var c cell.I

		for {
			t.code = pair.Cdr(t.code)
			c = pair.Car(t.code)

			if !pair.Is(c) || c == pair.Null {
				break
			}
		}

		if c != pair.Null && literal.String(c) != "else" {
			panic("expected else")
		}
	}
"""))
ref("external-files", (ACT, """	dir := t.stringValue("PWD")
	stdin := t.value(nil, "stdin")
	stdout := t.value(nil, "stdout")
	stderr := t.value(nil, "stderr")

	files := []*os.File{pipe.R(stdin), pipe.W(stdout), pipe.W(stderr)}

	attr := &os.ProcAttr{Dir: dir, Env: t.Environ(), Files: files}
""", """	attr := t.attributes()
"""), (ACT, "func continuation(", """func (t *T) attributes() *os.ProcAttr {
	stdin := pipe.R(t.value(nil, "stdin"))
	stdout := pipe.W(t.value(nil, "stdout"))
	stderr := pipe.W(t.value(nil, "stderr"))

	return &os.ProcAttr{
		Dir:   t.stringValue("PWD"),
		Env:   t.Environ(),
		Files: []*os.File{stdin, stdout, stderr},
	}
}

func continuation("""))
ref("external-argv", (ACT, """	argv := []string{name}
	for args = pair.Cdr(args); args != pair.Null; args = pair.Cdr(args) {
		argv = append(argv, common.String(pair.Car(args)))
	}
""", """	argv := make([]string, 0, list.Length(args))
	argv = append(argv, name)

	for _, c := range list.Array(pair.Cdr(args)) {
		argv = append(argv, common.String(c))
	}
"""))
ref("wait-helper", (ACT, """	v := []*T{}

	var last *T

	for args := t.code; args != pair.Null; args = pair.Cdr(args) {
		c := pair.Car(args)

		t, ok := c.(*T)
		if !ok {
			panic("can't wait on " + c.Name())
		}

		v = append(v, t)
	}

	t.Wait()

	t.job.Await(func() {
		res := pair.Null
		if last != nil {
			res = last.Result()
		}

		t.Notify(res)
	}, t, v...)
""", """	v := tasks(t.code)

	t.Wait()

	t.job.Await(func() {
		t.Notify(pair.Null)
	}, t, v...)
"""), (ACT, "func continuation(", """func tasks(args cell.I) []*T {
	v := []*T{}

	for _, c := range list.Array(args) {
		t, ok := c.(*T)
		if !ok {
			panic("can't wait on " + c.Name())
		}

		v = append(v, t)
	}

	return v
}

func continuation("""))
ref("splice-array", (ACT, """	for c := v[0]; c != pair.Null; c = pair.Cdr(c) {
		t.PushResult(pair.Car(c))
	}
""", """	for _, c := range list.Array(v[0]) {
		t.PushResult(c)
	}
"""))
ref("cd-switch", (ACT, """	dir := ""

	if args == pair.Null {
		_, r := t.frame.Resolve("HOME")
		dir = common.String(r.Get())
	} else {
		dir = common.String(pair.Car(args))
	}

	if dir == "-" {
		_, r := t.frame.Resolve("OLDPWD")
		dir = common.String(r.Get())
	}

	return t.Return(t.Chdir(dir))""", """	named := func(k string) string {
		_, r := t.frame.Resolve(k)

		return common.String(r.Get())
	}

	var dir string

	if args != pair.Null {
		dir = common.String(pair.Car(args))
	} else {
		dir = named("HOME")
	}

	if dir == "-" {
		dir = named("OLDPWD")
	}

	return t.Return(t.Chdir(dir))"""))
ref("exists-order", (ACT, """		if err != nil {
			return t.Return(pair.Null)
		}

		if ignore && device(s.Mode()) {
			// Report device files as not existing.
			// So that redirections to /dev/null etc. work.
			return t.Return(pair.Null)
		}
""", """		if err != nil || ignore && device(s.Mode()) {
			// Report device files as not existing.
			// So that redirections to /dev/null etc. work.
			return t.Return(pair.Null)
		}
"""))
ref("registers-arguments", (A + "registers.go", """	e := m.PopResult()
	l := pair.Null

	for e != nil && m.dump != pair.Null {
		l = pair.Cons(e, l)

		e = m.PopResult()
	}

	return l""", """	l := pair.Null

	for {
		e := m.PopResult()
		if e == nil || m.dump == pair.Null {
			return l
		}

		l = pair.Cons(e, l)
	}"""))
ref("registers-previous", (A + "registers.go", """	m.RemoveOp()

	return m.Op()
}""", """	m.stack = m.stack.stack

	return m.stack.op
}"""))
ref("registers-replaceresult", (A + "registers.go", """	m.dump = pair.Cons(r, pair.Cdr(m.dump))""", """	m.PopResult()
	m.PushResult(r)"""))
ref("environ-merge", (A + "task.go", """			for k, v := range s.Public().Exported() {
				if _, ok := exported[k]; !ok {
					exported[k] = v
				}
			}
		}
	}

	environ := make([]string, 0, len(exported))
	for k, v := range exported {
		environ = append(environ, k+"="+v)
	}

	return environ""", """			merge(exported, s.Public().Exported())
		}
	}

	environ := []string{}
	for k := range exported {
		environ = append(environ, strings.Join([]string{k, exported[k]}, "="))
	}

	return environ"""), (A + "task.go", "// Equal returns true if c", """func merge(to, from map[string]string) {
	for k, v := range from {
		if _, found := to[k]; found {
			continue
		}

		to[k] = v
	}
}

// Equal returns true if c"""))
ref("value-early", (A + "task.go", """	if r == nil {
		return nil
	}

	v := r.Get()
	if c, ok := v.(command); ok {
		v = bind(c, s)
	}

	return v""", """	if r == nil {
		return nil
	}

	switch v := r.Get().(type) {
	case command:
		return bind(v, s)
	default:
		return v
	}"""))
ref("expand-helper", (A + "task.go", """			if pwd != "" {
				rel, err := filepath.Rel(pwd, v)
				if err == nil {
					v = rel
				}
			}

			l = list.Append(l, str.New(v))""", """			l = list.Append(l, str.New(relative(pwd, v)))"""), (A + "task.go", "func (t *T) resolve(", """func relative(pwd, v string) string {
	if pwd == "" {
		return v
	}

	rel, err := filepath.Rel(pwd, v)
	if err != nil {
		return v
	}

	return rel
}

func (t *T) resolve("""))
ref("step-recover-helper", (A + "task.go", """	defer func() {
		r := recover()
		if r == nil {
			return
		}

		errmsg := fmt.Sprintf("%v", r)
		t.code = list.New(sym.New("throw"), str.New(errmsg))

		op = t.PushOp(Action(EvalCommand))
	}()
""", """	defer func() {
		if r := recover(); r != nil {
			op = t.throw(r)
		}
	}()
"""), (A + "task.go", "// Stop stops a task but", """func (t *T) throw(r interface{}) Op {
	t.code = list.New(sym.New("throw"), str.New(fmt.Sprintf("%v", r)))

	return t.PushOp(Action(EvalCommand))
}

// Stop stops a task but"""))
ref("run-loop", (A + "task.go", """	s := t.Op()
	for t.state.Runnable() && s != nil {
		s = t.Step(s)
	}
""", """	for s := t.Op(); t.state.Runnable() && s != nil; {
		s = t.Step(s)
	}
"""))
ref("state-runnable", (A + "state.go", """	if !s.running {
		return false
	}

	for s.waiting && !s.stopping {
		s.resume.Wait()
	}

	s.running = !s.stopping

	return s.running""", """	if s.running {
		for !s.stopping && s.waiting {
			s.resume.Wait()
		}

		if s.stopping {
			s.running = false
		}
	}

	return s.running"""))
ref("state-stop-if", (A + "state.go", """	if s.stopping {
		return
	}

	if !s.running {
		// Stopped running before we got here.
		return
	}
""", """	if !s.running || s.stopping {
		return
	}
"""))
ref("job-newjob", (J, """	requestq <- func() {
		foreground = &job{
			group:   group,
			initial: group,
			running: map[int]*task.T{},
			stopped: map[int]*task.T{},
		}

		r <- foreground
	}""", """	requestq <- func() {
		foreground = fresh(group)

		r <- foreground
	}"""), (J, "func (j *job) Append(", """func fresh(group int) *job {
	j := &job{group: group, initial: group}
	j.running = map[int]*task.T{}
	j.stopped = map[int]*task.T{}

	return j
}

func (j *job) Append("""))
ref("job-await-helper", (J, """			w.on[t] = struct{}{}

			wgs, ok := waiting[t]
			if !ok {
				wgs = map[*wg]struct{}{}
				waiting[t] = wgs
			}
			wgs[w] = struct{}{}
		}

		if len(w.on) == 0""", """			w.wait(t)
		}

		if len(w.on) == 0"""), (J, """				on: map[*task.T]struct{}{c: {}},
			}

			wgs, ok := waiting[c]
			if !ok {
				wgs = map[*wg]struct{}{}
				waiting[c] = wgs
			}
			wgs[w] = struct{}{}
		}""", """				on: map[*task.T]struct{}{},
			}

			w.wait(c)
		}"""), (J, "func (j *job) Append(", """func (w *wg) wait(t *task.T) {
	w.on[t] = struct{}{}

	if waiting[t] == nil {
		waiting[t] = map[*wg]struct{}{}
	}

	waiting[t][w] = struct{}{}
}

func (j *job) Append("""))
ref("job-common-resume", (J, """		delete(jobs, n)

		for _, line := range j.lines {
			fmt.Fprintf(w, "%s\\n", line)
		}

		for pid, t := range j.stopped {
			process.Continue(pid)
			j.running[pid] = t
		}

		go j.main.Run()
""", """		j.restart(w, n)

		go j.main.Run()
"""), (J, "func (j *job) Append(", """func (j *job) restart(w io.Writer, n int) {
	delete(jobs, n)

	for i := range j.lines {
		fmt.Fprintln(w, j.lines[i])
	}

	for pid := range j.stopped {
		j.running[pid] = j.stopped[pid]

		process.Continue(pid)
	}
}

func (j *job) Append("""))
ref("job-remove-loop", (J, """	n := -1

	for i, c := range cs {
		if c == t {
			n = i

			break
		}
	}

	if n == -1 {
		return cs
	}

	// We know len(cs) is at least 1.
	last := len(cs) - 1

	cs[n] = cs[last]
	cs[last] = nil

	return cs[:last]""", """	for i := range cs {
		if cs[i] != t {
			continue
		}

		last := len(cs) - 1
		cs[i], cs[last] = cs[last], nil

		return cs[:last]
	}

	return cs"""))
ref("job-tell", (J, """	for w := range wgs {
		delete(w.on, t)

		if len(w.on) == 0 {
			w.fn()
			delete(wgs, w)
		}
	}
""", """	for w := range wgs {
		delete(w.on, t)

		if len(w.on) != 0 {
			continue
		}

		delete(wgs, w)
		w.fn()
	}
"""))
ref("job-stopped-split", (J, """		t.Stopped()

		if !t.Completed() {
			if foreground != nil && foreground.main == t {
				tell(t)

				number := 1
				for n := range jobs {
					if n >= number {
						number = n + 1
					}
				}
				jobs[number] = foreground

				printJobs(os.Stdout, number)
			}

			return
		}
""", """		t.Stopped()

		if !t.Completed() {
			suspended(t)

			return
		}
"""), (J, "func (j *job) Append(", """func suspended(t *task.T) {
	if foreground == nil || foreground.main != t {
		return
	}

	tell(t)

	last := 0
	for n := range jobs {
		if n > last {
			last = n
		}
	}

	number := last + 1
	jobs[number] = foreground

	printJobs(os.Stdout, number)
}

func (j *job) Append("""))
ref("job-notify-split", (J, """	code := int(ws)

	switch {
	case ws.Exited():
		code = ws.ExitStatus()

	case ws.Signaled():
		code = int(ws.Signal()) + 128

	default:
		return
	}
""", """	if !ws.Exited() && !ws.Signaled() {
		return
	}

	var code int
	if ws.Signaled() {
		code = 128 + int(ws.Signal())
	} else {
		code = ws.ExitStatus()
	}
"""))
ref("job-reap-loop", (J, """	for {
		pid, _ := unix.Wait4(-1, &status, options, &rusage)
		if pid <= 0 {
			break
		}

		j, ok := active[pid]
		if ok {
			j.notify(pid, status)
		} else {
			println("UNKNOWN PID", pid)
		}
	}""", """	for {
		pid, _ := unix.Wait4(-1, &status, options, &rusage)
		if pid < 1 {
			return
		}

		if j := active[pid]; j != nil {
			j.notify(pid, status)

			continue
		}

		println("UNKNOWN PID", pid)
	}"""))
ref("job-spawn-unconditional-ack", (J, """	done := make(chan struct{})

	requestq <- func() {
		parent[c] = p""", """	done := make(chan bool, 1)

	requestq <- func() {
		parent[c] = p"""))
ref("job-do-helper", (J, """	done := make(chan struct{})

	requestq <- func() {
		j.lines = append(j.lines, line)

		// Ack.
		close(done)
	}

	// Wait for an ack.
	<-done""", """	perform(func() {
		j.lines = append(j.lines, line)
	})"""), (J, "func (j *job) Await(", """// perform waits for the service to call f.
func perform(f func()) {
	done := make(chan struct{})

	requestq <- func() {
		defer close(done)

		f()
	}

	<-done
}

func (j *job) Await("""))
ref("cache-ask-helper", ("internal/system/cache/cache.go", """	resultq := make(chan []string)

	dirname = filepath.Clean(dirname)
	requestq <- func() {
		resultq <- executables[dirname]
		close(resultq)
	}

	res := <-resultq
	if res == nil {""", """	dirname = filepath.Clean(dirname)

	res := cached(dirname)
	if res == nil {"""), ("internal/system/cache/cache.go", "// Files caches", """func cached(dirname string) []string {
	resultq := make(chan []string, 1)

	requestq <- func() {
		resultq <- executables[dirname]
	}

	return <-resultq
}

// Files caches"""))
ref("pipe-read-loop", (T + "pipe/pipe.go", """	var err error

	s, ok := line(b)
	for ok {
		c, err = r.Scan(s)
		if err != nil {
			// A reader cannot be used after an error.
			p.readerReset(r)

			panic(err.Error())
		}

		if c != nil {
			break
		}

		s, ok = line(b)
	}

	if c == nil {
		return pair.Null
	}

	return c""", """	for {
		s, ok := line(b)
		if !ok {
			return pair.Null
		}

		c, err := r.Scan(s)
		if err != nil {
			// A reader cannot be used after an error.
			p.readerReset(r)

			panic(err.Error())
		}

		if c != nil {
			return c
		}
	}"""))
ref("num-bool-sign", (T + "num/num.go", "	return n.Rat().Cmp(&big.Rat{}) != 0", "	return n.Rat().Sign() != 0"))
ref("num-equal-as", (T + "num/num.go", "	return Is(c) && n.Rat().Cmp(To(c).Rat()) == 0", "	o, ok := c.(*num)\n	if !ok {\n		return false\n	}\n\n	return n.Rat().Cmp(o.Rat()) == 0"))
ref("num-int-setint", (T + "num/num.go", "	return Rat(big.NewRat(int64(i), 1))", "	return Rat(new(big.Rat).SetInt64(int64(i)))"))
ref("obj-remove-var", (T + "obj/obj.go", "	return o.wrapped.Public().Del(k)", "	public := o.wrapped.Public()\n\n	return public.Del(k)"))
ref("comment-only", (ACT, "// Actions.", "// Actions. Each of these performs a step."))
ref("unused-local", (ACT, "	r := t.Result()\n\n	switch v := r.(type) {", "	depth := 0\n	_ = depth\n\n	r := t.Result()\n\n	switch v := r.(type) {"))
ref("set-get-order", (ACT, """	v := t.PopResult()
	k := literal.String(t.PopResult())

	b := bound(t.Result())

	s := scope.To(b.self)
	r := s.Lookup(k)

	if r == nil {
		panic("'" + k + "' not defined")
	}

	r.Set(v)

	return t.Return(v)""", """	v, k := t.PopResult(), literal.String(t.PopResult())

	if r := scope.To(bound(t.Result()).self).Lookup(k); r != nil {
		r.Set(v)

		return t.Return(v)
	}

	panic(fmt.Sprintf("'%s' not defined", k))"""))
TSK = "internal/engine/task/task.go"
ENG = "internal/engine/engine.go"
OPT = "internal/system/options/options.go"
ref("chdir-early-return", (TSK, """	rv := sym.True

	_, r""", """	_, r"""), (TSK, """	err := os.Chdir(s)
	if err != nil {
		rv = pair.Null
	} else {
		t.frame.Scope().Export("PWD", sym.New(s))
		t.frame.Scope().Export("OLDPWD", oldwd)
	}

	return rv""", """	if os.Chdir(s) != nil {
		return pair.Null
	}

	here := t.frame.Scope()
	here.Export("OLDPWD", oldwd)
	here.Export("PWD", sym.New(s))

	return sym.True"""))
ref("chdir-helper", (TSK, """	wd := common.String(oldwd)

	if !filepath.IsAbs(s) {
		s = filepath.Join(wd, s)
	}
""", """	s = absolute(common.String(oldwd), s)
"""), (TSK, "func identity(", """func absolute(wd, s string) string {
	if filepath.IsAbs(s) {
		return s
	}

	return filepath.Join(wd, s)
}

func identity("""))
ref("environ-two-passes", (TSK, """	for f := t.registers.frame; f != nil; f = f.Previous() {
		for s := f.Scope(); s != nil; s = s.Enclosing() {
			for k, v := range s.Public().Exported() {
				if _, ok := exported[k]; !ok {
					exported[k] = v
				}
			}
		}
	}

	environ := make([]string, 0, len(exported))
	for k, v := range exported {
		environ = append(environ, k+"="+v)
	}

	return environ""", """	environ := []string{}

	for f := t.frame; f != nil; f = f.Previous() {
		for s := f.Scope(); s != nil; s = s.Enclosing() {
			for k, v := range s.Public().Exported() {
				if _, found := exported[k]; found {
					continue
				}

				exported[k] = v
				environ = append(environ, fmt.Sprintf("%s=%s", k, v))
			}
		}
	}

	return environ"""))
ref("expand-switch", (TSK, """		c := pair.Car(args)

		if !sym.Is(c) {
			l = list.Append(l, c)

			continue
		}

		s := common.String(c)

		if !strings.ContainsAny(s, "*?[") {
			l = list.Append(l, sym.New(t.tildeExpand(s, identity)))

			continue
		}

		// Only what""", """		c := pair.Car(args)
		s := ""

		switch {
		case !sym.Is(c):
			l = list.Append(l, c)

			continue
		default:
			s = common.String(c)
		}

		if strings.IndexAny(s, "*?[") < 0 {
			word := t.tildeExpand(s, identity)
			l = list.Append(l, sym.New(word))

			continue
		}

		// Only what"""))
ref("expand-slice", (TSK, """	l := pair.Null

	for ; args != pair.Null; args = pair.Cdr(args) {
		c := pair.Car(args)

		if !sym.Is(c) {
			l = list.Append(l, c)
""", """	words := []cell.I{}

	for ; args != pair.Null; args = pair.Cdr(args) {
		c := pair.Car(args)

		if !sym.Is(c) {
			words = append(words, c)
"""), (TSK, "			l = list.Append(l, sym.New(t.tildeExpand(s, identity)))", "			words = append(words, sym.New(t.tildeExpand(s, identity)))"),
 (TSK, "			l = list.Append(l, str.New(v))\n		}\n	}\n\n	return l", "			words = append(words, str.New(v))\n		}\n	}\n\n	return list.New(words...)"))
ref("expand-error-first", (TSK, """		m, err := adapted.Glob(path)
		if err != nil || len(m) == 0 {
			panic("no matches found: " + s)
		}
""", """		m, err := adapted.Glob(path)
		if err != nil {
			m = nil
		}

		if len(m) < 1 {
			panic(fmt.Sprintf("no matches found: %s", s))
		}
"""))
ref("expand-rel-helper", (TSK, """			if pwd != "" {
				rel, err := filepath.Rel(pwd, v)
				if err == nil {
					v = rel
				}
			}

			l = list.Append(l, str.New(v))""", """			l = list.Append(l, str.New(shorten(pwd, v)))"""), (TSK, "func identity(", """func shorten(pwd, path string) string {
	if pwd == "" {
		return path
	}

	rel, err := filepath.Rel(pwd, path)
	if err != nil {
		return path
	}

	return rel
}

func identity("""))
ref("tilde-trim", (TSK, """	if !strings.HasPrefix(s, "~") {
		return s
	}

	return filepath.Join(f(t.stringValue("HOME")), s[1:])""", """	if rest := strings.TrimPrefix(s, "~"); rest != s {
		return filepath.Join(f(t.stringValue("HOME")), rest)
	}

	return s"""))
ref("stringvalue-inline", (TSK, """	v := t.value(nil, k)
	if v == nil {
		return ""
	}

	return common.String(v)
}

func (t *T) tilde""", """	if v := t.value(nil, k); v != nil {
		return common.String(v)
	}

	return ""
}

func (t *T) tilde"""))
ref("cd-switch", (ACT, """	dir := ""

	if args == pair.Null {
		_, r := t.frame.Resolve("HOME")
		dir = common.String(r.Get())
	} else {
		dir = common.String(pair.Car(args))
	}

	if dir == "-" {
		_, r := t.frame.Resolve("OLDPWD")
		dir = common.String(r.Get())
	}

	return t.Return(t.Chdir(dir))""", """	named := func(k string) string {
		_, r := t.frame.Resolve(k)

		return common.String(r.Get())
	}

	var dir string

	if args != pair.Null {
		dir = common.String(pair.Car(args))
	} else {
		dir = named("HOME")
	}

	if dir == "-" {
		dir = named("OLDPWD")
	}

	ok := t.Chdir(dir)

	return t.Return(ok)"""))
ref("external-argv-loop", (ACT, """	argv := []string{name}
	for args = pair.Cdr(args); args != pair.Null; args = pair.Cdr(args) {
		argv = append(argv, common.String(pair.Car(args)))
	}
""", """	argv := []string{}
	for c := args; c != pair.Null; c = pair.Cdr(c) {
		argv = append(argv, common.String(pair.Car(c)))
	}
"""))
ref("external-attr-helper", (ACT, """	dir := t.stringValue("PWD")
	stdin := t.value(nil, "stdin")
	stdout := t.value(nil, "stdout")
	stderr := t.value(nil, "stderr")

	files := []*os.File{pipe.R(stdin), pipe.W(stdout), pipe.W(stderr)}

	attr := &os.ProcAttr{Dir: dir, Env: t.Environ(), Files: files}

	err = t.job.Execute(t, arg0, argv, attr)
	if err != nil {
		panic(err.Error())
	}

	return t.PreviousOp()
}
""", """	if err := t.job.Execute(t, arg0, argv, attributes(t)); err != nil {
		panic(err.Error())
	}

	return t.PreviousOp()
}

func attributes(t *T) *os.ProcAttr {
	attr := &os.ProcAttr{Env: t.Environ()}
	attr.Dir = t.stringValue("PWD")

	attr.Files = append(attr.Files, pipe.R(t.value(nil, "stdin")))
	attr.Files = append(attr.Files, pipe.W(t.value(nil, "stdout")))
	attr.Files = append(attr.Files, pipe.W(t.value(nil, "stderr")))

	return attr
}
"""))
ref("interpolate-match", (ACT, """		if ref == "$$" {
			return "$"
		}

		name := ref[1:]
		if name[0] == '{' {
			name = name[1 : len(name)-1]
		}

		return common.String(t.resolve(s, name))""", """		name := strings.TrimPrefix(ref, "$")

		switch {
		case name == "$":
			return name
		case strings.HasPrefix(name, "{"):
			name = name[1 : len(name)-1]
		}

		value := t.resolve(s, name)

		return common.String(value)"""))
ref("exists-inverted", (ACT, """		s, err := os.Stat(path)
		if err != nil {
			return t.Return(pair.Null)
		}

		if ignore && device(s.Mode()) {
			// Report device files as not existing.
			// So that redirections to /dev/null etc. work.
			return t.Return(pair.Null)
		}""", """		// Report device files as not existing.
		// So that redirections to /dev/null etc. work.
		s, err := os.Stat(path)
		if err != nil || ignore && device(s.Mode()) {
			return t.Return(pair.Null)
		}"""))
ref("evaluate-inverted", (ENG, """	r, exited := System(j, c)

	if exited {
		code, ok := exitcode(r)
		if !ok {
			code = success(r)
		}

		os.Exit(code)
	}

	scope0.Define("?", r)

	return r""", """	r, exited := System(j, c)

	if !exited {
		scope0.Define("?", r)

		return r
	}

	if code, ok := exitcode(r); ok {
		os.Exit(code)
	}

	os.Exit(success(r))

	return nil"""))
ref("success-plain", (ENG, """	return map[bool]int{
		true:  0,
		false: 1,
	}[boolean.Value(c)]""", """	if !boolean.Value(c) {
		exitcode = 1
	}

	return"""))
ref("system-struct-chan", (ENG, """	done := make(chan struct{})

	j.Spawn(nil, t, func() {
		close(done)
	})

	<-done

	return t.Result(), t.Exited()""", """	done := make(chan bool, 1)

	j.Spawn(nil, t, func() {
		done <- true
	})

	<-done

	result := t.Result()

	return result, t.Exited()"""))
ref("boot-helper", (ENG, """	if len(arguments) > 0 {
		args := make([]cell.I, 0, len(arguments))

		for n, s := range arguments {
			v := str.New(s)
			args = append(args, v)
			env0.Export(strconv.Itoa(n), v)
		}

		env0.Export("@", list.New(args[1:]...))
	}
""", """	parameters(arguments)
"""), (ENG, "// Evaluate evaluates", """func parameters(arguments []string) {
	if len(arguments) == 0 {
		return
	}

	rest := []cell.I{}

	for n := 0; n < len(arguments); n++ {
		v := str.New(arguments[n])
		if n != 0 {
			rest = append(rest, v)
		}

		env0.Export(strconv.FormatInt(int64(n), 10), v)
	}

	env0.Export("@", list.New(rest...))
}

// Evaluate evaluates"""))
ref("init-cut", (ENG, """		kv := strings.SplitN(entry, "=", 2)
		if len(kv) != 2 { //nolint:gomnd
			continue
		}

		env0.Export(kv[0], sym.New(kv[1]))""", """		if k, v, ok := strings.Cut(entry, "="); ok {
			env0.Export(k, sym.New(v))
		}"""))
ref("init-index", (ENG, """		kv := strings.SplitN(entry, "=", 2)
		if len(kv) != 2 { //nolint:gomnd
			continue
		}

		env0.Export(kv[0], sym.New(kv[1]))""", """		n := strings.Index(entry, "=")
		if n < 0 {
			continue
		}

		env0.Export(entry[:n], sym.New(entry[n+1:]))"""))
ref("command-loop", ("main.go", """	for ; c != nil; c = r.Next() {
		engine.Evaluate(job.New(process.Group()), c)
	}

	return true""", """	for c != nil {
		j := job.New(process.Group())

		engine.Evaluate(j, c)

		c = r.Next()
	}

	return true"""))
ref("command-text", ("main.go", """	if options.Command() == "" {
		return false
	}

	r := reader.New(os.Args[0])

	c, err := r.Scan(options.Command() + "\\n")""", """	text := options.Command()
	if len(text) == 0 {
		return false
	}

	r := reader.New(os.Args[0])

	c, err := r.Scan(text + "\\n")"""))
ref("main-if", ("main.go", """	if !command() && !interactive() {
		println("unexpected error")
	}""", """	if command() {
		return
	}

	if !interactive() {
		println("unexpected error")
	}"""))
ref("parse-order", (OPT, """	invertInteractive, _ := opts.Bool("--interactive")
	interactive = interactive != invertInteractive

	invertMonitor, _ := opts.Bool("--monitor")
	monitor = monitor != invertMonitor
""", """	if invert, _ := opts.Bool("--monitor"); invert {
		monitor = !monitor
	}

	if invert, _ := opts.Bool("--interactive"); invert {
		interactive = !interactive
	}
"""))
ref("parse-args-slice", (OPT, """	args, _ = opts["ARGUMENTS"].([]string)
	args = append([]string{name}, args...)
""", """	rest, _ := opts["ARGUMENTS"].([]string)

	args = []string{name}
	args = append(args, rest...)
"""))
ref("parse-path-first", (OPT, """		command = "source " + adapted.CanonicalString(path)
		name = path
		script = path
	} else""", """		name, script = path, path
		command = "source " + adapted.CanonicalString(script)
	} else"""))
ref("fatal-default", (ACT, """	v := validate.Fixed(t.code, 0, 1)

	c := sym.True

	if len(v) > 0 {
		c = v[0]
	}

	t.stack = done""", """	var c cell.I = sym.True

	for _, value := range validate.Fixed(t.code, 0, 1) {
		c = value
	}

	t.stack = done"""))

BOOT = "internal/engine/boot/boot.oh"
LEX = "internal/reader/lexer/lexer.go"
PAR = "internal/reader/parser/parser.go"
RDR = "internal/reader/reader.go"
PIPE = "internal/common/type/pipe/pipe.go"
CHN = "internal/common/type/chn/chn.go"
CND = "internal/engine/commands/conduit.go"
FILE = "internal/engine/commands/file.go"

ref("boot-and-else", (BOOT, """        set r: e eval (lst head)
        if (not $r) {
            return $r
        }
        set lst (lst tail)""", """        set r: e eval (lst head)
        if $r {
            set lst (lst tail)
        } else {
            return $r
        }"""))
ref("boot-or-rename", (BOOT, """define or: syntax ((lst)) e {
    define r ()
    while $lst {
        set r: e eval (lst head)
        if $r {
            return $r
        }
        set lst (lst tail)
    }
    return $r
}""", """define or: syntax ((operands)) e {
    define value ()
    while $operands {
        set value: e eval (operands head)
        set operands (operands tail)
        if $value {
            return $value
        }
    }
    return $value
}"""))
ref("boot-eq-pairs", (BOOT, """    while $args {
        if (not: equal? (string $c) (string (args head))) {
            return ()
        }

        set args: args tail
    }
""", """    while $args {
        define next: args head
        set args: args tail

        if (not: equal? (string $c) (string $next)) {
            return ()
        }
    }
"""))
ref("boot-source-close-early", (BOOT, """    set c: r tail

    f close

    define rval ()""", """    f close

    set c: r tail

    define rval ()"""))
ref("boot-pipe-reuse", (BOOT, """    define override-stdin: method (e c cmd) {
        e eval (wrap-redir-r-ex {
            list export stdin $c
        } $cmd)
    }""", """    define override-stdin: method (e c cmd) {
        define wrapped: wrap-redir-r-ex {
            list export stdin $c
        } $cmd

        e eval $wrapped
    }"""))
ref("boot-stderr-first", (BOOT, """            list export stdout $c
            list export stderr $c
""", """            list export stderr $c
            list export stdout $c
"""))
ref("boot-redirect-opened", (BOOT, """                set f: open $mode $c
                set c $f
            }
""", """                set c: open $mode $c
                set f $c
            }
"""))
ref("boot-redirect-result", (BOOT, """            define ex: ec-ex tail

            # TODO: Handle cases where we want to throw ().
            if (not: null? $ex) {
                throw $ex
            }

            return (ec-ex head)
        }
    }

    set append-output-to""", """            define value: ec-ex head
            define ex: ec-ex tail

            if (null? $ex) {
                return $value
            }

            throw $ex
        }
    }

    set append-output-to"""))
ref("boot-capture-list", (BOOT, """        while (define l: p read-line) {
            r set-tail (cons $l ())
            set r (r tail)
        }

        p reader-close
""", """        while (define line: p read-line) {
            define last: cons $line ()
            r set-tail $last
            set r $last
        }

        p reader-close
"""))
ref("boot-pipe-channel", (BOOT, """            define c: chan 2
            define p: pipe

            spawn {
                c write (override $e $p $left)""", """            define p: pipe
            define c: chan 2

            spawn {
                c write (override $e $p $left)"""))
ref("boot-collect-count", (BOOT, """        set n: number $n
        while $n {
            define rex: c read

            set r: rex head

            define ex: rex tail
""", """        set n: number $n
        while (gt? $n 0) {
            define rex: c read
            define ex: rex tail

            set r: rex head
"""))
ref("boot-import-response", (BOOT, """        define ecex: response read

        define ex: ecex tail

        # TODO: Handle cases where we want to throw ().
        if (not: null? $ex) {
            throw $ex
        }

        return (ecex head)
    }

    define modules: map""", """        define answer: response read

        if (not: null? (answer tail)) {
            throw (answer tail)
        }

        return (answer head)
    }

    define modules: map"""))
ref("boot-catch-list", (BOOT, """    define defn: list method (list $name throw) =
    defn extend $body

    define handler: e eval $defn
""", """    define handler: e eval {
        define defn: list method (list $name throw) =
        defn extend $body
        return $defn
    }
""")) if False else None
ref("boot-catch-order", (BOOT, """    define _return_: e eval (list resolve return)
    define _throw_ $throw
""", """    define _throw_ $throw
    define _return_: e eval (list resolve return)
"""))
ref("boot-coalesce", (BOOT, """    define next: terms tail
    define term: terms head
""", """    define term: terms head
    define next: terms tail
"""))
ref("boot-seq-count", (BOOT, """    while (gt? $n 0) {
        set n: sub $n 1
        set l: cons $n $l
    }
""", """    while (ge? $n 1) {
        set n: sub $n 1
        define m: cons $n $l
        set l $m
    }
"""))
ref("boot-for-names", (BOOT, """    define r: cons () ()
    define c $r
    while $l {
        c set-tail (cons (m (l head)) ())
        set c (c tail)
        set l (l tail)
    }
    return (r tail)""", """    define first: cons () ()
    define last $first
    while $l {
        define value: m (l head)
        last set-tail (cons $value ())
        set last (last tail)
        set l (l tail)
    }
    return (first tail)"""))
ref("boot-prompt-branches", (BOOT, """        if (equal? $type get) {
            response write (call-make-prompt (request get 2))
        } else {
            define previous-make-prompt $make-prompt
            set make-prompt (request get 2)
            response write $previous-make-prompt
        }""", """        define argument: request get 2

        if (not (equal? $type get)) {
            define previous-make-prompt $make-prompt
            set make-prompt $argument
            response write $previous-make-prompt
        } else {
            response write (call-make-prompt $argument)
        }"""))
ref("boot-here-steps", (BOOT, """    write-line (str trim-prefix (str trim-suffix $s $'\\n') $'\\n')""", """    define body: str trim-suffix $s $'\\n'
    write-line (str trim-prefix $body $'\\n')"""))
ref("boot-fifo-loop", (BOOT, """        define ecexs ()
        for $channels (method (c) {
            set ecexs: cons (c read) $ecexs
        })
""", """        define ecexs ()
        while $channels {
            define c: channels head
            set channels: channels tail
            set ecexs: cons (c read) $ecexs
        }
"""))
ref("file-modes", (FILE, """	read := false
	if strings.ContainsAny(mode, "r") {
		read = true
	}

	write := false
	if strings.ContainsAny(mode, "w") {
		write = true

		if !strings.ContainsAny(mode, "a") {
			flags |= os.O_TRUNC
		}
	}

	if strings.ContainsAny(mode, "a") {
		write = true
		flags |= os.O_APPEND
	}

	if read == write {
		read = true
		write = true
		flags |= os.O_RDWR
	} else if write {
		flags |= os.O_WRONLY
	}
""", """	read := strings.ContainsAny(mode, "r")
	write := strings.ContainsAny(mode, "wa")

	switch {
	case strings.ContainsAny(mode, "a"):
		flags |= os.O_APPEND
	case write:
		flags |= os.O_TRUNC
	}

	if read == write {
		read, write = true, true
		flags |= os.O_RDWR
	} else if write {
		flags |= os.O_WRONLY
	}
"""))
ref("file-mode-loop", (FILE, """	read := false
	if strings.ContainsAny(mode, "r") {
		read = true
	}
""", """	read := false

	for _, r := range mode {
		if r == 'r' {
			read = true
		}
	}
"""))
ref("file-ends", (FILE, """	r := f
	if !read {
		r = nil
	}

	w := f
	if !write {
		w = nil
	}
""", """	var r, w *os.File

	if read {
		r = f
	}

	if write {
		w = f
	}
"""))
ref("lex-after-pipe", (LEX, """	case '<':
		l.accept(r, w)
		l.emit(token.Substitute, operator(l.Text()))

		return skipHorizontalSpace
	case '>':
		l.accept(r, w)
		l.emit(token.Substitute, operator(l.Text()))

		return skipHorizontalSpace
	case '|':""", """	case '<', '>':
		l.accept(r, w)
		l.emit(token.Substitute, operator(l.Text()))

		return skipHorizontalSpace
	case '|':"""))
ref("lex-greater-switch", (LEX, """	switch r {
	case eof:
		return nil
	case '&':
		l.accept(r, w)
		l.emit(token.Redirect, operator(l.Text()))
	default:
		l.emit(token.Redirect, operator(l.Text()))
	}

	return skipHorizontalSpace
}

func afterGreaterThan(""", """	if r == eof {
		return nil
	}

	if r == '&' {
		l.accept(r, w)
	}

	l.emit(token.Redirect, operator(l.Text()))

	return skipHorizontalSpace
}

func afterGreaterThan("""))
ref("lex-initial-switch", (LEX, """	a, ok := map[token.Class]action{
		'"':  scanDoubleQuoted,
		'#':  skipComment,
		'$':  afterDollar,
		'&':  afterAmpersand,
		'\\'': scanSingleQuoted,
		'(':  afterOpenParen,
		'>':  afterGreaterThan,
		'|':  afterPipe,
	}[r]

	if ok {
		return a
	}

	return scanSymbol""", """	switch r {
	case '"':
		return scanDoubleQuoted
	case '#':
		return skipComment
	case '$':
		return afterDollar
	case '&':
		return afterAmpersand
	case '\\'':
		return scanSingleQuoted
	case '(':
		return afterOpenParen
	case '>':
		return afterGreaterThan
	case '|':
		return afterPipe
	}

	return scanSymbol"""))
ref("lex-single-quoted-if", (LEX, """		r := l.next()

		switch r {
		case eof:
			return nil

		case '\\'':
			l.emit(token.SingleQuoted, l.Text())

			return collectHorizontalSpace

		default: // Continue and get next character.
		}
	}
}

func scanSymbol""", """		r := l.next()
		if r == eof {
			return nil
		}

		if r != '\\'' {
			continue
		}

		l.emit(token.SingleQuoted, l.Text())

		return collectHorizontalSpace
	}
}

func scanSymbol"""))
ref("lex-quoted-helper", (LEX, """func scanDoubleQuoted(l *T) action {
	for {
		c := l.next()

		switch c {
		case eof:
			return nil

		case '"':
			l.emit(token.DoubleQuoted, l.Text())

			return collectHorizontalSpace

		case '\\\\':
			return l.escape(scanDoubleQuoted, escapeNextCharacter)

		default: // Continue and get next character.
		}
	}
}
""", """func scanDoubleQuoted(l *T) action {
	return scanQuoted(l, '"', token.DoubleQuoted, scanDoubleQuoted)
}

func scanQuoted(l *T, quote, class token.Class, again action) action {
	for c := l.next(); c != eof; c = l.next() {
		if c == quote {
			l.emit(class, l.Text())

			return collectHorizontalSpace
		}

		if c == '\\\\' {
			return l.escape(again, escapeNextCharacter)
		}
	}

	return nil
}
"""))
ref("lex-token-loop", (LEX, """			state := l.state(l)
			if state != nil {
				l.state = state
			} else {
				close(l.tokens)
			}""", """			next := l.state(l)
			if next == nil {
				close(l.tokens)

				continue
			}

			l.state = next"""))
ref("lex-ignore-index", (LEX, """		if strings.ContainsRune(ignore, rune(r)) {
			l.skip()""", """		if strings.IndexRune(ignore, rune(r)) >= 0 {
			l.skip()"""))
ref("parse-andf-loop", (PAR, """		for p.peek().Is(token.Andf) {
			p.consume()
			c = list.Append(c, p.check(p.possiblePipeline()))
		}""", """		for {
			if !p.peek().Is(token.Andf) {
				break
			}

			p.consume()

			next := p.check(p.possiblePipeline())
			c = list.Append(c, next)
		}"""))
ref("parse-pipeline-list", (PAR, """		c = pair.Cons(p.check(p.possiblePipeline()), c)
		c = pair.Cons(s, c)
""", """		right := p.check(p.possiblePipeline())
		c = pair.Cons(s, pair.Cons(right, c))
"""))
ref("parse-spaces-helper", (PAR, """		for p.peek().Is(token.Space) {
			p.consume()
		}
	}

	return c
}

// <possibleSubstitution>""", """		p.spaces()
	}

	return c
}

func (p *T) spaces() {
	for p.peek().Is(token.Space) {
		p.consume()
	}
}

// <possibleSubstitution>"""))
ref("parse-braces-return", (PAR, """	if p.peek().Is('{') {
		p.consume()

		n := p.peek()
""", """	if !p.peek().Is('{') {
		return nil
	}

	p.consume()

	{
		n := p.peek()
"""))
ref("parse-join-loop", (PAR, """	l := list.New(c)

	for t := p.element(); t != nil; t = p.element() {
		l = list.Append(l, t)
	}

	if list.Length(l) == 1 {
		return c
	}
""", """	t := p.element()
	if t == nil {
		return c
	}

	l := list.New(c)
	for ; t != nil; t = p.element() {
		l = list.Append(l, t)
	}
"""))
ref("parse-value-switch", (PAR, """	meta := false
	if t.Is(token.MetaOpen) {
		meta = true
	} else if !t.Is('(') {
		return p.word()
	}
""", """	meta := t.Is(token.MetaOpen)
	if !meta && !t.Is('(') {
		return p.word()
	}
"""))
ref("reader-scan-switch", (RDR, """	select {
	case cs := <-r.o:
		r.pending = append(r.pending, cs...)
	case err = <-r.e:
		return nil, err
	}

	return r.Next(), nil""", """	select {
	case err = <-r.e:
		return nil, err
	case cs := <-r.o:
		for _, parsed := range cs {
			r.pending = append(r.pending, parsed)
		}
	}

	c = r.Next()

	return c, nil"""))
ref("reader-item-loop", (RDR, """		t := r.s.Token()

		for t == nil {
			r.o <- v

			v = nil

			if !r.next() {
				close(r.o)
			}

			t = r.s.Token()
		}

		return t""", """		for {
			t := r.s.Token()
			if t != nil {
				return t
			}

			done := v
			v = nil
			r.o <- done

			if ok := r.next(); !ok {
				close(r.o)
			}
		}"""))
ref("pipe-close-order", (PIPE, """	if p.closeableReadEnd() {
		p.ReaderClose()
	}

	if p.closeableWriteEnd() {
		p.WriterClose()
	}
""", """	if p.closeableWriteEnd() {
		p.WriterClose()
	}

	if p.closeableReadEnd() {
		p.ReaderClose()
	}
"""))
ref("pipe-read-loop", (PIPE, """	s, ok := line(b)
	for ok {
		c, err = r.Scan(s)
		if err != nil {""", """	for {
		s, ok := line(b)
		if !ok {
			break
		}

		c, err = r.Scan(s)
		if err != nil {"""), (PIPE, """		if c != nil {
			break
		}

		s, ok = line(b)
	}
""", """		if c != nil {
			break
		}
	}
"""))
ref("pipe-must-write", (PIPE, """	_, err := w.WriteString(literal.String(c) + "\\n")
	if err != nil {
		panic(err.Error())
	}
}
""", """	mustWrite(w, literal.String(c))
}

func mustWrite(w *os.File, s string) {
	if _, err := w.WriteString(s + "\\n"); err != nil {
		panic(err.Error())
	}
}
"""), (PIPE, """	_, err := w.WriteString(common.String(c) + "\\n")
	if err != nil {
		panic(err.Error())
	}
}
""", """	mustWrite(w, common.String(c))
}
"""))
ref("pipe-write-bytes", (PIPE, """	_, err := w.WriteString(literal.String(c) + "\\n")""", """	_, err := w.Write([]byte(literal.String(c) + "\\n"))"""))
ref("pipe-readline-suffix", (PIPE, """	return str.New(strings.TrimRight(s, "\\n"))""", """	return str.New(strings.TrimSuffix(s, "\\n"))"""))
ref("pipe-line-switch", (PIPE, """	if errors.Is(err, io.EOF) {
		if len(s) > 0 {
			return s + "\\n", true
		}

		return "", false
	}

	if err != nil {
		panic(err.Error())
	}

	return s, true""", """	switch {
	case err == nil:
		return s, true
	case !errors.Is(err, io.EOF):
		panic(err.Error())
	case s == "":
		return "", false
	default:
		return s + "\\n", true
	}"""))
ref("chn-read-ok", (CHN, """	v := <-*c
	if v == nil {
		return pair.Null
	}

	return v
}""", """	v, ok := <-*c
	if !ok || v == nil {
		return pair.Null
	}

	return v
}"""))
ref("chn-new", (CHN, """	c := chn(make(chan cell.I, cap))

	return &c""", """	c := new(chn)
	*c = make(chan cell.I, cap)

	return c"""))
ref("chn-writeline-write", (CHN, """func (c *chn) WriteLine(v cell.I) {
	*c <- v""", """func (c *chn) WriteLine(v cell.I) {
	c.Write(v)"""))
ref("conduit-read-steps", (CND, """	return pair.Car(conduit.To(s).Read())""", """	c := conduit.To(s)
	l := c.Read()

	return pair.Car(l)"""))

# Crashes (C01).
ref("walk-error", ("internal/system/cache/cache.go", "if p == dirname || i == nil {", "if p == dirname || err != nil && i == nil {"))
ref("walk-error-only", ("internal/system/cache/cache.go", """		if p == dirname || i == nil {
			return nil
		}
""", """		if p == dirname {
			return nil
		}

		if i == nil {
			return nil
		}
"""))
ref("walk-helper", ("internal/system/cache/cache.go", """		case p != pathSeparator && i.IsDir():
			p += pathSeparator""", """		case p != pathSeparator && directory(i):
			p += pathSeparator"""), ("internal/system/cache/cache.go", "// Populate scans", """func directory(i os.FileInfo) bool { return i.IsDir() }

// Populate scans"""))
ref("exitcode-named", (ENG, """		r := recover()
		if r != nil {
			ok = false
		}
	}()

	return int(integer.Value(c)), true""", """		if recover() != nil {
			code, ok = 0, false
		}
	}()

	code, ok = int(integer.Value(c)), true

	return"""))
ref("exitcode-split", (ENG, """	return int(integer.Value(c)), true
}
""", """	return whole(c), true
}

func whole(c cell.I) int { return int(integer.Value(c)) }
"""))
ref("resolve-early", (ENG, """	_, r := frame0.Resolve(k)
	if r == nil {
		return
	}

	v = common.String(r.Get())

	return
""", """	if _, r := frame0.Resolve(k); r != nil {
		v = common.String(r.Get())
	}

	return v
"""))
ref("repl-fresh-reader", ("main.go", """			r.Close()

			suffix = initial
			r = reader.New(name)

			j = job.New(0)

			continue
		}

		if c != nil {""", """			r.Close()
			r = reader.New(name)

			j = job.New(0)

			suffix = initial

			continue
		}

		if c != nil {"""))
ref("repl-early-continue", ("main.go", """		if c != nil {
			for ; c != nil; c = r.Next() {
				engine.Evaluate(j, c)

				process.RestoreForegroundGroup()

				j = job.New(0)
				j.Append(line)
			}

			r.Close()

			suffix = initial
			r = reader.New(name)

			j = job.New(0)
		}
""", """		if c == nil {
			continue
		}

		for c != nil {
			engine.Evaluate(j, c)

			process.RestoreForegroundGroup()

			j = job.New(0)
			j.Append(line)

			c = r.Next()
		}

		r.Close()

		r = reader.New(name)
		suffix = initial

		j = job.New(0)
"""))
ref("repl-aborted-first", ("main.go", """		if err != nil {
			if errors.Is(err, liner.ErrPromptAborted) {
				r.Close()
				r = reader.New(name)
				suffix = initial

				j = job.New(0)

				continue
			} else {
				return err
			}
		}
""", """		if errors.Is(err, liner.ErrPromptAborted) {
			r.Close()
			r = reader.New(name)
			suffix = initial

			j = job.New(0)

			continue
		}

		if err != nil {
			return err
		}
"""))
ref("interactive-err", ("main.go", """	err = repl(cli, cooked, uncooked, name)
	if !errors.Is(err, io.EOF) {
		println(err.Error())
	}
""", """	err = repl(cli, cooked, uncooked, name)
	if err != nil && !errors.Is(err, io.EOF) {
		println(err.Error())
	}
"""))
ref("reap-guard", (J, """		j, ok := active[pid]
		if ok {
			j.notify(pid, status)
		} else {
			println("UNKNOWN PID", pid)
		}
""", """		j := active[pid]
		if j == nil {
			println("UNKNOWN PID", pid)

			continue
		}

		j.notify(pid, status)
"""))
ref("fg-swap", (J, """		wgs := waiting[foreground.main]
		for wg := range wgs {
			wg.on[j.main] = wg.on[foreground.main]
			delete(wg.on, foreground.main)
		}
		waiting[j.main] = waiting[foreground.main]
		delete(waiting, foreground.main)
""", """		previous := foreground.main

		wgs := waiting[previous]
		for wg := range wgs {
			delete(wg.on, previous)
			wg.on[j.main] = struct{}{}
		}

		waiting[j.main] = wgs
		delete(waiting, previous)
"""))
ref("parse-if", ("internal/reader/parser/parser.go", """		switch r := r.(type) {
		case error:
			err = r
		case string:
			err = common.Error(r)
		default:
			err = fmt.Errorf("unexpected error: %v", r) //nolint:goerr113
		}
""", """		if e, ok := r.(error); ok {
			err = e
		} else if s, ok := r.(string); ok {
			err = common.Error(s)
		} else {
			err = fmt.Errorf("unexpected error: %v", r) //nolint:goerr113
		}
"""))
ref("step-errmsg", (A + "task.go", """		errmsg := fmt.Sprintf("%v", r)
		t.code = list.New(sym.New("throw"), str.New(errmsg))
""", """		t.code = list.New(sym.New("throw"), str.New(fmt.Sprint(r)))
"""))
ref("wait-helper", (ACT, """		res := pair.Null
		if last != nil {
			res = last.Result()
		}

		t.Notify(res)
""", """		if last == nil {
			t.Notify(pair.Null)

			return
		}

		t.Notify(last.Result())
"""))
ref("completer-recover", ("main.go", """			r := recover()
			if r == nil {
				return
			}

			cs = []string{}
""", """			if recover() != nil {
				cs = []string{}
			}
"""))
ref("walk-no-error", ("internal/system/cache/cache.go", "if p == dirname || i == nil {", "if err != nil || p == dirname {"))

# The interactive session (C23).
ref("session-reset-helper", ("main.go", """				r.Close()
				r = reader.New(name)
				suffix = initial

				j = job.New(0)

				continue
""", """				reset()

				continue
"""), ("main.go", """			println(err.Error())

			r.Close()

			suffix = initial
			r = reader.New(name)

			j = job.New(0)

			continue
""", """			println(err.Error())

			reset()

			continue
"""), ("main.go", """	suffix := initial

	for {""", """	suffix := initial

	reset := func() {
		r.Close()

		suffix = initial
		r = reader.New(name)
		j = job.New(0)
	}

	for {"""))
ref("session-ask-helper", ("main.go", """		line, err := cli.Prompt(p)
		if errors.Is(err, liner.ErrInvalidPrompt) {
			println(err.Error())

			line, err = cli.Prompt(common.String(suffix))
		}
""", """		line, err := ask(cli, p, common.String(suffix))
"""), ("main.go", "// The text of c or", """func ask(cli *liner.State, p, plain string) (string, error) {
	line, err := cli.Prompt(p)
	if errors.Is(err, liner.ErrInvalidPrompt) {
		println(err.Error())

		return cli.Prompt(plain)
	}

	return line, err
}

// The text of c or"""))
ref("session-commands-helper", ("main.go", """			for ; c != nil; c = r.Next() {
				engine.Evaluate(j, c)

				process.RestoreForegroundGroup()

				j = job.New(0)
				j.Append(line)
			}
""", """			for c != nil {
				j = evaluate(j, c, line)
				c = r.Next()
			}
"""), ("main.go", "// The text of c or", """func evaluate(j *job.T, c cell.I, line string) *job.T {
	engine.Evaluate(j, c)

	process.RestoreForegroundGroup()

	next := job.New(0)
	next.Append(line)

	return next
}

// The text of c or"""))
ref("session-history-later", ("main.go", """		if line != "" {
			cli.AppendHistory(line)
		}

		j.Append(line)

		suffix = continued
""", """		suffix = continued

		j.Append(line)

		if len(line) > 0 {
			cli.AppendHistory(line)
		}
"""))
ref("session-cooked-twice", ("main.go", """		if line == "" && suffix == initial {
			continue
		}
""", """		if suffix == initial && len(line) == 0 {
			continue
		}
"""))
ref("session-switch", ("main.go", """		if err != nil {
			if errors.Is(err, liner.ErrPromptAborted) {""", """		if nil != err {
			if err == liner.ErrPromptAborted {"""))
ref("history-openfile", ("internal/system/history/history.go", "f, err := file(os.Open)", "f, err := file(func(s string) (*os.File, error) { return os.OpenFile(s, os.O_RDONLY, 0) })"))
ref("history-path-join", ("internal/system/history/os_unix.go", """	s, ok := os.LookupEnv("OH_HISTORY")
	if !ok {
		s = path.Join(os.Getenv("HOME"), ".oh-history")
	}

	return op(s)""", """	if s, ok := os.LookupEnv("OH_HISTORY"); ok {
		return op(s)
	}

	return op(path.Join(os.Getenv("HOME"), ".oh-history"))"""))
ref("history-close-first", ("internal/system/history/history.go", """	_, err = write(f)
	if err != nil {
		return err
	}

	return f.Close()""", """	if _, err = write(f); err != nil {
		_ = f.Close()

		return err
	}

	err = f.Close()

	return err"""))

# Completion (C22).
ref("completion-slices", ("main.go", """		line := []rune(s)

		h = string(line[:n])
		t = string(line[n:])
""", """		runes := []rune(s)
		before, after := runes[:n], runes[n:]

		h, t = string(before), string(after)
"""))
ref("completion-unique", ("main.go", """		unique := make(map[string]bool)
		for _, completion := range cs {
			unique[completion] = true
		}

		cs = make([]string, 0, len(unique))
		for completion := range unique {
			cs = append(cs, completion)
		}

		sort.Strings(cs)

		return prefix, cs, t
	}
}
""", """		return prefix, distinct(cs), t
	}
}

func distinct(cs []string) []string {
	sort.Strings(cs)

	var kept []string

	for i, s := range cs {
		if i == 0 || s != cs[i-1] {
			kept = append(kept, s)
		}
	}

	return kept
}
"""))
ref("completion-name", ("main.go", """			name := filepath.Base(p)
			if strings.HasSuffix(p, pathSeparator) {
				name += pathSeparator
			}

			if candidate != pathSeparator && len(basename) == 0 && strings.HasPrefix(name, ".") {
				continue
			} else if !strings.HasPrefix(name, basename) {
				continue
			}

			completion := word + name[len(basename):]
			completions = append(completions, completion)
""", """			name := filepath.Base(p)
			if p[len(p)-1] == os.PathSeparator {
				name += pathSeparator
			}

			hidden := basename == "" && name[0] == '.'
			if hidden && candidate != pathSeparator {
				continue
			}

			if rest := strings.TrimPrefix(name, basename); basename+rest == name {
				completions = append(completions, word+rest)
			}
"""))
ref("completion-readdir", ("internal/system/cache/cache.go", """	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
		if p == dirname || i == nil {
			return nil
		}

		p = filepath.Join(original, filepath.Base(p))

		switch {
		case i.IsDir():
			p += pathSeparator
			e = append(e, p)

		case i.Mode()&0o111 != 0:
			e = append(e, p)
		}

		f = append(f, p)

		// Only what is in dirname itself.
		if i.IsDir() {
			return filepath.SkipDir
		}

		return nil
	})
""", """	entries, _ := os.ReadDir(dirname)

	for _, entry := range entries {
		i, err := entry.Info()
		if err != nil {
			continue
		}

		p := filepath.Join(original, entry.Name())

		if i.IsDir() {
			p += pathSeparator
		}

		if i.IsDir() || i.Mode()&0o111 != 0 {
			e = append(e, p)
		}

		f = append(f, p)
	}
"""))
ref("completion-expand", ("main.go", """	dotdir := false
	prefix := candidate + "   "

	switch {
	case candidate == "":
		// Leave it as is.

	case prefix[0:2] == "./" || prefix[0:3] == "../":
		candidate = join(cwd, candidate)
		dotdir = true

	case prefix[0:1] == "~":
		candidate = join(home, candidate[1:])

	default:
		candidate = clean(candidate)
	}

	return candidate, dotdir
""", """	if candidate == "" {
		return candidate, false
	}

	if strings.HasPrefix(candidate, "./") || strings.HasPrefix(candidate, "../") {
		return join(cwd, candidate), true
	}

	if candidate[0] == '~' {
		return join(home, candidate[1:]), false
	}

	return clean(candidate), false
"""))
ref("completion-split-helper", ("main.go", """		last := strings.LastIndexAny(h, " ()")
		completing := h[last+1:]
""", """		last, completing := lastWord(h)
"""), ("main.go", "func expand(", """func lastWord(s string) (int, string) {
	i := strings.LastIndexAny(s, "( )")

	return i, s[i+1:]
}

func expand("""))
ref("completion-asks-helper", ("main.go", """			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), cmd))

			process.RestoreForegroundGroup()
""", """			args := append([]cell.I{sym.New("complete")}, list.Array(cmd)...)
			args = append(args, sym.New(completing))
			v, _ := engine.System(*j, list.New(args...))

			process.RestoreForegroundGroup()
"""))
ref("lexer-copy-plain", ("internal/reader/lexer/lexer.go", """	c := *l

	copy(c.queue, l.queue)

	c.tokens = make(chan *token.T, qsize)

	return &c""", """	c := &T{}
	*c = *l

	c.queue = append([]string(nil), l.queue...)
	c.tokens = make(chan *token.T, qsize)

	return c"""))

ref("repr-contains", ("internal/common/type/sym/sym.go", """	if len(s) == 0 {
		return meta(q)
	}

	for _, r := range s {
		if r == ' ' {
			return meta(q)
		}
	}

	if q[2:len(q)-1] != s {
		return meta(q)
	}

	return s
""", """	plain := s != "" && !strings.ContainsRune(s, ' ') && q == "$'"+s+"'"
	if !plain {
		return meta(q)
	}

	return s
"""), ("internal/common/type/sym/sym.go", '''	"math/big"
''', '''	"math/big"
	"strings"
'''))

ref("repr-index", ("internal/common/type/sym/sym.go", """	for _, r := range s {
		if r == ' ' {
			return meta(q)
		}
	}

	if q[2:len(q)-1] != s {
		return meta(q)
	}

	return s
""", """	switch {
	case strings.Contains(s, " "), strings.TrimSuffix(strings.TrimPrefix(q, "$'"), "'") != s:
		return meta(q)
	default:
		return s
	}
"""), ("internal/common/type/sym/sym.go", '''	"math/big"
''', '''	"math/big"
	"strings"
'''))

ref("pair-string-builder", ("internal/common/type/pair/pair.go", '''	s += " "
	if tail == nil {
		s += "()"
	} else {
		s += text(tail)
	}

	if improper {
		s += "|)"
	}

	return s
''', '''	var b strings.Builder

	b.WriteString(s)
	b.WriteByte(' ')

	switch {
	case tail == nil:
		b.WriteString("()")
	default:
		b.WriteString(text(tail))
	}

	if improper {
		b.WriteString("|)")
	}

	return b.String()
'''), ("internal/common/type/pair/pair.go", '''	"fmt"
''', '''	"fmt"
	"strings"
'''))

ref("pair-string-cases", ("internal/common/type/pair/pair.go", '''	if head == nil {
		s += "()"
	} else if head != Null {
		s += text(head)
	}

	if sublist {
		s += ")"
	}
''', '''	switch {
	case head == nil:
		s += "()"
	case head == Null:
	default:
		s += text(head)
	}

	if sublist {
		s += ")"
	}
'''))

ref("meta-table", ("internal/reader/parser/parser.go", '''	var create func(string) cell.I = nil

	switch sym.To(t).String() {
	case "cons":
		return pair.Cons(pair.Cadr(c), pair.Caddr(c))

	case "number":
		create = num.New

	case "status":
		create = status.New

	case "symbol":
		create = sym.New
	}

	if create == nil {
		panic("invalid meta command")
	}
''', '''	name := sym.To(t).String()
	if name == "cons" {
		return pair.Cons(pair.Cadr(c), pair.Caddr(c))
	}

	create, found := map[string]func(string) cell.I{
		"number": num.New,
		"status": status.New,
		"symbol": sym.New,
	}[name]
	if !found {
		panic("invalid meta command")
	}
'''))

ref("num-literal-sprintf", ("internal/common/type/num/num.go", '''	return "(|" + name + " " + n.String() + "|)"
''', '''	return fmt.Sprintf("(|%s %s|)", name, n)
'''))

ref("str-actual-helper", ("internal/reader/parser/parser.go", '''		text := t.Value()

		s, err := adapted.ActualBytes(text[2 : len(text)-1])
		if err != nil {
			panic(err.Error())
		}

		return str.New(s)
''', '''		return str.New(unescaped(strings.TrimPrefix(t.Value(), "$")))
'''), ("internal/reader/parser/parser.go", '''func (p *T) word() cell.I {
''', '''func unescaped(quoted string) string {
	s, err := adapted.ActualBytes(quoted[1 : len(quoted)-1])
	if err != nil {
		panic(err.Error())
	}

	return s
}

func (p *T) word() cell.I {
'''))

RG = A + "registers.go"

ref("continuation-explicit", (ACT, '''	t.Result().(*registers).restoreOver(t.registers)

	t.ReplaceResult(r)
''', '''	k := t.Result().(*registers)
	t.stack = k.stack
	t.dump = pair.Cdr(k.dump)

	t.PushResult(r)
'''))

ref("replace-op-action", (RG, '''	m.RemoveOp()

	return m.PushOp(s)''', '''	if toRegisters(s) == nil {
		m.stack = &stack{m.stack.stack, s}

		return s
	}

	m.RemoveOp()

	return m.PushOp(s)'''))

ref("push-op-fresh-node", (RG, '''		m.stack.op = current
''', '''		m.stack = &stack{m.stack.stack, current}
'''))

ref("condense-keeps-previous", (RG, '''		previous.restoreOver(current)
		m.stack.op = current
''', '''		if previous.frame == nil {
			previous.frame = current.frame
		}

		if previous.code == nil {
			previous.code = current.code
		}

		return previous
'''))

ref("arguments-for", (RG, '''	e := m.PopResult()
	l := pair.Null

	for e != nil && m.dump != pair.Null {
		l = pair.Cons(e, l)

		e = m.PopResult()
	}

	return l''', '''	l := pair.Null

	for {
		e := m.PopResult()
		if e == nil || m.dump == pair.Null {
			return l
		}

		l = pair.Cons(e, l)
	}'''))

ref("capture-helper", (ACT, '''	cc := &registers{dump: t.dump, stack: t.stack}
''', '''	cc := t.registers.captured()
'''), (RG, '''func toRegisters(''', '''// captured is what a continuation has to restore.
func (m *registers) captured() *registers {
	k := *m
	k.frame, k.code = nil, nil

	return &k
}

func toRegisters('''))
