T = "internal/common/type/"
C = "internal/engine/commands/"

bug("status-equals-number", "C14",
 [(T + "status/status.go", "	return Is(c) && s.Rat().Cmp(To(c).Rat()) == 0", "	r, ok := c.(rational.I)\n\n	return ok && s.Rat().Cmp(r.Rat()) == 0")],
 '''define z (status 1)
define n (number 1)
if (equal? $z $n) {
	echo same
} else {
	echo different
}
''', "different\n",
 "a status compared with a number (in that order) of the same value",
 "a status equals a number, although values of different types are never equal and the comparison the other way round is false")

bug("le-keeps-first", "C15",
 [(C + "relational.go", '''		if prev.Cmp(curr) > 0 {
			return pair.Null
		}

		if rest == pair.Null {
			return sym.True
		}

		prev = curr
		curr =''', '''		if prev.Cmp(curr) > 0 {
			return pair.Null
		}

		if rest == pair.Null {
			return sym.True
		}

		curr =''')],
 '''if (le? 1 5 3) {
	echo ascending
} else {
	echo not ascending
}
''', "not ascending\n",
 "three or more operands where a later pair is out of order but still not below the first operand",
 "le? compares every operand with the first instead of with its neighbour")

bug("mod-truncates", "C24",
 [(C + "arithmetic.go", "	dividend.Mod(dividend, divisor.Num())", "	dividend.Rem(dividend, divisor.Num())")],
 '''define m (mod (sub 0 7) 3)
echo $m
''', "2\n",
 "a negative dividend that the divisor does not divide",
 "mod gives a negative remainder for a negative dividend")

bug("sub-overwrites-operand", "C13",
 [(C + "arithmetic.go", '''	difference := &big.Rat{}
	difference.Set(rational.Number(v[0]))
''', '''	difference := rational.Number(v[0])
'''), ],
 '''define n (number 10)
define d (sub $n 3)
echo $n $d
''', "10 7\n",
 "the first operand is held by a variable and already a number, and is used again afterwards",
 "sub stores its result in its first operand, so the variable changes")

bug("slice-past-end", "C20",
 [("internal/common/type/list/list.go", '''	} else if end > length {
		end = length
	}

	end -= start''', '''	}

	end -= start''')],
 '''define l (list a b c)
define s (l slice 1 5)
echo (s length)
''', "2\n",
 "a list slice whose end is beyond the end of the list",
 "the slice is padded with empty lists instead of stopping at the end of the list")

bug("string-slice-start", "C20",
 [(C + "string.go", '''	} else if start > length {
		start = length
	}

	end := length''', '''	}

	end := length''')],
 '''define s (str slice abc 5)
echo "<$s>"
''', "<>\n",
 "a string slice that starts beyond the end of the string",
 "slicing beyond the end raises instead of giving the empty string")

A = "internal/engine/task/"
J = "internal/system/job/job_unix.go"

bug("empty-block-value", "C02",
 [(A + "action.go", '''	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

	t.ReplaceResult(pair.Null)

	return t.PushOp(Action(evalBlock))''', '''	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

	return t.PushOp(Action(evalBlock))''')],
 '''define x (block)
if (null? $x) {
	echo nothing
} else {
	echo something
}
''', "nothing\n",
 "a block with no commands whose value is used",
 "an empty block yields the command itself instead of the empty list")

bug("export-yields-name", "C02",
 [(A + "action.go", """	scope.To(b.self).Export(k, v)

	return t.Return(v)""", """	scope.To(b.self).Export(k, v)

	return t.Return(sym.New(k))""")],
 '''define f: method () = {
	export LIMIT 10
}
echo (f)
''', "10\n",
 "the value of an export command is used, for instance as the last command of a method",
 "export yields the name it defined instead of the value")

bug("spawn-shares-scope", "C03",
 [(A + "action.go", "	child := New(t.job, t.code, frame.Dup(env.New(t.frame.Scope()), t.frame))", "	child := New(t.job, t.code, frame.Dup(t.frame.Scope(), t.frame))")],
 '''define x outer
define t: spawn {
	define x inner
}
wait $t
echo $x
''', "outer\n",
 "a definition inside a spawned body that shadows one outside it",
 "a spawned body runs in the scope of the task that spawned it, so its definitions replace the ones there")

bug("if-shares-scope", "C03",
 [(A + "action.go", '''func evalIf(t *T) Op {
	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)
''', '''func evalIf(t *T) Op {
	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(t.frame.Scope(), t.frame)
''')],
 '''define x outer
if (equal? 1 1) {
	define x inner
}
echo $x
''', "outer\n",
 "a definition inside the body of an if that shadows an outer one used afterwards",
 "definitions made inside an if statement replace those of the enclosing scope")

bug("unset-missing-keeps-lock", "C10",
 [("internal/common/struct/hash/hash.go", '''	h.Lock()
	defer h.Unlock()

	_, ok := h.m[k]
	if !ok {
		return false
	}

	delete(h.m, k)

	return true''', '''	h.Lock()

	_, ok := h.m[k]
	if !ok {
		return false
	}

	delete(h.m, k)
	h.Unlock()

	return true''')],
 '''define r (unset never-defined)
define y 2
echo $y
''', "2\n",
 "removing a name the innermost scope does not define, then defining another there",
 "the table stays locked after a removal that finds nothing, and the shell hangs at the next definition")

RACE = DEMO.replace("go build -o", "go build -race -o").replace("HOME=$d/cwd", "GORACE=halt_on_error=1 HOME=$d/cwd")

bug("lookup-races-define", "C10",
 [("internal/common/struct/hash/hash.go", """	h.RLock()
	defer h.RUnlock()

	return h.m[k]""", """	h.RLock()
	m := h.m
	h.RUnlock()

	return m[k]""")],
 '''define m: map
m set a 1
define body: syntax () e {
	define i 0
	while (lt? $i 20000) {
		m set a $i
		set i (add $i 1)
	}
}
define t: spawn {
	body
}
define u: spawn {
	body
}
define n 0
while (lt? $n 20000) {
	define p (m get a)
	set n (add $n 1)
}
wait $t $u
echo done
''', "done\n",
 "one task looks a name up in a table while another defines a name in it",
 "the lookup reads the table without its lock, which crashes the shell when another task defines a name at that moment", demo=RACE % {"timeout": 60})

bug("object-unset-private", "C19",
 [("internal/common/type/obj/obj.go", "	return o.wrapped.Public().Del(k)", "	return o.wrapped.Remove(k)")],
 '''define o: object {
	define secret 1
	export del $unset
	export reveal: method () = {
		return (resolves? secret)
	}
}
define r (o del secret)
echo (o reveal)
''', "true\n",
 "removing, through an object, a name that is private to it",
 "code outside an object can remove its private members, and even names in the scopes around it")

bug("unset-everywhere", "C25",
 [("internal/common/type/env/env.go", '''	if e.private.Del(k) || e.public.Del(k) {
		return true
	}

	parent := e.Enclosing()
	if parent == nil {
		return false
	}

	return parent.Remove(k)''', '''	removed := e.private.Del(k) || e.public.Del(k)

	parent := e.Enclosing()
	if parent == nil {
		return removed
	}

	return parent.Remove(k) || removed''')],
 '''define x outer
block {
	define x inner
	define r (unset x)
	echo $x
}
''', "outer\n",
 "removing a name that is defined in more than one enclosing scope",
 "unset removes every definition of a name instead of the innermost one")

bug("exported-hides-private", "C25",
 [("internal/common/type/env/env.go", """	v := e.private.Get(k)

	if v == nil {
		v = e.public.Get(k)
	}
""", """	v := e.public.Get(k)

	if v == nil {
		v = e.private.Get(k)
	}
""")],
 '''export level low
define level high
echo $level
''', "high\n",
 "a name that is first exported and then defined in the same scope",
 "a definition has no effect on a name that has already been exported in that scope")

PTY = r'''#!/bin/bash
# Drives the shell built from the current directory through a terminal.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -o "$d/oh" . || exit 2
mkdir "$d/cwd" && cd "$d/cwd" || exit 2
HOME=$d/cwd timeout -k 5 120 python3 "$here/drive.py" "$d/oh"
'''

PTYLIB = r'''
import os, pty, re, select, signal, sys, time

class Shell:
    def __init__(self):
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            os.environ["TERM"] = "xterm"
            os.execv(sys.argv[1], ["oh"])
        self.seen = ""
        time.sleep(1.5)
        self.read(0.5)
    def read(self, t, want=None):
        # what the terminal shows within t seconds, or until it shows want
        out, end = "", time.time() + t
        while time.time() < end and not (want and want in out):
            r, _, _ = select.select([self.fd], [], [], 0.05)
            if r:
                try:
                    d = os.read(self.fd, 65536)
                except OSError:
                    break
                out += d.decode(errors="replace")
        self.seen += out
        return out
    def send(self, s, t=1.0, want=None):
        os.write(self.fd, s)
        return self.read(t, want)
    def children(self):
        # process -> (group, state) for the shell's children
        kids = {}
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    s = open("/proc/%s/stat" % p).read()
                except OSError:
                    continue
                f = s[s.rindex(")") + 2:].split()
                if int(f[1]) == self.pid:
                    kids[int(p)] = (int(f[2]), f[0])
        return kids
    def until(self, ok, t=10):
        end = time.time() + t
        while time.time() < end:
            if ok():
                return True
            self.read(0.1)
        return False
    def end(self):
        for p in self.children():
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)

def fail(sh, why):
    print("FAILED:", why)
    print(repr(sh.seen))
    sh.end()
    sys.exit(1)
'''

bug("wait-for-ended", "C12",
 [(J, '''			if _, found := parent[t]; !found {
				continue
			}
			w.on[t] = struct{}{}
''', '''			w.on[t] = struct{}{}
''')],
 '''define a: spawn {
	define x 1
}
wait $a
define b: spawn {
	define x 1
}
wait $a $b
echo done
''', "done\n",
 "waiting for several tasks of which one has already ended",
 "wait also waits for tasks that have already ended, so it never returns")

bug("forgets-background", "C12",
 [(J, "	cs[n] = cs[last]\n	cs[last] = nil\n", "	cs[n] = cs[0]\n	cs[last] = nil\n")],
 '''define f: method () = {
	define a: spawn {
		sleep 0.1
	}
	define b: spawn {
		sleep 1
	}
	define c: spawn {
		sleep 2
		echo third
	}
	wait $a
	wait
	echo all done
}
f
''', "third\nall done\n",
 "three or more tasks in the background; one that was not started last ends; then all of them are waited for",
 "the task started last is forgotten when another ends, so waiting for all does not wait for it")

bug("fg-without-terminal", "C26",
 [(J, """		if j.group > 0 {
			process.SetForegroundGroup(j.group)
		} else {""", """		if j.group > j.initial {
			process.SetForegroundGroup(process.Group())
		} else {""")],
 None, None,
 "a stopped program that reads the terminal is continued in the foreground",
 "fg continues the program without giving it the terminal, so it is stopped again as soon as it reads", demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
sh.send(b"cat\n", 1)
sh.send(b"one\n", 1)
if not sh.children():
    fail(sh, "cat did not start")
cat = list(sh.children())[0]
sh.send(b"\x1a", 1)
if not sh.until(lambda: sh.children().get(cat, (0, ""))[1] == "T"):
    fail(sh, "cat did not stop")
time.sleep(0.5)
sh.send(b"fg\n", 1)
a = sh.send(b"two\n", 5, "two\r\ntwo\r\n")
if "two\r\ntwo\r\n" not in a:
    fail(sh, "cat does not read after fg")
sh.end()
"""})

bug("interrupt-spares-children", "C26",
 [(J, """	for _, child := range children[t] {
		interrupt(child)
	}

	t.Interrupt()""", """	t.Interrupt()

	for _, child := range children[t] {
		child.Interrupt()
	}""")],
 None, None,
 "a task spawned by a task spawned by the foreground job is running when Ctrl-C is pressed",
 "an interrupt reaches the foreground job's tasks and theirs, but not the tasks those have spawned, which go on running", demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
open("tick", "w").write("")
for l in (b"define body: method () = {\n",
          b"	define inner: spawn {\n",
          b"		while true {\n",
          b"			write x >> tick\n",
          b"		}\n",
          b"	}\n",
          b"	wait $inner\n",
          b"}\n",
          b"block {\n",
          b"	define outer: spawn {\n",
          b"		body\n",
          b"	}\n",
          b"	wait $outer\n",
          b"}\n"):
    sh.send(l, 0.3)
time.sleep(1)
def when():
    return os.stat("tick").st_size
a = when()
if not sh.until(lambda: when() != a):
    fail(sh, "the loop is not running")
sh.send(b"\x03", 2)
b = when()
time.sleep(2)
if when() != b:
    fail(sh, "the inner task is still running after Ctrl-C")
sh.end()
"""})

bug("group-forgotten", "C26",
 [(J, """	if len(j.running) == 0 && len(j.stopped) == 0 {
		j.group = j.initial""", """	if len(j.running) == 0 {
		j.group = j.initial""")],
 None, None,
 "one process of a job is stopped when the only other one ends, and the job then starts a third",
 "the third process is not put in the job's process group, so signals from the terminal do not reach it together with the stopped one", demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
for l in (b"define f: method () = {\n",
          b"	define a: spawn {\n",
          b"		sleep 61\n",
          b"	}\n",
          b"	sleep 3\n",
          b"	sleep 62\n",
          b"}\n"):
    sh.send(l, 0.3)
sh.send(b"f\n", 1)
def named():
    r = {}
    for p in sh.children():
        try:
            r[open("/proc/%d/cmdline" % p).read().split("\0")[1]] = p
        except (OSError, IndexError):
            pass
    return r
if not sh.until(lambda: {"61", "3"} <= set(named())):
    fail(sh, "the first two processes did not start")
os.kill(named()["61"], signal.SIGSTOP)
if not sh.until(lambda: "62" in named(), 15):
    fail(sh, "the third process did not start")
k, n = sh.children(), named()
print(n, k)
if k[n["61"]][0] != k[n["62"]][0]:
    fail(sh, "the job's processes are in different groups")
sh.end()
"""})

bug("fg-unknown-number", "C11",
 [(J, """		j, found := jobs[n]
		if !found {
			close(r)

			return
		}

		wgs :=""", """		j, found := jobs[n]
		if !found {
			return
		}

		wgs :=""")],
 None, None,
 "fg is given a job number that does not exist while there is some other stopped job",
 "the service never answers, so the shell hangs", demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
sh.send(b"sleep 61\n", 1)
if not sh.until(lambda: sh.children()):
    fail(sh, "sleep did not start")
sh.send(b"\x1a", 1)
if not sh.until(lambda: "T" in [s for _, s in sh.children().values()]):
    fail(sh, "sleep did not stop")
time.sleep(0.5)
sh.send(b"fg 7\n", 1)
a = sh.send(b"write alive\n", 5, "\nalive\r\n")
if "\nalive\r\n" not in a:
    fail(sh, "the shell does not answer")
sh.end()
"""})

bug("await-asks-too-early", "C11",
 [(J, """	requestq <- func() {
		w := &wg{
			fn: fn,
			on: map[*task.T]struct{}{},
		}

		if len(ts) == 0 {
			if foreground != nil && p == foreground.main {
				ts = background
			} else {
				ts = children[p]
			}
		}
""", """	if len(ts) == 0 {
		if foreground != nil && p == foreground.main {
			ts = background
		} else {
			ts = children[p]
		}
	}

	requestq <- func() {
		w := &wg{
			fn: fn,
			on: map[*task.T]struct{}{},
		}
""")],
 """define body: method () = {
	define i 0
	while (lt? $i 300) {
		define t: spawn {
			define x 1
		}
		wait
		set i (add $i 1)
	}
}
define t: spawn {
	body
}
define u: spawn {
	body
}
wait $t $u
write done
""", "done\n",
 "one task waits for all its tasks while another task starts or ends",
 "wait reads the service's tables from its own goroutine, which can crash the shell or wait for the wrong tasks", demo=RACE % {"timeout": 120})

bug("completion-reads-table", "C11",
 [("internal/system/cache/cache.go", """	resultq := make(chan []string)

	dirname = filepath.Clean(dirname)
	requestq <- func() {
		resultq <- executables[dirname]
		close(resultq)
	}

	res := <-resultq
	if res == nil {""", """	dirname = filepath.Clean(dirname)

	res := executables[dirname]
	if res == nil {""")],
 None, None,
 "a command is completed or looked up while another directory is being cached",
 "the table of executables is read while the service changes it, which can crash the shell", demo=r"""#!/bin/bash
# Looks up executables while directories are cached, with the race detector.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
printf '{"Replace": {"%s/internal/system/cache/lookup_demo_test.go": "%s/lookup.go.txt"}}' "$PWD" "$here" > "$d/overlay.json"
timeout -k 5 200 go test -race -vet=off -count=1 -overlay "$d/overlay.json" -run TestLookupWhileCaching ./internal/system/cache
""", files={"lookup.go.txt": r"""package cache

import (
	"os"
	"path/filepath"
	"sync"
	"testing"
)

func TestLookupWhileCaching(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "run"), []byte("x"), 0o755); err != nil {
		t.Fatal(err)
	}

	Files(d)

	w := &sync.WaitGroup{}
	w.Add(2)

	go func() {
		defer w.Done()

		for i := 0; i < 200; i++ {
			Files(d)
		}
	}()

	go func() {
		defer w.Done()

		for i := 0; i < 200; i++ {
			Executables(d)
		}
	}()

	w.Wait()
}
"""})

BUILT = r'''#!/bin/bash
# Builds the shell from the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -o "$d/oh" . || exit 2
mkdir "$d/cwd" && cd "$d/cwd" || exit 2
export HOME=$d/cwd
oh() { timeout -k 5 20 setsid -w "$d/oh" "$@" < /dev/null; }
want() { [ "$1" = "$2" ] || { printf 'FAILED: got <%%s>, want <%%s>\n' "$1" "$2"; exit 1; }; }
%s
exit 0
'''

bug("glob-results-unquoted", "C06",
 [(A + "task.go", "l = list.Append(l, str.New(v))", "l = list.Append(l, sym.New(v))")],
 '''mkdir d
touch 'd/*' d/a
define l: glob d/?
echo (l head)
echo (l get 1)
''', "d/*\nd/a\n",
 "a pattern that matches a file whose own name holds a pattern character, the matches being passed on later",
 "names found by a pattern are treated as patterns again")

bug("interpolate-greedy-braces", "C06",
 [(A + "action.go", r"(?:\${.+?})", r"(?:\${.+})")],
 '''define a 1
define b 2
echo "${a} and ${b}."
''', "1 and 2.\n",
 "two or more ${name} in one double quoted text",
 "everything between the first ${ and the last } is taken for one name")

bug("environ-outer-wins", "C07",
 [(A + "task.go", """				if _, ok := exported[k]; !ok {
					exported[k] = v
				}
""", """				exported[k] = v
""")],
 '''export GREETING hello
block {
	export GREETING goodbye
	printenv GREETING
}
''', "goodbye\n",
 "a name exported in an inner scope that is also exported in an outer one",
 "the program is given the outer value of an exported name")

bug("environ-values-split", "C07",
 [("internal/engine/engine.go", 'kv := strings.SplitN(entry, "=", 2)', 'kv := strings.Split(entry, "=")')],
 None, None,
 "an environment variable whose value holds an equals sign",
 "the shell loses environment variables whose value holds an equals sign, so programs do not get them",
 demo=BUILT % 'want "$(OPTS=a=b oh -c "printenv OPTS" 2>&1)" a=b')

bug("chdir-before-join", "C08",
 [(A + "task.go", """	if !filepath.IsAbs(s) {
		s = filepath.Join(wd, s)
	}

	err := os.Chdir(s)
""", """	err := os.Chdir(s)

	if !filepath.IsAbs(s) {
		s = filepath.Join(wd, s)
	}

""")],
 '''mkdir a b
define start $PWD
block {
	cd a
}
cd b
test (mend "" $PWD) = (mend "" $start /b) && echo right
/bin/pwd -P | sed 's,.*/,,'
''', "right\nb\n",
 "a relative cd in a scope left by an inner scope that had changed directory itself",
 "a relative cd is taken from where the process happens to be instead of from PWD")

bug("oldpwd-on-failure", "C08",
 [(A + "task.go", """	err := os.Chdir(s)
	if err != nil {
		rv = pair.Null
	} else {
		t.frame.Scope().Export("PWD", sym.New(s))
		t.frame.Scope().Export("OLDPWD", oldwd)
	}
""", """	t.frame.Scope().Export("OLDPWD", oldwd)

	err := os.Chdir(s)
	if err != nil {
		rv = pair.Null
	} else {
		t.frame.Scope().Export("PWD", sym.New(s))
	}
""")],
 '''mkdir a
define start $PWD
cd a
define r (cd nowhere)
cd -
test (mend "" $PWD) = (mend "" $start) && echo back
''', "back\n",
 "a failing cd between a successful one and cd -",
 "a failing cd forgets the previous directory")

bug("status-of-prompt", "C09",
 [("internal/engine/engine.go", """	scope0.Define("?", r)

	return r
}
""", """	return r
}
"""),
  ("internal/engine/engine.go", """	<-done

	return t.Result(), t.Exited()""", """	<-done

	if scope0 != nil {
		scope0.Define("?", t.Result())
	}

	return t.Result(), t.Exited()""")],
 None, None,
 "an interactive session, where the prompt is computed between two commands",
 "$? is the value of the prompt command instead of that of the last command",
 demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
sh.send(b"sh -c 'exit 7'\n", 2)
out = sh.send(b"echo status $? is it\n", 3, "status 7 is it")
if "status 7 is it" not in out:
    fail(sh, "$? is not the status of the last command")
sh.end()
"""})

bug("exit-zero-is-truth", "C09",
 [("internal/engine/engine.go", """	if exited {
		code, ok := exitcode(r)
		if !ok {
			code = success(r)
		}
""", """	if exited {
		code := success(r)
		if code != 0 {
			code, _ = exitcode(r)
		}
""")],
 None, None,
 "exit with (), or another value that is no number",
 "exit with a value that is not a number, or with a true value, ends the shell with the wrong code",
 demo=BUILT % '''printf 'exit ()\\n' > t.oh
oh t.oh; want $? 1''')

bug("ten-arguments", "C28",
 [("internal/engine/engine.go", "			env0.Export(strconv.Itoa(n), v)\n", "			env0.Export(string(rune('0'+n)), v)\n"),
  ("internal/engine/engine.go", '	"strconv"\n', '')],
 None, None,
 "ten or more arguments",
 "the tenth argument and those after it are not available by their numbers",
 demo=BUILT % 'want "$(oh -c "echo \\$9 \\$10 \\$11" name 1 2 3 4 5 6 7 8 9 ten eleven 2>&1)" "9 ten eleven"')

bug("command-on-terminal", "C28",
 [("internal/system/options/options.go", '} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {', '} else if isatty.IsTerminal(os.Stdin.Fd()) {')],
 None, None,
 "oh -c on a terminal",
 "oh -c turns job control on when its input is a terminal",
 demo=PTY, files={"drive.py": r"""
import os, pty, sys, time
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[1], ["oh", "-c", "sleep 5\necho went on"])
time.sleep(2)
os.write(fd, b"\x03")
out = b""
while True:
    try:
        d = os.read(fd, 4096)
    except OSError:
        break
    if not d:
        break
    out += d
_, status = os.waitpid(pid, 0)
print(out, status)
sys.exit(1 if b"went on" in out else 0)
"""})

B = "internal/engine/boot/boot.oh"

bug("redirect-left-open", "C04",
 [(B, '''            define ec-ex: override $e $c $cmd
            if (not: null? $f) {
                f $closer
            }

            define ex: ec-ex tail

            # TODO: Handle cases where we want to throw ().
            if (not: null? $ex) {
                throw $ex
            }

            return (ec-ex head)''', '''            define ec-ex: override $e $c $cmd
            define ex: ec-ex tail

            # TODO: Handle cases where we want to throw ().
            if (not: null? $ex) {
                throw $ex
            }

            if (not: null? $f) {
                f $closer
            }

            return (ec-ex head)''')],
 '''mkfifo fifo
define reader: sh -c 'cat fifo; touch done' &
define try: method () {
	catch ex {
		return failed
	}
	throw oops >| fifo
}
try
sh -c 'sleep 1; test -f done && echo closed || echo left open'
''', "closed\n",
 "a redirected command that throws",
 "the file of a redirection is left open when its command throws")

bug("clobber-errors-refuses", "C04",
 [(B, "set output-errors-clobbers: make-redirect () writer-close w", "set output-errors-clobbers: make-redirect true writer-close w")],
 '''echo one >&| out
echo two >&| out
cat out
''', "two\n",
 ">&| onto a file that exists",
 ">&| refuses to replace a file that exists")

bug("capture-waits-first", "C05",
 [(B, '''        define s: cons () ()
        define r $s

        while (define l: p read-line) {
            r set-tail (cons $l ())
            set r (r tail)
        }

        p reader-close

        collect-unwrap-r-ex $c 1
''', '''        define s: cons () ()
        define r $s

        collect-unwrap-r-ex $c 1

        while (define l: p read-line) {
            r set-tail (cons $l ())
            set r (r tail)
        }

        p reader-close
''')],
 '''define l: capture: seq-lines
echo (l length)
'''.replace("seq-lines", "sh -c 'i=0; while [ $i -lt 3000 ]; do echo 0123456789012345678901234567890123456789; i=$((i+1)); done'").replace("capture: sh", "capture (sh").replace("done'\n", "done')\n"), "3000\n",
 "a captured command that writes more than a pipe holds",
 "capture waits for the command to end before it reads, so a command that writes more than a pipe holds never ends")

bug("pipeline-reader-late", "C05",
 [(B, '''            c write (override-stdin $e $p $right)
            p reader-close

            collect-unwrap-r-ex $c 2''', '''            c write (override-stdin $e $p $right)

            define r: collect-unwrap-r-ex $c 2
            p reader-close

            return $r''')],
 '''yes | true
echo done
''', "done\n",
 "a pipeline whose right side ends while the left side still writes",
 "the reading end of a pipe is closed only after both sides are done, so a left side that is still writing never ends")

bug("fifo-left-behind", "C05",
 [(B, '''        for $fifos (method (fifo) {
            rm $fifo
        })

        for $ecexs (method (ecex) {
            define ex: ecex tail

            # TODO: Handle cases where we want to throw ().
            if (not: null? $ex) {
                throw $ex
            }
        })
''', '''        for $ecexs (method (ecex) {
            define ex: ecex tail

            # TODO: Handle cases where we want to throw ().
            if (not: null? $ex) {
                throw $ex
            }
        })

        for $fifos (method (fifo) {
            rm $fifo
        })
''')],
 '''define name ()
define use: method (fifo) {
	set name $fifo
	cat $fifo
	throw oops
}
define try: method () {
	catch ex {
		return ()
	}
	use |<(echo hello)
}
try
if (exists $name) {
	echo left behind
	rm $name
} else {
	echo removed
}
''', "hello\nremoved\n",
 "a command with a process substitution that throws",
 "the fifo of a process substitution is left behind when the command throws")

bug("dollar-semicolon", "C17",
 [("internal/reader/lexer/lexer.go", '''	case '\\t', '\\n', ' ', '"', '#', '&', '(',
		')', ';', '<', '>', '`', '|', '}':
		l.emit(token.Symbol, l.Text())
	default:
		l.emit('$', l.Text())''', '''	case '\\t', '\\n', ' ', '"', '#', '&', '(',
		')', '<', '>', '`', '|', '}':
		l.emit(token.Symbol, l.Text())
	default:
		l.emit('$', l.Text())''')],
 '''echo a$; echo b
''', "a$\nb\n",
 "a word that ends in $ directly before a semicolon",
 "a $ before a semicolon is taken for the start of a variable, so the line is refused")

bug("redirect-then-space", "C17",
 [("internal/reader/parser/parser.go", '''			if !p.peek().Is(token.Substitute) {
				s := p.statement()
				if s != nil {
					c = list.Join(c, s)
				}
			}
''', '''			if p.peek().Is(token.Symbol) {
				s := p.statement()
				if s != nil {
					c = list.Join(c, s)
				}
			}
''')],
 None, None,
 "a quoted word, a variable or a list after a process substitution",
 "words after a process substitution that are not plain symbols are not taken as part of the command",
 demo=BUILT % '''echo 'cat $1; echo $2 $3' > show.sh
echo 'sh show.sh |<(echo hello) "two words" 3' > t.oh
want "$(oh t.oh 2>&1)" "hello
two words 3"''')

bug("or-loses-value", "C18",
 [(B, '''        if $r {
            return $r
        }
        set lst (lst tail)
    }
    return $r
}

define source''', '''        if $r {
            return $r
        }
        set lst (lst tail)
    }
    return ()
}

define source''')],
 '''define r: or () (status 3)
if (null? $r) {
	echo lost
} else {
	echo $r
}
''', "3\n",
 "the value of an or whose operands are all false, the last of them not ()",
 "or yields () when every operand is false instead of the value of the last")

bug("line-trimmed", "C21",
 [("internal/common/type/pipe/pipe.go", '	return str.New(strings.TrimRight(s, "\\n"))', '	return str.New(strings.TrimSpace(s))')],
 '''define p: pipe
p write-line "  indented"
p writer-close
define l: p read-line
echo "<${l}>"
''', "<  indented>\n",
 "a line that starts or ends with spaces",
 "reading a line from a pipe loses the spaces at its ends")

bug("channel-close-waits", "C21",
 [("internal/common/type/chn/chn.go", "	close(*c)", "	*c <- nil\n\n	close(*c)")],
 '''define c: chan
c writer-close
define l: c read
if (null? $l) {
	echo closed
}
''', "closed\n",
 "closing a channel that is full, or that no task is reading",
 "closing a channel sends a last value, so it waits where none can be sent")

bug("import-name-leaks", "C30",
 [(B, '''        define module-name ()

        define module: method (name) {''', '''        define module: method (name) {'''),
  (B, '''    define modules: map
    define request: chan 1

    spawn {
        while true {
            do-import''', '''    define module-name ()
    define modules: map
    define request: chan 1

    spawn {
        while true {
            do-import''')],
 None, None,
 "a file that names itself with module is imported, then one that does not, then the first again",
 "the name of a module is remembered for the next file imported, which is then taken for it",
 demo=BUILT % '''printf 'module first\\nexport x: method () (return 1)\\n' > a.oh
printf 'export x: method () (return 2)\\n' > b.oh
printf 'define a: import a.oh\\ndefine b: import b.oh\\ndefine c: import a.oh\\necho (a x) (b x) (c x)\\n' > t.oh
want "$(oh t.oh 2>&1)" "1 2 1"''')

bug("ohpath-second", "C30",
 [(B, "        set name: mend / (paths head) $basename", "        set name: mend / (paths head) $name")],
 None, None,
 "a file found in the second directory of OHPATH or a later one",
 "a file that is not in the first directory of OHPATH is looked for under the wrong name",
 demo=BUILT % '''mkdir one two
echo 'echo found' > two/f.oh
echo 'source f.oh' > t.oh
want "$(OHPATH=$PWD/one:$PWD/two oh t.oh 2>&1)" found''')

bug("prompt-previous", "C31",
 [(B, '''            define previous-make-prompt $make-prompt
            set make-prompt (request get 2)
            response write $previous-make-prompt''', '''            set make-prompt (request get 2)
            define previous-make-prompt $make-prompt
            response write $previous-make-prompt''')],
 '''define first: method (suffix) {
	return "first${suffix}"
}
define second: method (suffix) {
	return "second${suffix}"
}
replace-make-prompt $first
define m: replace-make-prompt $second
echo (prompt '> ')
echo (m '> ')
''', "second> \nfirst> \n",
 "the value of replace-make-prompt, the previous method, is used",
 "replace-make-prompt yields the new method instead of the one it replaced")

bug("eq-one-operand", "C31",
 [(B, '''    if (gt? 2 $len) {
        throw "expected 2 arguments, passed ${len}"''', '''    if (gt? 1 $len) {
        throw "expected 2 arguments, passed ${len}"''')],
 '''define try: method () {
	catch ex {
		return refused
	}
	eq? a
}
echo (try)
''', "refused\n",
 "eq? with one operand",
 "eq? with a single operand is true instead of an exception")

bug("catch-nearest-throw", "C29",
 [(B, "        _return_ (handler $msg $_throw_)", "        _return_ (handler $msg $throw)")],
 '''define inner: method () {
	catch ex {
		echo inner $ex
	}
	throw oops
}
define outer: method () {
	catch ex {
		echo outer $ex
		return done
	}
	inner
}
echo (outer)
''', "inner oops\nouter oops\ndone\n",
 "a clause that ends without a return, so the exception passes on",
 "an exception that passes a handler goes to the same handler again instead of the next one out")

bug("reap-unknown", "C01",
 [(J, '''		j, ok := active[pid]
		if ok {
			j.notify(pid, status)
		} else {
			println("UNKNOWN PID", pid)
		}
''', '''		active[pid].notify(pid, status)
''')],
 None, None,
 "a process the shell did not start itself: one that was already a child of whatever became the shell (exec)",
 "the end of a process the shell does not know ends the shell",
 demo=BUILT % '''out=$(timeout -k 5 20 setsid -w bash -c 'sleep 0.5 & exec "$1" -c "sleep 1; echo alive"' sh "$d/oh" 2> err < /dev/null)
[ $? -eq 0 ] || { echo "FAILED: the shell did not survive"; head -5 err; exit 1; }
want "$out" alive''')

bug("eof-returns-nil", "C01",
 [("main.go", '''				continue
			} else {
				return err
			}
''', '''				continue
			} else if errors.Is(err, io.EOF) {
				return nil
			} else {
				return err
			}
''')],
 None, None,
 "the end of the input of an interactive session (Ctrl-D)",
 "what runs the loop asks a missing error for its text, so the shell panics",
 demo=PTY, files={"drive.py": PTYLIB + r"""
sh = Shell()
sh.send(b"echo one\n", 2, "one")
out = sh.send(b"\x04", 3)
if "panic" in out or "goroutine" in out:
    fail(sh, "the shell panics at the end of its input")
pid, ws = os.waitpid(sh.pid, os.WNOHANG)
if pid != sh.pid:
    fail(sh, "the shell did not end")
if ws != 0:
    print("FAILED: it ended with", ws)
    sys.exit(1)
"""})

bug("exit-not-number", "C01",
 [("internal/engine/engine.go", '''	defer func() {
		r := recover()
		if r != nil {
			ok = false
		}
	}()

	return int(integer.Value(c)), true
''', '''	if boolean.Value(c) {
		return int(integer.Value(c)), true
	}

	return 0, false
''')],
 None, None,
 "exit with a value that is not a number, which ends the shell with success or failure by its truth",
 "the shell panics where nothing recovers",
 demo=BUILT % '''echo 'exit (list a b)' > t.oh
oh t.oh > out 2>&1
code=$?
[ $code -eq 0 ] && ! grep -q goroutine out || { echo "FAILED: it ended with $code"; head -5 out; exit 1; }''')

# As PTYLIB, in a terminal that has a size, in which lines can be given up.
SIZED = PTYLIB.replace('''            os.environ["TERM"] = "xterm"
''', '''            os.environ["TERM"] = "xterm"
            import fcntl, termios, struct
            fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack("HHHH", 40, 120, 0, 0))
''')

bug("given-up-text-stays", "C23",
 [("main.go", '''				r.Close()
				r = reader.New(name)
				suffix = initial

				j = job.New(0)

				continue
''', '''				suffix = initial

				j = job.New(0)

				continue
''')],
 None, None,
 "Ctrl-C in the middle of a command of several lines, then another command",
 "the lines given up are still with the reader, so the next command is read as their continuation",
 demo=PTY, files={"drive.py": SIZED + r"""
sh = Shell()
sh.send(b"if true {\r", 1)
sh.send(b"echo half\r", 1)
sh.send(b"\x03", 1)
out = sh.send(b"echo one two | tr a-z A-Z\r", 4, "ONE TWO")
if "ONE TWO" not in out:
    fail(sh, "the command after Ctrl-C was not run")
sh.end()
"""})

bug("mode-taken-late", "C23",
 [("main.go", '''	// We assume the terminal starts in cooked mode.
''', '''	cli := liner.NewLiner()

	// We assume the terminal starts in cooked mode.
'''), ("main.go", '''	cli := liner.NewLiner()

	cli.SetCtrlCAborts(true)
''', '''	cli.SetCtrlCAborts(true)
''')],
 None, None,
 "a command that reads from the terminal",
 "commands find the terminal in the line editor's mode: no echo, no line editing, no signals from keys",
 demo=PTY, files={"drive.py": SIZED + r"""
sh = Shell()
sh.send(b"stty -a > modes\r", 2)
sh.send(b"echo one two | tr a-z A-Z\r", 4, "ONE TWO")
modes = open("modes").read()
if " icanon" not in modes or " echo " not in modes:
    fail(sh, "a command found the terminal in the line editor's mode: " + modes)
sh.end()
"""})

bug("history-tail-stays", "C23",
 [("internal/system/history/history.go", "	f, err := file(os.Create)\n", '''	f, err := file(func(name string) (*os.File, error) {
		return os.OpenFile(name, os.O_CREATE|os.O_WRONLY, 0o600)
	})
''')],
 None, None,
 "a history longer than the line editor keeps, which is shorter when saved than when loaded",
 "the saved history overwrites only the beginning of the file, so old lines, one of them cut, follow it",
 demo=PTY, files={"drive.py": SIZED + r"""
with open(os.environ["HOME"] + "/.oh-history", "w") as f:
    for n in range(3000):
        f.write("echo line number %d of a history that is long\n" % n)
sh = Shell()
sh.send(b"echo one two | tr a-z A-Z\r", 4, "ONE TWO")
sh.read(1)
sh.send(b"\x04", 3)
try:
    sh.end()
except OSError:
    pass
lines = open(os.environ["HOME"] + "/.oh-history").read().split("\n")
if lines[-1] != "" or lines[-2] != "echo one two | tr a-z A-Z":
    print("FAILED: the saved history ends with", lines[-3:], len(lines))
    sys.exit(1)
"""})

COMPLETES = SIZED + r"""
def completes(sh, typed, want):
    # what the line becomes when completed
    sh.send(typed + b"\t", 3, want)
    if want not in sh.seen:
        fail(sh, "%r is not completed to %r" % (typed, want))
    sh.send(b"\x03", 1)
"""

bug("linked-directory-empty", "C22",
 [("internal/system/cache/cache.go", '''	dirname, err := filepath.EvalSymlinks(dirname)
	if err != nil {
		dirname = original
	}

''', '')],
 None, None,
 "completing a name in a directory reached through a link",
 "completion offers nothing in a linked directory",
 demo=PTY, files={"drive.py": COMPLETES + r"""
os.makedirs("real/deep")
open("real/deep/zeta", "w").close()
os.symlink("real/deep", "link")
sh = Shell()
completes(sh, b"echo real/deep/ze", "real/deep/zeta")
completes(sh, b"echo link/ze", "link/zeta")
sh.end()
"""})

bug("home-slash-lost", "C22",
 [("main.go", "candidate = join(home, candidate[1:])", "candidate = filepath.Join(home, candidate[1:])")],
 None, None,
 "completing a word that starts with ~ and ends with a slash",
 "the names offered are of the directory before the slash, not of the one it names",
 demo=PTY, files={"drive.py": COMPLETES + r"""
os.makedirs(os.environ["HOME"] + "/alpha/inner")
sh = Shell()
completes(sh, b"echo ~/al", "~/alpha/")
completes(sh, b"echo ~/alpha/", "~/alpha/inner/")
sh.end()
"""})

bug("completion-enters-text", "C22",
 [("internal/reader/lexer/lexer.go", '''	c := *l

	copy(c.queue, l.queue)

	c.tokens = make(chan *token.T, qsize)

	return &c
''', '''	l.tokens = make(chan *token.T, qsize)

	return l
''')],
 None, None,
 "completing a line and then entering it",
 "what was typed before completion is read as if it had been entered, and again when it is",
 demo=PTY, files={"drive.py": COMPLETES + r"""
open("zeta", "w").close()
sh = Shell()
sh.send(b"echo one ze\t", 3, "zeta")
out = sh.send(b" | tr a-z A-Z\r", 4, "ONE ZETA\r\n")
if "ONE ZETA\r\n" not in out:
    fail(sh, "the line was not run as it stood")
sh.end()
"""})

bug("symbol-trimmed", "C16",
 [("internal/reader/parser/parser.go", '''		create = sym.New
''', '''		create = func(s string) cell.I {
			return sym.New(strings.TrimSpace(s))
		}
''')],
 r"""
define round: method (v) {
	write $v | block {
		write-line (equal? $v (read))
	}
}
round (symbol "plain")
round (symbol "in the middle")
round (symbol "end ")
""", "true\ntrue\ntrue\n",
 "writing a symbol that starts or ends with a space and reading it back",
 "the symbol read back has lost its spaces")

bug("edge-spaces-only", "C16",
 [("internal/common/type/sym/sym.go", '''	for _, r := range s {
		if r == ' ' {
			return meta(q)
		}
	}
''', '''	if s[0] == ' ' || s[len(s)-1] == ' ' {
		return meta(q)
	}
''')],
 r"""
define round: method (v) {
	write $v | block {
		write-line (equal? $v (read))
	}
}
round (symbol "plain")
round (symbol " edge ")
round (symbol "in the middle")
""", "true\ntrue\ntrue\n",
 "writing a symbol with a space inside and reading it back",
 "the symbol is read back as several words")

bug("fraction-as-decimal", "C16",
 [("internal/common/type/num/num.go", '''	return n.Rat().RatString()
''', '''	if d := n.Rat().Denom(); d.IsInt64() && d.Int64() < 1000 {
		return n.Rat().RatString()
	}

	return strings.TrimRight(n.Rat().FloatString(18), "0")
'''), ("internal/common/type/num/num.go", '''	"math/big"
''', '''	"math/big"
	"strings"
''')],
 r"""
define round: method (v) {
	write $v | block {
		write-line (equal? $v (read))
	}
}
round (div 1 4)
round (number "1/4000")
round (number "1/4096")
round (div 1 3000)
""", "true\ntrue\ntrue\ntrue\n",
 "writing a fraction with a denominator of over a thousand and reading it back",
 "the number read back is not the one that was written")

KS = '''define k ()
define n 0

define save: method () {
	set k $return
	return zero
}

define show: method (a b c) {
	echo got $a $b $c
	return done
}

block {
	define x here
	show first (save) third
	echo after $x
}

if (lt? $n 3) {
	set n: add $n 1
	k $n
}
echo end $n
'''

KW = '''got first zero third
after here
got first 1 third
after here
got first 2 third
after here
got first 3 third
after here
end 3
'''

RG = "internal/engine/task/registers.go"
KN = "a continuation kept in a variable after its method has returned, and called more than once"

KC = '''define k ()
define n 0
define i 0

define save: method (v) {
	set k $return
	return $v
}

block {
	while (lt? $i 3) {
		set i: add $i 1
		save $i
	}
	echo after $i
}

if (lt? $n 2) {
	set n: add $n 1
	set i $n
	k ()
}
echo end $n
'''

KD = '''after 3
after 3
after 3
end 2
'''

bug("replaces-in-place", "C27",
 [(RG, '''	m.RemoveOp()

	return m.PushOp(s)''', '''	if toRegisters(s) != nil {
		m.RemoveOp()

		return m.PushOp(s)
	}

	m.stack.op = s

	return s''')],
 KC, KD, KN + ", from the end of a loop's body",
 "replacing the operation on top overwrites the stack node, which a continuation may share")

bug("arguments-in-place", "C27",
 [(RG, '''	e := m.PopResult()
	l := pair.Null

	for e != nil && m.dump != pair.Null {
		l = pair.Cons(e, l)

		e = m.PopResult()
	}

	return l''', '''	l := pair.Null

	for m.dump != pair.Null {
		p := m.dump
		m.dump = pair.Cdr(p)

		if pair.Car(p) == nil || m.dump == pair.Null {
			break
		}

		pair.SetCdr(p, l)
		l = p
	}

	return l''')],
 KS, KW, KN + ", in the middle of a list of arguments",
 "the arguments are collected by relinking the cells of the results, which a continuation shares")


bug("error-is-a-symbol", "C29",
 [(A + "task.go", '''list.New(sym.New("throw"), str.New(errmsg))''', '''list.New(sym.New("throw"), sym.New(errmsg))''')],
 '''define m: method () {
	catch ex {
		echo (string? $ex) (symbol? $ex)
		return caught
	}
	add x
}
m
''', "true ()\n",
 "a handler that looks at what kind of value the exception is",
 "an error raised by a command reaches the handler as a symbol, not a string")

bug("unfinished-line-dropped", "C05",
 [("internal/common/type/pipe/pipe.go", '''	if errors.Is(err, io.EOF) {
		if len(s) > 0 {''', '''	if errors.Is(err, io.EOF) {
		if len(s) > 1 {''')],
 '''define l: list `(printf "a\\\\nb")
echo (l length) (l head)
''', "2 a\n",
 "a captured command whose last line is one character and does not end in a newline",
 "the last line of what a command writes is lost when it is not ended")
