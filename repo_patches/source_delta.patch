From ad1ae19a20f7ffa5b3b6e08ff65e4f95c55380e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 01/51] fix: directory used as a command evaluates to nil
 instead of the result of cd

---
 internal/engine/task/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..fa4e0b7 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -812,6 +812,9 @@ func external(t *T) Op {
 	cache.Check(arg0)
 
 	if !executable {
+		// No process was started so there is nothing to resume.
+		t.RemoveOp()
+
 		return t.Return(t.Chdir(name))
 	}
 
-- 
2.43.0


From a30acc075daa4c125296a7e181ae2a6bf9bf0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 02/51] fix: exists checks the quoted form of a string instead
 of the path it names

---
 internal/engine/task/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index fa4e0b7..163b642 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1026,7 +1026,7 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
+		path := common.String(pair.Car(args))
 		if path == "-i" {
 			ignore = true
 
-- 
2.43.0


From 78c1782bd385a675b68313d37ef8e3d67d282f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 03/51] fix: comparing a list with the empty list or a non-list
 is wrong or throws

---
 internal/common/type/pair/pair.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 0496334..4c40394 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -29,8 +29,12 @@ type pair = T
 
 // Equal returns true if c is a pair with elements that are equal to p's.
 func (p *pair) Equal(c cell.I) bool {
-	if p == Null && c == Null {
-		return true
+	if p == Null || c == Null {
+		return p == c
+	}
+
+	if !Is(c) {
+		return false
 	}
 
 	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
-- 
2.43.0


From b725bb3bb34094d4d019959220bb12defb529dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 04/51] fix: methods, syntax and tasks are not equal to
 themselves

---
 internal/engine/task/action.go | 7 +++++++
 internal/engine/task/task.go   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 163b642..6f769fb 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -142,6 +142,13 @@ type binding struct {
 	self cell.I
 }
 
+// Equal returns true if c is the same command bound to the same scope as b.
+func (b *binding) Equal(c cell.I) bool {
+	o, ok := c.(*binding)
+
+	return ok && b.self == o.self && b.command.Equal(o.command)
+}
+
 // Method, and syntax types all conform to the command interface.
 type command interface {
 	cell.I
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..3c5c8b5 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -145,6 +145,13 @@ func (t *T) Environ() []string {
 	return environ
 }
 
+// Equal returns true if c is the same task as t.
+func (t *T) Equal(c cell.I) bool {
+	o, ok := c.(*T)
+
+	return ok && t == o
+}
+
 // Interrupt stops the task.
 func (t *T) Interrupt() {
 	t.state.Stop(func() {
-- 
2.43.0


From c13af2f32173a227472bcb5cc7234f3c7964faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 05/51] fix: set-head and set-tail can modify the shared empty
 list

---
 internal/common/type/pair/pair.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 4c40394..66c8450 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -154,12 +154,20 @@ func Cons(h, t cell.I) cell.I {
 // SetCar sets the car/head/first of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCar(c, value cell.I) {
+	if c == Null {
+		panic("cannot modify the empty list")
+	}
+
 	To(c).car = value
 }
 
 // SetCdr sets the cdr/tail/rest of the pair c to value.
 // If c is not a pair, this function will panic.
 func SetCdr(c, value cell.I) {
+	if c == Null {
+		panic("cannot modify the empty list")
+	}
+
 	To(c).cdr = value
 }
 
-- 
2.43.0


From 74569a65f4861c597fb03c72f6b63d73ec07a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 06/51] fix: status of a signalled process includes the core
 dump flag

---
 internal/system/job/job_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..31189d8 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -427,7 +427,7 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		code = int(ws.Signal()) + 128
 
 	default:
 		return
-- 
2.43.0


From 94ea718399ddb39890721d4d72550a5210e65117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 07/51] fix: task is never notified when a stopped process is
 killed

---
 internal/system/job/job_unix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 31189d8..7935e6c 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -402,6 +402,11 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	t, found := j.running[pid]
+	if !found && !ws.Stopped() {
+		// A stopped process can be killed without being continued.
+		t, found = j.stopped[pid]
+	}
+
 	if !found {
 		println("UNKNOWN PID STATUS CHANGE", pid)
 
@@ -434,6 +439,7 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	delete(j.running, pid)
+	delete(j.stopped, pid)
 	delete(active, pid)
 
 	if len(j.running) == 0 && len(j.stopped) == 0 {
-- 
2.43.0


From e0559df73ac227d7320994b0e389b57c9cf3cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 08/51] fix: signal received when there is no foreground task
 crashes the shell

---
 internal/system/job/job_unix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 7935e6c..6558c4a 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -508,10 +508,14 @@ func monitor() {
 				reap()
 
 			case unix.SIGINT:
-				foreground.interrupt()
+				if foreground != nil && foreground.main != nil {
+					foreground.interrupt()
+				}
 
 			case unix.SIGTSTP:
-				foreground.stop()
+				if foreground != nil && foreground.main != nil {
+					foreground.stop()
+				}
 			}
 		}
 	}
-- 
2.43.0


From 0fec1bd61b76097154cbb4c67a4d86dda39517f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 09/51] fix: file removed while its directory is being cached
 crashes the shell

---
 internal/system/cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..2041152 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -73,7 +73,7 @@ func Files(dirname string) []string {
 	}
 
 	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
-		if p == dirname {
+		if p == dirname || i == nil {
 			return nil
 		}
 
-- 
2.43.0


From a3c22d0fcca9cf5c5f4aea164ad52c42e4e67ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 10/51] fix: environment can crash the shell at start-up or
 replace its standard conduits

---
 internal/engine/engine.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..a9318c8 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -195,18 +195,23 @@ func init() { //nolint:gochecknoinits
 
 	env0 = env.New(nil)
 
-	env0.Export("export", ee)
-
-	env0.Export("stdin", pipe.New(os.Stdin, nil))
-	env0.Export("stdout", pipe.New(nil, os.Stdout))
-	env0.Export("stderr", pipe.New(nil, os.Stderr))
-
 	// Environment variables.
 	for _, entry := range os.Environ() {
 		kv := strings.SplitN(entry, "=", 2)
+		if len(kv) != 2 { //nolint:gomnd
+			continue
+		}
+
 		env0.Export(kv[0], sym.New(kv[1]))
 	}
 
+	// These must not be replaced by an environment variable.
+	env0.Export("export", ee)
+
+	env0.Export("stdin", pipe.New(os.Stdin, nil))
+	env0.Export("stdout", pipe.New(nil, os.Stdout))
+	env0.Export("stderr", pipe.New(nil, os.Stderr))
+
 	scope0 = env.New(nil)
 
 	scope0.Export("export", ee)
-- 
2.43.0


From 328977859e01bcf08423347d149f9a9ab3f36b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 11/51] fix: parser loops forever on a closing delimiter that
 was never opened

---
 internal/reader/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..7a5cba9 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -77,7 +77,7 @@ func (p *T) Parse() (err error) {
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		p.emit(p.check(p.possibleBackground()))
 	}
 
 	return nil
-- 
2.43.0


From 1e4e22cb8d79c6ba25b24ed157d3e0a39ec226bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 12/51] fix: operator without a command is parsed as a command
 containing nil

---
 internal/reader/parser/parser.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 7a5cba9..5072f07 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -160,6 +160,8 @@ func (p *T) possibleBackground() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Background) {
+		c = p.check(c)
+
 		p.consume()
 
 		c = list.New(sym.Token(t), c)
@@ -174,11 +176,11 @@ func (p *T) command() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Orf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Orf) {
 			p.consume()
-			c = list.Append(c, p.possibleAndf())
+			c = list.Append(c, p.check(p.possibleAndf()))
 		}
 	}
 
@@ -191,11 +193,11 @@ func (p *T) possibleAndf() cell.I {
 
 	t := p.peek()
 	if t.Is(token.Andf) {
-		c = list.New(sym.Token(t), c)
+		c = list.New(sym.Token(t), p.check(c))
 
 		for p.peek().Is(token.Andf) {
 			p.consume()
-			c = list.Append(c, p.possiblePipeline())
+			c = list.Append(c, p.check(p.possiblePipeline()))
 		}
 	}
 
@@ -207,9 +209,11 @@ func (p *T) possiblePipeline() cell.I {
 	c := p.possibleSequence()
 
 	if p.peek().Is(token.Pipe) {
+		c = p.check(c)
+
 		s := sym.Token(p.consume())
 
-		c = pair.Cons(p.possiblePipeline(), c)
+		c = pair.Cons(p.check(p.possiblePipeline()), c)
 		c = pair.Cons(s, c)
 	}
 
@@ -221,12 +225,15 @@ func (p *T) possibleSequence() cell.I {
 	c := p.possibleRedirection()
 
 	if p.peek().Is(';') {
-		c = list.New(sym.New("block"), c)
+		c = list.New(sym.New("block"), p.check(c))
 
 		for p.peek().Is(';') {
 			p.consume()
 
-			c = list.Append(c, p.possibleRedirection())
+			r := p.possibleRedirection()
+			if r != nil {
+				c = list.Append(c, r)
+			}
 		}
 	}
 
@@ -238,6 +245,8 @@ func (p *T) possibleRedirection() cell.I {
 	c := p.possibleSubstitution()
 
 	for p.peek().Is(token.Redirect) {
+		c = p.check(c)
+
 		s := sym.Token(p.consume())
 		c = list.New(s, p.check(p.implicitJoin(p.element())), c)
 
@@ -261,7 +270,7 @@ func (p *T) possibleSubstitution() cell.I {
 
 		for p.peek().Is(token.Substitute) {
 			s := sym.Token(p.consume())
-			l := pair.Cons(s, p.element())
+			l := pair.Cons(s, p.check(p.element()))
 			c = list.Append(c, l)
 
 			if !p.peek().Is(token.Substitute) {
-- 
2.43.0


From cdd80f4c46f46ebacb9569ebb40ca0b57b7a09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 13/51] fix: reading and writing the same pipe from different
 tasks can deadlock

---
 internal/common/type/pipe/pipe.go | 58 +++++++++++++++++++------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..064693a 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -26,6 +26,8 @@ const name = "pipe"
 // T (pipe) is oh's pipe conduit type.
 type T struct {
 	sync.RWMutex
+	reading sync.Mutex // Held by the task that is reading.
+
 	b *bufio.Reader
 	p *reader.T
 	r *os.File
@@ -78,6 +80,10 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
+	// The pipe itself is not locked while waiting for input.
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -88,9 +94,6 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	var (
 		c   cell.I
 		err error
@@ -119,14 +122,15 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
+	// The pipe itself is not locked while waiting for input.
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	s, ok := line(b)
 	if !ok {
 		return pair.Null
@@ -143,20 +147,18 @@ func (p *pipe) ReaderClose() {
 
 // Write writes a cell to the pipe.
 func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
+	// The pipe itself is not locked while waiting for the reader.
+	w := p.writeEnd()
+	if w == nil {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(literal.String(c))
+	_, err := w.WriteString(literal.String(c))
 	if err != nil {
 		panic(err.Error())
 	}
 
-	_, err = p.w.WriteString("\n")
+	_, err = w.WriteString("\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -164,20 +166,18 @@ func (p *pipe) Write(c cell.I) {
 
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
+	// The pipe itself is not locked while waiting for the reader.
+	w := p.writeEnd()
+	if w == nil {
 		panic("write to closed pipe")
 	}
 
-	_, err := p.w.WriteString(common.String(c))
+	_, err := w.WriteString(common.String(c))
 	if err != nil {
 		panic(err.Error())
 	}
 
-	_, err = p.w.WriteString("\n")
+	_, err = w.WriteString("\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -283,14 +283,28 @@ func (p *pipe) writerPipeNil() {
 	p.w = nil
 }
 
+func (p *pipe) readEnd() *os.File {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.r
+}
+
+func (p *pipe) writeEnd() *os.File {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.w
+}
+
 // R converts c to a pipe and returns the read end of the pipe.
 func R(c cell.I) *os.File {
-	return To(c).r
+	return To(c).readEnd()
 }
 
 // W converts c to a pipe and returns the write end of the pipe.
 func W(c cell.I) *os.File {
-	return To(c).w
+	return To(c).writeEnd()
 }
 
 // Read a line and return it, including the newline.
-- 
2.43.0


From 5b327de59af2bded568b2cd7d0d154bbf66f594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 14/51] fix: all but the last command completed by a line of
 input are lost

---
 internal/common/type/pipe/pipe.go | 11 +++++++----
 internal/engine/engine.go         |  2 +-
 internal/reader/reader.go         | 26 ++++++++++++++++++++------
 main.go                           | 13 ++++++++++---
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 064693a..fda11b1 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -94,10 +94,13 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
-	var (
-		c   cell.I
-		err error
-	)
+	// A previously read line may have contained more than one command.
+	c := r.Next()
+	if c != nil {
+		return c
+	}
+
+	var err error
 
 	s, ok := line(b)
 	for ok {
diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index a9318c8..ca8e824 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -77,7 +77,7 @@ func Boot(path string, arguments []string) {
 			panic(err.Error())
 		}
 
-		if c != nil {
+		for ; c != nil; c = r.Next() {
 			System(j, c)
 		}
 	}
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..ed4ce3e 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -11,9 +11,11 @@ import (
 type T struct {
 	e chan error
 	i chan string
-	o chan cell.I
+	o chan []cell.I
 	p *parser.T
 	s *lexer.T
+
+	pending []cell.I // Parsed commands not yet returned.
 }
 
 type reader = T
@@ -23,14 +25,14 @@ func New(name string) *T {
 	r := &T{
 		e: make(chan error),
 		i: make(chan string),
-		o: make(chan cell.I),
+		o: make(chan []cell.I),
 		s: lexer.New(name),
 	}
 
-	var v cell.I
+	var v []cell.I
 
 	r.p = parser.New(func(c cell.I) {
-		v = c
+		v = append(v, c)
 	}, func() *token.T {
 		t := r.s.Token()
 
@@ -69,17 +71,29 @@ func (r *reader) Parser() *parser.T {
 	return r.p
 }
 
+// Next returns the next command already parsed by Scan or nil if there are none.
+func (r *reader) Next() (c cell.I) {
+	if len(r.pending) > 0 {
+		c, r.pending = r.pending[0], r.pending[1:]
+	}
+
+	return c
+}
+
 // Scan reads the line and returns a cell.I on a complete parse or nil otherwise.
+// If the line completes more than one command the rest are returned by Next.
 // If scan encounters any error it returns the error.
 func (r *reader) Scan(line string) (c cell.I, err error) {
 	r.i <- line
 
 	select {
-	case c = <-r.o:
+	case cs := <-r.o:
+		r.pending = append(r.pending, cs...)
 	case err = <-r.e:
+		return nil, err
 	}
 
-	return c, err
+	return r.Next(), nil
 }
 
 func (r *reader) next() bool {
diff --git a/main.go b/main.go
index 09b74c9..f819032 100644
--- a/main.go
+++ b/main.go
@@ -62,7 +62,9 @@ func command() bool {
 		os.Exit(1)
 	}
 
-	engine.Evaluate(job.New(process.Group()), c)
+	for ; c != nil; c = r.Next() {
+		engine.Evaluate(job.New(process.Group()), c)
+	}
 
 	return true
 }
@@ -402,9 +404,14 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		if c != nil {
-			engine.Evaluate(j, c)
+			for ; c != nil; c = r.Next() {
+				engine.Evaluate(j, c)
 
-			process.RestoreForegroundGroup()
+				process.RestoreForegroundGroup()
+
+				j = job.New(0)
+				j.Append(line)
+			}
 
 			r.Close()
 
-- 
2.43.0


From a99b5314c8b7ce9707b5a9ef3533a3e4207672bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 15/51] fix: closing a reader leaks the goroutine running its
 parser

---
 internal/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index ed4ce3e..bdb78c9 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -23,7 +23,7 @@ type reader = T
 // New creates a new reader for name.
 func New(name string) *T {
 	r := &T{
-		e: make(chan error),
+		e: make(chan error, 1), // Not read if the reader is closed.
 		i: make(chan string),
 		o: make(chan []cell.I),
 		s: lexer.New(name),
-- 
2.43.0


From be4e80fba1003d4f1fe9c7f22615ca38ffe35d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 16/51] fix: reading from a pipe after a syntax error hangs

---
 internal/common/type/pipe/pipe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index fda11b1..8cb5e91 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -106,6 +106,9 @@ func (p *pipe) Read() cell.I {
 	for ok {
 		c, err = r.Scan(s)
 		if err != nil {
+			// A reader cannot be used after an error.
+			p.readerReset(r)
+
 			panic(err.Error())
 		}
 
@@ -236,6 +239,17 @@ func (p *pipe) reader() *reader.T {
 	return p.p
 }
 
+// readerReset discards the reader r so that a new one is used for the next read.
+func (p *pipe) readerReset(r *reader.T) {
+	p.Lock()
+	defer p.Unlock()
+
+	if p.p == r {
+		p.p.Close()
+		p.p = nil
+	}
+}
+
 // readerClosePipe closes the read end of the pipe.
 func (p *pipe) readerClosePipe() {
 	p.RLock()
-- 
2.43.0


From dd70796b81079e0431b887eef0eacc02621c8125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 17/51] fix: last line of input is lost when it has no newline

---
 internal/common/type/pipe/pipe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 8cb5e91..00c547b 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -324,13 +324,13 @@ func W(c cell.I) *os.File {
 	return To(c).writeEnd()
 }
 
-// Read a line and return it, including the newline.
+// Read a line and return it, including the newline which is added if missing.
 func line(b *bufio.Reader) (string, bool) {
 	s, err := b.ReadString('\n')
 
 	if errors.Is(err, io.EOF) {
 		if len(s) > 0 {
-			return s, true
+			return s + "\n", true
 		}
 
 		return "", false
-- 
2.43.0


From ff51d102a9030179bad533a969bbb01a158191e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 18/51] fix: closing a file opened for both reading and writing
 throws and can crash the shell

---
 internal/common/type/pipe/pipe.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 00c547b..f4680d6 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -52,7 +52,7 @@ func New(r, w *os.File) cell.I {
 		w: w,
 	}
 
-	runtime.SetFinalizer(p, (*pipe).Close)
+	runtime.SetFinalizer(p, finalize)
 
 	return p
 }
@@ -261,7 +261,7 @@ func (p *pipe) readerClosePipe() {
 
 	if p.r != nil {
 		err := p.r.Close()
-		if err != nil {
+		if err != nil && !errors.Is(err, os.ErrClosed) {
 			panic(err.Error())
 		}
 	}
@@ -287,7 +287,7 @@ func (p *pipe) writerClosePipe() {
 	}
 
 	err := p.w.Close()
-	if err != nil {
+	if err != nil && !errors.Is(err, os.ErrClosed) {
 		panic(err.Error())
 	}
 }
@@ -324,6 +324,15 @@ func W(c cell.I) *os.File {
 	return To(c).writeEnd()
 }
 
+// finalize closes a pipe that is no longer used. There is no task to notify of an error.
+func finalize(p *pipe) {
+	defer func() {
+		recover() //nolint:errcheck
+	}()
+
+	p.Close()
+}
+
 // Read a line and return it, including the newline which is added if missing.
 func line(b *bufio.Reader) (string, bool) {
 	s, err := b.ReadString('\n')
-- 
2.43.0


From 12f9134ee6671e83e83904000df71c56bba4926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 19/51] fix: record the resumed job when it is stopped again

After fg the foreground was still the job of the fg command itself, so a
second stop recorded that job, without the processes, lines and process
group of the resumed one, and the next fg could not continue them.
---
 internal/system/job/job_unix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 6558c4a..a39af3b 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -290,7 +290,8 @@ func Fg(w io.Writer, n int) bool {
 		waiting[j.main] = waiting[foreground.main]
 		delete(waiting, foreground.main)
 
-		foreground.main = j.main
+		// Stopping the job again must record its processes, lines and group.
+		foreground = j
 
 		delete(jobs, n)
 
-- 
2.43.0


From 12e515801c6aed28152ab10e82954272ab403bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 20/51] fix: append job lines in the goroutine that reads them

Append changed a job's lines from the caller's goroutine while the monitor
goroutine could be printing them.
---
 internal/system/job/job_unix.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index a39af3b..776713b 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -74,7 +74,17 @@ func New(group int) *T {
 }
 
 func (j *job) Append(line string) {
-	j.lines = append(j.lines, line)
+	done := make(chan struct{})
+
+	requestq <- func() {
+		j.lines = append(j.lines, line)
+
+		// Ack.
+		close(done)
+	}
+
+	// Wait for an ack.
+	<-done
 }
 
 func (j *job) Await(fn func(), p *task.T, ts ...*task.T) {
-- 
2.43.0


From 073851ba9c0fcefe45976e8cf784f4de19437102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 21/51] fix: an interrupt could be lost and leave the task
 stopped instead

The monitor goroutine replaced the stack of the interrupted task while the
task could be in the middle of changing it. The task now discards its own
remaining operations when it sees that it has been interrupted.
---
 internal/engine/task/state.go | 20 ++++++++++++++++----
 internal/engine/task/task.go  |  9 +++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..a2d46f6 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -29,10 +29,11 @@ type state struct {
 
 	result cell.I
 
-	exited   bool
-	running  bool
-	stopping bool
-	waiting  bool
+	exited      bool
+	interrupted bool
+	running     bool
+	stopping    bool
+	waiting     bool
 }
 
 func fresh() *state {
@@ -55,6 +56,17 @@ func (s *state) Exited() bool {
 	return s.exited
 }
 
+// Interrupted returns true, once, if the task was stopped by an interrupt.
+func (s *state) Interrupted() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	interrupted := s.interrupted
+	s.interrupted = false
+
+	return interrupted
+}
+
 // Notify notifies a waiting task that it can continue. If running is set,
 // the condition variable resume is used to signal the task to resume.
 // Calling this on a task that is not waiting results in a panic.
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 3c5c8b5..e52dc28 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -152,10 +152,11 @@ func (t *T) Equal(c cell.I) bool {
 	return ok && t == o
 }
 
-// Interrupt stops the task.
+// Interrupt stops the task. The remaining operations belong to the goroutine
+// running the task, which discards them when it sees that it must stop.
 func (t *T) Interrupt() {
 	t.state.Stop(func() {
-		t.stack = done
+		t.state.interrupted = true
 	})
 }
 
@@ -175,6 +176,10 @@ func (t *T) Run() {
 	for t.state.Runnable() && s != nil {
 		s = t.Step(s)
 	}
+
+	if t.state.Interrupted() {
+		t.stack = done
+	}
 }
 
 // Step performs a single action and determines the next action.
-- 
2.43.0


From 1bedeb9a2661e27bb2f48039ceafa63a5798515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 22/51] fix: exit with too many arguments marked the task as
 exited

The error for the wrong number of arguments could be caught, but the shell
still exited when the task completed.
---
 internal/engine/task/action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 6f769fb..7a14cc0 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1064,9 +1064,12 @@ func glob(t *T) Op {
 // Methods.
 
 func exit(t *T) Op {
+	// Raises an exception, and must not mark the task, on bad arguments.
+	op := fatal(t)
+
 	t.Exit()
 
-	return fatal(t)
+	return op
 }
 
 func fatal(t *T) Op {
-- 
2.43.0


From 42e4af2bf43626a68088364660529c086b0f492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 23/51] fix: do not expand pattern characters in the names of
 the home and working directories

A file name pattern was appended to PWD, or to HOME for one starting with ~,
and the whole of it expanded. In a directory whose name holds *, ? or [ a
pattern matched nothing, or the files of another directory.
---
 internal/engine/task/task.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index e52dc28..56b0be6 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -249,18 +249,21 @@ func (t *T) expand(args cell.I) cell.I {
 
 		s := common.String(c)
 
-		path := t.tildeExpand(s)
-		if !strings.ContainsAny(path, "*?[") {
-			l = list.Append(l, sym.New(path))
+		if !strings.ContainsAny(s, "*?[") {
+			l = list.Append(l, sym.New(t.tildeExpand(s, identity)))
 
 			continue
 		}
 
+		// Only what was written is a pattern. The names of the home and of the
+		// working directory stand for themselves.
+		path := t.tildeExpand(s, literalPattern)
+
 		pwd := ""
 		if !filepath.IsAbs(path) {
 			pwd = t.stringValue("PWD")
 			// path = filepath.Join(pwd, path)
-			path = pwd + string(os.PathSeparator) + path
+			path = literalPattern(pwd) + string(os.PathSeparator) + path
 			pwd = filepath.Clean(pwd)
 		}
 
@@ -302,12 +305,12 @@ func (t *T) stringValue(k string) string {
 	return common.String(v)
 }
 
-func (t *T) tildeExpand(s string) string {
+func (t *T) tildeExpand(s string, f func(string) string) string {
 	if !strings.HasPrefix(s, "~") {
 		return s
 	}
 
-	return filepath.Join(t.stringValue("HOME"), s[1:])
+	return filepath.Join(f(t.stringValue("HOME")), s[1:])
 }
 
 func (t *T) value(s scope.I, k string) cell.I {
@@ -330,3 +333,12 @@ func (t *T) value(s scope.I, k string) cell.I {
 
 	return v
 }
+
+func identity(s string) string {
+	return s
+}
+
+// literalPattern returns a pattern that matches only s.
+func literalPattern(s string) string {
+	return strings.NewReplacer("*", "[*]", "?", "[?]", "[", "[[]", `\`, `[\\]`).Replace(s)
+}
-- 
2.43.0


From 8f6eb901847d375c0d197a3e94c5eb766965be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:04 +0000
Subject: [PATCH 24/51] fix: run the script named on the command line whatever
 characters its path holds

The path was inserted unquoted in a command to evaluate, so a path with
spaces, quotes or other special characters was split, expanded or run as
code.
---
 internal/system/options/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/options/options.go b/internal/system/options/options.go
index 3ceee9b..43bc2d9 100644
--- a/internal/system/options/options.go
+++ b/internal/system/options/options.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/docopt/docopt-go"
 	"github.com/mattn/go-isatty"
+	"github.com/michaelmacinnis/adapted"
 )
 
 //nolint:gochecknoglobals
@@ -81,7 +82,7 @@ func Parse() {
 
 	path, _ := opts.String("SCRIPT")
 	if path != "" {
-		command = "source " + path
+		command = "source " + adapted.CanonicalString(path)
 		name = path
 		script = path
 	} else if command == "" && isatty.IsTerminal(os.Stdin.Fd()) {
-- 
2.43.0


From 7ef03e61721b591f8bd8752192a4ce5bab8a7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 25/51] fix: variables named r and ex were hidden in redirected
 and piped commands

---
 internal/engine/boot/boot.oh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..236ae98 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -175,13 +175,13 @@ block {
         set block: cons block $block
 
         quasiquote ((method () {
-            define r ()
+            define _r_ ()
 
-            catch ex {
-                return (cons $r $ex)
+            catch _ex_ {
+                return (cons $_r_ $_ex_)
             }
 
-            set r (unquote $block)
+            set _r_ (unquote $block)
 
             throw ()
         }))
-- 
2.43.0


From 1d253e4564bb70912389c66d4e01d5348bae8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 26/51] fix: input could not be redirected from a device

---
 internal/engine/boot/boot.oh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 236ae98..69e5607 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -263,7 +263,7 @@ block {
                         throw "${c} exists"
                     }
                 } else {
-                    if (eq? r $mode) {
+                    if (and (eq? r $mode) (not (exists $c))) {
                         throw "${c} does not exist"
                     }
                 }
-- 
2.43.0


From 5a8c4541fd3b0da5eca622671b76ea795f110fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 27/51] fix: catch without a clause swallowed the exception

---
 internal/engine/boot/boot.oh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 69e5607..7e24282 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -537,7 +537,7 @@ define catch: syntax (name (clause)) e {
     define body: list throw (list resolve $name)
 
     if (null? $clause) {
-        set body: list body
+        set body: list $body
     } else {
         set body: clause append $body
     }
-- 
2.43.0


From 879dcf9f2c7a37151224d2b3671ef866ef090e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:36 +0000
Subject: [PATCH 28/51] fix: blank lines after a continued line were not
 skipped

A closing brace preceded by spaces was then reported as unexpected.
---
 internal/reader/lexer/lexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/reader/lexer/lexer.go b/internal/reader/lexer/lexer.go
index be93aaa..7d3a34b 100644
--- a/internal/reader/lexer/lexer.go
+++ b/internal/reader/lexer/lexer.go
@@ -583,7 +583,12 @@ func startState(l *T, state action, ignore string) action {
 		case eof:
 			return nil
 
-		case '\n', ')', ';', '`', '{', '}':
+		case '\n':
+			l.emit(r, l.Text())
+
+			return skipWhitespace
+
+		case ')', ';', '`', '{', '}':
 			l.emit(r, l.Text())
 
 			return collectHorizontalSpace
-- 
2.43.0


From 22611c5b55e08a03329a94a284e7d1ead8cedd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:24 +0000
Subject: [PATCH 29/51] fix: an empty brace group put a missing value in the
 command

---
 internal/reader/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 5072f07..ffc051e 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -300,7 +300,7 @@ func (p *T) braces() (c cell.I) {
 			c = p.braces()
 			p.expect('}')
 		default:
-			c = p.implicitJoin(p.element())
+			c = p.check(p.implicitJoin(p.element()))
 			c = pair.Cons(c, pair.Null)
 
 			p.expect('}')
-- 
2.43.0


From 62b9b35011a591c446d88c4a2de9c6c0614ce704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:23 +0000
Subject: [PATCH 30/51] fix: a reader closed before its first line leaks its
 goroutine

---
 internal/reader/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index bdb78c9..3977c02 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -106,8 +106,9 @@ func (r *reader) next() bool {
 }
 
 func (r *reader) start() {
-	r.next()
+	if r.next() {
+		r.e <- r.p.Parse()
+	}
 
-	r.e <- r.p.Parse()
 	close(r.e)
 }
-- 
2.43.0


From 023ee8857a1827fcb17924cf9dc20b01d987b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:36 +0000
Subject: [PATCH 31/51] fix: a value written to a pipe could be mixed with
 another task's

---
 internal/common/type/pipe/pipe.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index f4680d6..7bc8b3e 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -159,12 +159,8 @@ func (p *pipe) Write(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = w.WriteString("\n")
+	// One write so that what another task writes is not mixed in.
+	_, err := w.WriteString(literal.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
@@ -178,12 +174,8 @@ func (p *pipe) WriteLine(c cell.I) {
 		panic("write to closed pipe")
 	}
 
-	_, err := w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = w.WriteString("\n")
+	// One write so that what another task writes is not mixed in.
+	_, err := w.WriteString(common.String(c) + "\n")
 	if err != nil {
 		panic(err.Error())
 	}
-- 
2.43.0


From d568f375a2d3c0e02c3aedd1ce442504600241ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:36 +0000
Subject: [PATCH 32/51] fix: an end of a pipe closed by two tasks at once was
 closed twice

---
 internal/common/type/pipe/pipe.go | 71 ++++++++++++++-----------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 7bc8b3e..170e02e 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -147,8 +147,13 @@ func (p *pipe) ReadLine() cell.I {
 
 // ReaderClose closes the read end of the pipe and sets it to nil.
 func (p *pipe) ReaderClose() {
-	p.readerClosePipe()
-	p.readerPipeNil()
+	r, s := p.readerTake()
+
+	if s != nil {
+		s.Close()
+	}
+
+	closeFile(r)
 }
 
 // Write writes a cell to the pipe.
@@ -183,8 +188,7 @@ func (p *pipe) WriteLine(c cell.I) {
 
 // WriterClose closes the write end of the pipe.
 func (p *pipe) WriterClose() {
-	p.writerClosePipe()
-	p.writerPipeNil()
+	closeFile(p.writerTake())
 }
 
 func (p *pipe) buffer() *bufio.Reader {
@@ -242,54 +246,31 @@ func (p *pipe) readerReset(r *reader.T) {
 	}
 }
 
-// readerClosePipe closes the read end of the pipe.
-func (p *pipe) readerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.p != nil {
-		p.p.Close()
-	}
-
-	if p.r != nil {
-		err := p.r.Close()
-		if err != nil && !errors.Is(err, os.ErrClosed) {
-			panic(err.Error())
-		}
-	}
-}
-
-// readerPipeNil sets the read end of the pipe to nil.
-func (p *pipe) readerPipeNil() {
+// readerTake sets the read end of the pipe to nil and returns what it was, so that
+// it is only closed once.
+func (p *pipe) readerTake() (*os.File, *reader.T) {
 	p.Lock()
 	defer p.Unlock()
 
+	r, s := p.r, p.p
+
 	p.b = nil
 	p.p = nil
 	p.r = nil
-}
 
-// writerClosePipe closes the write end of the pipe.
-func (p *pipe) writerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		return
-	}
-
-	err := p.w.Close()
-	if err != nil && !errors.Is(err, os.ErrClosed) {
-		panic(err.Error())
-	}
+	return r, s
 }
 
-// writerPipeNil sets the write end of the pipe to nil.
-func (p *pipe) writerPipeNil() {
+// writerTake sets the write end of the pipe to nil and returns what it was.
+func (p *pipe) writerTake() *os.File {
 	p.Lock()
 	defer p.Unlock()
 
+	w := p.w
+
 	p.w = nil
+
+	return w
 }
 
 func (p *pipe) readEnd() *os.File {
@@ -316,6 +297,18 @@ func W(c cell.I) *os.File {
 	return To(c).writeEnd()
 }
 
+// closeFile closes one end of a pipe, if it is open.
+func closeFile(f *os.File) {
+	if f == nil {
+		return
+	}
+
+	err := f.Close()
+	if err != nil && !errors.Is(err, os.ErrClosed) {
+		panic(err.Error())
+	}
+}
+
 // finalize closes a pipe that is no longer used. There is no task to notify of an error.
 func finalize(p *pipe) {
 	defer func() {
-- 
2.43.0


From 71ada16c2f2f656332ebd6fff7e38500118e489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:36 +0000
Subject: [PATCH 33/51] fix: a task that is resumed before it stopped carries
 on

Continuing a stopped process resumes the tasks of its job, but these may not
have stopped: only the last running process stopping stops them, and a task
that is busy stops later. Running one a second time ended the shell with
'already running'.
---
 internal/engine/task/state.go | 20 ++++++++++++--------
 internal/engine/task/task.go  |  6 +++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index a2d46f6..3e36483 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -121,24 +121,28 @@ func (s *state) Runnable() bool {
 	return s.running
 }
 
-// Started marks the task as running.
-// Calling this on a task that is already running results in a panic.
+// Started marks the task as running and returns true if it was not already.
+// A task that was asked to stop (but not interrupted), and has not done so yet,
+// carries on.
 //
 // R S W -> R S W
-// 0 0 X -> 1 0 X
-// 0 1 X -> 0 0 X
-// 1 X X    1 X X panic.
+// 0 0 X -> 1 0 X returns true
+// 0 1 X -> 1 1 X returns true
+// 1 X X    1 0 X returns false.
 //
-func (s *state) Started() {
+func (s *state) Started() bool {
 	s.Lock()
 	defer s.Unlock()
 
 	if s.running {
-		// Why is this already running?
-		panic("already running")
+		s.stopping = s.stopping && s.interrupted
+
+		return false
 	}
 
 	s.running = true
+
+	return true
 }
 
 // Stop marks a running task as stopping and waits for a signal that the task
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 56b0be6..1124de0 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -168,8 +168,12 @@ func (t *T) Return(c cell.I) Op {
 }
 
 // Run steps through a tasks operations until they are exhausted.
+// If the task is already running, that continues instead.
 func (t *T) Run() {
-	t.Started()
+	if !t.Started() {
+		return
+	}
+
 	defer t.job.Stopped(t)
 
 	s := t.Op()
-- 
2.43.0


From 4b4fa2d7ddc0b90c6ee11d15945389c6c4352176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:14 +0000
Subject: [PATCH 34/51] fix: a list that contains itself could not be printed
 or compared

Printing such a list, or comparing two of them, recursed until the stack
overflowed, which nothing can recover from: the shell ended.
---
 internal/common/type/pair/pair.go | 75 +++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 66c8450..7a568ba 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -37,11 +37,13 @@ func (p *pair) Equal(c cell.I) bool {
 		return false
 	}
 
-	return p.car.Equal(Car(c)) && p.cdr.Equal(Cdr(c))
+	return p.equal(To(c), map[compared]struct{}{})
 }
 
 // Literal returns the literal representation of the pair p.
 func (p *pair) Literal() string {
+	p.finite()
+
 	return p.string(literal.String)
 }
 
@@ -52,10 +54,77 @@ func (p *pair) Name() string {
 
 // String returns the text representation of the pair p.
 func (p *pair) String() string {
+	p.finite()
+
 	return p.string(common.String)
 }
 
+type compared struct {
+	p, q *pair
+}
+
+// The pairs in seen are being compared or are equal, a list may contain itself.
+func (p *pair) equal(q *pair, seen map[compared]struct{}) bool {
+	c := compared{p, q}
+	if _, ok := seen[c]; ok {
+		return true
+	}
+
+	seen[c] = struct{}{}
+
+	same := func(a, b cell.I) bool {
+		if a != Null && b != Null && Is(a) && Is(b) {
+			return To(a).equal(To(b), seen)
+		}
+
+		return a.Equal(b)
+	}
+
+	return same(p.car, q.car) && same(p.cdr, q.cdr)
+}
+
+// The text of a list that contains itself would never end.
+func (p *pair) finite() {
+	inside := map[*pair]bool{}
+	stack := []*pair{p}
+
+	for len(stack) > 0 {
+		q := stack[len(stack)-1]
+
+		if _, seen := inside[q]; seen {
+			inside[q] = false
+			stack = stack[:len(stack)-1]
+
+			continue
+		}
+
+		inside[q] = true
+
+		for _, c := range []cell.I{q.car, q.cdr} {
+			if c == Null || !Is(c) {
+				continue
+			}
+
+			if inside[To(c)] {
+				panic("list contains itself")
+			}
+
+			if _, seen := inside[To(c)]; !seen {
+				stack = append(stack, To(c))
+			}
+		}
+	}
+}
+
 func (p *pair) string(toString func(cell.I) string) string {
+	text := func(c cell.I) string {
+		if Is(c) {
+			return To(c).string(toString)
+		}
+
+		return toString(c)
+	}
+
 	s := ""
 
 	improper := false
@@ -77,7 +146,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	if head == nil {
 		s += "()"
 	} else if head != Null {
-		s += toString(head)
+		s += text(head)
 	}
 
 	if sublist {
@@ -92,7 +161,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	if tail == nil {
 		s += "()"
 	} else {
-		s += toString(tail)
+		s += text(tail)
 	}
 
 	if improper {
-- 
2.43.0


From 3c4cec7f060c39de81e945d2937e7294885b1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:35 +0000
Subject: [PATCH 35/51] fix: a prompt without a text ended the shell

The text of what prompt returns was taken where nothing recovers, so a prompt
method returning, for example, a pipe ended the interactive shell.
---
 main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index f819032..40d29c6 100644
--- a/main.go
+++ b/main.go
@@ -357,7 +357,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 
 	for {
 		v, _ := engine.System(j, list.New(sym.New("prompt"), suffix))
-		p := common.String(v)
+		p := text(v, suffix)
 
 		err := uncooked.ApplyMode()
 		if err != nil {
@@ -423,6 +423,17 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	}
 }
 
+// The text of c or, if c has none, of other.
+func text(c, other cell.I) (s string) {
+	defer func() {
+		if recover() != nil {
+			s = common.String(other)
+		}
+	}()
+
+	return common.String(c)
+}
+
 func main() {
 	options.Parse()
 
-- 
2.43.0


From a176700ce332e420c02e5515ef26d3a1c4590ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:35 +0000
Subject: [PATCH 36/51] fix: the shell could not be started in a removed
 directory

It ended with a panic. As other shells do, use PWD from the environment.
---
 internal/engine/engine.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index ca8e824..d3dfa6f 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -37,22 +37,23 @@ func Boot(path string, arguments []string) {
 
 	job.Monitor()
 
+	pwd, err := os.Getwd()
+	if err != nil {
+		// The working directory may have been removed.
+		pwd = os.Getenv("PWD")
+	}
+
 	if path != "" {
 		path = filepath.Dir(path)
 	}
 
-	path, err := filepath.Abs(path)
+	path, err = filepath.Abs(path)
 	if err != nil {
-		panic(err.Error())
+		path = pwd
 	}
 
 	env0.Export("ORIGIN", sym.New(path))
 
-	pwd, err := os.Getwd()
-	if err != nil {
-		panic(err.Error())
-	}
-
 	env0.Export("OLDPWD", sym.New(pwd))
 	env0.Export("PWD", sym.New(pwd))
 
-- 
2.43.0


From 86374af0d3e95835d38363a2caf0a4e9651e3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:56 +0000
Subject: [PATCH 37/51] fix: exporting a list with a member that has no text
 kept every program from running

Its text was taken for the environment of each program, which raised an error.
---
 internal/common/struct/hash/hash.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/common/struct/hash/hash.go b/internal/common/struct/hash/hash.go
index 0b8e315..5b3c79b 100644
--- a/internal/common/struct/hash/hash.go
+++ b/internal/common/struct/hash/hash.go
@@ -69,8 +69,8 @@ func (h *hash) Exported() map[string]string {
 	exported := map[string]string{}
 
 	for k, v := range h.m {
-		if s, ok := v.Get().(fmt.Stringer); ok {
-			exported[k] = s.String()
+		if s, ok := text(v.Get()); ok {
+			exported[k] = s
 		}
 	}
 
@@ -104,3 +104,19 @@ func (h *hash) Size() int {
 
 	return len(h.m)
 }
+
+// The text of c, if it has one. A list with a member that has no text does not.
+func text(c cell.I) (s string, ok bool) {
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+
+	t, ok := c.(fmt.Stringer)
+	if ok {
+		s = t.String()
+	}
+
+	return s, ok
+}
-- 
2.43.0


From 414862d1caf3e5f86f054ab932d9e98665842be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:36 +0000
Subject: [PATCH 38/51] fix: a task resumed before it reported that it stopped
 could run twice or not at all

The goroutine that was stopping then marked the task as not running, although
another had started it.
---
 internal/engine/task/state.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 3e36483..a6060e7 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -123,17 +123,23 @@ func (s *state) Runnable() bool {
 
 // Started marks the task as running and returns true if it was not already.
 // A task that was asked to stop (but not interrupted), and has not done so yet,
-// carries on.
+// carries on. If it has, but has not returned from Run, Started blocks until
+// that is signaled via the condition variable stopped. Otherwise the task would
+// run twice.
 //
 // R S W -> R S W
 // 0 0 X -> 1 0 X returns true
-// 0 1 X -> 1 1 X returns true
+// 0 1 X -> 0 0 X blocks until stopped
 // 1 X X    1 0 X returns false.
 //
 func (s *state) Started() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	for s.stopping && !s.running {
+		s.stopped.Wait()
+	}
+
 	if s.running {
 		s.stopping = s.stopping && s.interrupted
 
@@ -200,7 +206,7 @@ func (s *state) Stopped() {
 	s.stopping = false
 
 	if signal {
-		s.stopped.Signal()
+		s.stopped.Broadcast()
 	}
 }
 
-- 
2.43.0


From 72f45694686f43cbbc1ecdfa039a35e50392f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:15 +0000
Subject: [PATCH 39/51] fix: the prompt method ran with the terminal in the
 line editor's mode

---
 main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 40d29c6..e98c782 100644
--- a/main.go
+++ b/main.go
@@ -356,10 +356,16 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	suffix := initial
 
 	for {
+		// The prompt method is a command and may run others.
+		err := cooked.ApplyMode()
+		if err != nil {
+			return err
+		}
+
 		v, _ := engine.System(j, list.New(sym.New("prompt"), suffix))
 		p := text(v, suffix)
 
-		err := uncooked.ApplyMode()
+		err = uncooked.ApplyMode()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e6b24ccf2d1a49c8fdc2b716ea73ad9b85dfcd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 40/51] fix: an empty line in a quoted text was dropped at the
 prompt

---
 main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index e98c782..17db440 100644
--- a/main.go
+++ b/main.go
@@ -388,11 +388,14 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			return err
 		}
 
-		if line == "" {
+		if line == "" && suffix == initial {
 			continue
 		}
 
-		cli.AppendHistory(line)
+		if line != "" {
+			cli.AppendHistory(line)
+		}
+
 		j.Append(line)
 
 		suffix = continued
-- 
2.43.0


From ec8f505acaafefae4bbbe54332d6d2f287ff1eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 41/51] fix: a prompt with a control character ended the shell

---
 main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.go b/main.go
index 17db440..aac4f7d 100644
--- a/main.go
+++ b/main.go
@@ -371,6 +371,12 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 		}
 
 		line, err := cli.Prompt(p)
+		if errors.Is(err, liner.ErrInvalidPrompt) {
+			println(err.Error())
+
+			line, err = cli.Prompt(common.String(suffix))
+		}
+
 		if err != nil {
 			if errors.Is(err, liner.ErrPromptAborted) {
 				r.Close()
-- 
2.43.0


From 5e7bb4f7a4e164de039ce159abc45e25dcea8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 42/51] fix: a job was listed with lines given up before it was
 entered

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index aac4f7d..90be8fb 100644
--- a/main.go
+++ b/main.go
@@ -383,6 +383,8 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 				r = reader.New(name)
 				suffix = initial
 
+				j = job.New(0)
+
 				continue
 			} else {
 				return err
@@ -415,6 +417,8 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			suffix = initial
 			r = reader.New(name)
 
+			j = job.New(0)
+
 			continue
 		}
 
-- 
2.43.0


From b2e28224bceca8b1bf6975bbb4b894952d2c1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:17 +0000
Subject: [PATCH 43/51] fix: exit did not save the command history

---
 internal/engine/engine.go |  9 +++++++++
 main.go                   | 10 ++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index d3dfa6f..66a6d94 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -86,6 +86,11 @@ func Boot(path string, arguments []string) {
 	sym.Cache(false)
 }
 
+// AtExit sets the function called before the shell exits because a command told it to.
+func AtExit(f func()) {
+	atExit = f
+}
+
 // Evaluate evaluates the command c.
 func Evaluate(j *job.T, c cell.I) cell.I {
 	r, exited := System(j, c)
@@ -96,6 +101,8 @@ func Evaluate(j *job.T, c cell.I) cell.I {
 			code = success(r)
 		}
 
+		atExit()
+
 		os.Exit(code)
 	}
 
@@ -142,6 +149,8 @@ func System(j *job.T, c cell.I) (cell.I, bool) {
 
 //nolint:gochecknoglobals
 var (
+	atExit = func() {}
+
 	env0   scope.I
 	frame0 *frame.T
 	scope0 scope.I
diff --git a/main.go b/main.go
index 90be8fb..04d4e57 100644
--- a/main.go
+++ b/main.go
@@ -262,11 +262,17 @@ func interactive() bool {
 		println(err.Error())
 	}
 
-	defer func() {
-		err = history.Save(cli.WriteHistory)
+	save := func() {
+		err := history.Save(cli.WriteHistory)
 		if err != nil {
 			println(err.Error())
 		}
+	}
+
+	engine.AtExit(save)
+
+	defer func() {
+		save()
 
 		_, _ = os.Stdout.Write([]byte{'\n'})
 	}()
-- 
2.43.0


From d8e56e16577eb6bffd56cd748e10b878160e16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:03 +0000
Subject: [PATCH 44/51] fix: completion after a character of several bytes
 split the line elsewhere

---
 main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 04d4e57..4cde733 100644
--- a/main.go
+++ b/main.go
@@ -71,8 +71,11 @@ func command() bool {
 
 func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []string, t string) {
 	return func(s string, n int) (h string, cs []string, t string) {
-		h = s[:n]
-		t = s[n:]
+		// The position is in characters.
+		line := []rune(s)
+
+		h = string(line[:n])
+		t = string(line[n:])
 
 		last := strings.LastIndexAny(h, " ()")
 		completing := h[last+1:]
-- 
2.43.0


From f2911892cd24eedb0edd6876c320a887c0cc76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:04 +0000
Subject: [PATCH 45/51] fix: the entries of a linked directory, or of /, were
 not found

---
 internal/system/cache/cache.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 2041152..9b1e78f 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,8 +49,6 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
@@ -77,23 +75,10 @@ func Files(dirname string) []string {
 			return nil
 		}
 
-		depth := strings.Count(p, pathSeparator)
-		if depth > max {
-			if i.IsDir() {
-				return filepath.SkipDir
-			}
-
-			return nil
-		} else if depth < max {
-			return nil
-		}
-
-		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
-		}
+		p = filepath.Join(original, filepath.Base(p))
 
 		switch {
-		case p != pathSeparator && i.IsDir():
+		case i.IsDir():
 			p += pathSeparator
 			e = append(e, p)
 
@@ -103,6 +88,11 @@ func Files(dirname string) []string {
 
 		f = append(f, p)
 
+		// Only what is in dirname itself.
+		if i.IsDir() {
+			return filepath.SkipDir
+		}
+
 		return nil
 	})
 
-- 
2.43.0


From 52972757a55014c21d6c4158cbcada7a57b20286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:59 +0000
Subject: [PATCH 46/51] fix: completion proposed nothing for relative words in
 / and wrong words for /..

---
 main.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/main.go b/main.go
index 4cde733..54dc930 100644
--- a/main.go
+++ b/main.go
@@ -32,13 +32,9 @@ var (
 )
 
 func clean(s string) string {
-	if s == "." || s == pathSeparator+"." {
-		return s
-	}
-
 	head, tail := split(s)
 	if tail == s {
-		head, tail = tail, head
+		return s
 	}
 
 	return filepath.Clean(head) + tail
@@ -307,21 +303,18 @@ func matches(cached func(string) []string, candidates []string, word string) []s
 		}
 
 		for _, p := range cached(dirname) {
-			if candidate != pathSeparator && len(basename) == 0 {
-				suffix := strings.TrimPrefix(p, dirname)
-				if strings.HasPrefix(suffix, ".") {
-					continue
-				}
-			} else if !strings.HasPrefix(p, candidate) {
-				continue
+			name := filepath.Base(p)
+			if strings.HasSuffix(p, pathSeparator) {
+				name += pathSeparator
 			}
 
-			if len(candidate) > len(p) {
-				return nil
+			if candidate != pathSeparator && len(basename) == 0 && strings.HasPrefix(name, ".") {
+				continue
+			} else if !strings.HasPrefix(name, basename) {
+				continue
 			}
 
-			s := strings.Index(p, candidate) + len(candidate)
-			completion := word + p[s:]
+			completion := word + name[len(basename):]
 			completions = append(completions, completion)
 		}
 	}
-- 
2.43.0


From d149f21391111c605f592b7adc94ebd122aab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:11 +0000
Subject: [PATCH 47/51] fix: completion proposed nothing in a directory with a
 colon in its name

---
 main.go | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/main.go b/main.go
index 54dc930..7d8bfad 100644
--- a/main.go
+++ b/main.go
@@ -27,8 +27,7 @@ import (
 
 //nolint:gochecknoglobals
 var (
-	pathListSeparator = string(os.PathListSeparator)
-	pathSeparator     = string(os.PathSeparator)
+	pathSeparator = string(os.PathSeparator)
 )
 
 func clean(s string) string {
@@ -126,7 +125,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 
 			process.RestoreForegroundGroup()
 
-			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
+			cs = files(cache.Files, cwd, home, completing)
 
 			cfname := common.String(pair.Car(v))
 			if cfname != "_minimal" && cfname != "_filedir_xspec" {
@@ -156,27 +155,6 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 	}
 }
 
-func directories(s string) []string {
-	dirs := []string{}
-
-	for _, dir := range strings.Split(s, pathListSeparator) {
-		if dir == "" {
-			dir = "."
-		} else {
-			dir = filepath.Clean(dir)
-		}
-
-		stat, err := os.Stat(dir)
-		if err != nil || !stat.IsDir() {
-			continue
-		}
-
-		dirs = append(dirs, dir)
-	}
-
-	return dirs
-}
-
 func expand(cwd, home, candidate string) (string, bool) {
 	dotdir := false
 	prefix := candidate + "   "
@@ -199,18 +177,14 @@ func expand(cwd, home, candidate string) (string, bool) {
 	return candidate, dotdir
 }
 
-func files(cached func(string) []string, cwd, home, paths, word string) []string {
+func files(cached func(string) []string, cwd, home, word string) []string {
 	candidate, dotdir := expand(cwd, home, word)
 
-	candidates := []string{candidate}
 	if !path.IsAbs(candidate) && !dotdir {
-		candidates = directories(paths)
-		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
-		}
+		candidate = cwd + pathSeparator + candidate
 	}
 
-	return matches(cached, candidates, word)
+	return matches(cached, []string{candidate}, word)
 }
 
 func interactive() bool {
-- 
2.43.0


From d8af971b16308979fd6b3896ec8093bc599760cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:23 +0000
Subject: [PATCH 48/51] fix: completing ~ proposed names that are not in the
 home directory

---
 main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.go b/main.go
index 7d8bfad..f28598b 100644
--- a/main.go
+++ b/main.go
@@ -178,6 +178,11 @@ func expand(cwd, home, candidate string) (string, bool) {
 }
 
 func files(cached func(string) []string, cwd, home, word string) []string {
+	if word == "~" {
+		// Alone it is a directory, not the beginning of a name.
+		word += pathSeparator
+	}
+
 	candidate, dotdir := expand(cwd, home, word)
 
 	if !path.IsAbs(candidate) && !dotdir {
-- 
2.43.0


From 1e98e1679a73cd09330a59aac9f297ce338576f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 49/51] fix: an improper list of more than one pair was written
 as a proper one

(cons a (cons b c)) was written as (a (|cons b c|)), which reads back as a
list of two elements. Every pair of an improper list is now written as a
cons.
---
 internal/common/type/pair/pair.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/common/type/pair/pair.go b/internal/common/type/pair/pair.go
index 7a568ba..66d4b87 100644
--- a/internal/common/type/pair/pair.go
+++ b/internal/common/type/pair/pair.go
@@ -130,7 +130,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	improper := false
 
 	tail := Cdr(p)
-	if !Is(tail) {
+	if !proper(tail) {
 		improper = true
 		s += "(|" + name + " "
 	}
@@ -138,7 +138,7 @@ func (p *pair) string(toString func(cell.I) string) string {
 	sublist := false
 
 	head := Car(p)
-	if Is(head) && Is(Cdr(head)) {
+	if Is(head) && proper(head) {
 		sublist = true
 		s += "("
 	}
@@ -171,6 +171,15 @@ func (p *pair) string(toString func(cell.I) string) string {
 	return s
 }
 
+// proper returns true if c is a list, that is, if its last tail is Null.
+func proper(c cell.I) bool {
+	for Is(c) && c != Null {
+		c = To(c).cdr
+	}
+
+	return c == Null
+}
+
 // Functions specific to pair.
 
 // Car returns the car/head/first member of the pair c.
-- 
2.43.0


From 4bf6381c6cccd8656ca0e8f4b9dddb975c00d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 50/51] fix: a number that is not whole could not be read back

write writes a third as (|number 1/3|). The lexer splits 1/3 in three, and
the parser took the text of the list that puts it back together for the
number.
---
 internal/reader/parser/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index ffc051e..d6e7810 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -507,7 +507,7 @@ func (p *T) meta(c cell.I) cell.I {
 		panic("invalid meta command")
 	}
 
-	t = pair.Cadr(c)
+	t = whole(pair.Cadr(c))
 
 	arg, ok := t.(fmt.Stringer)
 	if ok {
@@ -601,3 +601,22 @@ func (p *T) word() cell.I {
 
 	return p.symbol(t)
 }
+
+// whole returns the text of a word like 1/3 or 1.5, that was read in parts.
+func whole(c cell.I) cell.I {
+	if !pair.Is(c) || c == pair.Null {
+		return c
+	}
+
+	h := pair.Car(c)
+	if !sym.Is(h) || sym.To(h).String() != "mend" {
+		return c
+	}
+
+	s := ""
+	for c = pair.Cddr(c); c != pair.Null; c = pair.Cdr(c) {
+		s += common.String(pair.Car(c))
+	}
+
+	return str.New(s)
+}
-- 
2.43.0


From ab0ab9e7eacc568f1ef4294340051126dbb5acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:19 +0000
Subject: [PATCH 51/51] fix: umask 0 sets the mask to 0 instead of only
 reporting it

---
 internal/engine/commands/umask_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/commands/umask_unix.go b/internal/engine/commands/umask_unix.go
index 8ee8c05..827640e 100644
--- a/internal/engine/commands/umask_unix.go
+++ b/internal/engine/commands/umask_unix.go
@@ -23,7 +23,7 @@ func umask(args cell.I) cell.I {
 
 	omask := process.Umask(int(nmask))
 
-	if nmask == 0 {
+	if len(v) == 0 {
 		process.Umask(omask)
 	}
 
-- 
2.43.0

