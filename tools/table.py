A = "internal/engine/task/action.go"

prop("C01", "No command, input or failure crashes the shell",
 "Whatever a command does, whatever text is read, whatever its processes, signals and jobs do and in whichever order, and whatever the system refuses, the shell goes on: an error in a command becomes an exception in that command, never an error in a part of the shell that nothing recovers. No task is performed twice at a time, no command's end is told twice, text and comparison of lists that contain themselves end, and the process ends only when the shell was told to exit, its input ends, or its command line is wrong.",
 ["inputs", "programs", "schedules", "histories", "fault_sequences"],
 "every function that can run where nothing recovers and each operation in it that can fail; every bounded history of the job service; every kind of error an operation raises",
 "A crash needs a value, failure or order of events that nobody thought of: a process not one's own, a file that vanishes, a stop just before a continue. A test that thought of it would have been followed by a repair.",
 ["main.go", "internal/engine/engine.go", "internal/engine/task/task.go", "internal/system/job/job_unix.go", "internal/system/cache/cache.go", "internal/reader/parser/parser.go", "internal/common/type/pair/pair.go"],
 [("recovery in a task's step", "internal/engine/task/task.go"), ("the job service's goroutine", "internal/system/job/job_unix.go"), ("the interactive loop and completion", "main.go"), ("the reader's goroutine and parser recovery", "internal/reader/parser/parser.go"), ("exit codes", "internal/engine/engine.go")],
 "interprocedural reachability of unrecovered code over SSA and the VTA call graph; nilness, conversion, index and explicit-panic obligations discharged by dominating checks, callers or abstract interpretation; explicit-state exploration of the abstractly interpreted job service",
 "Code under a deferred function that always recovers is excluded. Histories: one foreground job of up to three tasks and two processes, a next command; five further events quick, seven thorough. Variable indices, exhausted memory and very deep nesting are not covered; what libraries raise is limited to a list of known functions.")

prop("C02", "Evaluating any expression yields exactly one value, operands in order",
 "Evaluating a command, whatever form, builtin, method or syntax it invokes and whatever path that takes, leaves exactly one non-nil value for whoever asked for it and nothing else behind. Operands of methods and builtins are evaluated once each, left to right, before the call; syntax receives its operands unevaluated. The control forms (block, if, while, define, export, set, return, spawn, throw handling) evaluate just the parts their meaning requires, in order, and yield the value that meaning requires.",
 ["programs", "inputs"],
 "every program: every form and builtin the shell registers, with arbitrary sub-commands that may themselves do anything that yields a value",
 "The script tests sample a few dozen commands; a push or pop too many on one path of one form shows only when that path is nested inside a particular outer form.",
 [A, "internal/engine/task/registers.go", "internal/engine/task/operation.go", "internal/engine/task/state.go", "internal/engine/task/task.go", "internal/engine/commands/core.go"],
 [("stack machine operations", A), ("dump (value stack) push/pop", "internal/engine/task/registers.go"), ("registration of forms and builtins", "Actions in " + A)],
 "abstract interpretation of the evaluator over SSA, compared with a reference meaning per form",
 "Decided for every registered form and builtin on every path up to the stated bounds (argument lists to length 4, three unknown loop decisions); sub-commands are covered by the induction hypothesis. Not covered: what a library command computes (other properties), and timing.")

prop("C03", "Scopes nest lexically and are restored after every command",
 "After any command finishes, on every path, the caller continues in the frame and scope it was in before. A block, method body, or spawned body runs in one fresh scope inside the scope it belongs to (the caller's for a block, the defining one for a method, syntax or spawned body), so definitions made inside are invisible outside. Parameters are bound in that fresh scope to the corresponding arguments, the rest parameter to all the remaining ones, and the environment parameter of a syntax or method to the caller's scope.",
 ["programs"],
 "every program built from the core forms, with arbitrary sub-commands",
 "A leaked or unrestored scope shows only when a later command happens to resolve a name that differs between the two scopes; tests use few nested definitions.",
 [A, "internal/engine/task/closure.go", "internal/engine/task/method.go", "internal/engine/task/syntax.go", "internal/common/struct/frame/frame.go", "internal/common/type/env/env.go"],
 [("scope push and frame restore operations", A), ("argument binding (apply)", A), ("frame and environment chain", "internal/common/struct/frame/frame.go")],
 "abstract interpretation of the evaluator over SSA, frame/scope obligations on every path",
 "Same interpretation and bounds as C02.")

K = "internal/engine/commands/"

prop("C27", "A continuation may be called any number of times, and resumes the same way",
 "return, kept and called after its method has returned, means what returning the value there would have meant: the rest of the caller's command and of every command around it is carried out with that value, in the frames and with the operands and results they had, and whatever the calling code had still to do is abandoned. It means that each time it is called, whatever has run in between, from wherever it is called, in its own task or another.",
 ["programs", "histories"],
 "every listed context of a method call (blocks, operands, definitions, conditions, loops, method bodies) by every listed place a continuation is called from, each called several times, with arbitrary sub-commands",
 "What a continuation saved is shared with everything that runs on; an operation, result or argument list updated in place gives the right answer the first time, and every program that never returns twice is blind to it.",
 [A, "internal/engine/task/registers.go", "internal/engine/task/method.go"],
 [("capture (apply) and continuation", A), ("stack and dump operations", "internal/engine/task/registers.go")],
 "abstract interpretation of the evaluator over SSA; differential: each call of the continuation against the same program with an opaque command where the method call stood",
 "Contexts nested to depth three, up to three calls quick and five thorough; sub-commands are covered by the induction hypothesis of C02. Variables assigned in between keep what was assigned, by design.")

prop("C14", "Equality is by value, total and type-strict",
 "equal? and every cell's Equal answer for any two values and never fail: a value equals itself; two numbers, two statuses, two strings or two symbols are equal exactly when they hold the same number or text; two lists exactly when their heads and tails are equal; the empty list equals only itself; values of different types are never equal; environments, objects, methods, builtins, tasks, pipes and channels equal only themselves. equal? with several operands holds exactly when every adjacent pair is equal, and with fewer than two it raises an error.",
 ["inputs"], "every pair of cell types, arbitrary contents, operand lists up to a stated length",
 "With over a dozen cell types there are hundreds of pairings, and the wrong ones (an empty list inside a longer list, a status against a number) are not among the few that tests compare.",
 ["internal/common/type/pair/pair.go", "internal/common/type/num/num.go", "internal/common/type/status/status.go", "internal/common/type/str/str.go", "internal/common/type/sym/sym.go", K + "relational.go"],
 [("Equal of every cell type", "internal/common/type"), ("equal? builtin", K + "relational.go")],
 "abstract interpretation of Equal over SSA for every pair of cell types",
 "Lists are compared one level deep with the comparison of their parts as induction hypothesis. Operand lists up to length 4 (quick) or 6 (thorough). Continuations may compare field by field.")

prop("C15", "Truth values, type predicates and orderings are consistent",
 "The empty list, the number zero and a non-zero status are false and everything else is true, for bool, not, and every conditional alike. Each type predicate (number?, string?, symbol?, cons?, null?, chan?, pipe?, object?) answers true exactly for values of its type. lt?, le?, gt? and ge? hold exactly when every adjacent pair of operands is in that order, compare by exact numeric value, and with fewer than two operands raise an error.",
 ["inputs"], "every cell type with arbitrary contents; operand lists up to a stated length with every outcome of every comparison",
 "A comparison that ignores its last operand, or a predicate that misjudges one of a dozen types, is invisible to tests that compare two small integers.",
 [K + "relational.go", K + "logical.go", K + "number.go", K + "string.go", K + "symbol.go", K + "pair.go", K + "channel.go", K + "pipe.go", "internal/common/interface/boolean/boolean.go"],
 [("truth value of a cell", "internal/common/interface/boolean/boolean.go"), ("chained comparisons", K + "relational.go")],
 "abstract interpretation of the builtins over SSA with symbolic operands, compared with the predicate's meaning",
 "Operand lists up to length 4 (quick) or 6 (thorough); math/big comparison assumed correct.")

prop("C24", "Arithmetic is exact and never mistakes its operands",
 "add, sub, mul and div yield exactly the sum, difference, product or quotient of their operands taken left to right, as an exact rational whatever the size of the operands, and add of nothing is zero; mod yields the Euclidean remainder of two integers. A zero divisor, a missing operand, an operand that is not a number, and (for mod) an operand that is not an integer raise an error instead of giving a result.",
 ["inputs"], "operands of any value; operand lists up to a stated length",
 "A wrong fold order, a dropped operand or a wrong receiver shows only for particular operand counts and values.",
 [K + "arithmetic.go", "internal/common/type/num/num.go", "internal/common/interface/rational/rational.go"],
 [("arithmetic builtins", K + "arithmetic.go")],
 "abstract interpretation over SSA with math/big as a value-term algebra; results compared as rational functions",
 "Operand lists up to length 4 (quick) or 6 (thorough); math/big assumed exact.")

NA = "not decidable from source in reach: "
prop("C91", "Pattern matching and globbing select exactly the matching names",
 "Globbing an argument yields exactly the existing paths that match the pattern, in sorted order.",
 ["inputs", "configurations"], "all patterns and directory contents", "Tests glob two fixed directories.",
 ["internal/engine/task/task.go"], [("glob expansion", "expand in internal/engine/task/task.go")],
 "", "", na="the matching is done by the external adapted and filepath packages and depends on directory contents at run time; only when expansion is attempted (quoted or not) is visible in this code, and that is C06")
prop("C92", "Pipelines deliver all output in order and terminate",
 "Every byte written to a pipeline stage reaches the next stage in order and the pipeline ends when its stages end.",
 ["schedules", "histories"], "all schedules of the stages", "Tests run one schedule.",
 ["internal/common/type/pipe/pipe.go", "internal/engine/boot/boot.oh"], [("pipe conduit", "internal/common/type/pipe/pipe.go")],
 "", "", na="ordering and liveness of a history across processes and the kernel's pipes; the structural necessary conditions (each end closed on every path, no lock held across blocking I/O) are claimed as C05 and C10")

T = "internal/common/type/"
S = "internal/common/struct/"

prop("C13", "A value never changes because of what was computed from it",
 "Numbers, strings, symbols, statuses and the names in an environment never change once made; computing a result from a value leaves the value as it was. Every builtin and method leaves its operands, the elements they hold, and the receiver unchanged, except those whose purpose is to change them: assignment and definition in a scope or object, set-head and set-tail on a list, and reads, writes and closes on conduits.",
 ["inputs", "histories"], "every registered builtin and method, with operands of every type, and every function in the module that writes to a number",
 "An operand that shares storage with a result is wrong only when the operand is used again later; tests look at the result.",
 [K + "arithmetic.go", K + "pair.go", K + "string.go", T + "num/num.go", T + "pair/pair.go", "internal/common/interface/rational/rational.go"],
 [("rational operations on shared *big.Rat", K + "arithmetic.go"), ("list mutators", T + "pair/pair.go")],
 "freshness dataflow on every math/big destination and cell store; abstract interpretation of each builtin with writes to operands reported",
 "Operand lists up to length 4; three unknown loop decisions per path. Aliasing through Go library calls other than math/big and strings is assumed absent.")

prop("C20", "Builtins validate their operands and compute what they document",
 "Every builtin and method given any number of operands of any type either returns its documented result or raises an error a script can catch that says what was wrong; it never fails on an internal fault (nil dereference, failed type assertion, index out of range). Indexing and slicing accept exactly the positions they document, counting from the end when negative: a list's get and slice, a string's slice, length, mend and the string transformations yield exactly the elements or characters meant. umask with an operand leaves exactly that mask, zero included, and without one changes nothing.",
 ["inputs"], "every registered builtin and method; operand lists of every length to a bound and every cell type in each position; every index",
 "There are over a hundred builtins with a dozen operand types each; tests exercise the intended one.",
 [K + "commands.go", K + "core.go", K + "pair.go", K + "list.go", K + "string.go", K + "symbol.go", K + "conduit.go", "internal/common/validate/validate.go", "internal/common/interface/literal/literal.go", "internal/common/type/list/list.go"],
 [("operand validation", "internal/common/validate/validate.go"), ("registries of builtins and methods", K)],
 "abstract interpretation of every registered builtin over SSA: arity tables, no internal fault, and result terms against a reference",
 "Operand lists up to length 4 (quick) or 6 (thorough), three unknown loop decisions per path; index arithmetic decided by case split over sign and bounds. Methods not given an arity by their documentation are checked only for faults reachable within the declared exceptions.")

prop("C25", "Names resolve to the innermost binding and assignment reaches that one",
 "A name refers to its definition in the innermost scope that defines it, then in each enclosing scope outwards, and only then in the frames of the callers, nearest first. Defining a name creates or replaces it in the innermost scope and changes no other; assigning to it changes the one binding it refers to and no other, and assigning to or removing a name that is not defined is reported; removing it removes the nearest one.",
 ["programs", "histories"], "chains of scopes and frames up to a stated depth with the name defined in every subset of them",
 "Wrong resolution shows only when a name is defined in two scopes at once; tests rarely shadow.",
 [T + "env/env.go", S + "hash/hash.go", S + "frame/frame.go", "internal/engine/task/action.go"],
 [("scope chain", T + "env/env.go"), ("frame chain", S + "frame/frame.go")],
 "abstract interpretation of scope and frame operations over SSA for every definition pattern of a bounded chain",
 "Chains of up to 4 scopes and 4 frames, every subset of definitions.")

prop("C19", "Objects expose only exported names and copies are independent",
 "A member of an object is visible, from outside it, only if it was exported there; private members are visible only to code inside the object, and assignment from outside reaches only exported names. A clone of a scope or object has the same members, and afterwards a definition, assignment or removal in one does not show in the other.",
 ["programs", "histories"], "every combination of private and exported definitions of a name along a chain of scopes, and every operation after a clone",
 "Leaks appear only when a private name is looked up through an object, or after one of two copies is changed.",
 [T + "obj/obj.go", T + "env/env.go", S + "hash/hash.go"],
 [("object access to a scope", T + "obj/obj.go"), ("scope clone", T + "env/env.go")],
 "abstract interpretation of scope, hash and object operations over SSA for every visibility pattern of a bounded chain",
 "Chains of up to 3 scopes; one name at a time.")

prop("C10", "Shared tables and channels are guarded by one lock and cannot deadlock",
 "Every field of a scope, hash table, pipe, task state or other lock-bearing structure that changes after construction, and every shared package table, is read and written only with its lock held, exclusively when written, whatever tasks do at the same time. No such lock is held across something that can block, taken twice by one task, or taken in conflicting orders, and each is released on every path, including failures.",
 ["schedules"], "every access in the module, all interleavings of tasks",
 "A missing lock or a lock kept over a blocking call fails only in rare interleavings; the tests run one.",
 [S + "hash/hash.go", T + "pipe/pipe.go", "internal/engine/task/state.go", T + "sym/sym.go", T + "env/env.go"],
 [("embedded mutexes", "internal/common"), ("task state lock", "internal/engine/task/state.go")],
 "interprocedural must-lockset dataflow over SSA with a VTA call graph; lock-order graph and blocking-effect analysis",
 "Structures are assumed shared only after their constructor returns; interface calls are resolved by variable type analysis. Lists (cons cells) carry no lock by design and are outside the claim.")

J = "internal/system/job/job_unix.go"

prop("C11", "The job and completion services own their state and always answer",
 "All the state that records jobs, processes, tasks waiting on each other, and cached executables is touched only by the one goroutine that owns it; everything else asks that goroutine, by a request. Each request is performed once, its reply always arrives, and a request never waits for anything, so the service cannot stop answering; nor does a request change the registers of a task that another goroutine is running.",
 ["schedules", "histories"],
 "every access to that state in the program; every operation of the two services, from several states",
 "State touched from a second goroutine, or a path that forgets the reply, fails or hangs only for a particular timing or an unusual argument.",
 [J, "internal/system/cache/cache.go", "internal/engine/task/task.go", "internal/engine/task/state.go"],
 [("the job service's request loop", J), ("the cache service's request loop", "internal/system/cache/cache.go")],
 "thread-confinement analysis over SSA and the VTA call graph; abstract interpretation of every request",
 "Confinement, waiting and register effects are decided for the whole program; replies are decided for each operation with one job, one task and one process. Writing to the standard output is not counted as waiting.")

prop("C12", "Every wait returns once, when the last awaited task has ended, with its status",
 "A command waiting for tasks or for a process continues exactly once, after the last of them has ended and not before; waiting for what has already ended continues at once. The status of each process reaches the task that started it, once, and stopping or continuing it in between changes nothing. What a task is told to do at the same moment (notify, stop, interrupt) is never lost.",
 ["schedules", "histories"],
 "every order of spawning, awaiting, starting, stopping, continuing and ending up to a stated number of tasks, waiters and processes",
 "A lost or doubled wake-up needs a particular order of events: tests have tasks that end before or after, not in between.",
 [J, "internal/engine/task/state.go", "internal/engine/task/task.go"],
 [("wait groups (Await, tell)", J), ("process status (reap, notify)", J), ("task state", "internal/engine/task/state.go")],
 "abstract interpretation of the job service and task state over SSA, compared with a reference protocol, typestate of the task state",
 "Up to three tasks, two waiters and two processes; requests atomic by C11; iteration over maps in both directions.")

prop("C26", "Ctrl-C, Ctrl-Z, fg and bg act on exactly the job meant",
 "An interrupt from the terminal ends the foreground job with all its tasks and nothing else, and a task told to end ends whatever it was doing, even if it was told to stop at the same moment. A stop from the terminal, or the last of a job's processes stopping, stops that job and lists it under a new number; fg and bg continue the numbered job (the last, if none is named), each of its processes and tasks, fg in the foreground with the terminal and in place of the current job, bg without; an unknown number is reported. Processes of a job share one process group for as long as one of them is left.",
 ["schedules", "histories"],
 "every sequence of start, stop, continue, fg, bg and end for up to two jobs with two processes and nested tasks",
 "Job control needs a terminal and signals; no test exercises any of it.",
 [J, "internal/engine/task/task.go", "internal/engine/task/state.go", "internal/system/process/process_unix.go"],
 [("signal handling (monitor)", J), ("Fg and Bg", J), ("process groups (Execute, notify)", J)],
 "abstract interpretation of the job service over SSA through scenarios, compared with a reference",
 "As C12; what the kernel does with signals and groups is assumed as documented.")

prop("C06", "Quoted words are passed on as written, unquoted ones expanded",
 "A quoted word, and a word any part of which is quoted, reaches a command as exactly its text. In an unquoted word a leading ~ stands for the home directory, and *, ? and [...] make it a pattern, which becomes the names that match it, in its place, relative to PWD (relative patterns) or absolute; a pattern matching nothing is reported. What stands for PWD or HOME is never itself a pattern. In a double quoted text $name and ${name} become the text of the variable, $$ a dollar sign, everything else stays; a name not defined is reported.",
 ["inputs"], "all texts of words, all working and home directories, every outcome of the search for names; texts to interpolate up to a stated length",
 "The tests use a handful of plain words; words with pattern characters in quotes, or in the name of the directory they are used in, are where text is lost or another directory's files are acted on.",
 [A, "internal/engine/task/task.go", K + "core.go"],
 [("expand, tildeExpand", "internal/engine/task/task.go"), ("interpolate", A), ("mend", K + "core.go")],
 "abstract interpretation of the evaluator over SSA, compared with a reference; the search pattern and the interpolation pattern decided as languages",
 "Three working and two home directories stand for others; interpolation pattern compared on all texts to length 7 over two alphabets, and every character after the sign. How a line is split into words is C16 and C17.")

prop("C07", "An external program gets exactly its arguments, directory, files and environment",
 "Running a program starts the executable its name finds along PATH, once, with the name as given followed by every argument in order, unchanged, in the directory PWD, with the current stdin, stdout and stderr. Its environment is every exported name with a text, each once, with the innermost exported value, and no private definition; the environment the shell was given is passed on unchanged. If nothing is found, or an argument has no text, or the system refuses, an exception is raised and nothing runs.",
 ["programs", "inputs"], "every form of command, arbitrary argument texts, every pattern of definitions of a name",
 "Tests run a few programs with plain arguments; a private variable leaking into the environment or an argument dropped in one form shows in none of them.",
 [A, "internal/engine/task/task.go", "internal/common/struct/hash/hash.go", J, "internal/engine/engine.go"],
 [("external", A), ("Environ", "internal/engine/task/task.go"), ("Execute", J), ("init", "internal/engine/engine.go")],
 "abstract interpretation of evaluator, scopes, job service and start-up over SSA, compared with a reference",
 "Up to four arguments; two scopes in each of two frames; finding executables is adapted.LookPath's business.")

prop("C08", "PWD always names the working directory, and a failed cd changes nothing",
 "cd to a path, with no argument, with - or with ~, and naming a directory as a command, change the working directory to exactly the directory meant (relative paths from PWD), after which PWD names it and OLDPWD the one before, in the current scope. If the change fails, neither the directory nor either variable changes. Nothing else in the shell changes the directory or these variables.",
 ["inputs", "histories"], "every form, arbitrary paths and values of PWD, OLDPWD and HOME, success and failure of the system call",
 "A PWD that disagrees with the directory sends later relative patterns and programs to the wrong place; the tests hardly change directory.",
 [A, "internal/engine/task/task.go", "internal/engine/engine.go"],
 [("cd", A), ("Chdir", "internal/engine/task/task.go"), ("external, for directories", A)],
 "abstract interpretation of the evaluator over SSA with symbolic texts; call-graph query for other uses of chdir",
 "The directory is the process's own, so that tasks running at once share it; paths are compared lexically.")

prop("C09", "Exit statuses are those of the commands, and exit ends the shell with its own",
 "The value of an external command is its exit code, or 128 plus the signal that killed it, core or not. exit with a value ends the shell with that value as exit code (its truth, when it is not a number), exit with none ends it successfully, and with bad arguments it raises and ends nothing; no other command ends the shell. $? is the value of the last command at top level. Every other way the shell itself exits gives a failure code.",
 ["inputs"], "every wait status; every kind of result; every argument count",
 "A status mangled for one signal, or an exit honoured after a failed exit, shows only for that value.",
 [J, A, "internal/engine/engine.go", "internal/engine/task/state.go"],
 [("reap and notify", J), ("exit and fatal", A), ("Evaluate, exitcode, success", "internal/engine/engine.go")],
 "abstract interpretation of the job service, evaluator and top-level evaluation over SSA, exhaustively over wait statuses",
 "Linux layout of wait statuses.")

prop("C28", "The command line decides what runs, verbatim",
 "oh SCRIPT runs the file of exactly that path, whatever characters it holds; oh -c COMMAND runs exactly the commands in that text, each once, in order; with neither it is interactive when on a terminal (-i and -m invert interaction and job control). $0, $1... and $@ are the texts given, quoted, $ORIGIN the directory of the script, PWD the directory started in. A command that cannot be read in full runs nothing and fails; -v runs nothing.",
 ["inputs"], "every form of the command line, with paths and arguments of any characters, with and without a terminal",
 "A script path with a space or a semicolon is run as code; tests name scripts plainly.",
 ["main.go", "internal/system/options/options.go", "internal/engine/engine.go"],
 [("main, command", "main.go"), ("Parse", "internal/system/options/options.go"), ("Boot", "internal/engine/engine.go")],
 "abstract interpretation of the program's entry point over SSA for every form of the command line, compared with a reference",
 "Seventeen script paths chosen for their characters; what docopt makes of the arguments is assumed from the usage text; commands read from a terminal are C23's.")

B = "internal/engine/boot/boot.oh"
BM = "abstract interpretation of the start-up script's source (effects and typestate of conduits, every choice and interleaving), compared with a reference"

prop("C04", "Redirections connect exactly the streams meant and undo it afterwards",
 "<, >, >|, >>, >&, >&| and >>& evaluate their operand once, open exactly the file it names (or use the pipe or channel it is), run the command once with that in place of stdin, stdout, or stdout and stderr, the other streams and all variables as they were, close what they opened however the command ends, pass on its value or exception, and leave the streams of what follows untouched. > and >& refuse a file that exists (devices excepted), >| and >&| empty it, >> and >>& add to its end, < needs it to exist. A name that cannot be opened, or a pattern not naming exactly one file, is an exception and the command does not run.",
 ["programs", "inputs", "faults"], "every operator with every kind of operand, state of the file and kind of command, the command free to write, return or throw; combined and nested redirections",
 "Clobbering, a file left open after an exception, or a variable of the command hidden by one of the shell's own shows only for one operator, state and outcome together; tests use a few files.",
 [B, K + "file.go", K + "core.go", "internal/common/type/pipe/pipe.go", "internal/reader/lexer/lexer.go"],
 [("redirection operators", B), ("open", K + "file.go"), ("exists", K + "core.go"), ("operator table", "internal/reader/lexer/lexer.go")],
 BM + "; abstract interpretation of open, exists and the lexer over SSA",
 "Thirteen kinds of operand and eight of command stand for all; os.OpenFile's flags mean what is documented; other tasks do not change the file system between the check and the opening.")

prop("C05", "Pipelines, capture and process substitution run all parts and lose nothing",
 "a | b and a |& b run both commands at once, each exactly once, with a's stdout (and stderr) connected to b's stdin by a fresh pipe and every other stream as it was; what a writes is what b reads, in order, and b sees the end when a is done; if b stops reading, a's writes fail. The pipeline is done when both are, both ends are closed, and an exception of either comes out of it, none being invented. Capture yields the lines the command wrote. |<( ) and |>( ) pass the command the names of fifos connected to the commands in parentheses, removed when it is done. None of this waits forever or leaves anything running, and variables keep their meaning in every part.",
 ["schedules", "programs", "faults"], "every interleaving of two and three commands free to write, read, return and throw, with little and much room in the pipe; captures nested in pipelines and the reverse; process substitution with one or two commands",
 "Deadlocks, lost last lines, ends left open and lost exceptions depend on which side is faster and who fails when; tests see one schedule of programs that succeed.",
 [B, "internal/common/type/pipe/pipe.go", "internal/common/type/chn/chn.go", "internal/reader/lexer/lexer.go"],
 [("make-pipe, capture, process-substitution", B), ("override-stdin, override-stdout", B)],
 BM + "; abstract interpretation of pipes and channels over SSA under every schedule with one preemption",
 "Up to three commands, two lines each; a command given fifos opens each of them, in order (one that does not leaves the other side waiting, as in any shell).")

prop("C18", "&&, ||, and, or and not evaluate just what they must, left to right",
 "and and && evaluate their operands in order in the caller's scope until one is false, or and || until one is true; the value is that of the last operand evaluated. not yields the opposite truth. && binds tighter than ||, both looser than |; a line may end after either. An exception or return in an operand leaves the whole expression.",
 ["programs"], "every number of operands up to a bound, each free to be true, false in either way, or to throw; mixed, nested, in conditions, methods, objects, pipelines",
 "A later operand run once too often, or a value replaced by true, shows only for one pattern of truth values.",
 [B, "internal/reader/parser/parser.go", "internal/reader/lexer/lexer.go"],
 [("and, or, not", B), ("command, possibleAndf", "internal/reader/parser/parser.go")],
 BM, "Four operands (seven in the thorough run).")

prop("C29", "An exception goes to the nearest handler, once, and ends its method",
 "An exception, thrown by throw or by anything that fails, skips everything up to the innermost method or block with a handler established before and still in force; its clause runs once, with the exception as thrown, in the scope where catch stands. return in the clause ends that method with that value and nothing it skipped runs; a clause that runs to its end, or has none, or throws, passes an exception on to the next handler out. With no handler left the exception is reported as an error and what was running ends; handlers are gone when their block or method is.",
 ["programs", "histories"], "every kind of place a command can stand, every kind of failure, up to three handlers each free to return, run on, throw another or the same exception",
 "Handlers that are asked twice, or that outlive their method, need nested failures to show; tests throw once under one handler.",
 [B, "internal/engine/task/action.go", "internal/engine/task/task.go"],
 [("catch, throw", B), ("turning errors into exceptions (Step)", "internal/engine/task/task.go"), ("escape through a continuation", "internal/engine/task/action.go")],
 BM + "; abstract interpretation of the evaluator over SSA for how an error becomes a throw and how a handler leaves", "Continuations are used as escapes only; exceptions inside pipelines are C05's.")

prop("C30", "Importing runs a module once and reports what went wrong",
 "source runs the commands of one file in order in the caller's scope and yields the value of the last; a name that is not found as given is looked for along OHPATH; anything else is an exception, as is whatever the file throws. import runs a file in a fresh object and yields that object; once a file has named itself with module, importing it, or another file of that name, yields the same object and does not run what follows module again, whoever imports it and however many do at once; a module that throws is not kept, the exception reaches the importer, and later imports work.",
 ["programs", "schedules", "faults"], "files with and without names, failing early and late, missing and ambiguous ones; several importers at once under every interleaving",
 "The service behind import can be left stuck or with the wrong object by one failing module; tests import working modules, one at a time.",
 [B, "internal/engine/task/action.go", "internal/engine/commands/file.go"], [("source, import, module", B), ("eval", "internal/engine/task/action.go"), ("exists", "internal/engine/commands/file.go")],
 BM + "; abstract interpretation of eval, exists and the conduits' methods over SSA", "Imports made by a module while it is itself imported re-enter a continuation, which is beyond the interpretation, and are not covered.")

prop("C17", "Text is read as the commands its grammar gives, however it arrives",
 "Any text, arriving in any number of pieces, is split into the tokens of the lexical grammar (words, the operators at their longest, quoted strings, comments, continued lines) with the line each is on; and the tokens are read as the commands of the grammar, with its precedence. Each command is yielded once, in order, as soon as the line that completes it has arrived, all those of one line included; text that does not fit the grammar is an error and nothing of that line is yielded; a line that needs more waits for it. The reader never waits for ever nor leaves anything running once closed.",
 ["inputs", "schedules"], "texts of every length over every class of character, cut anywhere; token sequences up to a bound and sentences nesting every pair of productions; every schedule of the reader's two goroutines",
 "A character class missing from one state of the lexer, a token consumed too early or a command left behind shows only for one sequence of tokens, or one way of cutting the text into lines.",
 ["internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go", "internal/reader/reader.go", "internal/common/struct/token/token.go"],
 [("Token, state functions", "internal/reader/lexer/lexer.go"), ("Parse", "internal/reader/parser/parser.go"), ("Scan, Next, Close", "internal/reader/reader.go")],
 "extraction of the lexer's automaton by abstract interpretation of its state functions and product with a lexical grammar; abstract interpretation of the parser over tries of tokens against a reference grammar; schedule exploration of the reader",
 "Token sequences to length 4 (5 over fewer words in the thorough run); meta forms with missing words are unspecified; the decoding of escapes belongs to a dependency.")

prop("C16", "What write writes, read reads back as an equal value",
 "Any value made of symbols, texts, numbers, statuses and pairs, lists and improper lists of any shape included, that is written to a pipe or file by write is read from it by read and read-list as an equal value of the same type: one command for each write, complete at the end of its own line, so that what is written next is read separately, whatever characters a text or symbol holds. Numbers keep their exact value.",
 ["inputs"], "every symbol and every text with each of the 256 bytes and characters of several bytes in each position; whole and fractional numbers and statuses; every tree of pairs up to a size with a leaf of every kind in each place",
 "The writing and the reading side are tested apart, on a few values; one character the lexer treats specially, or one shape of a list, is enough for them to disagree.",
 ["internal/common/type/sym/sym.go", "internal/common/type/pair/pair.go", "internal/common/type/num/num.go", "internal/common/type/status/status.go", "internal/common/type/str/str.go", "internal/reader/parser/parser.go", "internal/reader/lexer/lexer.go"],
 [("Literal, repr", "internal/common/type/sym/sym.go"), ("string", "internal/common/type/pair/pair.go"), ("meta, value, word", "internal/reader/parser/parser.go")],
 "abstract interpretation over SSA of each type's Literal, composed with that of the lexer and the parser on the text it yields, against the identity",
 "Symbols that hold a character the lexer treats specially are written bare: a known finding for each such character. Trees of three pairs (four, over fewer leaves, in the thorough run); escapes are the contract of a dependency; how a pipe carries the text is C21.")

prop("C21", "A conduit delivers each value written once, in order, to one reader",
 "What tasks write to a pipe or channel is read once, in the order one task wrote it, whole, by one of those who read; a pipe yields the commands or lines of the text it carries, a channel the values, as many of them waiting as it has room for. Closing the writing end yields (), once all written has been read; writing to what is closed raises an exception. Any number of tasks may write, read and close at once: an operation that waits holds up no other that could go on, each end is closed once, and nothing is left running. Each method a script calls (read, read-line, read-list, write, write-line, close, reader-close, writer-close) does this, once.",
 ["schedules", "inputs"], "every schedule of up to three tasks over one conduit (two preemptions, three in the thorough run, at every operation on a channel, lock or file), every pair of writing and reading operations, every pair of closes, channels with room for 0 to 2",
 "Two tasks writing lines, or closing an end while another waits, go wrong only when one is preempted between two particular operations.",
 ["internal/common/type/pipe/pipe.go", "internal/common/type/chn/chn.go", "internal/engine/commands/conduit.go", "internal/reader/reader.go"],
 [("Read, ReadLine, Write, WriteLine, closes", "internal/common/type/pipe/pipe.go"), ("chn", "internal/common/type/chn/chn.go"), ("ConduitMethods", "internal/engine/commands/conduit.go")],
 "path-sensitive abstract interpretation of each operation, composed over every bounded-preemption schedule of several tasks on a model of channels, locks and operating system pipes, against the contract of a conduit",
 "One write call is assumed whole (PIPE_BUF and pipe capacity are not modelled); the scenario that parses what two tasks write uses one preemption fewer.")

prop("C31", "Library commands compute what their names say, in the caller's terms",
 "list, seq, for, coalesce, eq?, ne?, quote, quasiquote, object, map, fn, mill, read, write, write-line, error, here, prompt and replace-make-prompt yield the value and have the effects their meaning gives, for lists of any length; methods passed to them are called once per element, in order, and may throw; code passed to them is evaluated in the caller's scope, where no variable is hidden, whatever its name.",
 ["inputs", "programs"], "lists up to a bound, every pattern of equal and different texts, every name the script itself uses as a variable of the caller",
 "The script's own variables share a language with the user's: a renamed or missing one breaks only callers that use that name, or lists of one particular length.",
 [B], [("library commands", B)],
 BM, "Lists of up to four elements (nine in the thorough run). fn's own variables (args, body, count, @) are visible in its bodies and excluded; ls, math and complete call programs and are not covered.")

prop("C22", "Completion offers what is there and changes only the word at the cursor",
 "Completion can be asked for anywhere in any line, after any text already entered, without ending or disturbing the session. What precedes the word at the cursor and what follows the cursor stay as they are, whatever characters they hold, and what was entered before is read as if completion had not been asked for. For an argument the files offered are those, and only those, whose path continues the word as a command would take it: relative to the working directory or to home, through links, in / as elsewhere, hidden ones only when the word asks for them, directories ending in a slash. Nothing is offered twice.",
 ["inputs", "configurations", "fault_sequences"],
 "every form of word at every place in a line, every working and home directory, every tree of files with links, hidden and unreadable entries, and every text already entered",
 "No test completes anything; a character of several bytes, a linked directory or / as the working directory is enough to go wrong.",
 ["main.go", "internal/system/cache/cache.go", "internal/reader/lexer/lexer.go", "internal/reader/parser/parser.go"],
 [("completion (completer, files, matches, expand, clean)", "main.go"), ("reading directories", "internal/system/cache/cache.go"), ("copies of the lexer and parser", "internal/reader")],
 "abstract interpretation of the completion function over SSA with a model of directories, against an independent reading of word and tree; comparison of what the lexer reads with and without completion",
 "Some sixty words in five working directories of one tree. What bash offers through the complete method is taken as it is; names are not quoted, and are not claimed to be.")

prop("C23", "An interactive session runs each text once, in the terminal's own mode",
 "In an interactive session each text entered, however many lines it takes, is run as if it had been in a script: each of its commands once, in order, in a job of its own listed as the lines entered for it; what was entered before an interrupt or a syntax error leaves no trace in what follows. Commands and the prompt method run with the terminal in the mode in which the shell found it, lines are edited in the editor's, and the session leaves the terminal as it found it. Every line entered is in the history, which is kept in the file named by OH_HISTORY or in .oh-history from one session to the next, whether it ends by exit or at the end of the input.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of a few lines, each empty, incomplete, wrong, one command or two, interrupts, refused prompts, exits, ends of input and refused changes of the terminal's mode",
 "No test has a terminal; which mode a command finds, and what an interrupted text leaves behind, depend on what came before.",
 ["main.go", "internal/system/history/history.go", "internal/system/history/os_unix.go", "internal/engine/engine.go"],
 [("the interactive loop (repl, interactive)", "main.go"), ("loading and saving the history", "internal/system/history/history.go"), ("exit", "internal/engine/engine.go")],
 "abstract interpretation of the session over SSA with the line editor, readers and jobs as stand-ins that fork over their results; typestate automata over terminal mode, readers, jobs and history",
 "Sessions of up to four lines (five thorough). What completion evaluates while a line is edited, and the line editor itself, are not followed; neither is a session ended by a signal.")
