R='internal/runner/runner.go'; PA='internal/runner/parallel.go'; W='internal/runner/writer.go'
SIM='path-sensitive property simulation over SSA '
COMMON='Sound for the modelled program: every repository path from the entry is followed with repository calls entered, loops joined, external calls opaque. '
PROPS=[
dict(id='C01', title='Dry run has no effect and previews what would run',
 statement='With dry-run requested, no command is started, no prompt or full-screen interface is opened, and no file or network is touched on behalf of a task, whatever the Babfile contains. Every run item that its platforms and condition admit is shown with its own whole content before the run reports success, and items that are skipped are not shown as if they would run.',
 over=['programs', 'configurations'], q='every Babfile (tasks, dependencies, nested and parallel items) run with dry-run set',
 why='Tests try a few dry-run files; the property ranges over every nesting of tasks, parallel blocks and prompts, and one forgotten branch executes for real.',
 files=[R,PA,'cmd/root.go'], mech=[('task executor',R+' executeTask/executeCommand'),('parallel executor',PA+' executeParallel/executeRunItem'),('flag wiring','cmd/root.go')],
 tech=SIM+'(effect-sink reachability under dryRun=true, per-item preview typestate, flag dataflow)',
 how='Every path of the task executor and of the flag wiring is simulated with DryRun assumed true: no path reaches a process start, prompt, full-screen program, file write or network call; for each admitted item a line carrying the item\'s own text (or its task, prompt, label) is printed before the path ends in success; no such line is printed for an item whose gate failed. The --dry-run flag is followed by dataflow into the field the executor reads.',
 note=COMMON+'Decides reachability of effect sinks and the preview of each admitted top-level item; the wording of the preview is not judged.'),
dict(id='C02', title='Items and tasks run exactly when their platforms and conditions admit them',
 statement='A run item, at the top level or inside a parallel block, takes effect only if its platform list is empty or names the current system and its own condition holds; a task\'s dependencies and items take effect only if the task\'s own condition holds. On every run that reports success, each item of an executed task or parallel block has taken effect unless its platforms or its condition excluded it.',
 over=['programs', 'configurations'], q='every Babfile, nesting of parallel blocks and task references, and every outcome of the platform and condition tests',
 why='Tests check single gates on single items; the property must hold for each kind of item at each nesting level, in every executor and display mode.',
 files=[R,PA,'internal/babfile/run.go'], mech=[('item gates',R+' executeTask, shouldSkipRunItem'),('parallel filter',PA+' executeParallel'),('task gate',R+' shouldSkipTask'),('pre-resolution of dependencies',PA+' preResolveDeps'),('platform test','internal/babfile/run.go matchesPlatform')],
 tech=SIM+'(per-item typestate with platform and condition gates; list provenance for filtered lists)',
 how='Per-item typestate along every path: an effect (process start, prompt, task entry, log line) carrying an item is a violation unless both gates of that item were decided in its favour on this path, or the item comes from a list whose every element was gated when appended. On success paths every item whose gates were not decided against it must have acted; loops must be walked to the end; no gate outcome may be carried over from one item to the next. The platform predicate itself is simulated: true exactly when the list is empty or holds the system.',
 note=COMMON+'Command execution itself is summarised by a separately checked obligation (success only after the process was started). What a condition expression means is C13.'),
dict(id='C03', title='Dependencies finish before a task starts and any failure stops it',
 statement='A task\'s own items start only after every one of its dependencies has finished, and a task reports success only after its dependencies and all its items completed. When a dependency, a command, a prompt, a condition or an interpolation fails, nothing further of that task starts and the run reports failure; items of a task\'s run list never run concurrently with each other.',
 over=['programs', 'fault_sequences'], q='every dependency graph and every point at which a dependency, command or prompt can fail',
 why='Tests fail one step in a handful of graphs; a swallowed error needs one particular failing step in one particular branch to show.',
 files=[R,PA], mech=[('dependencies before body',R+' runTask'),('items in order, first failure stops',R+' executeTask'),('failures of parallel items',PA+' executeParallelInterleaved, executeParallelTUI'),('exit status of commands',R+' executeCommand, runCommandWithWriters')],
 tech=SIM+'(must-precede typestate, failure typestate with a success and a failure outcome at each fallible call)',
 how='Each call that can fail (task entry, process, prompt, condition, interpolation) is split into a success and a failure outcome. After a failure outcome no path starts a further process, prompt or task of that task, and no path returns a nil error. The run list is entered only after the dependency list was iterated to its end with each element passed synchronously to task entry (or found finished); success is returned only when both lists were completed or the task was skipped or already finished. Inside goroutines of a parallel block a failure outcome must surface in the returned error after the wait.',
 note=COMMON+'Concurrency is abstracted: a goroutine body is followed at its start; that the wait really covers it is C15.'),
dict(id='C04', title='Each task runs at most once per run, even under parallel blocks',
 statement='Within one run each task runs at most once, however many references reach it and whatever the interleaving of parallel items. A reference to a task that already finished succeeds without running it again, and a task that is still running or has failed is never taken as finished.',
 over=['schedules', 'programs'], q='every task graph (diamonds, task items, nested parallel blocks) and every interleaving of goroutines that reach the same task',
 why='A double execution needs two references to reach the same task in a particular order or at the same moment; the suite runs a few graphs on one schedule.',
 files=[R,PA], mech=[('status table',R+' runTask, executionState'),('shared table in parallel items',PA+' executeRunItem, preResolveDeps')],
 tech='path-sensitive typestate of the status table over SSA with atomicity of test-and-set under its lock, and identity (aliasing) of the table through every task reference',
 how='On every path of task entry the status of that task is read and, when it is not started, set to running inside one critical section (or in a section that no other holder can enter in between) before any dependency, condition or item acts; finished is recorded only after success; a path that finds finished returns nil without acting. No other function writes the table except the entry and its finish. Every nested task entry, including from goroutines of a parallel block, is handed the very same table object (not a copy or fresh one).',
 note=COMMON+'Known finding: a task reached a second time while it is still running in a sibling parallel item fails the run with a cycle error although there is no cycle; recorded in KNOWN_FINDINGS.txt.'),
dict(id='C15', title='Parallel blocks respect their limit and finish all they start',
 statement='A parallel block with a limit never has more items running at the same time than the limit, and without a limit does not hold items back. The block returns only after every item it started has finished, starts every admitted item unless the run was cancelled, and fails if any item failed or was abandoned.',
 over=['schedules', 'configurations'], q='every parallel block, limit, display mode, item kind and interleaving of its goroutines',
 why='Exceeding the limit by one or returning before a slow item ends shows only under particular timings.',
 files=[PA,'internal/tui/parallel.go'], mech=[('semaphore and wait group',PA+' executeParallelInterleaved, executeParallelTUI'),('per-item goroutine',PA+' executeRunItem')],
 tech='path-sensitive typestate over SSA: semaphore acquire/release pairing per goroutine, channel-capacity dataflow from the limit, wait-group obligation before return, error-collection typestate',
 how='The channel used as semaphore must have capacity equal to the block limit (the number of items when there is none); each goroutine acts for its item only between acquiring and releasing a slot, and releases exactly once on every exit. Every goroutine start is registered with a wait group before it starts and ended on every exit, and every return after a start is preceded by the wait. Each item of the admitted list gets a goroutine; a goroutine whose item failed or that gave up waiting must leave an error in the collection that the return value is computed from.',
 note=COMMON+'Which item runs when, and speed-up, are not judged.'),
dict(id='C14', title='Cancellation reaches everything, stops the run and kills the processes',
 statement='Once the run is cancelled (interrupt or terminate signal, or ctrl+c in a full-screen parallel view) no further run item of a task is started, every process already started is killed together with the children it spawned, and prompts and screens end. The run then reports failure or cancellation, never success, and a screen that shows parallel items reports an item stopped this way as cancelled only when it was.',
 over=['schedules', 'fault_sequences'], q='every moment of cancellation, task graph, nesting and display mode',
 why='Cancellation at the one moment between two items or in one nested branch is what a test does not sample; a context that is replaced once makes a whole subtree unstoppable.',
 files=[R,PA,'internal/runner/process_unix.go','internal/tui/parallel.go','internal/tui/prompt.go','main.go'], mech=[('signal context','main.go'),('test between items',R+' executeTask'),('process group kill','internal/runner/process_unix.go'),('screen cancel','internal/tui/parallel.go')],
 tech=SIM+'with context provenance (derivation chain to the run context), a between-items cancellation typestate and a contract for the process-group kill',
 how='The context given to every process, prompt, screen, nested task and goroutine must be the one received or derived from it with only cancellation added. Between the effects of two items of a run list a cancellation test must be passed; a path that found the run cancelled starts nothing and returns a non-nil error. Each process start must have a new process group and a Cancel function that kills the negative pid with SIGKILL. The cancel function given to a screen must belong to the context its items use; its key handler must call it; the signal context must list interrupt and terminate.',
 note=COMMON+'That the kernel delivers the signal, and timing, are not judged. A cancelled run exits with status 0 by design of main and is reported as cancelled.'),
dict(id='C09', title='Commands see inherited, global, task and own env, most specific last',
 statement='Every command runs with the environment bab inherited plus bab\'s colour hints, the global env, the env of its task and its own env, where a more specific setting overrides a less specific one. No entry is lost, and no setting of one command or task reaches another.',
 over=['programs', 'configurations'], q='every combination of env maps, task nesting, parallel blocks and display modes',
 why='Tests set one or two levels at once in the plain mode; the layering must hold for every combination and in every executor and output mode.',
 files=[R,PA,'internal/babfile/env.go'], mech=[('layering',R+' executeTask, executeCommand, runCommandWithWriters'),('merging','internal/babfile/env.go MergeEnvMaps, MergeEnv'),('passing into parallel items',PA+' executeParallel, executeRunItem')],
 tech='path-sensitive value provenance over SSA: the environment of every process start as an ordered list of layers, with separately verified contracts for the helpers that merge, interpolate and list maps',
 how='At every process start, on every path, the environment of the command is an ordered list of layers: inherited environment first, then hints, then the entries of the global env, the env of the task that owns the item and the env of the command, in this order; each is present unless known to be empty on that path, and nothing else is. Helpers that merge, interpolate or list maps are verified on their own: no entry lost, renamed, or reordered across maps.',
 note=COMMON+'What the shell makes of the environment is outside.'),
dict(id='C10', title='Each command runs in the right directory',
 statement='A command runs in its own dir, else the dir of its task, else the global dir, whichever is set first; a relative dir is taken relative to the directory of the file that defines the task, an absolute one as it is. When none is set it runs in the directory of the file that defines the task.',
 over=['programs', 'configurations'], q='every combination of dirs, included files, parallel nesting and display modes',
 why='A wrong base directory shows only for one combination of levels, kind of path and included file.',
 files=[R,PA], mech=[('cascade',R+' resolveDir'),('start',R+' runCommandWithWriters')],
 tech='path-sensitive value provenance over SSA: the working directory of every process start as a term over the Babfile fields, compared with the cascade under the branch facts of the path',
 how='At every process start, on every path, the Dir given to the process must be, under the emptiness facts of that path, the interpolation of the first non-empty of the command\'s, task\'s and global dir, taken as is when absolute and otherwise joined to the directory of the task\'s source file; with none set it must be that directory.',
 note=COMMON+'Existence of the directory is tested by the code at run time; what interpolation yields is C11.'),
dict(id='C08', title='Silent and output settings: the most specific one decides',
 statement='The text of a command is shown before it runs unless it is silent, and its output reaches the user unless its output is off; the announcement of a task follows its silent setting. The most specific setting given decides each of the two: the command\'s or reference\'s own, then that of its parallel block, then the task reference that led here, then the task, then the Babfile; with none given everything is shown. The settings of a reference do not reach the dependencies of the task it names.',
 over=['programs', 'configurations'], q='every combination of settings at every level, nested references and parallel blocks, with and without a screen',
 why='There are 3^5 combinations of levels for each of the two settings in several executors; a test samples a few, and a wrong order shows only when two levels disagree.',
 files=[R,PA], mech=[('cascade',R+' isSilent, isOutput, executeCommand, runTask'),('overrides',PA+' executeParallel, executeRunItem')],
 tech='path-sensitive property simulation over SSA under every decision-table row of the settings, comparing announcement and output streams of each process start, and the override handed to each task reference, with the row',
 how='For each level and each value the row "this level is the first that is set, all less specific ones are set to the opposite, the other setting is the other way round", plus the row with none set, is assumed for the atoms that test a settings pointer; all paths are then followed. At each process start the command text was shown exactly when the row says so and both streams are discarded exactly when the row says off; the task is announced likewise before it acts; each task reference is handed exactly the first of its own, its block\'s and the override in force. Which parameter carries which setting is inferred from the call sites. The Babfile\'s settings must reach the runner.',
 note=COMMON+'Rows with two less specific levels that disagree with each other are not enumerated (the first set level decides in every row). The look of the announcement is not judged.'),
dict(id='C11', title='Every text is interpolated exactly once, over the right variables',
 statement='Every text of the Babfile that reaches a process, its environment, a log line, a prompt or a condition is interpolated exactly once, and values of variables and answers to prompts are inserted literally, never interpolated again. The variables a text sees are the resolved variables of its own task over the global ones, plus every answer given so far: an answer is stored unchanged under the name of its prompt before the next item runs, and later items and parallel blocks all see it.',
 over=['programs', 'inputs'], q='every text of every item kind, at every nesting of tasks and parallel blocks, and every value a variable or an answer can have',
 why='A second or a missing interpolation shows only for values that themselves look like references, and a stale copy of the variables only when a prompt precedes a particular kind of item.',
 files=[R,PA,'internal/interpolate/interpolate.go'], mech=[('use',R+' executeCommand, executeTask, interpolatePrompt, interpolateEnv'),('use in blocks',PA+' executeRunItem, executeParallel'),('global variables',R+' Run')],
 tech='path-sensitive value provenance over SSA: interpolations counted on the way of every text from model field to use, provenance of the variables each interpolation sees, typestate of prompt answers',
 how='All paths from the task entry are simulated. Each argument of an interpolation or of a condition must be a raw field of the model (not the result of an interpolation, a variable or an answer). At each use (text of a process, each entry of its environment, log line printed, every text of a prompt opened) the value is one interpolation of the raw field of that item, unless that field was tested empty. The variables of each interpolation context must come from the resolution of the vars of the task that owns the text over the runner\'s global variables, which in turn are the resolved ones of the Babfile. After a prompt the variables must receive exactly its answer under exactly its name before the next item; any copy made earlier is marked stale and must not be used again.',
 note=COMMON+'The directory text is covered by C10. What interpolation itself does with a text is C12.'),
dict(id='C12', title='Unknown or cyclic variables are errors; own definitions win',
 statement='A text with a reference that names no known variable always makes interpolation fail, whatever else the text holds; a known reference is replaced by exactly the value of its variable (or environment variable), replaced text is not scanned again, and an escaped reference comes out literally. Resolving the variables of a task or file keeps every inherited one, prefers an own definition wherever it is referred to, and resolves references in any order of definition. Variables that refer to each other in a circle are reported as an error: never a partial value and never endless recursion.',
 over=['inputs'], q='every text, every set of variables and every shape of references among them, in every order',
 why='The number of reference graphs is unbounded; a mark set too early or a lookup in the wrong map shows only for particular shapes and orders.',
 files=['internal/interpolate/interpolate.go'], mech=[('interpolation','internal/interpolate/interpolate.go Interpolate, resolveVar'),('resolution','internal/interpolate/interpolate.go ResolveVarsWithLocation')],
 tech='path-sensitive simulation over SSA: failed lookups followed to the error with the substitution callback run twice, provenance of substituted text, typestate of marks, re-entry analysis of the recursive resolver',
 how='Interpolate: on every path a failed lookup in the context\'s variables must end in an error, with the callback of the regular expression run zero, one or two times so that a later success cannot hide a failure; what the callback returns must be the value found, the environment, or the match of a path that failed; text given to a substitution must have its escapes replaced, must not come from a substitution, and the placeholder must be turned back. Resolver: every reference of a text is settled (environment, not an own name, or successfully resolved) before the text is interpolated; maps whose marks let a value through may only be marked after success, and only hold values resolved for that name; inherited values never count as such marks. For every state in which the resolver recurses, it is entered again under the facts and marks of that state for the same name: it must end in an error without recursing. The caller goes through all own names, propagates failures, and returns a fresh map with the inherited ones.',
 note='What the regular expressions match is taken from the library. References are those the resolver finds in the text; that it uses the same pattern as interpolation is not checked.'),
dict(id='C13', title='Conditions mean what they say, whatever the values',
 statement='A condition of the form left == \'text\' or left != "text" is recognised in the Babfile\'s own text and holds exactly when the interpolated sides are equal, or differ; no value can turn it into another condition. Any other condition holds exactly when its interpolated text, blanks around it aside, is neither empty nor the word false in any case. An item without a condition runs, and a condition that cannot be interpolated is an error, never a yes or a no.',
 over=['inputs'], q='every condition text and every value of the variables in it',
 why='Which branch decides a condition depends on the characters of values that come from the environment or from users; tests fix a few.',
 files=['internal/condition/condition.go'], mech=[('evaluation','internal/condition/condition.go Evaluate, splitComparison, evaluateOp, evaluateTruthy')],
 tech='path-sensitive simulation over SSA: provenance of both operands and truth of the result decided on every path from the tests made on it',
 how='All paths of Evaluate are followed. Text given to a regular expression or split must not hold inserted values; text given to interpolation must be the condition or a part of it found there, over the context given. At each successful return the result is assumed true and false in turn; with the tests made on the path it must then follow: from the operator and the equality of the interpolated first and third part (only blanks trimmed on the left), or from the emptiness and the case-folded comparison with false of the trimmed, interpolated whole. A comparison must not be decided by its whole text, and a failed interpolation must reach the error.',
 note='What the regular expressions accept is taken as it is. That items and tasks obey the result is C02.'),
dict(id='C05', title='Cyclic Babfiles are rejected, acyclic ones never called cyclic',
 statement='If dependencies and task steps, at any depth of parallel blocks, lead from a task back to itself, or includes from a file back to itself, loading the Babfile fails with an error. A Babfile without such a cycle is never rejected for one: several tasks may lead to the same task and several includes to the same file. Reading and checking a Babfile ends on every input.',
 over=['inputs', 'histories'], q='every graph of tasks and every graph of included files',
 why='The mistakes are in how visits are marked and unmarked; which graphs expose one depends on shape and order, and tests have a handful of small graphs.',
 files=['internal/parser/validate.go','internal/parser/parser.go','internal/parser/include.go'], mech=[('task cycles','internal/parser/validate.go validateRunCycles'),('include cycles','internal/parser/parser.go parseFile, visited')],
 tech='three-colour typestate over SSA: the marks of a depth-first visit are inferred and every edge is explored with its target unvisited, in progress and finished',
 how='The marks a visit sets on its own task before following edges and leaves at its end are computed on all paths. For every edge - each dependency, each task item, each item of a parallel block through the recursive walker - the code is explored assuming the target unvisited, in progress and finished: an edge to a task in progress must record a cycle error, one to an unvisited existing task must visit it, one to a finished or unvisited task must record nothing; edges may be left out only after an error. Every task is visited from the top, with tables that start empty, and the errors come back. For includes: a file is read only after its path was found unmarked and was marked; a marked path ends in an error; the mark is gone after a successful end; paths are cleaned before they serve as marks.',
 note='A file reached under two names by symbolic links is two files to the tool; the include chain then still ends because paths stop resolving (ELOOP) or are finitely many - not proved here. That three-colour marking decides cycles is taken as known. Names are compared as written, after C06.'),
dict(id='C06', title='Every reference names a task and every alias exactly one',
 statement='A Babfile is only accepted if each name in deps and each task step, at any depth of parallel blocks and in every included file, is a task. No accepted Babfile has an alias that equals a task name or another alias. Asking for an alias runs exactly the task that declares it; every other name is taken as it is.',
 over=['inputs'], q='every accepted Babfile',
 why='A reference missed in one corner (an included file, a nested block, the last alias) surfaces only when that corner is used.',
 files=['internal/parser/validate.go','internal/parser/parser.go','internal/runner/runner.go','internal/babfile/task.go','internal/errs/errs.go'], mech=[('validation','internal/parser/validate.go validateDependencies, validateRunTaskRefs, validateAliases'),('alias table','internal/parser/parser.go buildAliases'),('resolution','internal/runner/runner.go resolveTaskName')],
 tech='path-sensitive simulation over SSA with obligations per element: every task, dependency, run item and alias must be tested before a path that accepts the Babfile ends',
 how='On every path on which parsing succeeds, for every task: each name in deps was looked up in the tasks and found; its run items were walked by a function that does the same for every task item and goes into every parallel block; each alias was found to be no task name and not among the aliases seen before (in a table that outlives the task), and was entered there. A failed look-up leads to an error that is returned; the helpers that collect errors, task names and aliases are verified separately. The alias table has each alias point to its task, is handed to the runner before names are resolved, and the runner runs that task.',
 note='The task names themselves come from C07. That references are case-sensitive and compared byte by byte is part of the statement.'),
dict(id='C07', title='Included tasks keep their meaning under their namespace',
 statement='Every task of an included file is available as namespace:name, and its dependencies, task steps at any depth of parallel blocks, and aliases refer to tasks of the same include. Apart from that it is as in its own file: its own settings, below them that file\'s global vars, env, dir, silent and output, and every attribute of every step; a relative include path starts from the including file. Two tasks that would get the same name are an error, and the tasks of the including file are unaffected.',
 over=['inputs'], q='every include tree and every task in it',
 why='Included tasks are rebuilt field by field; a field forgotten or read from the wrong place matters only to a file that sets it and is included.',
 files=['internal/parser/include.go','internal/parser/parser.go','internal/babfile/vars.go','internal/babfile/task.go'], mech=[('include resolution','internal/parser/include.go resolveInclude'),('prefixing','internal/parser/include.go prefixTaskRuns, prefixDeps, prefixAliases'),('file result','internal/parser/parser.go parseFile')],
 tech='path-sensitive value provenance over SSA: each field of each included task, run item and result as a function of the field it comes from, per include, task and item',
 how='For every include, on every path: it is read from its absolute path or from the directory of the including file joined with it, and each of its tasks is entered under namespace:name after that name was found free (a taken name must lead to an error). Every field of the entered task is then compared with where it must come from: name, alias, aliases and dependencies carry the namespace, vars and env are the file\'s globals below the task\'s own, silent, output and dir fall back to the globals exactly when unset, and dir after that to the file\'s directory; run items go through the rewriting function, which is verified for each kind of item; any other field must be the original\'s. The file\'s own tasks are entered unchanged with their file, and the result hands on each global setting.',
 note='Fields added to Task, to a step or to ParseResult later are covered by their type: a new field must be copied. The order in which two equal include keys win is YAML\'s.'),
dict(id='C27', title='The right Babfile is used',
 statement='A Babfile named with --babfile is the one that is loaded. Otherwise it is the first file named Babfile, Babfile.yaml, Babfile.yml, babfile.yaml or babfile.yml, in this order, in the nearest directory from the working directory up to the root that has one; directories of that name do not count. If there is none, bab reports that and does nothing else.',
 over=['inputs'], q='every directory tree, working directory and --babfile value',
 why='A search that stops one level short, or passes over a file in one corner, shows only in a tree of that shape; tests have two or three trees.',
 files=['internal/finder/finder.go','internal/runner/runner.go'], mech=[('search','internal/finder/finder.go FindBabfile'),('loading','internal/runner/runner.go LoadTasks')],
 tech='path-sensitive typestate of every candidate file (untested, missing, directory, file) and of the directory walk over SSA, with the list of names read from the source',
 how='The names tried are read from the source and compared in order. On every path of the search, each candidate is the next name joined to the current directory, is tested, and is passed over only when missing or a directory; a file is returned at once and nothing else is returned. The current directory starts at the working directory and becomes its own parent only after all names were tried in it; the search fails only at a directory that is its own parent. A given Babfile is loaded as given and the search is used only when none is given.',
 note='That filepath.Dir of a directory other than the root is its parent is the library\'s contract. A file the user may not read counts as the Babfile; reading it then fails.'),
dict(id='C28', title='Each invocation does what was asked and nothing else',
 statement='Listing, validating, completing names and printing a completion script never start a command, open a prompt or write a file. Without these, a given task name runs that task and no other, with the --dry-run and --babfile given; without a name the task picked runs, or none when nothing is picked. Completion offers every task name and alias that starts with the text typed, and no other.',
 over=['inputs', 'histories'], q='every combination of flags and arguments',
 why='Each flag alone is tested; which of several wins, and whether a setting reaches the runner on each way through, depends on combinations nobody enumerates.',
 files=['cmd/root.go','cmd/interactive.go','cmd/list.go','cmd/validate.go','cmd/complete.go','cmd/completion.go','internal/runner/runner.go'], mech=[('dispatch','cmd/root.go CLI.run'),('picked task','cmd/interactive.go'),('completion','cmd/complete.go')],
 tech='path-sensitive effect analysis over SSA of the command-line entry points, keyed to the flag variables bound to the flag names, with value provenance of the task name and of every completion candidate',
 how='The variable behind each flag is read from the registration calls. On every path from the root command\'s run function, an effect (anything that can reach starting a command, a prompt, the picker, or a file write) is reached only when the listing, validation and completion flags are known unset; the runner is called at most once, with the first argument or the name of the picked entry, and its dry-run and Babfile settings are the flag values; no path reaches the end without having done what was asked. Each completion script is the one of the shell named. The completion function offers exactly the keys of the task table and the aliases that have the typed prefix, with nothing but a tab and the description after them, and reaches no effect.',
 note='That the flag library sets the bound variables and cobra\'s generators print a correct script is trusted. Background update checking is its own matter.'),
dict(id='C29', title='The exit status tells whether what was asked succeeded',
 statement='bab exits with 0 only if what was asked was done without error or was cancelled by the user at the picker or a prompt; otherwise it exits non-zero and prints a message. No error from loading, validating, listing, picking or running is lost on the way.',
 over=['inputs', 'fault_sequences'], q='every error at every place between main and the runner',
 why='An error swallowed on one way through shows only if exactly that step fails; scripts and CI rely on the status.',
 files=['main.go','cmd/root.go','cmd/interactive.go','cmd/list.go','cmd/validate.go','cmd/completion.go','internal/runner/runner.go'], mech=[('exit status','main.go run'),('errors handed up','cmd/root.go CLI.run')],
 tech='path-sensitive error typestate over SSA: every error obtained between main and the runner is followed until it is returned, reported or shown to be a cancellation',
 how='On every path from main, the status passed to os.Exit is 0 exactly when the command\'s error is nil (or the recognised cancellation), and any other status follows a message that contains the error. In every function between the command\'s entry and the calls that load, pick, list or run, each error result that may be non-nil is returned (as itself or wrapped), unless it is known to be the cancellation error; an error dropped, overwritten or replaced by nil is reported with the path.',
 note='Errors of writing the listing to a closed standard output are not errors of what was asked. Which errors the runner itself must return is the subject of the properties on execution.'),
dict(id='C19', title='The update check never gets in the way',
 statement='The server is asked for a new version only in the background, at most once per run, with a time limit, and only when the last answer is over 24 hours old; failures are silent and change nothing about the run. With BAB_NO_UPDATE_CHECK=1, with CI set to true or 1, and in a development build nothing is asked, read or stored. A version is announced exactly if it is the latest the server named and newer than the running one.',
 over=['fault_sequences', 'configurations', 'histories'], q='every environment, state of the cache, answer of the server and failure on the way',
 why='The check depends on network, clock and environment; its failure paths run on users\' machines only, and an added second costs every command.',
 files=['internal/update/update.go','internal/update/cache.go','cmd/root.go'], mech=[('background refresh','internal/update/update.go StartBackgroundRefresh, refreshCache'),('report','internal/update/update.go CheckCached'),('opt-out','internal/update/update.go shouldSkip')],
 tech='path-sensitive effect analysis over SSA of the update check: which effects are reached under which branch facts, in the background or not, and value provenance of the version stored and reported',
 how='Every entry point of the update package that main reaches is explored with each fallible call failing and succeeding. A request, file access or goroutine is reached only with all opt-out variables and development versions known not to apply; a request only in a goroutine, at most one per path, over https to the project\'s address, with a time limit; the goroutine is started exactly when no usable answer is cached or it is known to be over 24 hours old. The foreground reaches no wait. Nothing in the package prints, panics or exits. What is stored is the tag of a decoded answer with status 200 or the cached version confirmed by 304, not empty, with the present time; the answer is read through a size limit. An announcement is returned exactly on the paths where the cached version compared greater than the running one, carries these two, and its caller prints it.',
 note='Version comparison and HTTP are trusted to their libraries. Reading the small cache file happens in the foreground. When the process ends before the answer arrives nothing is stored, which the statement allows.'),
dict(id='C20', title='The update cache survives crashes and bad contents',
 statement='The update cache file is only ever replaced as a whole: after a crash or failure at any point it has its old or its new content (on Windows it may be absent), never part of one. Temporary files are removed when storing fails; leftovers of a crash are removed once over an hour old, and no other file is. A cache that is unreadable, undecodable, without version or dated in the future counts as none.',
 over=['crash_points', 'fault_sequences', 'schedules'], q='every point of a crash or failure, concurrent processes, every content of the file',
 why='A crash between two calls, or two processes storing at once, cannot be sampled by a unit test; the order of the calls decides.',
 files=['internal/update/cache.go'], mech=[('replacement','internal/update/cache.go saveCache'),('reader','internal/update/cache.go loadCache'),('clean-up','internal/update/cache.go cleanupTempFiles')],
 tech='path-sensitive typestate of the temporary file (created, written, synced, closed, renamed) over SSA with fault injection at every call, and the acceptance rule of the reader',
 how='With each fallible call explored failing and succeeding: the cache file is only the target of a rename, and only of a temporary file made in its directory under a unique name that was written with the whole encoding, synced and closed without error; at every end the temporary file was renamed or removed. The clean-up looks at every entry of the directory; an entry is removed only when it has the temporary files\' prefix and suffix and is known to be over an hour old, and kept only with a reason. Any other change of the file system is a violation. The reader yields contents exactly when reading and decoding succeeded, the version is not empty and the date not in the future. Every field has its own name in the encoding.',
 note='That a rename within a directory is atomic and that a synced file survives a crash are the system\'s contract. The directory itself is not synced: after a power failure the old content may reappear, which the statement allows.'),
dict(id='C16', title='Output of parallel items is shown whole, line by line',
 statement='In a parallel block every line an item writes is shown once, whole, behind the item\'s own label and in the order written; lines of different items are never mixed within a line, and an incomplete last line is shown before the item is reported as done. Of the text of a line exactly the control sequences and control characters other than colours and tabs are left out. Of text overwritten by carriage returns the last version is shown.',
 over=['inputs', 'schedules', 'fault_sequences'], q='every way the output is cut into writes, every interleaving of items, every content of a line',
 why='How output is cut into writes and interleaved is decided by the kernel and the scheduler; tests feed a handful of whole lines.',
 files=['internal/runner/writer.go','internal/runner/parallel.go'], mech=[('cutting into lines','internal/runner/writer.go lineBuffer.process, flush'),('filter','internal/runner/writer.go sanitizeLine, stripControlChars, resolveCR'),('lifetime','internal/runner/parallel.go executeParallelInterleaved, executeParallelTUI')],
 tech='path-sensitive simulation over SSA of the line writers with symbolic bytes: conservation of what was written, one emission per line under a shared lock, inferred character filter, flush-before-done typestate',
 how='Every type of the runner with Write and a flush is simulated on symbolic contents. On every path of Write the bytes kept and the new ones are cut at the first newline; the part before is shown exactly once behind the writer\'s own label, in one go while the lock is held; the search goes on right after the newline; what has no newline is kept, and all bytes are reported as taken. A failing destination ends in an error. Flush shows what is kept, once, and empties it. What is shown of a line is the part after its last carriage return not counting those at its end, through filters verified apart: over a decoder loop or a character loop each piece is copied exactly if it is known not to be a control sequence other than a colour or (by evaluating the branch facts for one character of each interval they distinguish) not a control character, sequences go before characters, and a short cut is taken only when none are in the text. Each writer made for an item is flushed after its last use and before wait-group, completion message and end of its goroutine; the lock handed to the writers of a block is made once, outside the loop. Items and labels that are listed side by side come from the same position, on every path through the loop (an item left out takes its label with it), and the writer handed to the executor of an item was made with the label of that item\'s position. The text of a log item is never printed past the writer of its item while there is one.',
 note='The classification of sequences is the ansi library\'s. With colours off the library\'s Strip stands for the filter. Characters 0x7f to 0x9f outside sequences may go either way. How the terminal views lay lines out is not part of this.'),
dict(id='C18', title='Prompt answers and passwords do not leak',
 statement='The answer to a prompt is seen only by the task that asked and the items of its parallel blocks, through ${{ }} references: bab itself writes it to no log, message, error, file, global setting or other task. A password is not shown while typed, is asked for only on a terminal and is taken exactly as typed, and if confirmation is wanted only when both entries are equal; a cancelled prompt yields none.',
 over=['inputs', 'programs'], q='every answer, every Babfile, every path from the prompt to an output',
 why='A leak is a flow through some path that nobody wrote a test for: a debug log, an error text, a shared map. Typing into a terminal is not exercised by the tests at all.',
 files=['internal/tui/prompt.go','internal/runner/runner.go','internal/runner/parallel.go','internal/interpolate/interpolate.go'], mech=[('prompts','internal/tui/prompt.go RunPrompt, runPassword'),('storing the answer','internal/runner/runner.go executePrompt'),('references','internal/interpolate/interpolate.go Interpolate')],
 tech='interprocedural taint analysis over SSA (heap cells, fields, maps, closures, callbacks) from the prompt fields to logs, messages, errors, files and shared state, and path-sensitive simulation of the password prompt',
 how='Sources are the cells handed to prompt fields and the parameters of validators in functions that set a hidden echo mode. Everything computed from them is followed through locals, heap cells, fields, maps, slices, closures, channels, calls and returns of the whole program. Sinks are the log and print functions, writers, error constructors, files, environment, globals and the fields of the runner and the Babfile. The result of Interpolate is the one permitted use. The password prompt is explored on every path: the field has hidden echo before it is shown, it is shown only when standard input is known to be a terminal, what is returned is the field\'s content, with confirmation only after a second hidden field whose validator accepts exactly on equality, and every failed form yields an error.',
 note='Texts of the Babfile that reference the answer (a command, a log item) are shown as usual once interpolated; so are the errors of programs run with them. That huh hides what is typed in password mode is its contract.'),
dict(id='C25', title='The answer to a prompt is one the Babfile allows',
 statement='An answer given on a terminal satisfies what the prompt states: confirm gives true or false, input matches validate, select is one of the options, multiselect is options joined by commas and within min and max in number, number is an integer within min and max (an empty entry gives the default); any other entry is refused, and a cancelled prompt fails the task. All options are offered and the default is preset; without a terminal the default is the answer (a confirm default of true, yes, y or 1, in any case, means true, all others false), and without a default the task fails. A prompt is rejected at load if it lacks options, has a default that is no option or not a number, a pattern that does not compile, or a min above max.',
 over=['inputs', 'configurations'], q='every prompt a Babfile can state and every entry, on a terminal or not',
 why='The tests never open a terminal; a bound of zero, a negative number, one end of a range alone, or an empty entry is where a constraint gets lost.',
 files=['internal/tui/prompt.go','internal/parser/unmarshal.go'], mech=[('prompts','internal/tui/prompt.go RunPrompt and run*'),('defaults','internal/tui/prompt.go handleNonInteractive, normalizeConfirmDefault'),('acceptance','internal/parser/unmarshal.go validatePromptRun')],
 tech='path-sensitive simulation over SSA of every type of prompt, with its validators run on a symbolic answer, and of the acceptance of prompts at load',
 how='For each declared type the function that opens prompts is explored with and without a terminal, the form failing and succeeding. When the form succeeds the variable it fills holds a fresh symbol and the validator that was set runs on it: the path goes on only where it returned nil, and ends otherwise. At the end the branch facts must imply each constraint of the prompt (pattern, number, bounds by strict comparison with the field itself), and a refusal must rest on a fact that violates one. The result must be the symbol in its documented form (FormatBool, join by comma, default for an empty number). Options are followed per iteration: each element of the list becomes an option with that value, none is left out. Forms start with the default. The parser\'s function that makes prompts is explored for each type: a prompt that is let through without an error added has the facts listed in the statement.',
 note='What huh does between key strokes (running the validator before a field is left, offering what it was given) is its contract. Defaults used without a terminal are not held against validate, min and max: the documentation only says that the default is used.'),
dict(id='C21', title='What a Babfile states is what the tasks get, or loading fails',
 statement='For every Babfile that loads, the value of each documented key of the file, of a task, and of a cmd, task, log, prompt or parallel item ends up unchanged (decoded as text, true or false, a number, a list or a mapping) in the setting of that name and in no other; every entry of env, vars, tasks and includes and every item of run and parallel is there, items in their order, labels with the item that has them. Otherwise an error is recorded and loading fails: a value of the wrong kind, a task name given twice, an item with none or two of cmd, task, log and prompt, an unknown level, mode, platform or prompt type, a negative limit, an empty or nested parallel block or one with a prompt. A key that is not given leaves its setting unset apart from the documented defaults of level and mode, and values of the right kind are not rejected.',
 over=['inputs'], q='every YAML document: any nesting, order and repetition of keys, aliases and kinds of value',
 why='The tests parse a few dozen documents; a value read into the wrong setting, an empty or aliased value passed over, or a last entry left out only shows in a document no test has.',
 files=['internal/parser/unmarshal.go','internal/babfile/'], mech=[('reading','internal/parser/unmarshal.go unmarshalBabfile, parseTask, parseRunItem, parseParallelRun'),('lists of values','internal/babfile Valid methods')],
 tech='path-sensitive value provenance over SSA from every key of the YAML tree to the field of the model it names, with per-pair and per-item obligations on every loop of the readers and separately verified helpers',
 how='Each function that reads a part of the tree (file, task, list of items, item, block) is simulated over an arbitrary node, with calls of the other readers replaced by their contract (the value read of that node, or an error recorded). Loading the text of a value node, or decoding it, gives a term that names its key. At every back edge of a loop over pairs the obligation of that pair is discharged: the value of the matched key sits, with its kind known, in a cell that the result is built from, or an error was recorded on the path; for mappings the entry was put under its own key; for items the item was appended (sequence-fill analysis). At the exits every field of the result may only hold its own key\'s term, the unset value or the documented default under the fact that nothing was given. Branch facts at the exit must imply the conditions on items, prompts and blocks. An error recorded about a pair needs a fact that justifies it. Flags of loops are handled by an inductive guess that is verified and given up where wrong. The Valid methods are checked to accept exactly the documented values.',
 note='Not claimed: keys outside the documented ones are ignored on purpose outside parallel blocks, other keys given twice are resolved by the later one, and what yaml.v3 makes of a document (anchors, tags, merge keys, numbers) is its contract.'),
dict(id='C22', title='The same Babfile gives the same output every time',
 statement='What a user sees and what bab does do not depend on the order in which Go visits a map, which changes from run to run: the order of tasks in --list, in the task picker and in shell completion, the task or variable suggested for a mistyped name, which of several errors is reported and in what order, the order in which variables and env entries are resolved, and which of two entries with the same key stays. Lists made from a map are put into a total order before they are shown, joined, indexed or walked with an effect.',
 over=['histories', 'inputs'], q='every iteration order of every map in the program, for every Babfile',
 why='The order of a map is chosen anew in each run; a test that passes once says nothing about the next run, and maps with one entry, as in most tests, have only one order.',
 files=['cmd/list.go','cmd/complete.go','internal/errs/suggest.go','internal/parser/validate.go','internal/tui/picker/model.go'], mech=[('list','cmd/list.go sortedKeys'),('completion','cmd/complete.go completeTaskNames'),('suggestion','internal/errs/suggest.go FindSimilar'),('validation order','internal/parser/validate.go sortedNames'),('picker','internal/tui/picker/model.go New'),('variables','internal/interpolate/interpolate.go ResolveVarsWithLocation')],
 tech='dataflow over SSA: dependence and ownership analysis of every loop over a map, and a sorted/unsorted typestate of every list such a loop fills',
 how='Every range over a map, every maps.Keys, Values and All, and every loop over a list still in map order is found in the whole program. In its body each value is labelled: depends on the element, tells the element apart (the key itself, a name, an alias), is computed from a part of the key, depends on how many came before, is memory made in this round. Calls are followed with the labels of their arguments. Each effect must be independent of the order: a store into memory of the element, a map entry whose key tells elements apart, a constant, a sum, a maximum, a set. Everything else is reported: an element picked or returned, a last (or first) one that wins, text built, printing, a send, a stop with what was gathered so far, a counter given to an element. A list filled in the loop is followed from the exit of the loop along every path, through results, parameters, fields and captured variables, until a call that sorts it by an order that tells any two elements apart; before that, joining, indexing, handing it to code outside the repository, and loops over it with effects are reported. A test for at most one element ends the obligation on that side.',
 note='Which goroutine comes first is not covered (C18, C20). Two tasks never share an alias in a Babfile that loads (C06), so an entry keyed by an alias tells tasks apart.'),
dict(id='C17', title='Parallel items never race on shared memory',
 statement='Whatever the schedule, the goroutines of parallel blocks (and the update check, the signal watcher and the full-screen program) share no memory that one of them changes without the others being kept out: the record of what has run, the errors collected from items, the lines gathered by an output writer and the result of a block are written and read under a lock or a once, or by the one goroutine that owns the slot; what items are given (variables, env, lists, the loaded tasks, the runner itself, package-level values) is only read; no item changes the working directory or environment of the bab process.',
 over=['schedules'], q='every interleaving of every pair of goroutines the program starts, nested blocks included',
 why='A race shows only under particular interleavings, and in Go it may corrupt a map and end the program; the existing tests do not run with the race detector and a schedule that passes shows nothing.',
 files=['internal/runner/parallel.go','internal/runner/writer.go','internal/runner/runner.go','internal/tui/parallel.go','main.go'], mech=[('run state','internal/runner/parallel.go syncState'),('items','internal/runner/parallel.go executeParallelInterleaved, executeParallelTUI'),('writers','internal/runner/writer.go PrefixWriter, KeyLineWriter'),('view','internal/tui/parallel.go RunParallel')],
 tech='ownership (escape) analysis combined with a lockset analysis over SSA, context-sensitive in which arguments are shared and which locks are held',
 how='For every go statement (and WaitGroup.Go) the analysis follows everything the goroutine can reach: calls, closures, interface methods, methods called back by code outside the repository (an io.Writer given to exec or fmt). Values are classified as made by this goroutine or shared (captured, reached from what was captured, global, loaded from a field that is not always fresh). Every store, map update, append to a list with spare room, delete, copy, sort and every method of an outside type that by its source changes its receiver is a write; a write to shared memory needs a lock, sync.Once or the index that only this goroutine has. All writes of a location need one lock in common, and reads of a location that is written under a lock need that lock (read locks do for reads). Locks taken and released in helpers are summarised per function. Between the go statement and the wait, the function that started the goroutines does not write what they captured. Setenv, Chdir and the like are reported in anything an item reaches.',
 note='Locks are told apart by the field or variable that holds them, not by instance; locations by field and by the object they are part of. Types from outside that contain a lock, a channel or an atomic are taken to be made for concurrent use. Hand-over through a channel or a wait group counts as synchronisation for a goroutine that is started once.'),
dict(id='C23', title='Errors name the file and line of what is wrong',
 statement='An error about a Babfile that gives a line gives the line of the entry, task or run item that is at fault, together with the file that this line is in, also when the entry is in an included file, nested in a parallel block or comes from an item that was rewritten for its namespace: a problem found while parsing names the offending key or value (not the whole mapping it is in), a missing dependency the dependency list, a missing task of a run item that item, an undefined variable in a text of an item that item. Tasks and items keep the file and line they were read from when they are copied, and messages show them. (The file of a circular dependency is the root file, and a duplicate alias names the other task by name; these are left out.)',
 over=['inputs'], q='every Babfile with every kind of error in it, with any nesting of includes',
 why='Each kind of error is raised in a place of its own, and a pair of a right line and a wrong file (or the reverse) looks fine in every test that has one file; the wrong location sends the user to an innocent line.',
 files=['internal/parser/unmarshal.go','internal/parser/validate.go','internal/parser/include.go','internal/parser/parser.go','internal/errs/parse.go','internal/errs/location.go','internal/interpolate/interpolate.go','internal/runner/runner.go','internal/runner/parallel.go'], mech=[('parsing','internal/parser/unmarshal.go'),('references','internal/parser/validate.go taskPath, validateDependencies, validateRunItemTaskRefs'),('includes','internal/parser/include.go resolveInclude, prefixTaskRuns'),('running','internal/runner/runner.go sourcePath'),('message','internal/errs/location.go FormatLocation')],
 tech='interprocedural provenance analysis over SSA of the file and the line of every error',
 how='Every struct of the repository that has a path and a line (the errors, the contexts that texts are interpolated with, helpers that carry both) and every printed path and line is a site. The line is traced back to a YAML node, a task, an item or a parameter, the path to the file that was read, the SourcePath of a task or a parameter; what is a parameter is handed as an obligation to every call of the function. A line of a node needs the path its document was read from, a line of a task or item the SourcePath of that task (a default only where the task has none). In a loop over the entries of a node the line is that of an entry. A text of an item is interpolated with a context made with the line of that item; a missing dependency is named with DepsLine. Copies of tasks and items take Line, DepsLine and SourcePath from the original; a loaded task records the path that was read. Every error type with a location shows the line in its message, after the path, whatever other numbers it has.',
 note='Errors that have no line at all (a file that is missing, an include that fails, a name collision) are only checked where a line was at hand (a node, a line, a location in the arguments, or an error of the decoder). Values that come out of containers of the analysed code in ways that are not followed (a list of pairs built elsewhere) are not judged.'),
dict(id='C24', title='Full-screen parallel views show what happened and always close',
 statement='A full-screen view of a parallel block is opened by the outermost block only, closes exactly when all its items have ended, and bab neither returns nor prints over it before that; log output is kept off the terminal for just that time. Each item is shown under its own label: as running from when it starts, with its output, and as done exactly once, however it ends. It is shown, in the view and in the summary afterwards, as successful only if it ended without an error, as failed only if it ended with one, and as cancelled only if it was cancelled; items of nested blocks appear below the item they belong to and are taken away when that block is over.',
 over=['schedules', 'inputs', 'histories'], q='every nesting and number of parallel items, every way in which each ends, every order of their messages and every moment of a cancellation',
 why='The view is drawn from messages of concurrent items on a terminal; tests have none, and a missing or doubled message shows only on failure or cancellation paths: a hang, a garbled screen or a tick at an item that failed.',
 files=['internal/runner/parallel.go','internal/tui/parallel.go','internal/tui/parallel_grouped.go','internal/tui/parallel_tabs.go','internal/output/output.go','internal/runner/writer.go'], mech=[('view','internal/runner/parallel.go executeParallelTUI'),('messages','internal/tui/parallel.go handleMsg'),('status','internal/tui/parallel.go statusIcon'),('summary','internal/output/output.go RenderParallelDone')],
 tech='path-sensitive protocol (typestate) simulation over SSA, with a provenance analysis of message keys',
 how='On every path of the runner: a view is told that all is done only by the block that opened it and only when no item goroutine is pending, and is waited for after that; the log is diverted while items act under a view and directed back after the view has closed by the block that diverted it; nothing is printed in between. On every path of every item goroutine that reports: started before it acts, done exactly once with an error exactly if it failed, the failure also kept for the summary, one key for all of it. Every Update method of the views is simulated once per message type: the message is kept for the item it names and no other, no other message changes the outcome of an item, and the quit command is returned for the all-done message only. Every function that shows an outcome is simulated: a tick, cross or cancelled mark only where the facts on the path allow it, for the label of the same index, and some mark for each item. Keys must depend on the loop that starts the items, be made in the same way where items are registered and where they are reported, and not run numbers together. What the blocks inside an item are told to be their place is the item\'s own place, and items and labels that are listed side by side come from the same position.',
 note='What the widget library draws, colours and layout are not covered.'),
]
NA=[
dict(id='N01', title='Views, tables and borders fit any terminal size', statement='Whatever the width and height of the terminal, no line of a full-screen view or prompt is longer than the terminal is wide, and nothing that is shown overlaps or is cut in the middle of a character.',
 over=['inputs'], q='every terminal size and every label and line', why='Layouts are computed from widths known only at run time.',
 files=['internal/tui/parallel_grouped.go','internal/tui/parallel_tabs.go','internal/tui/picker'], mech=[('layout','internal/tui')],
 reason='The widths are the results of string-width and style computations of a library over run-time text; no sound static bound on them is in reach, and a type or effect rule does not express it.'),
dict(id='N02', title='The task picker ranks the best match first', statement='For every text typed into the task picker the tasks shown are those that match it, the best match first.',
 over=['inputs'], q='every query and every set of task names', why='The order comes from numeric scores over run-time strings.',
 files=['internal/tui/picker'], mech=[('matching','internal/tui/picker')],
 reason='Which of two matches is better is a numeric score computed over run-time strings, partly by a library; that a score orders all inputs as a user expects has no static characterisation. (That the order does not depend on map iteration is decided under C22.)'),
dict(id='N03', title='No Babfile makes bab panic', statement='Whatever bytes a Babfile holds, bab ends with a result or an error and never with a panic or a stack overflow.',
 over=['inputs'], q='every sequence of bytes', why='Panics come from indexes and nil pointers over run-time values.',
 files=['internal/parser','internal/interpolate'], mech=[('parsing','internal/parser')],
 reason='Needs bounds on indexes and on recursion depth of data decoded by a YAML library; the shape facts that library guarantees are not in the analysed source, so a static check would either trust them blindly or raise alarms on correct code. (Endless recursion over cyclic references is decided under C05 and C12.)'),
dict(id='N04', title='Parallel items take as long as the slowest of them', statement='A parallel block without a limit takes about as long as its slowest item, and with a limit of n keeps n items running while there are any left.',
 over=['schedules'], q='every set of items and every schedule', why='Running time depends on the machine and on what the items do.',
 files=['internal/runner/parallel.go'], mech=[('block','internal/runner/parallel.go')],
 reason='Elapsed time and work conservation are quantities of the schedule that no static argument over the source bounds. (That items are neither held back nor serialised by locks is decided under C15.)'),
]
