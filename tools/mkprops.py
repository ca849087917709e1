#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (run by hand when the table changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Reading a pipeline from Python yields exactly its standard output",
 "For whatever bytes a command writes to standard output, in whatever chunks and at whatever pace, bytes() of the pipeline is exactly those bytes, str() is their UTF-8 decoding, and iterating it (for or async for) yields exactly its lines in order without their newlines, including empty lines and a last line with no newline. Nothing is lost, duplicated, merged, split, altered or mixed with standard error, however slowly the reader consumes it.",
 ["inputs", "schedules", "configurations"],
 "all byte streams (empty, huge, unterminated, multi-byte across read boundaries, blank lines, carriage returns), all chunkings and delays of the writer, all reading modes, slow readers, both signal back ends",
 "The tests read a few short echo/ls outputs that arrive in one read of under 1024 bytes; boundaries of the reads, partial lines and bytes()/str() are never exercised.",
 ["pieshell/iterio.py", "pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/utils/asyncutils.py"],
 [("line and chunk input handlers", "pieshell/iterio.py InputHandler, LineInputHandler"), ("iteration entry points", "pieshell/pipeline/base.py Pipeline.__aiter__/__iter__/__str__/__bytes__"), ("async to sync bridging", "pieshell/utils/asyncutils.py asyncitertoiter")],
 ["values yielded by iteration", "bytes(pipeline)", "str(pipeline)"],
 [("buffer", "bytes read but not yet delivered", "pieshell/iterio.py LineInputHandler")])

prop("C02", "Python items piped into a command arrive as exactly its input lines",
 "Piping any iterable, generator, async iterator or function result into a command makes the command read, on standard input, each item followed by one newline, in order, and then end of file: strings as UTF-8, bytes unchanged, other values as str(), awaitable items as their result, and None producing nothing. This holds for items of any size and any number of items, and the items are pulled from the iterable exactly once each.",
 ["inputs", "schedules", "configurations"],
 "all item sequences (types, sizes from empty to several times the pipe capacity, counts), all producer kinds (list, tuple, iterator, generator, async generator, function, coroutine function), slow producers and slow readers",
 "The tests pipe three short strings into grep and do not look at the result; sizes above the pipe capacity, mixed types and async producers are never tried.",
 ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/base.py", "pieshell/utils/asyncutils.py"],
 [("output handlers", "pieshell/iterio.py OutputHandler, LineOutputHandler"), ("item conversion", "pieshell/pipeline/function.py Function._run"), ("coercion of operands", "pieshell/pipeline/base.py Pipeline._coerce")],
 ["bytes the command reads from standard input"])

prop("C03", "A composed pipeline computes the composition of its stages",
 "For any pipeline built from external commands, Python sources and Python function stages with |, in any number, order and parenthesisation, the output equals applying the stages' text transformations one after the other to the source. Groups joined with + run side by side: their joint output is an interleaving of both outputs, each complete and in its own order.",
 ["programs", "inputs", "schedules", "configurations"],
 "all trees of commands, sources, functions (sync and async generators, coroutine functions, methods) and groups, all input texts, both signal back ends, sync and async reading",
 "The tests run five fixed two- or three-stage pipelines; only one of them compares its result, and the one test of groups is disabled.",
 ["pieshell/pipeline/pipe.py", "pieshell/pipeline/function.py", "pieshell/pipeline/group.py", "pieshell/pipeline/command.py", "pieshell/pipeline/base.py", "pieshell/redir.py"],
 [("pipe plumbing", "pieshell/pipeline/pipe.py Pipe._run"), ("group plumbing", "pieshell/pipeline/group.py Group._run"), ("function stages", "pieshell/pipeline/function.py Function._run"), ("pipe creation and redirect merging", "pieshell/redir.py Redirect.make_pipe, Redirects.merge")],
 ["output of the pipeline", "whether the pipeline is reported failed"])

prop("C04", "Pipelines, iterators and functions as arguments behave as files",
 "Any iterable or pipeline given as a positional or keyword argument is seen by the command as a file name that, when read, yields exactly that iterable's items as lines or that pipeline's output; a function given as argument receives exactly the lines the command writes to its file name, and its own output joins the command's standard output. This holds for any number and nesting of such arguments, mixed with ordinary arguments, without disturbing the position of the others.",
 ["programs", "inputs", "configurations"],
 "all argument lists mixing strings, keyword options, iterators, pipelines (nested, multi-stage) and receiving functions, with contents of any size",
 "The tests use one or two such arguments with tiny contents and mostly ignore what was read.",
 ["pieshell/pipeline/command.py", "pieshell/redir.py", "pieshell/pipeline/function.py"],
 [("argument pipes", "pieshell/pipeline/command.py Command._handle_arg_pipes"), ("descriptor allocation", "pieshell/redir.py Redirects.find_free_fd, move_existing_fds")],
 ["content the command reads from or writes to the argument's file name", "argv of the command"])

prop("C05", "Redirections connect each descriptor to exactly what was asked",
 "For any combination of redirections of a command or pipeline (file names, None for /dev/null, open descriptors, temporary files, captured strings; on stdin, stdout, stderr or other descriptor numbers; written with | > < or explicitly), the command finds each redirected descriptor open on exactly the requested file with the requested flags and creation mode, the others on their defaults, and no other descriptor of the shell except its log. Where a descriptor is redirected several times, a redirection attached to the command itself overrides one given from outside (run(), then the environment's defaults), and within a list the later one holds; the caller's borrowed descriptors stay open, and captured strings hold exactly what was written to them.",
 ["inputs", "configurations"],
 "all sets and orders of redirections over all source kinds, including several descriptors sharing one source, and every initial state of the shell's own descriptors",
 "The tests redirect stdout once to a temporary file and once to /dev/null and only check that a file exists.",
 ["pieshell/redir.py", "pieshell/pipeline/redirect.py", "pieshell/pipeline/command.py", "pieshell/pipeline/base.py", "pieshell/pipeline/running.py"],
 [("redirect application in the child", "pieshell/redir.py Redirects.perform, move_existing_fds, close_other_fds, Redirect.perform"), ("merge and override", "pieshell/redir.py Redirects.register, merge"), ("captured output", "pieshell/pipeline/running.py RunningItem.handle_pipeline_finish")],
 ["descriptor table of the command", "file contents and modes", "output_content", "output_files"])

prop("C06", "Commands receive exactly the arguments the expression denotes",
 "A command runs with exactly the argument vector its expression denotes: attribute names and call arguments in the order written, keyword options as --name=value (True gives a bare flag, False nothing, underscores become dashes), short options from the -x syntaxes, and all spellings of the same command line are equivalent. Strings wrapped in R() arrive unchanged; other strings are subject only to % expansion of variables, ~ expansion and file name patterns.",
 ["inputs", "programs"],
 "all command names and argument strings (spaces, quotes, newlines, unicode, leading dashes, percent escapes), all mixes of the attribute, call, keyword and minus syntaxes, R() or not, any variable contents",
 "The tests run commands with one or two plain arguments and never look at the argument vector.",
 ["pieshell/pipeline/command.py", "pieshell/environ.py"],
 [("argument list construction", "pieshell/pipeline/command.py BaseCommand._arg_list, __call__, __getattr__, __sub__, __neg__"), ("expansion", "pieshell/environ.py Environment._expand_argument, R")],
 ["argv of the child process"])

prop("C07", "File name patterns expand to exactly the matching files",
 "An unprotected argument containing a pattern is replaced by exactly the existing files that match it relative to the environment's directory, each once and each naming that file when opened from there; a pattern that matches nothing is passed on unchanged. The directory's own name is never treated as a pattern and the process's working directory does not matter.",
 ["inputs", "configurations"],
 "all directory trees (hidden files, names with pattern characters, spaces, unicode, subdirectories), all patterns (relative, parent-relative, absolute, character classes), any environment directory, interactive or not",
 "One test checks that a single file is among the expansions of one pattern in the repository.",
 ["pieshell/environ.py"],
 [("pattern expansion", "pieshell/environ.py Environment._expand_argument"), ("path resolution", "pieshell/environ.py Environment._expand_path")],
 ["argv of the child process"])

prop("C08", "A command runs in its environment's directory with exactly its variables",
 "A command sees exactly its own environment's directory and exported variables, whatever other environments, pipelines or the process itself do. A new environment derived from another starts as a copy of its directory, variables, mode and default redirections except for what is overridden, and from then on no change to the one (cd, exports, default redirections) shows in the other; only interactive environments move the process's own directory.",
 ["histories", "inputs", "configurations"],
 "all histories of deriving environments with any overrides, changing directories, setting and deleting variables (including to no variables at all), changing default redirections, and running commands, also several environments in one pipeline",
 "The tests use the global environment only; none derives two environments and compares them, and none looks at what a child process sees.",
 ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/pipeline/builtins.py"],
 [("derivation", "pieshell/environ.py Environment.__call__, __init__"), ("exports", "pieshell/environ.py Environment._exports"), ("child start", "pieshell/pipeline/command.py Command._child")],
 ["environ and working directory of the child process", "os.environ and os.getcwd() of the shell"],
 [("_exports", "variables exported to children", "pieshell/environ.py"), ("_cwd", "directory of the environment", "pieshell/environ.py")])

prop("C09", "Changing directory resolves paths like a shell and fails without effect",
 "After any sequence of directory changes (relative, absolute, with .. and ., through ~, as attribute or argument parts, with the PARENT and ROOT names) the environment is in the directory a logical shell cd would reach. A change to something that is not a usable directory raises an error and leaves the environment and the process exactly where they were.",
 ["histories", "inputs"],
 "all sequences of changes over any directory tree, including symbolic links, files, missing and unusable paths, from interactive and non-interactive environments",
 "The tests change to the test directory once at start.",
 ["pieshell/environ.py", "pieshell/pipeline/builtins.py"],
 [("cd", "pieshell/environ.py Environment._cd, _expand_path"), ("cd builtin", "pieshell/pipeline/builtins.py CdBuiltin")],
 ["working directory of child processes", "os.getcwd() of an interactive shell", "errors raised"])

prop("C10", "Shell variables and exported variables keep one consistent value",
 "In the shell's scope a string assigned to a name that is exported updates the exported variable that child processes see, any other assignment makes a local variable that children do not see, and reading a name after assigning, defining or importing it gives the value last assigned (one that is not a string leaves the exported variable to the children unchanged). Names resolve in the order local variables, exports, surrounding module, Python builtins, commands; and % expansion in arguments uses the same values. Within temporary_env the other environment's exports are used, and after it, however it is left, the original ones again.",
 ["histories", "inputs"],
 "all sequences of assignments, reads, deletions, exports, expansions and command runs on any names, including names of builtins and commands, in scopes with and without a surrounding module",
 "One test performs a single sequence of four assignments on two names.",
 ["pieshell/environ.py"],
 [("scope lookup and assignment", "pieshell/environ.py EnvScope.__getitem__, __setitem__"), ("argument variable expansion", "pieshell/environ.py Environment._expand_argument")],
 ["values read by executed code", "environ and argv of child processes"])

prop("C11", "A pipeline is reported failed exactly when one of its parts failed",
 "Waiting for, running or reading a pipeline raises PipelineFailed if and only if at least one of its processes exited non-zero or was killed by a signal, or one of its functions raised; the exception comes only after all parts ended and its pipeline's failed_processes lists exactly those parts, with their exit codes and captured standard error (which a command shares with the pipelines it has as arguments). Output produced before the failure is still delivered to the reader first.",
 ["programs", "fault_sequences", "schedules", "configurations"],
 "all pipelines of commands and functions (also in arguments and groups) with every combination of exit codes, killing signals and exceptions at any point of their input, in any finishing order, with any bytes on standard error",
 "One test runs a single failing script and only checks that some exception was raised.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/signalutils.py", "pieshell/iterio.py"],
 [("failure collection", "pieshell/pipeline/running.py RunningPipeline.wait, failed_processes"), ("child status decoding", "pieshell/signalio/signalutils.py get_sigchlds"), ("process end events", "pieshell/signalio/__init__.py ProcessSignalHandler")],
 ["exception raised and its pipeline", "exit_code, is_failed, output_content of each part", "lines read before the exception"])

prop("C12", "Waiting ends when, and only when, every part of the pipeline has ended",
 "However the parts of a pipeline end (exit, signal, end of iteration, exception) and in whatever order, every waiter, reader and awaiter of it, any number at the same time, returns once the last part has ended and none returns before. Until then the pipeline is listed as running, and afterwards it, its parts and the environment's list of running pipelines all report it as ended.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all finishing orders and ending kinds of commands and functions, several waiters started before, during and after, waits cancelled by timeouts, both signal back ends",
 "The tests only ever wait for one pipeline that ends by itself with plain exits; a missed wake-up would hang only under particular orders.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/iterio.py"],
 [("completion", "pieshell/pipeline/running.py RunningPipeline.wait, handle_finish, RunningItem.await_finish"), ("signal dispatch", "pieshell/signalio/manager_*.py SignalManager.handle_event")],
 ["when wait() returns relative to the ends of the processes", "is_running of the pipeline and its parts", "the environment's running pipelines"],
 [("finish_future", "what waiters wait on", "pieshell/pipeline/running.py")])

prop("C13", "Finished pipelines leave nothing behind in the shell",
 "After any history of pipelines that were run to their end (succeeding or failing, read, captured, redirected, with functions and pipeline arguments), the shell process has the same open descriptors, temporary files, child processes and pending event sources as before. Only temporary files explicitly asked for remain, until they are removed.",
 ["histories", "programs", "configurations"],
 "all sequences of pipelines of every kind and outcome in one process",
 "No test looks at the shell's descriptors, children or temporary files; a leak shows only after many runs.",
 ["pieshell/redir.py", "pieshell/iterio.py", "pieshell/pipeline/running.py", "pieshell/pipeline/function.py", "pieshell/pipeline/pipe.py"],
 [("closing handed-over descriptors", "pieshell/redir.py Redirect.close_source_fd"), ("handler destruction", "pieshell/iterio.py IOHandler.destroy"), ("temporary file removal", "pieshell/pipeline/running.py handle_pipeline_finish_destructive, remove_output_files")],
 ["/proc/self/fd of the shell", "children of the shell", "files in the temporary directory"])

prop("C14", "A command that cannot be set up as asked never runs and fails its pipeline",
 "If a command's program, one of its redirections or its directory cannot be opened, or its arguments or variables cannot be passed, the program is not run at all (in particular not with other descriptors than asked for), the pipeline is reported failed, the rest of the pipeline ends normally, and the calling Python code goes on exactly once. The same pipeline works once the cause is removed.",
 ["fault_sequences", "programs", "configurations"],
 "all set-up failures (missing or non-executable program, missing or unreadable input file, unwritable or missing output path, removed or forbidden directory) at any position of any pipeline, with any initial standard descriptors",
 "No test makes the set-up of a command fail.",
 ["pieshell/pipeline/command.py", "pieshell/redir.py"],
 [("child error path", "pieshell/pipeline/command.py Command._run"), ("redirect application", "pieshell/redir.py Redirects.perform")],
 ["side effects of the program", "PipelineFailed and its failed processes", "number of Python processes that return from the call"])

prop("C15", "Pipelines are values: building, printing and running them changes nothing",
 "Extending, combining, printing or running a pipeline never changes it or anything it was built from: the same object can be run any number of times, concurrently with itself, and used several times inside other pipelines, each use behaving like a freshly written one. Printing a pipeline of a non-interactive environment never runs it, and its text names its commands and their arguments; in an interactive environment printing it runs it exactly once.",
 ["histories", "programs"],
 "all histories of deriving, sharing, printing and running pipeline objects of every kind",
 "No test runs the same pipeline object twice or shares a part between pipelines.",
 ["pieshell/utils/copy.py", "pieshell/pipeline/base.py", "pieshell/pipeline/command.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/redirect.py", "pieshell/pipeline/function.py"],
 [("copy on run", "pieshell/utils/copy.py deepcopy; __deepcopy__ of each pipeline class"), ("printing", "pieshell/pipeline/base.py Pipeline.__repr__")],
 ["outputs of repeated runs", "repr() text before and after", "number of processes started"])

prop("C16", "Job control stops, resumes and reports processes faithfully",
 "For any history of suspending, resuming (restart, bg), waiting (wait, fg), killing and exiting, a pipeline's processes are stopped, continued or ended as ordered, and the last event, running state and exit code reported for each process are those of its real state: a stopped or continued process is never reported ended and an ended one never running. bg and fg act on the last pipeline or on the one given, and fg ends with the same outcome as that pipeline.",
 ["histories", "schedules", "configurations"],
 "all histories of stop, continue, terminate, exit and wait operations over pipelines of several processes, operations by the shell or from outside, both signal back ends",
 "No test suspends, resumes or kills a pipeline.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/signalutils.py", "pieshell/signalio/__init__.py", "pieshell/pipeline/builtins.py"],
 [("suspend and restart", "pieshell/pipeline/running.py RunningPipeline.suspend, restart"), ("status decoding", "pieshell/signalio/signalutils.py get_sigchlds"), ("bg and fg", "pieshell/pipeline/builtins.py BgBuiltin, FgBuiltin")],
 ["kernel state of the processes", "last_event, is_running, exit_code", "outcome of fg"])

prop("C17", "Pipelines running at the same time do not affect each other",
 "Any number of pipelines started, read, fed, awaited, cancelled and finished in any interleaving each deliver their own output, status and captured error exactly as if run alone. The end or failure of one is never attributed to, and never delays or ends, another.",
 ["schedules", "histories", "configurations"],
 "all interleavings of starts, partial reads, writes, waits and ends of several pipelines from sync and async code, with processes that end simultaneously",
 "The tests never have two pipelines running at once, except as arguments of one cat.",
 ["pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/signalio/signalutils.py", "pieshell/iterio.py", "pieshell/pipeline/running.py"],
 [("event dispatch per process", "pieshell/signalio/manager_*.py SignalManager"), ("per descriptor handlers", "pieshell/iterio.py IOHandler")],
 ["output, exit codes and captured errors of each pipeline"],
 [("signal_handlers", "which process events go to whom", "pieshell/signalio/manager_*.py")])

prop("C18", "Pickled and remote pipelines behave like the original",
 "A pipeline that was pickled and restored, at any point of its environment's history and also while other pipelines run or after some ended, prints and behaves like the original: same commands, arguments, redirections, directory and variables, hence same output and outcome. Running a pipeline through remote() gives the output and outcome it would have locally, and passes the host and options to ssh as given.",
 ["programs", "histories"],
 "all pipelines of commands, pipes, redirections, groups and option arguments, any environment directory and variables, any prior history of the environment",
 "No test pickles anything or uses remote.",
 ["pieshell/pipeline/base.py", "pieshell/environ.py", "pieshell/redir.py", "pieshell/pipeline/builtins.py", "pieshell/shell.py"],
 [("reduction of pipeline objects", "pieshell/pipeline/base.py describable_object_reduce"), ("environment state", "pieshell/environ.py Environment.__getstate__"), ("remote builtin", "pieshell/pipeline/builtins.py Remote")],
 ["output and outcome of the restored pipeline", "arguments given to ssh"])

prop("C19", "A subshell gives the output and outcome of the pipeline run directly",
 "Running a pipeline through subshell() delivers the same bytes on standard output as running it directly, succeeds exactly when the pipeline succeeds and fails when it fails, works as any stage of a larger pipeline, and changes nothing in the calling Python process, whose code and clean-up handlers run once only.",
 ["programs", "fault_sequences", "configurations"],
 "all pipelines of commands and functions with any outcome, subshells nested and at any position of a pipeline, called from any calling context",
 "No test uses subshell.",
 ["pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py"],
 [("subshell", "pieshell/pipeline/builtins.py SubShell._child")],
 ["output and outcome", "side effects of the caller's handlers"])

prop("C20", "bashsource imports exactly the variables the script exports",
 "After bashsource of any scripts (or of none: just what a login shell sets up), every variable they leave exported has in the shell's exports, and so in later child processes, exactly the value bash gave it, whatever characters the value, the script's functions or the script's path contain. Shell functions or unexported variables never show up as, or change, exported variables, and other exports are untouched.",
 ["inputs", "programs"],
 "all scripts exporting variables with any values (quotes, dollars, backslashes, newlines, control characters, unicode, empty), defining any functions (including text that looks like declarations, here-documents and unbalanced quotes), any script paths and numbers of scripts",
 "One test sources one script with one alphanumeric variable and one trivial function.",
 ["pieshell/pipeline/builtins.py"],
 [("declaration parser", "pieshell/pipeline/builtins.py parse_declares"), ("bashsource builtin", "pieshell/pipeline/builtins.py BashSource")],
 ["exports of the environment", "environ of later child processes"])

prop("C21", "Python code run by the shell means what it means in Python",
 "Plain Python code gives the same values and effects when imported as a .pysh module, executed or evaluated in the shell's scope, or wrapped as a shell function, as it gives in an ordinary Python module: all statements of the file are executed, functions keep all their parameters, defaults and closures, and modules expose what they define. In addition names that are not defined anywhere denote commands.",
 ["programs", "inputs"],
 "all Python programs over assignments, control flow, functions with any parameter kinds, classes, comprehensions, closures and imports, with any layout of the file (final newline or not, blank lines, comments), called with any arguments",
 "The tests import five fixed .pysh modules of a few lines each.",
 ["pieshell/environ.py", "pieshell/module.py"],
 [("scope as globals", "pieshell/environ.py EnvScope"), ("file execution", "pieshell/environ.py EnvScope.execute_file, execute_expr"), ("shell functions", "pieshell/environ.py Environment.pyshfunction"), ("module import", "pieshell/module.py Finder, Loader, Module")],
 ["values of module attributes and results of calls"])

prop("C22", "Every process of a pipeline is reachable by a name",
 "For any running or finished pipeline, following the names offered for it reaches every one of its processes and functions, each exactly once; a part whose command name is unique in the pipeline is reachable directly by that name (as an identifier, unless the object has an attribute of that name itself), and parts that share a name are told apart below it. The names offered are valid attribute names and always resolve.",
 ["programs", "inputs"],
 "all pipelines with any mix of equal, similar and unusual command names and arguments, functions and iterators, running or finished, and any tree of other processes",
 "One test looks up one process of a single-command pipeline by its name.",
 ["pieshell/tree.py", "pieshell/pipeline/running.py", "pieshell/ps.py"],
 [("name tree", "pieshell/tree.py TreeGroup"), ("keys", "pieshell/pipeline/running.py _getkey; pieshell/ps.py PstreeProcess._getkey")],
 ["dir() and getattr() of running pipelines and process objects"])

prop("C23", "The pieshell program runs what its command line says",
 "pieshell --cmd=TEXT executes any valid command or Python statement once, pieshell FILE... executes the files in order (an exception ends only the file that raises it), --pcmd runs the pickled pipeline once, statements entered at the console are each executed once, in order, and args and kws hold the given arguments; sys.exit ends the program with its status; --no-startup skips the start-up file, --log only turns on logging, and --version and --help only print. Commands run this way have pieshell's own standard input and output by default.",
 ["inputs", "programs", "configurations"],
 "all command lines built from the documented options, actions and script contents, with any home directory contents (start-up file missing, present, unwritable)",
 "No test starts the pieshell program.",
 ["pieshell/shell.py", "pieshell/environ.py"],
 [("command line", "pieshell/shell.py main"), ("start-up", "pieshell/environ.py EnvScope.execute_startup")],
 ["output and side effects of the pieshell process"])

prop("C24", "Interrupting or suspending the foreground pipeline leaves the shell usable",
 "When the terminal's interrupt arrives while a pipeline is waited for, PipelineInterrupted with that pipeline is raised; when the stop signal arrives in an interactive environment, all its processes are stopped and PipelineSuspended with that pipeline is raised. Afterwards the shell can run other pipelines correctly, and the suspended one can be resumed and gives its complete output and true outcome.",
 ["schedules", "histories", "configurations"],
 "all moments of delivery of the interrupt and stop signals relative to pipeline start, output, and end, any pipelines, both signal back ends, while other pipelines are awaited by other tasks, followed by any further operations",
 "No test delivers a signal to the shell.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py", "pieshell/pipeline/base.py"],
 [("stop handler", "pieshell/pipeline/running.py StopSignalHandler"), ("interrupt handling", "pieshell/pipeline/running.py RunningPipeline.wait")],
 ["exception raised and its pipeline", "state of the processes", "results of later pipelines"])

prop("C25", "The environment offers exactly the available command names",
 "The names an environment offers for completion contain every program in the directories of its PATH and every registered builtin, for any PATH (relative, empty, missing, unreadable or repeated entries), and after clearing the cache reflect the current state of those directories; a scope additionally offers its variables and exports. A name registered as a builtin, by any package, always runs that builtin instead of a program.",
 ["inputs", "histories", "configurations"],
 "all PATH values and directory contents, all histories of adding and removing programs, registering builtins and clearing the cache",
 "One test checks that ls is offered with the default PATH.",
 ["pieshell/environ.py", "pieshell/pipeline/builtin.py", "pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py"],
 [("completion list", "pieshell/environ.py Environment.__dir__, _clear_dir_cache; EnvScope.keys"), ("builtin registry", "pieshell/pipeline/builtin.py BuiltinRegistry"), ("cache clearing", "pieshell/pipeline/builtins.py ClearDirCacheBuiltin")],
 ["dir(env)", "keys of a scope", "what runs for a name"])

prop("C26", "Commands start in the process state the shell was started with",
 "Every external command, whatever part of a pipeline it is and however the pipeline is run, starts with the signal dispositions, umask, limits, process group and session that the shell itself was started with: signals that Python or pieshell ignore, catch or block for their own purposes have their default action in it (the terminal's stop signal excepted). So commands end when nobody reads their output any more, and can wait for their own children.",
 ["programs", "configurations"],
 "all pipelines (stages, groups, argument pipelines, subshells, commands started by functions), all ways to run them, all signal dispositions, masks, umasks and limits of the shell, both signal back ends",
 "The tests only look at what commands output.",
 ["pieshell/pipeline/command.py", "pieshell/signalio/manager_signalfd.py"],
 [("start of a command", "pieshell/pipeline/command.py Command._child"), ("blocked signals", "pieshell/signalio/manager_signalfd.py SignalManager.__init__")],
 ["/proc/self/status of commands", "whether commands end"])

prop("C27", "Every way to run a pipeline runs it once, where and when it should",
 "Every way to run a pipeline (+p, run_interactive(), await, displaying it or typing it in an interactive environment; ~p, run(), p & True / None / file / redirection / function / command, as a task, or while it is read) starts each of its commands exactly once and sends its output to the shell's standard output, to /dev/null, or to what was given. The ways that wait return once it has ended, with the finished pipeline, or raise PipelineFailed for it if a part failed, and the pipelines in the background keep running meanwhile; the others return at once, never fail by themselves, and the pipeline is listed in running_pipelines from then until it has ended. last_pipeline is always the one its environment has started last.",
 ["histories", "schedules", "configurations"],
 "all sequences of runs in any of these ways, of any pipelines, with any moments and order of their ends, in interactive and other environments, both signal back ends",
 "The tests run one pipeline at a time, mostly by reading it.",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/running.py", "pieshell/environ.py"],
 [("ways to run", "pieshell/pipeline/base.py Pipeline.run, run_interactive, __pos__, __invert__, __and__, __await__, __repr__"), ("bookkeeping", "pieshell/pipeline/running.py RunningPipeline.handle_finish; pieshell/environ.py running_pipelines")],
 ["returned objects and exceptions", "number of processes started", "running_pipelines and last_pipeline", "where output arrives"])

prop("C28", "A builtin takes part in pipelines as the pipeline it stands for",
 "A builtin that runs another pipeline, written as the documentation shows, can be used wherever a command can: read, piped from and into, grouped, redirected, given as an argument, given arguments of any kind itself, nested in other builtins, run in every way and pickled; each time the output, captured errors, exit codes, processes and side effects are those of the pipeline it runs, standing in its place.",
 ["programs", "inputs"],
 "all builtins that run any pipeline built from their arguments, in all positions of all pipelines",
 "No test defines a builtin.",
 ["pieshell/pipeline/builtin.py", "pieshell/pipeline/command.py", "pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/redirect.py"],
 [("builtin dispatch", "pieshell/pipeline/builtin.py BuiltinRegistry; pieshell/pipeline/command.py BaseCommand.__new__"), ("what a part of a pipeline must provide", "pieshell/pipeline/pipe.py Pipe._run; pieshell/pipeline/command.py Command._handle_arg_pipes")],
 ["output, exit codes, captured errors and processes, compared with the pipeline without builtins"])

prop("C29", "Completion and help describe a command line without running it",
 "Completing a command (dir of it, readline, jedi) offers exactly the completions that bash's completion function for it gives for the words of the command line so far, as the command would receive them, in the directory and with the variables of its environment; completing cd offers the directories below the path so far. The help text of a command is the output of it with --help added, and its signature has one keyword parameter for each option listed there, those that need no value with the default False. In doing so nothing else is run: neither text or pipelines in arguments, nor the command, pipeline or builtin described, also in an interactive environment; and the last and running pipelines, directory and variables of the environment stay as they were.",
 ["inputs", "configurations"],
 "all commands, arguments (also ones that are shell code), pipelines and builtins, all help texts, interactive or not, with other pipelines run before and in the background",
 "No test completes anything or asks for help.",
 ["pieshell/pipeline/command.py", "pieshell/pipeline/base.py", "pieshell/pipeline/builtins.py", "pieshell/environ.py", "pieshell/resources/get_completions", "pieshell/jedi_completion.py"],
 [("completion", "pieshell/pipeline/command.py BaseCommand._arg_list_sh, Command._complete, __dir__; pieshell/resources/get_completions; pieshell/jedi_completion.py"), ("help", "pieshell/pipeline/command.py Command.__signature__, __doc__; pieshell/pipeline/base.py DescribableObject, repr_without_running")],
 ["words the completion function is asked for", "completions, help text and signature", "commands run", "state of the environment"])

prop("C30", "Process objects show the processes they denote",
 "An object of a process (PstreeProcess, CURRENT, INIT, a part of a running pipeline, a login in USERS), whatever its name, arguments and state (also stopped, a zombie, or not ours), gives its children by name, the other attributes of that process, its parent, group leader and session leader as PARENT, GROUP and SESS (no parent for the first process), and its threads by length, index and iteration; it is always printed with its process number, also once the process has ended. USERS gives each login whose process exists by user name, several of one name told apart by host and process.",
 ["inputs", "histories"],
 "all process trees, names, arguments, groups, sessions, threads and states, all lists of logins, at all moments of the life of the processes",
 "No test uses process objects.",
 ["pieshell/ps.py", "pieshell/tree.py", "pieshell/pipeline/running.py"],
 [("process objects", "pieshell/ps.py PstreeProcess"), ("logins", "pieshell/ps.py PstreeLogin, PstreeLogins"), ("parts of pipelines", "pieshell/pipeline/running.py RunningProcess.details, __getattr__"), ("names", "pieshell/tree.py TreeGroup")],
 ["attributes, children and names of process objects", "text they are printed as", "logins under USERS"])

prop("C31", "The prompt shows where you are, and showing it changes nothing",
 "With the configuration the shell installs, the text of an environment, its prompt, is USER@HOST:DIR[REF +N] >>> for the environment it is the text of: DIR is its directory, where the home directory (and nothing else) is abbreviated to ~; REF is the branch checked out in the git work tree this directory is in, or else the start of the revision, and N the number of files that git reports as changed, left out if there are none; outside of work trees the part in brackets is missing. Showing it never fails, writes nothing, and leaves the directories, variables, last and running pipelines of all environments, the current environment, the shell's names, descriptors and files as they were.",
 ["histories", "configurations"],
 "all directories, homes and states of repositories, all environments and histories of pipelines in the foreground and background, both signal back ends",
 "No test loads the configuration.",
 ["pieshell/resources/default_config.pysh", "pieshell/environ.py", "pieshell/pipeline/base.py"],
 [("prompt", "pieshell/resources/default_config.pysh prompt, parse_git_branch, compress_user"), ("environment in use", "pieshell/environ.py Environment.temporary_env, EnvScope.__str__, __enter__"), ("start-up", "pieshell/environ.py EnvScope.execute_startup")],
 ["text of environments, of the scope and of sys.ps1", "state before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
