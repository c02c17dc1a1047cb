"""Writes properties.jsonl (the single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
         'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


L = 'lib/fbuild/'
DB = [L + 'db/__init__.py', L + 'db/database.py', L + 'db/backend.py', L + 'db/cache_backend.py',
      L + 'db/pickle_backend.py', L + 'db/sqlite_backend.py']

prop('C01', 'An incremental build gives what a clean build gives',
     'In any series of builds of one project, between which source files are edited, touched, '
     'replaced, removed or restored, outputs are removed and the text of cached functions, methods, '
     'properties and constructors is changed, every cached call returns the value, raises the kind of '
     'exception and leaves the content in its output files that the same build would starting from an '
     'empty database. Inputs of a call are its arguments, the files its source parameters name, '
     'and the sources it registered while it ran (its own and those of nested calls). '
     'Arguments and results may be instances of classes of the project, which may be renamed, moved, '
     'changed or removed between builds without making any build fail. '
     'This holds for both persistent database engines, whatever the modification times are as long as '
     'a changed file does not keep an old modification time.',
     ['histories', 'inputs'],
     'for every generated project of cached functions and every history of sessions and edits',
     'The tests run a handful of fixed two-step histories; staleness shows only in particular '
     'combinations of nesting, call order, reverts and removed files over several processes.',
     DB, [('call', L + 'db/database.py Database.call'), ('prepare/cache', L + 'db/backend.py Backend'),
          ('add_file', L + 'db/backend.py Backend.add_file')],
     ['values, exceptions and output files of the calls of each session'],
     [('functions, calls, files', 'what is known from earlier builds', L + 'db/*_backend.py')])

prop('C02', 'Nothing is run again without a reason',
     'A cached call that completed without any failure inside is answered from the database, without running the function, '
     'whenever it is repeated with equal arguments in the same or a later process, unless since then '
     'the text of its function or of a cached function it used changed, the content of one of its '
     'source files changed or the file was removed, or one of its output files is missing. '
     'Touching a file, rewriting it with the same content, other calls of the same function, failures of '
     'other calls, and edits to unrelated files and functions are no reason. '
     'A call answered from the database reports the same source and output files as when it ran.',
     ['histories', 'inputs'],
     'for every generated project and every history of sessions and edits',
     'Unnecessary work is invisible in results; only counting executions over many histories against a '
     'model of what is valid shows it.',
     DB, [('call', L + 'db/database.py Database.call'), ('find_call', L + 'db/*_backend.py'),
          ('check_call_file', L + 'db/backend.py')],
     ['which function bodies run in each session', 'the files reported by the full call'])

prop('C03', 'A change of function text reaches exactly its users',
     'When the text of a cached function, method, property or of a constructor of a persistent class '
     '(its own or inherited) changes, in any part of it, then in the next process every recorded call '
     'of it and of every function that used it, directly or through other cached functions, runs again '
     'when it is next requested, whatever order the calls come in and also if the text is changed back '
     'after having been run. Calls of functions that never used it are still answered '
     'from the database. Removing a function or adding new ones, recursion and mutual recursion do not disturb this.',
     ['histories', 'programs'],
     'for every generated call graph, every sequence of edits and every order of requests',
     'The tests change one function once; which users are forgotten depends on the shape of the call '
     'graph, on data-dependent callees and on the order in which users are asked first.',
     DB + [L + 'inspect.py', L + 'functools.py'],
     [('check_function', L + 'db/backend.py Backend.check_function'),
      ('function digests', L + 'db/database.py Database._digest_function'),
      ('getsource', L + 'inspect.py')],
     ['returned values and executed bodies after edits of fbuild project files'])

prop('C04', 'All database engines behave the same',
     'The same history of builds gives the same results, the same exceptions, the same reported source '
     'and output files and runs the same functions in the same order with the pickle engine and with the '
     'sqlite engine. Within one process the in-memory engine does so as well. '
     'Deleting a function or a file from the database, and asking for one that is not there, has the same effect and report with both.',
     ['histories', 'configurations'],
     'for every generated project, history and maintenance operation, on every engine',
     'Each engine implements storage separately and the tests compare each with fixed expectations only.',
     DB, [('storage', L + 'db/cache_backend.py, pickle_backend.py, sqlite_backend.py')],
     ['results, reported files and executed bodies per engine'])

prop('C05', 'Arguments and results survive in the database unchanged',
     'A cached function called in a later process with an argument equal to the recorded one gets the '
     'recorded result, which is equal to the returned one and of the same type throughout, for nested '
     'tuples, lists, dictionaries, sets, strings, numbers, bytes, paths, records and persistent objects; '
     'the context inside persistent objects is the context of the current build. '
     'An argument that differs from all recorded ones, also just in one nested element, attribute, class or in which '
     'parameter it is bound to, is never answered with the result of another. '
     'How an argument of a function or method is passed (by position, keyword or left to its default) makes no difference.',
     ['inputs', 'histories'],
     'for every generated value, signature and way to pass the arguments',
     'There are infinitely many values and signatures; the tests use a few small ones.',
     DB + [L + 'functools.py', L + 'path.py', L + 'record.py'],
     [('pickling', L + 'db/backend.py Pickler/Unpickler, sqlite_backend.py _pickle_dumps/_pickle_loads'),
      ('equality of persistent objects', L + 'db/__init__.py PersistentObject.__eq__'),
      ('bind_args', L + 'functools.py')],
     ['values returned by cached calls across processes'])

prop('C06', 'A failing call leaves no trace but what completed',
     'When a cached call raises, the very exception reaches its caller, nothing is recorded for it, and '
     'the next request with the same inputs runs it again; what other calls recorded before, inside or '
     'after it stays and is used. '
     'This holds wherever in a tree of nested, mapped or caught calls the failures happen, and through process ends. '
     'A build that fails with an error ends with a nonzero exit status and still saves what completed.',
     ['fault_sequences', 'histories'],
     'for every generated call tree and every set of failing positions',
     'Failures at arbitrary positions of arbitrary call trees, followed by later builds, cannot be listed.',
     DB + [L + 'main.py', L + 'sched.py', L + 'rpc.py'],
     [('call', L + 'db/database.py Database.call'), ('main', L + 'main.py main'), ('Task.run', L + 'sched.py')],
     ['exceptions seen by callers, executed bodies afterwards, exit status of the command'])

prop('C07', 'Being killed at any moment never corrupts the next build',
     'If a build process is killed at any point, including while the database is being saved, the next '
     'build opens the database without error and every call in it returns and leaves what a clean build would. '
     'Results saved by builds that ended normally before are not lost by a later build that is killed, '
     'and with the sqlite engine neither are the calls that completed before the kill. (As long as a function that only '
     'restores a missing output replaces it in one step, and no source is changed back to an earlier recorded content after the kill.)',
     ['crash_points', 'histories'],
     'for every system call that changes the file system during a build, and histories around it',
     'Tests never kill the process, and the windows are a few system calls wide.',
     [L + 'db/pickle_backend.py', L + 'db/sqlite_backend.py', L + 'db/backend.py', L + 'context.py'],
     [('pickle save', L + 'db/pickle_backend.py close/_connect'), ('sqlite transactions', L + 'db/sqlite_backend.py')],
     ['results of the build after the kill'],
     [('state file', 'saved database', 'build/fbuild-*.db, .tmp, .old')])

prop('C08', 'A parallel build gives what a serial build gives',
     'For every number of worker threads and every interleaving of tasks at points where they wait, '
     'cached calls made from scheduler tasks, also nested and several with the same arguments, return '
     'the values, leave the files and record the dependencies that they do when run one after the other. '
     'In particular a later build runs exactly what it would have to after a serial build.',
     ['schedules', 'programs', 'configurations'],
     'for every generated project, thread count and schedule of switch points',
     'Interleavings of cached calls are chosen by thread timing; the tests see one of them.',
     [L + 'db/database.py', L + 'db/backend.py', L + 'sched.py', L + 'rpc.py'],
     [('active call', L + 'db/database.py'), ('tasks', L + 'sched.py Task, WorkerThread'),
      ('database thread', L + 'rpc.py')],
     ['results, output files, and executed bodies of the following builds'])

prop('C09', 'map runs every item once and returns in order',
     'Mapping a function over any sequence with any number of threads calls it exactly once for each '
     'item and returns the results in the order of the items, also when the function maps again to any '
     'depth, waits in interruptible sections or runs from several threads at once. '
     'Between interruptible sections never two tasks of a scheduler run at the same time, and no more '
     'than the configured number of threads run tasks. If calls raise, one of these exceptions reaches the '
     'caller of map and the scheduler remains usable.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every tree of nested maps, set of failing items, thread count and schedule',
     'The tests map short lists; lost or doubled items and deadlocks need nesting and particular schedules.',
     [L + 'sched.py'], [('_evaluate', L + 'sched.py Scheduler._evaluate'), ('interruptible', L + 'sched.py')],
     ['calls made, results, exceptions, termination'])

prop('C10', 'map_with_dependencies respects every dependency',
     'Each distinct item is run exactly once and only after all the items it depends on, directly or '
     'indirectly, have finished; dependencies that are not among the items are ignored. The order of the '
     'results is the depth-first order of the items as given and does not depend on the number of threads or on timing. '
     'A dependency loop of any length is reported as such, naming items that are on it, without running the items on it, and '
     'an exception in a function stops its dependents from running and reaches the caller.',
     ['inputs', 'schedules', 'fault_sequences'],
     'for every dependency graph (cyclic ones included), set of failing items, thread count and schedule',
     'Graphs and schedules are unbounded; tests use three-node examples.',
     [L + 'sched.py'], [('map_with_dependencies', L + 'sched.py'), ('DependencyLoop', L + 'sched.py')],
     ['start and finish order of the items, results, exceptions'])

prop('C11', 'Arguments bind as the Python language binds them',
     'For every signature and every call, argument binding assigns each parameter the value a Python '
     'call would, defaults, variable positional and keyword parameters included; if Python rejects '
     'the call with a TypeError, so does the binding. '
     'The normalized positional and keyword arguments, when passed to the function, reach it as the original arguments do. '
     'The given arguments are not modified.',
     ['inputs', 'programs'],
     'for every function signature and argument list',
     'Signatures times argument lists is unbounded and errors are in rare combinations.',
     [L + 'functools.py'], [('normalize_args', L + 'functools.py'), ('bind_args', L + 'functools.py')],
     ['returned bindings'])

prop('C12', 'File name patterns match as documented',
     'A name matches a pattern exactly if * stands for any string, ? for any character, [seq] and [!seq] for a '
     'character in or not in the set (with ranges), {a,b} for any of the alternatives (nested, possibly '
     'empty), and everything else for itself; brackets or braces that are not closed stand for themselves. '
     'Matching covers the whole name, filtering keeps exactly the matching names in order, and the answer '
     'does not depend on what was matched before.',
     ['inputs'], 'for every pattern and every name',
     'The pattern language is infinite and mistakes sit in nested or unclosed constructs and special characters.',
     [L + 'fnmatch.py', L + 'path.py'], [('translate', L + 'fnmatch.py')], ['match results'])

prop('C13', 'Globbing finds exactly the matching files',
     'For every directory tree and pattern, globbing yields exactly the existing paths whose components match '
     'the components of the pattern, where ** stands for any number of directories, hidden names are only matched by '
     'components that begin with a dot, and a trailing slash asks for directories. '
     'A path without wildcards is found exactly if it exists, an escaped path finds exactly itself, '
     'and excluded patterns remove exactly the paths that match them, in nested lists of patterns too.',
     ['inputs'], 'for every directory tree, pattern and list of exclusions',
     'Trees times patterns is unbounded; tests use one fixed tree.',
     [L + 'glob.py', L + 'path.py'], [('iglob', L + 'glob.py'), ('iglob/globall', L + 'path.py')],
     ['yielded paths'])

prop('C14', 'Path operations obey the laws of paths',
     'Joining, splitting, taking the parent, replacing root, extension or base name, adding and removing a '
     'root, and making paths relative or absolute are consistent with each other and with the operating '
     "system's path rules for every path, and keep returning paths. "
     'The digest of a file depends on its content only and differs for different contents; the recursive '
     'listing yields every file below a directory exactly once.',
     ['inputs'], 'for every path string, list of paths and directory tree',
     'The laws quantify over all paths; tests check a few examples each.',
     [L + 'path.py'], [('Path', L + 'path.py')], ['returned paths'])

prop('C15', 'Executing a command is faithful',
     'Whatever bytes a command prints on its two streams, reads from its input, gets as arguments or in its '
     'environment, and however it ends, execute passes them on and returns them exactly. A nonzero status '
     'or death by signal raises an execution error that carries command, outputs and status unless errors are to be ignored, '
     'except that death by an interrupt is passed on as an interrupt. '
     'A command that exceeds its timeout is killed together with its children and reported as timed '
     'out, library paths are appended to the search path of the command, and a command that cannot be started raises an OS error.',
     ['inputs', 'fault_sequences'],
     'for every command, output, input, environment, status and timeout',
     'Sizes, byte values, status codes and their combinations cannot be enumerated by tests.',
     [L + 'context.py', L + 'subprocess/killableprocess.py', L + '__init__.py'],
     [('execute', L + 'context.py Context.execute'), ('Popen', L + 'subprocess/killableprocess.py')],
     ['returned output, exceptions, surviving processes'])

prop('C16', 'Log output is complete and never torn',
     'Every message logged with a verbosity the user asked for appears on the console exactly once and every message, of any '
     'verbosity, in the log file. Messages of one task appear in the order they were logged and a line '
     'started by one task is not interleaved with output of other tasks or threads, unless it asked for unbuffered output. '
     'Characters that the console cannot show are escaped. Colours only appear when enabled and never in the log file.',
     ['schedules', 'inputs', 'configurations'],
     'for every set of tasks logging concurrently, verbosity and colour setting',
     'Torn or lost lines depend on thread timing and on mixtures of calls.',
     [L + 'console.py', L + 'sched.py', L + 'context.py'], [('Log', L + 'console.py')],
     ['console output and log file'])

prop('C17', 'Installing puts exactly the requested files in place',
     'After an install, each requested file is at destination directory, then prefix, then subdirectory '
     '(the prefix is left out if the subdirectory is absolute), under its own or the given name, '
     'with the content of the source, as a link if the source is a link, and with the permissions asked for. '
     'Nothing is ever written outside of the destination directory, other files in it stay as they are, and the '
     'sources keep their content and permissions. Installing twice gives the same as installing once.',
     ['inputs', 'histories'],
     'for every list of install requests and previous state of the destination',
     'Paths, links, permissions and leftovers combine in too many ways.',
     [L + 'install.py', L + 'context.py'], [('Context.install', L + 'context.py'), ('LocalCommander', L + 'install.py')],
     ['the file tree after install'])

prop('C18', 'The command line runs what it says',
     'Targets run once for every mention, in the order given, and only if they exist; configure and install get the implied '
     'build in between. A failing target stops the build with nonzero status. '
     'Forcing a rebuild ignores the saved database, not saving leaves it as it was, deleting a function or '
     'file makes exactly the calls that used it run again and reports an error if it is unknown, dumping the '
     'state changes nothing, and cleaning removes the build directory and nothing else.',
     ['inputs', 'histories', 'configurations'],
     'for every sequence of command lines over generated projects',
     'Options combine over several invocations; tests do not run the command at all.',
     [L + 'main.py', L + 'options.py', L + 'target.py', L + 'context.py'],
     [('main', L + 'main.py'), ('load/save_configuration', L + 'context.py')],
     ['exit status, executed targets and function bodies, files'])

prop('C19', 'Text and file builders produce what their inputs say',
     'Substituting patterns, formatting and configuring templates write exactly the text their documentation '
     'describes for any template and values, and copying writes the same bytes to the described destination. '
     'When template, values or files change, the next build brings the output up to date, and otherwise '
     'leaves it alone. A template that needs an unknown value is an error and produces no output.',
     ['inputs', 'histories'],
     'for every template, set of values, source tree and sequence of edits',
     'Templates and values are unbounded and the corner cases are in their combination.',
     [L + 'builders/text.py', L + 'builders/file.py'],
     [('substitution', L + 'builders/text.py'), ('copy', L + 'builders/file.py')],
     ['output files and reruns'])

prop('C20', 'Platform options and program lookup are exact',
     'Options for a platform apply exactly if all required tags are present and no excluded one is, in order, replacing, '
     'adding to or removing from the given values; the options are not changed by it, and through the method of a '
     'builder or a cached function neither are the values given. '
     'Looking up a program yields the first of the names that is, as given or in the search path in path order, an executable '
     'file, or reports it missing; version requirements are compared numerically. The platform and its file names '
     'are the ones of the system.',
     ['inputs', 'configurations'],
     'for every platform, list of options, search path and version',
     'Combinations of tags, value types and search paths are unbounded.',
     [L + 'builders/platform.py', L + 'builders/__init__.py'],
     [('parse_platform_options', L + 'builders/platform.py'), ('find_program', L + 'builders/__init__.py')],
     ['resulting options, found program, accepted versions'])

prop('C21', 'C and C++ projects build correctly and incrementally',
     'For a tree of C or C++ sources with nested headers, static and shared libraries and executables, each '
     'build leaves programs that behave as if everything had been compiled from scratch. After an edit '
     'exactly the objects whose source or included headers changed are compiled again, and exactly what '
     'depends on changed objects is linked again; nothing runs when nothing changed. '
     'Flags, macros and include paths given to a builder or a call reach the compiler in every case.',
     ['histories', 'programs'],
     'for every generated source tree, builder options and sequence of edits',
     'Include graphs, library graphs and edit sequences are unbounded; the tests build a single hello world.',
     [L + 'builders/c/__init__.py', L + 'builders/c/gcc/__init__.py', L + 'builders/cxx/gxx/__init__.py',
      L + 'builders/__init__.py'],
     [('Builder.build_objects', L + 'builders/c/__init__.py'), ('Compiler.scan', L + 'builders/c/gcc/__init__.py')],
     ['output of the built programs, commands run'])

prop('C22', 'Configuration probes report what the compiler has',
     'Each probed header, type, constant, structure field, variable or function is reported present exactly if the compiler '
     'accepts its use, with the size, alignment, value or name the compiler gives it. '
     'Probing happens once and is remembered by later builds, but a test that was changed is probed again, and tests never share an answer, also when they have the same name or run in parallel.',
     ['inputs', 'configurations'],
     'for every header, type, field and macro declared in generated headers',
     'Tests only look at one system header set; wrong answers need unusual types and missing items.',
     [L + 'config/__init__.py', L + 'config/c/__init__.py'],
     [('probes', L + 'config/c/__init__.py')], ['probe results against the compiler'])

prop('C23', 'Remote calls to the database thread are answered exactly once',
     'Every call made from any thread is executed exactly once in the one service thread, in the order of '
     'calls of each client, and its own result or exception is what the caller gets. '
     'A call after the service has ended is refused, and ending it waits for the calls made before.',
     ['schedules', 'inputs', 'fault_sequences'],
     'for every set of clients, call sequence, failing call and moment of shutdown',
     'Mixed-up answers and lost calls need particular thread timings.',
     [L + 'rpc.py'], [('RPC', L + 'rpc.py')], ['results per client, executed calls'])

prop('C24', 'OCaml projects build correctly and incrementally',
     'For a tree of OCaml modules with and without interface files, generated lexers and parsers, libraries, packs and '
     'executables, each build to bytecode, to native code or to both leaves programs that behave as if everything had been compiled from '
     'scratch, whatever the order the sources are given in. After an edit, also if it adds or removes interface files, exactly the files whose own text or '
     'used interfaces (in native code also implementations), directly or indirectly, changed are compiled again, '
     'and exactly what contains changed objects is linked again; nothing runs when nothing changed. '
     'Flags given to a call reach the compiler.',
     ['histories', 'programs'],
     'for every generated module graph, layout and sequence of edits',
     'Module graphs, interface files and edit sequences are unbounded; the tests build fixed examples once.',
     [L + 'builders/ocaml/__init__.py'],
     [('Builder.build_objects', L + 'builders/ocaml/__init__.py'), ('Ocamldep.source_dependencies', L + 'builders/ocaml/__init__.py')],
     ['output of the built programs, commands run'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
