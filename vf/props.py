"""The properties: the single source of properties.jsonl and MANIFEST.json (tools/mkmeta.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, note, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, note=note, technique=technique))


P("C01", "A search finds every entry exactly once",
  "For every directory tree that does not change during the search, every number of jobs and every spelling of the "
  "start directories, a search without tests reports every entry below the start directories exactly once and nothing "
  "else (entries of directories the user may not list or enter are left out), with -L also everything below symbolic "
  "links to directories. It ends by itself with exit code 0, whatever the timing of its parallel processes.",
  ["inputs", "schedules", "configurations"],
  "All trees (names that are arbitrary bytes, all file types, empty/deep/wide directories, unreadable directories), all "
  "ways to name start directories, -j, -L, -a, output channels, all interleavings of the worker processes.",
  "The tests search a handful of fixed trees once each; a lost chunk needs a particular interleaving or a directory of "
  "a particular size.",
  ["libff/walk.py", "libff/context.py", "libff/processing.py", "libff/main.py", "libff/entry.py", "libff/arguments.py"],
  [("FilesystemWalker.loop / process_directory / process_entries", "libff/walk.py"),
   ("pending counter and barrier decide when everything is done", "libff/context.py")],
  "Generated trees against a reference walk (os.listdir recursion), with schedule perturbation at the IPC points.")

P("C02", "Boolean expressions select exactly the entries they describe",
  "An expression made of tests, AND (explicit or implied), OR, NOT and nested brackets '(' ')' or '{{' '}}' (keywords "
  "in any case) selects exactly the entries for which the Boolean formula holds, with AND binding more tightly than OR; "
  "a test on an attribute that an entry does not have is false, and no expression at all selects everything. "
  "Expressions that are not well-formed (unbalanced brackets, empty alternatives, NOT without an operand) are rejected "
  "with exit code 2 and no results.",
  ["inputs", "programs"],
  "All expressions over all attributes, fast and slow ones, and all trees.",
  "There are infinitely many expressions; the tests contain a few dozen flat ones, and the optimizer reorders tests.",
  ["libff/parser.py", "libff/filter.py", "libff/registry.py"],
  [("Parser.parse_sequence", "libff/parser.py"), ("Parser.optimize", "libff/parser.py"),
   ("Matcher._test", "libff/filter.py")],
  "Random ASTs rendered to argument lists, evaluated by an independent evaluator over reference attribute values; "
  "plus malformed token lists.")

P("C03", "String tests compare as documented in every case mode",
  "For string and path attributes '=' means equality, ':' substring and '~' a regular expression search in the value; "
  "with --case ignore, or --case smart and a value without uppercase letters, both sides are compared ignoring case, "
  "otherwise case matters. For lists of strings the test is true if it is true for at least one string of the list; "
  "invalid regular expressions and operators the type does not have are rejected with exit code 12 before any search.",
  ["inputs"],
  "All attribute values, all test values (any Unicode, undecodable bytes, special characters), operators and --case modes.",
  "Case folding and escaping problems appear only for particular characters.",
  ["libff/type.py", "libff/parser.py"],
  [("String.test, Path.test, ListOfStrings.test", "libff/type.py"), ("Parser.create_test", "libff/parser.py")],
  "Generated names/values and derived test values against a reference in plain Python.")

P("C04", "Numbers, sizes, times and durations are parsed and compared correctly",
  "Numeric tests with =, +=, -=, +, - (and >=, <=, >, <) select exactly the entries whose value stands in that relation "
  "to the parsed value: plain numbers; sizes in bytes or with a unit (K, M, G ... powers of 1024, KB, MB, GB ... powers of "
  "1000, fractions allowed, case ignored); timestamps in each documented date and time pattern in local time, as seconds since "
  "1970 or as a duration before now; durations as sums of s, m, h, d, w, M, y, minutes if without unit. "
  "Values outside of these grammars are rejected with exit code 2 and no results.",
  ["inputs"],
  "All numbers, units, date patterns, time zones and boundary values.",
  "Off-by-one and rounding errors appear at single values, tests cover a few.",
  ["libff/convert.py", "libff/type.py"],
  [("parse_size, parse_time, parse_duration", "libff/convert.py"), ("Number.test", "libff/type.py")],
  "Generated values around the boundary of a reference computed with exact arithmetic and zoneinfo.")

P("C05", "Mode tests follow find -perm semantics",
  "perm and mode tests accept octal numbers and symbolic modes (comma separated, u g o a with + - = and r w x s t), '=' is true if the "
  "permission bits are equal to the given ones, ':' if all of the given bits are set and '~' if any of the given bits is set. "
  "For symbolic modes that GNU find accepts too, '=' and ':' select the same files as find -perm MODE and find -perm -MODE.",
  ["inputs"],
  "All 4096 permissions, all octal values and symbolic modes.",
  "The grammar is combinatorial; tests use a few values.",
  ["libff/type.py"],
  [("Mode.parse_mode, Mode.test", "libff/type.py")],
  "Generated modes against an independent bit model, and differentially against GNU find.")

P("C06", "Glob tests match as gitignore patterns do",
  "With '%', '*' and '?' match anything but '/', '[...]' and '[!...]' match one character (not '/') of a set with ranges, '**' "
  "between slashes spans directories and every other character matches itself; the whole name must match. For path attributes a pattern without a slash (except at its end) is "
  "compared with the last component, any other one with the whole value without leading slashes, a trailing slash restricts it "
  "to directories, and a leading '!' inverts the test.",
  ["inputs"],
  "All patterns and all values, including characters that are special in regular expressions, newlines and undecodable bytes.",
  "The translation to regular expressions has to be right for every combination of wildcards and literals.",
  ["libff/ignore.py", "libff/type.py", "libff/parser.py"],
  [("Glob.translate, Glob.match", "libff/ignore.py"), ("String.test, Path.test", "libff/type.py")],
  "Grammar-generated patterns and values derived from them against an independent backtracking matcher.")

P("C07", "-I hides exactly the files that ignore files exclude",
  "With -I an entry is hidden exactly if the last pattern that matches it, in the ignore files of its own and its parent "
  "directories from the outermost to the innermost, is not a negated one, and nothing below a hidden directory is shown; this includes ignore files above the "
  "start directory unless --no-parent-ignore is given, and ignore.ignored and ignore.path report the same decision. For the supported pattern "
  "syntax this agrees with git check-ignore.",
  ["inputs", "configurations"],
  "All trees of ignore files with comments, anchored patterns, negations, directory patterns and wildcards, all start directories and ignore file names.",
  "The outcome depends on the order of patterns over several files; the tests have one fixed tree.",
  ["libff/ignore.py", "libff/builtin/ignore.py", "libff/walk.py", "libff/main.py"],
  [("GitIgnore", "libff/ignore.py"), ("Ignore plugin", "libff/builtin/ignore.py"),
   ("scan_directory collects ignore files", "libff/walk.py")],
  "Generated trees of ignore files against a reference implementation and against git itself.")

P("C08", "Exclusion removes an entry and everything below it",
  "With -e TEST (any number of times), -H, -d RANGES and --one-file-system the result is exactly the set of entries that match "
  "the expression, are not excluded themselves and have no excluded directory above them: -e excludes entries for which one of the tests is "
  "true, -H entries whose name starts with a dot, --one-file-system entries on another device than their start directory. -d keeps "
  "exactly the entries whose depth (0 for children of a start directory) is in one of the ranges, combined with any expression.",
  ["inputs", "configurations"],
  "All trees, combinations of exclusion options, depth ranges and expressions.",
  "The options are translated to tests that interact with the expression; tests cover few combinations.",
  ["libff/filter.py", "libff/arguments.py", "libff/walk.py"],
  [("Excluder.test", "libff/filter.py"), ("ArgumentsPostProcessor", "libff/arguments.py"),
   ("process_entries does not descend into excluded directories", "libff/walk.py")],
  "Generated trees and option combinations against a reference walk with pruning.")

P("C09", "Sorting yields a permutation in the documented order",
  "With --sort the output is a permutation of the unsorted result, ordered by the given attributes in turn (paths ignoring case and leading dots of "
  "components, strings ignoring case, numbers by value), and the order does not depend on the number of jobs except among entries whose keys are equal. With the modifier v numbers inside of names are ordered by value, "
  "--reverse reverses the order, a missing value sorts like an empty string, zero or false, and no combination of values makes sorting fail.",
  ["inputs", "schedules"],
  "All sets of names and values, all lists of sort attributes and modifiers.",
  "Sort keys have to be comparable for every pair of values, tests sort a few.",
  ["libff/field.py", "libff/type.py", "libff/processing.py"],
  [("SortFields.render, prepare_sort_key", "libff/field.py"), ("CollectiveMixin.finalize", "libff/processing.py"),
   ("Type.sort_key", "libff/type.py")],
  "Generated trees; the output is checked against reference keys and metamorphic relations.")

P("C10", "--limit returns exactly the requested slice of the sorted result",
  "With --sort, --limit A:B yields exactly what Python's slice [A:B] of the complete sorted output contains (open ends and negative positions included), "
  "--limit SIZE,PAGE the PAGE-th page of SIZE entries and -1 the first entry; consecutive pages partition the result. Without --sort it yields as many "
  "entries of the unlimited result, none twice. The same slice is passed to all output formats, to -x and to -X.",
  ["inputs", "configurations"],
  "All slices and page sizes, all result sizes, all output channels.",
  "Boundary errors appear only at particular combinations of slice and size.",
  ["libff/argparse.py", "libff/processing.py"],
  [("type_slice", "libff/argparse.py"), ("CollectiveMixin.entries_range", "libff/processing.py")],
  "Generated slices against Python slicing of the unlimited output, all channels.")

P("C11", "--count reports exact totals",
  "--count reports as _total the number of entries the search matches, for attributes that are summed up (size, duration) the exact sum of "
  "all values and for other attributes how many entries have each value, entries without a value being left out; the numbers do not depend on the number of jobs. "
  "The text and the JSON form contain the same numbers, an attribute that is given twice is counted once, and attributes that cannot be counted are rejected with exit code 2.",
  ["inputs", "schedules", "configurations"],
  "All trees, attribute lists, modifiers, tests and numbers of jobs.",
  "Counts are accumulated over chunks from parallel processes.",
  ["libff/processing.py", "libff/field.py"],
  [("CollectiveMixin.collect_count, prepare_count, print_count", "libff/processing.py"), ("CountFields", "libff/field.py")],
  "Generated trees with counts recomputed from os.lstat.")

P("C12", "Text output renders each requested attribute, one record per entry",
  "Each matching entry produces exactly one record: the values of the requested attributes in order, joined by --sep, padded to the requested width (negative: to the left) and never "
  "truncated, ended by a newline or by NUL with -0, names as the bytes they have in the file system. Modifiers h, x and o render values as documented (sizes with units of 1024, "
  "or 1000 with --si, dates in local time, durations as h m s, modes like ls), and entries that lack a requested value are left out unless --all or the modifier n is given, which leave the field empty.",
  ["inputs", "configurations"],
  "All attributes, modifiers, widths, separators and values.",
  "Formatting has boundaries (rounding to the next unit, widths, missing values) that tests cannot list.",
  ["libff/console.py", "libff/convert.py", "libff/type.py", "libff/field.py"],
  [("Console.process, format_field, pad_string", "libff/console.py"), ("format_size, format_duration, format_time", "libff/convert.py"),
   ("Type.output", "libff/type.py")],
  "Generated entries and formats against a reference renderer.")

P("C13", "JSON output is valid and carries the exact values",
  "--json prints one valid JSON list and --jsonl (--ndjson) one valid JSON object per line, with exactly one object per matching entry also if there are no entries; each object has exactly the "
  "requested attributes as keys with the values in their native types (numbers, booleans, strings, lists), null if the entry has no value, and text rendered by the modifier h if given. "
  "Names survive exactly, whatever bytes they contain, and paths are absolute.",
  ["inputs", "configurations"],
  "All attributes, modifiers and names including control characters, quotes and undecodable bytes.",
  "Escaping and encoding must be right for every string.",
  ["libff/console.py", "libff/field.py"],
  [("JsonConsole, JsonlConsole", "libff/console.py"), ("OutputFields.to_dict", "libff/field.py")],
  "Round-trip: parse the output, compare with values from os.lstat and with the text output.")

P("C14", "Records of parallel processes are never interleaved",
  "Whatever the length of the records, the number of jobs, the speed of the reader and the timing, each record (text, NUL-separated or JSON lines) reaches standard output as one "
  "contiguous piece, so that the output is a sequence of complete records, each exactly once.",
  ["schedules", "inputs", "configurations"],
  "All record lengths (below and above the size of pipe buffers), slow readers, numbers of jobs.",
  "Interleaving needs concurrent writers, long records and a full pipe.",
  ["libff/console.py", "libff/context.py"],
  [("Console._write_line and JsonlConsole._print_record under output_lock", "libff/console.py")],
  "Long records, tiny pipes, slow readers and perturbed schedules; the output is compared with the set of expected records.")

P("C15", "-x runs the command exactly once per entry with exact arguments",
  "-x runs the command exactly once for every matching entry, each placeholder replaced by the exact value for that entry within the argument it occurs in, '{{' and '}}' by literal braces, the path appended if no "
  "argument contains a placeholder, and no argument split, merged or interpreted by a shell; entries that lack a value used in the command are left out. The exit code is 0 if all commands succeed and 3 if one fails or cannot be started; with "
  "--halt never (the default) all entries are still processed after failures.",
  ["inputs", "schedules", "fault_sequences"],
  "All command templates, names (spaces, quotes, newlines, leading dashes, undecodable bytes), exit codes, -j, --sort, --limit.",
  "Tests use a few templates with echo.",
  ["libff/field.py", "libff/processing.py", "libff/context.py", "libff/walk.py"],
  [("ExecFields", "libff/field.py"), ("Context.run_exec_process", "libff/context.py"), ("Parallel", "libff/processing.py")],
  "A recorder program stores its argv; the multiset of calls is compared with a reference expansion.")

P("C16", "-X passes every entry exactly once, in order, however many there are",
  "-X passes the values of all matching entries to the command, each exactly once and in the order of --sort, the arguments of the template in place; if they do not fit on one command line it is split over "
  "several calls whose concatenation is the complete list. Without entries the command is not run, the exit code is 3 if a call fails or cannot be started, and 0 otherwise.",
  ["inputs", "configurations"],
  "All templates, numbers of entries and lengths of names, with small and large limits for command lines.",
  "Splitting happens only beyond the system's limit of the command line.",
  ["libff/processing.py", "libff/field.py"],
  [("CollectiveExecProcessing.finalize splits on E2BIG", "libff/processing.py"), ("ExecBatchFields", "libff/field.py")],
  "Recorder program, low stack limits that lower the limit for arguments, long names.")

P("C17", "Bad command lines fail cleanly with the documented exit code",
  "For every command line ff ends by itself with exit code 0 or one of the documented codes 1, 2, 3, 4, 10, 11, 12 and without a Python traceback. Unknown options, missing or invalid option arguments, invalid values, malformed "
  "expressions and missing directories yield 2, unknown attributes 11 and invalid tests 12, each with a message on standard error and nothing on standard output.",
  ["inputs", "programs"],
  "All argument lists and values of FF_OPTIONS.",
  "The space of command lines is infinite, tests cover a few errors.",
  ["libff/argparse.py", "libff/arguments.py", "libff/main.py", "libff/parser.py", "libff/field.py", "libff/exceptions.py"],
  [("ArgumentParser.parse_args", "libff/argparse.py"), ("Main.handle_exception", "libff/main.py")],
  "Grammar-based fuzzing and mutation of valid command lines with exit code oracle.")

P("C18", "The metadata cache never changes results",
  "Through any history of searches interleaved with modifications of files (changing their modification time), removals, renames, new plugin versions, --clean-cache and concurrent or killed searches, a search with the "
  "cache gives the same results as without. Data that is still valid is taken from the cache instead of being computed again, and --clean-cache removes only the data of files that no longer exist.",
  ["histories", "schedules", "inputs"],
  "All histories over a shared cache, all file names, several plugins and processes.",
  "Staleness needs a sequence of operations on the same cache.",
  ["libff/cache.py", "libff/registry.py", "libff/plugin.py"],
  [("Cache.get/set/commit/clean/init_table", "libff/cache.py"), ("Registry.get_data_from_plugin", "libff/registry.py")],
  "Stateful histories of operations; every search is compared with --no-cache and with a model of what must be cached.")

P("C19", "Failures are contained and reported, never silent or endless",
  "Files and directories that vanish, appear or become unreadable during a search never abort it: all entries that stay untouched are reported exactly once with exit code 0. If a plugin raises an unexpected exception or a worker process is killed, "
  "ff terminates by itself with a message and exit code 4 (10 if the main process fails; 0 only if the result is complete nevertheless), and never prints an entry twice or one that does not match.",
  ["fault_sequences", "crash_points", "schedules"],
  "All points at which files vanish or change, plugins fail or processes are killed.",
  "Faults have to be injected at particular moments.",
  ["libff/walk.py", "libff/processing.py", "libff/context.py", "libff/registry.py", "libff/entry.py"],
  [("FilesystemWalker.scan_directory and loop", "libff/walk.py"), ("check_for_failed_processes", "libff/processing.py")],
  "Concurrent modification of trees, failing plugins and SIGKILL of workers at random moments.")

P("C20", "File attributes describe the entry exactly",
  "Every attribute of the file plugin (path, root, relpath, dir, name, ext, pathx, namex, mode, perm, type, device, inode, samedev, depth, exec, size, times, links, uid, gid, user, group, hide, hidden, empty, link, target, broken, mount, mpath, fstype) has, for every entry, the value that "
  "lstat(2), or stat(2) with -L, readlink(2) and the path itself give for it. path is the start directory joined with relpath (absolute with -a), dir and name split it at the last slash, and pathx, namex and ext split off the extension, which leading dots never start.",
  ["inputs", "configurations"],
  "All file types, names, permissions, owners, times, link structures and start directories.",
  "Path splitting and symlink handling have corner cases per name.",
  ["libff/entry.py", "libff/path.py", "libff/builtin/file.py"],
  [("Entry", "libff/entry.py"), ("splitext, split, join", "libff/path.py")],
  "Generated trees; --jsonl of all attributes against os.lstat and a reference for paths.")

P("C21", "A file reference behaves like the referenced file's value",
  "A test ATTR OP {}FILE selects the same entries as the test with the value of ATTR of FILE in place of the reference, and ATTR OP {OTHER}FILE the same as with the value of OTHER; FILE may be anywhere, inside or outside of the start "
  "directories, relative or absolute. References to missing files are rejected with exit code 2, references between incomparable types with exit code 2 or 12, always without results.",
  ["inputs", "configurations"],
  "All attributes, operators, reference files and start directories.",
  "The product of attributes, operators and locations is large, tests have a few.",
  ["libff/parser.py", "libff/entry.py"],
  [("Parser.get_reference_value", "libff/parser.py"), ("Entry.as_reference", "libff/entry.py")],
  "Metamorphic: reference against literal value, and a model from lstat.")

P("C22", "Equivalent spellings of a command line are equivalent",
  "Short and long options, bundled short options, --option=value and separate values, aliases of options, FF_OPTIONS in place of the first arguments, 'plugin.attribute' and 'attribute', '>=' and '+=' and so on, and positional directories before or after "
  "the tests or via -D all give the same results and exit code. -H is -e hide=yes, -I is -e ignored=yes, --one-file-system is -e samedev=no, -v is its documented list of attributes, --count defaults to size and type, -1 is -l 0:1.",
  ["inputs", "configurations", "programs"],
  "All pairs of equivalent command lines.",
  "The number of spellings grows with every option, tests use one of each.",
  ["libff/argparse.py", "libff/arguments.py", "libff/parser.py"],
  [("parse_combined_short_options, parse_long_option_with_value", "libff/argparse.py"), ("collect_arguments, ArgumentsPostProcessor", "libff/arguments.py")],
  "Metamorphic: one abstract command line rendered in random ways, all outputs compared.")

P("C23", "The Python API returns what the command line prints",
  "Iterating over Find(query, ...) yields for every combination of its arguments exactly the records that ff --jsonl with the corresponding options prints (apart from absolute paths), in the same order if sorted, with keys also accessible as attributes. Invalid arguments raise exceptions, and any number of searches, also with different caches, "
  "repeated, interleaved or abandoned ones, can be made in one process.",
  ["inputs", "configurations", "histories"],
  "All arguments of Find and sequences of searches in one process.",
  "The API and the command line set up the search separately.",
  ["libff/find.py", "libff/processing.py", "libff/registry.py", "ff/__init__.py"],
  [("Find", "libff/find.py"), ("ImmediateGenerator, CollectiveGenerator", "libff/processing.py")],
  "Differential: scripts with several searches against the command line.")

P("C24", "Colors never change the text",
  "For every LS_COLORS, --color=always output with the escape sequences removed is identical to --color=never output, including padding; directories, executables, links, broken links and extensions carry exactly the sequence that LS_COLORS assigns to them, reset afterwards. Without a terminal, with --color=never, NO_COLOR or JSON output there are no "
  "escape sequences.",
  ["inputs", "configurations"],
  "All values of LS_COLORS, names, widths and attributes.",
  "Width computation and rule lookup depend on the data.",
  ["libff/console.py"],
  [("ColorConsole", "libff/console.py")],
  "Metamorphic (strip) and reference renderer for rules.")

P("C25", "The bundled plugins report the actual content of files",
  "The grep, mime, medium, hash, tar, git, shebang, py, xattr and fs plugins report for every entry the data that an independent computation gives (lines and line count of UTF-8 text files, MIME type of libmagic, size, duration and tags of media, digests, sorted member names, the state in git, the text after '#!', "
  "imported modules, extended attributes, file system type). Content a plugin cannot handle (binary, damaged or unreadable files, special files) gives no values, never an error, and never blocks the search.",
  ["inputs"],
  "All file contents, including damaged ones.",
  "Plugins parse arbitrary files, tests have a few small ones.",
  ["libff/builtin/grep.py", "libff/builtin/mime.py", "plugins/hash.py", "plugins/tar.py", "plugins/git.py", "plugins/introspect.py", "plugins/xattr.py", "plugins/fs.py", "libff/builtin/media.py"],
  [("Plugin.process of each plugin", "plugins/")],
  "Generated and mutated contents (text, Python, archives, media, git repositories) against what is known by construction and hashlib, tarfile, libmagic, stat.")

P("C26", "User plugins are found, resolved and called as documented",
  "Plugins in ~/.ff and FF_PLUGIN_DIRS (files *.py not starting with '_') are available with all their attributes under the full name, and without the plugin name if it is unique; file attributes take precedence and ambiguous names give exit code 11. A plugin is consulted only for "
  "entries it can handle, only if the search needs it, its data arrives unchanged, missing values make tests false, and modules that fail to load or yield values of a wrong type are reported with exit code 10 or 4.",
  ["inputs", "programs", "configurations"],
  "All sets of plugins, attribute names, types and values.",
  "Tests have no user plugins.",
  ["libff/registry.py", "libff/plugin.py", "libff/attribute.py"],
  [("Registry.load_plugins, parse_attribute, get_data_from_plugin", "libff/registry.py")],
  "Generated plugin modules with known values against a model of name resolution and calls.")

P("C27", "ff stops promptly and quietly when its reader goes away",
  "If the reader closes standard output at any moment (before, during or after the output), ff terminates by itself soon after, with exit code 0, without a traceback and without leaving processes behind; what was "
  "read until then is a prefix of complete records followed by at most one partial one.",
  ["crash_points", "schedules", "configurations"],
  "All moments at which the reader may close the pipe, all output formats, numbers of jobs and result sizes.",
  "It depends on which process writes when the pipe breaks.",
  ["libff/walk.py", "libff/main.py", "libff/console.py"],
  [("BrokenPipeError handling", "libff/main.py"), ("FilesystemWalker.loop", "libff/walk.py")],
  "A reader that closes after a random number of bytes.")

P("C28", "An interrupted or killed ff ends soon and leaves nothing behind",
  "If ff is interrupted (SIGINT, to ff alone or to its process group) or its main process is terminated or killed at any moment (SIGTERM, SIGHUP, SIGKILL), all of its processes end soon by themselves and no further "
  "commands are started, in every mode and with the Python API. What was printed until then is a prefix of complete records followed by at most one partial one, and a later search, also with the same cache, is not affected.",
  ["crash_points", "schedules", "configurations"],
  "All moments at which a signal may arrive, all signals, output modes, numbers of jobs, and readers that read, wait or go away.",
  "Tests never interrupt a search.",
  ["libff/walk.py", "libff/main.py", "libff/context.py", "libff/processing.py"],
  [("FilesystemWalker.loop", "libff/walk.py"), ("Main.walk", "libff/main.py")],
  "Signals at generated moments; process groups, output and the next search are examined.")

P("C29", "--halt stops running commands as documented",
  "With --halt soon or now no further -x commands are started soon after a command has failed; with soon the commands that are running are not disturbed and ff waits for them, with now they are terminated. With never, or if "
  "none fails, every command is run to its end; the exit code is 3 if a command failed, with a message that gives the exact numbers of successes and failures, and 0 otherwise.",
  ["schedules", "histories", "configurations"],
  "All combinations of failing, slow and quick commands, numbers of jobs, immediate and sorted mode.",
  "It depends on what is running when a command fails.",
  ["libff/context.py", "libff/processing.py", "libff/walk.py"],
  [("Context.run_exec_process", "libff/context.py"), ("Parallel.thread", "libff/processing.py")],
  "Commands that write a log of starts, ends and terminations, checked against the rules for each mode.")

P("C30", "--fail gives exit code 1 exactly if there are no results",
  "With --fail the exit code is 1 if no entry matches, in every output mode (text, JSON, --sort, --limit, --count, -x, -X), and if entries match it is the same as without --fail. The option changes nothing else, neither the output nor the messages.",
  ["inputs", "configurations"],
  "All trees, expressions, exclusions and output modes.",
  "Tests use --fail in one mode with one tree.",
  ["libff/main.py", "libff/processing.py", "libff/context.py"],
  [("set_has_result", "libff/context.py"), ("Main.walk", "libff/main.py")],
  "The same search with and without --fail and a plain search that counts the matches.")

P("C31", "Debug mode, debug messages and profiling change nothing",
  "The same command line gives the same exit code, output, executed commands and messages in optimized mode (bin/ff), in debug mode and with any --debug categories, which only add DEBUG messages of the requested categories; "
  "--profile goes through the same search (the same exit code, the same counts) and prints only its statistics.",
  ["inputs", "configurations"],
  "All command lines in all modes.",
  "The tests run in one mode, the users in the other.",
  ["libff/main.py", "libff/logger.py", "libff/context.py", "libff/processing.py", "bin/ff"],
  [("__debug__ branches", "libff/"), ("Logger.debug", "libff/logger.py"), ("Context.is_finished", "libff/context.py")],
  "Differential: the same command line in every mode.")

P("C32", "Help pages show exactly what is available",
  "--help-attributes, --help-plugins, --help-types and --help PLUGIN list every plugin, attribute and type that is installed, with its type, its operators and its complete description, whatever characters the description has. "
  "The operators listed for an attribute are exactly those that tests accept, its type can be counted as listed, and every option in --help is accepted and described in --help-full.",
  ["inputs", "programs"],
  "All plugins, types, attributes and descriptions.",
  "Tests never look at the help pages.",
  ["libff/help.py", "libff/registry.py", "libff/argparse.py"],
  [("ManPage", "libff/help.py"), ("get_*_manpage", "libff/registry.py")],
  "Generated plugins; a roff interpreter reads the page that man(1) gets.")
