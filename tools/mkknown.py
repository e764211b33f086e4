#!/usr/bin/env python3
"""Write known_findings.json: the repairs are read from the history of /repo, the properties from the list below.

Run by hand after a repair; checks never write the file."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = [
    ("Sort by lists of strings", "C09"),
    ("profiling runs failed if the results", "C31"),
    ("profiling runs were incomplete", "C31"), ("has no docstring", "C32"), ("leading dots and quotes of descriptions", "C32"),
    ("if the main process is killed", "C28"),
    ("reader of the help text", "C27"),
    ("attributes with one letter", "C26"),
    ("provided a set of strings", "C26"),
    ("MIME types for files whose names", "C25"), ("media attributes for files whose names", "C25"), ("worktrees and submodules", "C25"), ("rewrote the index of git", "C25"),
    ("byte order mark or an encoding", "C25"), ("syntax warnings for python files", "C25"), ("package names of relative imports", "C25"),
    ("names of directories were not colored", "C24"), ("special values in LS_COLORS", "C24"),
    ("with too many open files", "C23"), ("removed directories from the list of tests of the caller", "C23"), ("if the number of jobs was zero", "C23"), ("could not be copied or pickled", "C23"),
    ("set up in another thread", "C23"), ("of a search with the Python API went unnoticed", "C23"), ("if they were abandoned", "C23"), ("when iterated a second time", "C23"),
    ("directories after the tests", "C22"),
    ("references to lists", "C21"), ("references did not work with the root", "C21"), ("references to paths never matched", "C21"),
    ("broken was wrong for symbolic links that treat", "C20"), ("paths contained two slashes if a start", "C20"), ("samedev and --one-file-system were wrong", "C20"),
    ("mountpoints were wrong below", "C20"), ("mountpoints were not recognized", "C20"), ("mountpoints with special characters", "C20"),
    ("hung forever if an idle process was killed", "C19"), ("hung forever if a process was killed while it was sending", "C19"),  # (part of the commit's subject, property)
    ("calculated in the main process was never stored", "C18"), ("data of existing broken symbolic links", "C18"), ("removed an old table at the same time", "C18"),
    ("deeply nested expression", "C17"), ("printed an opening bracket", "C17"), ("brackets or NOT as an exclude test", "C17"),
    ("in transit between processes", "C01"), ("empty alternatives", "C02"), ("natural sorting failed", "C09"),
    ("tar.members sortable", "C25"), ("partly numeric", "C11"), ("count the same attribute twice", "C11"),
    ("long records", "C14"), ("closed by the reader", "C27"), ("too long for a command line", "C16"),
    ("invalid option arguments", "C17"), ("invalid -e/--exclude", "C17"), ("errors with directories, the cache", "C17"),
    ("invalid boolean", "C17"), ("against the value of path attributes", "C06"), ("names that contain newlines", "C06"),
    ("path separators with brackets", "C06"), ("invalid glob patterns and unreadable", "C07"), ("undecodable names", "C18"),
    ("--clean-cache failed", "C18"), ("cache tables of other plugins", "C18"), ("multiple searches with different caches", "C23"),
    ("symbolic file mode", "C05"), ("date and time patterns precedence", "C04"), ("rounding errors when parsing", "C04"),
    ("--color=always if LS_COLORS", "C24"), ("relative file references", "C21"), ("line endings", "C25"),
    ("git plugin failed", "C25"), ("recognize a shebang", "C25"), ("names of an import", "C25"), ("block on fifos", "C25"),
    ("Python files that cannot be parsed", "C25"), ("shake_128", "C25"), ("directory has vanished", "C25"),
    ("consecutive asterisks that are part", "C06"), ("ignore files from parent directories independent", "C07"),
    ("newlines in the value of a test", "C03"), ("converting them to lower case", "C03"),
    ("too large or too deeply nested", "C03"), ("durations with an invalid unit", "C04"), ("round file times", "C04"),
    ("unclosed brackets", "C06"), ("links to absolute paths", "C20"), ("without -I too", "C07"),
    ("come first with natural sorting", "C09"), ("strict about them", "C11"), ("root directory with a single slash", "C12"),
]


def main():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        data = {"findings": []}
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
    fixed, left = [], []
    for line in log.splitlines():
        commit, subject = line.split(" ", 1)
        if not subject.startswith("fix: "):
            continue
        for part, pid in PROPERTY:
            if part in subject:
                fixed.append(f"fixed: property={pid} {commit} {subject[5:]}")
                break
        else:
            left.append(line)
    data["fixed"] = fixed
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    print(len(fixed), "repairs;", "without property:", left or "none")
    return 1 if left else 0


sys.exit(main())
