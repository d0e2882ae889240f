"""Interpreters into which the package has not been imported yet.

A ``Zygote`` is a process with other interpreter options that sees the standard library, the declared dependency and
the working tree of the repository, nothing else. For every request it forks a child, which imports modules of the package
in the order it is told, works on documents, and reports what came out and what else happened in the process.
"""

import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PACKAGE = "atlas_doc_parser"
DEPENDENCY = "func_args"  # pyproject.toml


def modules(repo):
    """The modules of the package as it is used: not its tests and not the generator, which need other packages."""
    top = os.path.join(repo, PACKAGE)
    out = []
    for folder, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "vendor", "docs", "templates", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py") and f != "gen_code.py":
                parts = os.path.relpath(os.path.join(folder, f), repo)[:-3].split(os.sep)
                out.append(".".join(parts[:-1] if parts[-1] == "__init__" else parts))
    return sorted(out)


class Zygote:
    def __init__(self, repo, args, env):
        self.name = " ".join(list(args) + ["%s=%s" % x for x in sorted(env.items())])
        self.dir = tempfile.mkdtemp(prefix="verif-fresh-")
        dep = os.path.dirname(importlib.util.find_spec(DEPENDENCY).origin)
        os.symlink(dep, os.path.join(self.dir, DEPENDENCY))
        e = dict({"PATH": "/usr/bin:/bin", "HOME": self.dir}, **env)
        self.p = subprocess.Popen(
            [sys.executable, "-S", "-s", "-P", *args, os.path.abspath(__file__), self.dir, repo],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=self.dir)
        # a worker that ends closes the pipe; the interpreter then removes the folder and ends

    def ask(self, request):
        self.p.stdin.write(json.dumps(request).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line) if line.strip() else None


# ------------------------------------------------------- inside the interpreter
def snapshot():
    import atexit, builtins, copy, copyreg, dataclasses, datetime, decimal, enum, faulthandler, functools, gc, json, locale, logging
    import pickle, random, re, signal, string, textwrap, threading, time, typing, warnings
    log = logging.getLogger(PACKAGE)
    return {
        "recursion limit": sys.getrecursionlimit(), "locale": locale.setlocale(locale.LC_ALL), "environment": dict(os.environ),
        "working directory": os.getcwd(), "sys.path": list(sys.path), "warning filters": len(warnings.filters),
        "root logger": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.disabled, logging.root.manager.disable),
        "package logger": (log.handlers == [], log.propagate, log.disabled, log.level, log.filters == []),
        "signal handlers": [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "random state": hash(random.getstate()), "hooks": [id(x) for x in (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr)],
        "builtins": sorted(vars(builtins)), "threads": threading.active_count(), "time zone": time.tzname,
        "garbage collector": (gc.isenabled(), gc.get_threshold()), "decimal context": decimal.getcontext().prec,
        "trace": (sys.gettrace() is None, sys.getprofile() is None), "umask": os.umask(os.umask(0o22) or 0o22),
        "switch interval": sys.getswitchinterval(),
        "exit functions": atexit._ncallbacks(), "warning filter list": repr(warnings.filters), "gc callbacks": len(gc.callbacks),
        "import machinery": (len(sys.meta_path), len(sys.path_hooks), id(builtins.__import__)), "copyreg": len(copyreg.dispatch_table),
        "more hooks": [id(x) for x in (sys.unraisablehook, threading.excepthook, warnings.showwarning, warnings.formatwarning)],
        "logging": (logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.getLogRecordFactory()), len(logging._handlerList),
                    logging.getLevelName(30), logging.lastResort is None, logging._srcfile),
        "digits": sys.get_int_max_str_digits(), "fault handler": faulthandler.is_enabled(), "traceback limit": getattr(sys, "tracebacklimit", None),
        "timers": signal.getitimer(signal.ITIMER_REAL)[1], "profile of threads": (threading.gettrace() is None, threading.getprofile() is None),
        "standard library": {m.__name__: hash(tuple((k, id(v)) for k, v in vars(m).items() if callable(v) and not k.startswith("_")))
                             for m in (copy, dataclasses, datetime, decimal, functools, json, logging, pickle, random, re, string, textwrap,
                                       threading, time, warnings)},
        "tables": [sorted((repr(k), id(v)) for k, v in t.items()) for t in (
            copy._deepcopy_dispatch, copy._copy_dispatch, copyreg.dispatch_table, pickle._Pickler.dispatch, pickle._Unpickler.dispatch,
            logging._levelToName, logging._nameToLevel)],
        "standard classes": {c.__name__: hash(tuple((k, id(v)) for k, v in vars(c).items()))
                             for c in (json.JSONEncoder, json.JSONDecoder, logging.Logger, logging.LogRecord, enum.Enum, enum.EnumMeta,
                                       threading.Thread, dataclasses.Field, Exception)},
    }


EVENTS = []
WATCHED = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "socket.connect", "socket.bind", "os.remove",
           "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.truncate", "os.link", "os.symlink", "shutil.rmtree", "os.putenv",
           "tempfile.mkstemp", "tempfile.mkdtemp", "socket.getaddrinfo", "os.kill", "os.chdir")
READ_ONLY = set()


def audit(event, args):
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            if isinstance(path, str) and not path.startswith(CACHE):
                EVENTS.append("open %r for writing" % (path,))
    elif event in WATCHED:
        if not (args and isinstance(args[0], str) and args[0].startswith(CACHE)):
            EVENTS.append("%s %r" % (event, args[:1]))


CACHE = "/nonexistent"
TOP = "/nonexistent"


class Surroundings(os._Environ):
    """Every environment variable that the package looks up is set."""
    value = None

    def __getitem__(self, key):
        try:
            return super().__getitem__(key)
        except KeyError:
            f = sys._getframe(1)
            while f and ("<frozen" in f.f_code.co_filename or os.path.basename(f.f_code.co_filename) in ("os.py", "_collections_abc.py")):
                f = f.f_back
            if self.value is None or f is None or not f.f_code.co_filename.startswith(TOP):
                raise
            return self.value


def child(req):
    import importlib
    import logging
    import tempfile as _t
    out = {"failed": None, "results": [], "changed": []}
    hole = os.open("out.%d" % os.getpid(), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.unlink("out.%d" % os.getpid())
    saved = os.dup(1), os.dup(2)
    os.dup2(hole, 1)
    os.dup2(hole, 2)
    before = snapshot()
    sys.addaudithook(audit)
    Surroundings.value = req["variables"]
    os.environ.__class__ = Surroundings
    try:
        for m in req["order"]:
            out["failed"] = "import " + m
            importlib.import_module(m)
        out["failed"] = "import of the entry"
        out["after import"] = sorted(k for k, v in snapshot().items() if v != before[k])
        entry = req["entry"]
        if entry == "api":
            parse = importlib.import_module(PACKAGE + ".api").parse_node
        elif entry == "api doc":
            parse = importlib.import_module(PACKAGE + ".api").NodeDoc.from_dict
        elif entry == "doc module":
            parse = importlib.import_module(PACKAGE + ".nodes.node_doc").NodeDoc.from_dict
        else:
            parse = importlib.import_module(PACKAGE + ".nodes.parse_node").parse_node
        out["failed"] = "work"
        records = []
        handler = logging.Handler()
        handler.emit = lambda r: records.append((r.levelname, r.getMessage()))
        log = logging.getLogger(PACKAGE)
        before2 = snapshot()
        log.addHandler(handler)
        log.propagate = False
        objs = []
        for d in req["docs"]:
            obj = parse(d)
            objs.append(obj)
            out["results"].append([obj.to_dict(), obj.to_markdown(), obj.to_markdown(ignore_error=True)])
        log.removeHandler(handler)
        log.propagate = True
        out["records"] = records
        out["after work"] = sorted(k for k, v in snapshot().items() if v != before2[k])
        out["failed"] = "the public API"
        api = importlib.import_module(PACKAGE + ".api")
        out["same class"] = all(type(o) is api.NodeDoc for o in objs)
        try:
            api.parse_mark({"type": "zzNew"})
            out["error"] = "none"
        except api.UnimplementedTypeError as e:
            out["error"] = "%s %s" % (e.type_value, e.category)
        out["failed"] = None
    except BaseException as e:
        import traceback
        out["failed"] += ": %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]))
    out["events"] = list(EVENTS)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(saved[0], 1)
    os.dup2(saved[1], 2)
    os.lseek(hole, 0, 0)
    out["printed"] = os.read(hole, 2000).decode("utf-8", "replace")
    return out


def serve(scratch, repo):
    global CACHE, TOP
    TOP = os.path.join(repo, PACKAGE)
    # all that the package may use anyway, so that a fork does not load it again
    import atexit, copyreg, faulthandler, pickle, string  # noqa: F401, E401
    import copy, dataclasses, datetime, decimal, enum, functools, gc, importlib, json, locale, logging, pathlib  # noqa: F401, E401
    import random, re, signal, tempfile, textwrap, threading, time, traceback, typing, warnings  # noqa: F401, E401
    sys.path[:] = [p for p in sys.path if p and os.path.abspath(p) != HERE and "site-packages" not in p and "dist-packages" not in p]
    sys.path += [scratch, repo]
    CACHE = sys.pycache_prefix = os.path.join(scratch, "cache")
    sys.dont_write_bytecode = False
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.alarm(60)
                out = child(json.loads(line))
                with os.fdopen(w, "w", encoding="utf-8") as f:
                    f.write(json.dumps(out))
            except BaseException as e:
                try:
                    with os.fdopen(w, "w", encoding="utf-8") as f:
                        f.write(json.dumps({"failed": "reporting: %r" % (e,)}))
                except BaseException:
                    code = 70
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, encoding="utf-8") as f:
            data = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write((data or json.dumps({"failed": "the process died"})) + "\n")
        sys.stdout.flush()
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    serve(*sys.argv[1:])
