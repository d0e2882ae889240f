"""Running cases outside the worker process.

``forked(fn)``  runs fn() in a forked child and returns what it returned (JSON),
                so a case starts from a known process state however many cases
                ran before it.
``Server``      a persistent interpreter with another environment (time zone,
                hash seed, locale, working directory) that answers JSON requests.
"""

import atexit
import base64
import dataclasses
import json
import os
import pickle
import subprocess
import sys

from lib import sut

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except sut.Violation as v:
                out = ("violation", str(v))
            except BaseException as e:
                import traceback
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise sut.Violation("the process died while working on this case")
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise sut.Violation(value)
    if kind == "error":
        raise sut.HarnessError(value)
    return value


class Server:
    def __init__(self, env, cwd="/tmp", args=()):
        e = {k: v for k, v in os.environ.items() if k not in ("TZ", "LC_ALL", "LANG", "PYTHONHASHSEED")}
        e.update(env, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
        self.name = " ".join("%s=%s" % kv for kv in sorted(env.items())) + " cwd=" + cwd
        self.p = subprocess.Popen([sys.executable, *args, "-m", "lib.pool"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, cwd=cwd)
        atexit.register(self.stop)

    def ask(self, request):
        self.p.stdin.write(json.dumps(request).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise sut.Violation("the process (%s) died on this case" % self.name)
        return json.loads(line)

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(2)
        except Exception:
            self.p.kill()


def alike(x, y):
    """Whether two objects are equal and all their parts hash alike."""
    if not isinstance(x, sut.api.Base):
        return True
    try:
        if hash(x) != hash(y):
            return "hash of a %s" % type(x).__name__
    except TypeError:
        pass
    if x != y:
        return "a %s is unequal" % type(x).__name__
    for f in dataclasses.fields(x):
        v, w = getattr(x, f.name), getattr(y, f.name)
        for a, b in zip(v, w) if isinstance(v, list) else [(v, w)]:
            bad = alike(a, b)
            if bad is not True:
                return bad
    return True


def answer(docs):
    """Everything observable about a list of documents, or about a pickled object."""
    out = []
    for d in [docs] if isinstance(docs, dict) else docs:
        with sut.Capture() as cap:
            try:
                obj = pickle.loads(base64.b64decode(d["pickle"])) if docs is d else sut.api.parse_node(d)
            except Exception as e:
                out.append(["parse error", type(e).__name__, str(e)])
                continue
            res = [obj.to_dict()]
            for flag in (False, True):
                try:
                    res.append(["ok", obj.to_markdown(ignore_error=flag)])
                except Exception as e:
                    res.append(["err", type(e).__name__])
            if docs is d:
                res.append(alike(obj, sut.api.parse_node(d["d"])))
            res.append([r[2] for r in cap.records])
        out.append(res)
    return out


if __name__ == "__main__":
    sut.quiet()
    sys.setrecursionlimit(6000)
    for line in sys.stdin:
        sys.stdout.write(json.dumps(answer(json.loads(line))) + "\n")
        sys.stdout.flush()
