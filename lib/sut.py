"""The code under test, imported from the repository's working tree.

``VERIF_REPO`` (default ``/repo``) is only for running the checks against a
scratch copy while developing them.
"""

import os
import sys
import logging

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class HarnessError(Exception):
    """Something is wrong with the check, not with the code under test."""


class Violation(Exception):
    """The property does not hold for the current case."""


class Hang(BaseException):
    """A single case used an absurd amount of CPU time."""


def _import():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # never trust a stale .pyc beside a source file that has just been patched
    old = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix, sys.dont_write_bytecode = "/nonexistent/verif-pycache", True
    try:
        import atlas_doc_parser.api as api
        import atlas_doc_parser.settings as settings
    finally:
        sys.pycache_prefix, sys.dont_write_bytecode = old
    where = os.path.realpath(api.__file__)
    if not where.startswith(REPO + os.sep):
        raise HarnessError("atlas_doc_parser comes from %s, not from %s" % (where, REPO))
    return api, settings


api, settings = _import()


def call(what, fn, *args, **kwargs):
    """Call the code under test where the property says that it must not raise."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def outcome(fn, *args, **kwargs):
    """("ok", value) or ("err", exception)."""
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as e:
        return "err", e


def parse(dct):
    return call("parsing", api.parse_node, dct)


def render(obj, **kw):
    md = call("rendering", obj.to_markdown, **kw)
    if not isinstance(md, str):
        raise Violation("to_markdown() returned %s, not a string" % type(md).__name__)
    return md


LENIENT = {"on": False}  # set by the runner for one case in six


def md(dct, **kw):
    """Markdown of a raw node dictionary that is convertible."""
    if LENIENT["on"] and not kw:
        kw = {"ignore_error": True}
    return render(parse(dct), **kw)


def to_dict(obj):
    return call("serialising", obj.to_dict)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation("%s\n  got : %r\n  want: %r" % (what, got, want))


class Capture(logging.Handler):
    """Collects what the library logs."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelname, record.getMessage()))

    def __enter__(self):
        self.log = logging.getLogger("atlas_doc_parser")
        self.old = (self.log.propagate, self.log.level, self.log.disabled)
        self.log.propagate = False
        self.log.addHandler(self)
        return self

    def __exit__(self, *exc):
        self.log.removeHandler(self)
        self.log.propagate = self.old[0]
        return False


def quiet():
    """Keep warnings about skipped types off stderr."""
    log = logging.getLogger("atlas_doc_parser")
    log.propagate = False
    if not log.handlers:
        log.addHandler(logging.NullHandler())
