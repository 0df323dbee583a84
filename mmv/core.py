"""Facets: the executable statements of a property.

A facet is a Hypothesis strategy that yields a JSON value (the case) and a function that runs the code under test on the
case and raises `Violation` when the property does not hold.  Everything random lives in the strategy, so a case is a
complete reproduction.
"""
import functools
import json
import os
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    pass


class Ctx:
    """Per-case notes: what class the case falls in, and whether it exercises anything."""

    def __init__(self):
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def trivial(self):
        self.nontrivial = False


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, cpu=60):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule, self.cpu = quick, thorough, rule, cpu


def facet(registry, strategy, quick, thorough=None, rule="", name=None, cpu=60):
    """Registers check(case, ctx).  `strategy` is a zero-argument callable (built lazily, in the worker)."""

    def deco(fn):
        registry.append(Facet(name or fn.__name__, strategy, fn, quick, thorough or quick * 10, rule or (fn.__doc__ or "").strip(), cpu))
        return fn

    return deco


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def from_code_under_test(exc):
    """Did the exception come out of mmcore (rather than out of the harness)?"""
    root = os.path.realpath(os.environ.get("MMV_TREE", "/repo"))
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith("mmcore/") or os.path.realpath(fn).startswith(root + os.sep + "mmcore" + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_case(f, case):
    """-> (message or None, ctx).  Raises HarnessError for what is not the code's doing."""
    ctx = Ctx()
    try:
        f.check(json.loads(json.dumps(case)), ctx)
    except Violation as e:
        return str(e) or "property violated", ctx
    except (HarnessError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa
        if from_code_under_test(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return f"unexpected {type(e).__name__}: {str(e)[:300]} (at {last.filename}:{last.lineno} {last.name})", ctx
        raise HarnessError("".join(traceback.format_exception(e))) from e
    return None, ctx


def load(prop):
    import importlib
    return importlib.import_module(f"mmv.checks.{prop.lower()}")
