"""Property framework: a property is a set of generated checks.

A check has a Hypothesis strategy producing a plain JSON value (the case) and a function
run(case, ctx) that drives the real code and raises Violation (or any exception) when the
property does not hold.  The case is the whole input: replay is run(json.load(file)).
"""
import json, os, sys, time, hashlib, math

class Violation(Exception):
    pass

class Known(Exception):
    """A failure listed in known_findings.json."""

class Check:
    def __init__(self, name, strategy, run, quick, thorough, shards=1, rule="", setup=None,
                 case_timeout=60, repeat=1, fork=False, env=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.setup, self.case_timeout = rule, setup, case_timeout
        self.repeat, self.fork, self.env = repeat, fork, env or {}

class Property:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.checks = {}
        self.setup = None
    def check(self, name, strategy, quick, thorough, **kw):
        def deco(f):
            self.checks[name] = Check(name, strategy, f, quick, thorough, **kw)
            return f
        return deco

class Ctx:
    """Handed to every run: classification of the case and findings already known."""
    def __init__(self, known=()):
        self.known_keys = set(known)
        self.reset()
        self.known_hits = {}
    def reset(self):
        self.nontrivial = True
        self.labels = []
        self.evals = 1
    def trivial(self, cond=True):
        if cond:
            self.nontrivial = False
    def label(self, *ls):
        self.labels += [str(x) for x in ls]
    def fail(self, msg, key=None):
        """Reports a failure; key names the finding it would be if listed as known."""
        if key is not None and key in self.known_keys:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            raise Known(key)
        raise Violation(msg if key is None else "[%s] %s" % (key, msg))

def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
