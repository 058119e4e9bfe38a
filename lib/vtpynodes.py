"""Nodes implemented in Python whose behaviour is told by the check running in the same process."""
import sys, types, gc
from Timba import pynode, dmi
from Timba.TDL import Meq
from Timba import meqserver_interface as server

STATE = sys.modules.setdefault("vt_pynode_state", types.SimpleNamespace(script=None, log=[], kept=[], tests=None))

class Unprintable(Exception):
    def __str__(self): raise ValueError("no")

class Odd(object): pass

def throw(kind):
    if kind == "value": raise ValueError("thrown by the test")
    if kind == "exit": raise SystemExit("thrown by the test")
    if kind == "exit0": sys.exit(0)
    if kind == "interrupt": raise KeyboardInterrupt("thrown by the test")
    if kind == "stop": raise StopIteration
    if kind == "unprintable": raise Unprintable()
    if kind == "unicode": raise RuntimeError("thr\u00f6wn\udcff \u4e2d")
    if kind == "class": raise KeyError
    if kind == "deep":
        def f(): return f() + 1
        f()
    if kind == "percent": raise ValueError("%s %n %d")
    if kind == "empty": raise ValueError("")
    if kind == "key": return {}["missing key"]

class Script(pynode.PyNode):
    """everything is up to the script"""
    def update_state(self, mystate):
        STATE.log.append(("state", mystate.initializing, dict((str(k), mystate.staterec[k]) for k in mystate.staterec.keys() if str(k) in ("gain", "tag", "lst"))))
        mystate("gain", 1.5)
        mystate("tag", "x"); mystate("lst", [1, 2])
        if "bad" in mystate.staterec: raise ValueError("bad state")
    def get_result(self, request, *children):
        return STATE.script.get_result(self, request, *children)

class Plain(pynode.PyNode):
    """without any state"""
    def get_result(self, request, *children):
        return STATE.script.get_result(self, request, *children)

class Modify(Script):
    def modify_child_request(self, request):
        return STATE.script.modify(self, request)

class Commands(Script):
    def process_command(self, command, args, cmd, verbosity):
        return STATE.script.command(self, command, args, cmd, verbosity)

class NoResult(pynode.PyNode):
    pass

class FailsToInit(pynode.PyNode):
    def __init__(self, *args):
        pynode.PyNode.__init__(self, *args)
        throw(STATE.script.how)

class Tensor(pynode.PyNode):
    def evaluate_tensors(self, *args):
        return STATE.script.evaluate(self, *args)

class TensorDims(Tensor):
    def get_result_dims(self, *dims):
        return STATE.script.dims(self, *dims)
