"""Loads the project's Python package and the harness module from the private build."""
import os, sys, warnings, inspect
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODE = os.environ.get("VT_MODE", "release")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SRC = os.path.join(WORK, MODE, "src")
INST = os.path.join(SRC, "install", "symlinked-release")
BUILD = os.path.join(SRC, "build", "release")
warnings.filterwarnings("ignore", category=DeprecationWarning)
warnings.filterwarnings("ignore", category=SyntaxWarning)
if not hasattr(inspect, "getargspec"):      # Python 3.12, project written for < 3.11
    def getargspec(func):
        s = inspect.getfullargspec(func)
        return (s.args, s.varargs, s.varkw, s.defaults)
    inspect.getargspec = getargspec
sys.path.insert(0, os.path.join(BUILD, "vharness"))
sys.path.insert(0, os.path.join(INST, "libexec", "python"))
if "/opt/vp/py" not in sys.path:
    sys.path.append("/opt/vp/py")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setdlopenflags(os.RTLD_GLOBAL | os.RTLD_NOW)
sys.setrecursionlimit(10000)
