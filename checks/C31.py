"""assertions: builds with assertions enabled behave as release builds on every permitted input"""
import runpy
from common import *

ck = Check("C31")
SUB = ["C01", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C20", "C27", "C28"]
if os.environ.get("C31_SUB"):
    SUB = os.environ["C31_SUB"].split(",")
Check.master = ck
for pid in SUB:
    runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), pid + ".py"))
Check.master = None
ck.run()
ck.finish("with assertions enabled, every operation on inputs its documentation permits returns, and returns what its specification says: no assertion fires, and none changes the result",
          "the analyses of the other properties, repeated on the program compiled with assertions (NDEBUG not defined): an assertion that fires is a path that does not return",
          ["those of the repeated analyses"], {"repeated": SUB})
