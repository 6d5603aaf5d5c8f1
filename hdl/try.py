import sys
sys.path.insert(0, "/verif/hdl")
from lib import *
import importlib
m = importlib.import_module(sys.argv[1])
fn = getattr(m, sys.argv[2])
args = [eval(a) for a in sys.argv[3:]]
import time
t = time.time()
rep = Rep("x")
fn(rep, *args)
print(rep.checked, rep.stats, rep.samples, "%.1fs" % (time.time() - t))
for b in rep.bad: print("BAD", b["rule"], b["construct"], b["detail"][:700])
