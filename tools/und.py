"""list undecided obligations of a check"""
import sys, importlib
sys.path[:0] = ["/verif/an", "/verif/tools"]
sys.setrecursionlimit(100000)
import extract, common
from facts import Program
prog = Program(extract.facts_path())
m = importlib.import_module("checks." + sys.argv[1].lower())
fin = common.Report.finish
def f(self, *a, **k):
    for x in self.undecided:
        print(x[0][:160], "::", x[1][:int(sys.argv[2]) if len(sys.argv) > 2 else 400])
    return fin(self, *a, **k)
common.Report.finish = f
m.run(prog, sys.argv[1].upper())
