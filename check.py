#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source."""
import importlib, os, sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "an"))
sys.path.insert(0, os.path.join(V, "tools"))
sys.setrecursionlimit(100000)


def main():
    pid = sys.argv[1]
    import extract
    from facts import Program
    prog = Program(extract.facts_path())
    mod = importlib.import_module("checks." + pid.lower().replace("-", "_"))
    import common, traceback
    try:
        code = mod.run(prog, pid)
    except Exception as e:
        # an analysis that gives up decides nothing further; what it had established stands
        traceback.print_exc()
        rep = common.Report.last or common.Report(pid)
        rep.failed += 1
        rep.unknown("analysis", "%s: %s" % (type(e).__name__, str(e)[:300]))
        code = rep.finish("incomplete: the analysis gave up", explanation="the analysis gave up")
    sys.exit(code)


main()
