"""Reporting: violations, known findings, evidence."""
import contextlib, json, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OutOfTime(BaseException):
    pass


T0 = time.time()
BUDGET = 780            # seconds for one check; obligations left over are undecided


def _alarm(*a):
    raise OutOfTime("time limit")


@contextlib.contextmanager
def guard(rep, key, secs=90):
    """an analysis that fails or runs out of time leaves its obligation undecided"""
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.alarm(int(max(1, min(secs, BUDGET - (time.time() - T0)))))
        yield
    except (KeyboardInterrupt, SystemExit):
        raise
    except OutOfTime:
        rep.failed += 1
        rep.unknown(key, "time limit")
    except Exception as e:
        if os.environ.get("AN_DEBUG"):
            traceback.print_exc()
        rep.failed += 1
        rep.unknown(key, "%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Report:
    last = None

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = {}          # key -> text
        self.obl = []           # (key, ok, note)
        self.undecided = []
        self.notes = {}
        self.assumptions = []
        self.failed = 0         # analyses that gave up
        Report.last = self

    def ok(self, key, note=""):
        self.obl.append((key, "ok", note))

    def bad(self, key, text):
        """key: stable identity of the construct (no line numbers)."""
        self.obl.append((key, "violation", text))
        self.viol.setdefault(key, text)

    def unknown(self, key, why):
        self.obl.append((key, "undecided", why))
        self.undecided.append((key, why))

    def floor(self, what, n, least):
        self.notes.setdefault("floors", {})[what] = {"found": n, "least": least}
        if n < least and self.failed:
            self.unknown("anchor:" + what, "%d of %d found, with analyses that gave up" % (n, least))
        elif n < least:
            self.bad("anchor:" + what, "only %d instances of '%s' found, at least %d expected: the anchor of the rule is gone" % (n, what, least))

    def finish(self, rule, samples=None, explanation="", trusted=None):
        known = load_known(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        counts = {"ok": 0, "violation": 0, "undecided": 0}
        for _, s, _ in self.obl:
            counts[s] += 1
        distinct = len({k for k, _, _ in self.obl})
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": explanation,
                "rule": rule,
                "obligations": len(self.obl),
                "discharged": counts["ok"],
                "undecided": counts["undecided"],
                "known_findings": len(old),
                "distinct_constructs": distinct,
                "checker_cmd": "python3 check.py " + self.pid,
                "trusted_base": trusted or ["rustc (nightly) front end and MIR construction", "the analyses in /verif/an", "the models of std/rand functions in /verif/an"],
                "samples": (samples or []) + [{"construct": k, "verdict": s, "note": n} for k, s, n in self.obl[:40]],
                "all_constructs": sorted({k for k, _, _ in self.obl})[:2000],
                "undecided_list": [{"construct": k, "why": w} for k, w in self.undecided[:200]],
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations (%.1fs)"
              % (self.pid, len(self.obl), counts["ok"], counts["undecided"], len(old), len(new), time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k in sorted(new):
                    f.write("%s\n    %s\n" % (k, new[k]))
            for k in sorted(new)[:25]:
                print("  [%s] %s" % (k, new[k]))
            if len(new) > 25:
                print("  ... %d more in the replay file" % (len(new) - 25))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(p):
        return {}
    d = json.load(open(p))
    return {e["key"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}
