"""run.py <property> <tier> <seed> [case] -- prints one line ORACLE {json}"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from oracle import repo_path  # noqa: E402

repo_path()
from oracle import core  # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang


signal.signal(signal.SIGALRM, on_alarm)


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    only = sys.argv[4] if len(sys.argv) > 4 else None
    out = dict(cases=[], failures=[], evaluations=0, distinct=0, samples=[])
    try:
        importlib.import_module("oracle." + prop.lower())
    except ModuleNotFoundError as e:
        if e.name == "oracle." + prop.lower():
            print("ORACLE " + json.dumps(out))
            return
        raise
    for name, fn in core.CASES.get(prop, {}).items():
        if only and name != only:
            continue
        o = core.O(prop, name, tier, seed)
        t = time.time()
        # Far beyond what any case needs: the code under test does not come to an end.
        signal.setitimer(signal.ITIMER_REAL, 120 if tier == "quick" else 500, 5)
        try:
            core.run_case(fn, o)
        except core.Stop:
            pass
        except Hang:
            o.failures.append(dict(case=name, name=f"{prop}.{name}: the code comes to an end",
                                   detail=traceback.format_exc()[-1200:]))
        except (ImportError, AttributeError, TypeError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.path.dirname(os.path.abspath(tb.filename)) == os.path.join(HERE, "oracle"):
                # Something internal that this case looks at is not there any more: nothing is known.
                out.setdefault("skipped", []).append(dict(case=name, why=repr(e)[:300]))
            else:
                o.failures.append(dict(case=name, name=f"{prop}.{name}: the harness completes",
                                       detail=traceback.format_exc()[-1200:]))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            o.failures.append(dict(case=name, name=f"{prop}.{name}: the harness completes",
                                   detail=traceback.format_exc()[-1200:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out["cases"].append(dict(case=name, evaluations=o.n, wall_s=round(time.time() - t, 2), bound=o.bound))
        out["evaluations"] += o.n
        out["distinct"] += len(o.seen)
        out["samples"] += o.samples[:1]
        out["failures"] += o.failures[:3]
    print("ORACLE " + json.dumps(out, default=str))


main()
sys.stdout.flush()
os._exit(0)
