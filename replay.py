#!/usr/bin/env python3
"""replay.py <file> : reproduce a reported violation on the plain code of /repo.
Exit 1 when it reproduces, 0 when it does not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("PYVC_R"):
    os.environ["PYVC_R"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def main():
    d = json.load(open(sys.argv[1]))
    if d.get("kind") == "input":
        import subprocess

        p = subprocess.run([sys.executable, os.path.join(HERE, "oracle", "run.py"), d["property"], d["tier"],
                            str(d["seed"]), d["case"]], capture_output=True, text=True)
        print(p.stdout[-3000:])
        for line in p.stdout.splitlines():
            if line.startswith("ORACLE "):
                return 1 if json.loads(line[7:])["failures"] else 0
        return 2
    from oracle import repo_path

    repo_path()
    import importlib

    from pyvc import harness

    importlib.import_module("targets." + d["property"].lower())
    t = harness.TARGETS.get((d["property"], d["target"]))
    if t is None or not t.replay:
        print("this obligation has no concrete form; the verifier's output:", d.get("verifier"))
        return 2
    h = harness.CH(d["model"] or {}, d["path"] or [])
    try:
        t.fn(h)
    except harness.ReplayFailure as e:
        print("contract violated:", e, "with", d["model"], d["path"], h.failed)
        return 1
    except harness.Skip:
        print("the values are outside the precondition")
        return 0
    print("the contract holds on these values;", h.checked, "checks")
    return 0


if __name__ == "__main__":
    sys.exit(main())
