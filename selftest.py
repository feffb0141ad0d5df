"""setup_cmd: the tools are present and the engine accepts and rejects what it must."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VT and not os.environ.get("PYVC_REEXEC"):
    os.environ["PYVC_REEXEC"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc.boot import boot

boot()
from pyvc import core, harness
from pyvc.runtime import rt
from connectrpc._protocol_grpc import _serialize_timeout


def good(h):
    n = h.int("n", lo=1, hi=10**8 - 1)
    h.check("ok", h.eq(h.call(_serialize_timeout, n), h.call(str, n) + "m"))


def bad(h):
    n = h.int("n", lo=1, hi=10**8)
    h.check("ok", h.eq(h.call(_serialize_timeout, n), h.call(str, n) + "m"))


for f, want in ((good, {"discharged"}), (bad, {"discharged", "failed"})):
    e = core.Explorer(f.__name__, lambda: f(harness.H()))
    e.run()
    got = {r.status for r in e.results}
    assert got == want and not e.errors, (f.__name__, got, e.errors)
print("engine self-test passed;", subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.split("\n")[0])
os._exit(0)
