"""Contracts executed on the plain code of /repo (replay and bounded stand-in)."""
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")


def repo_path():
    for p in (REPO, os.path.join(REPO, "src"), os.path.join(REPO, "connectrpc-otel"),
              os.path.join(REPO, "protoc-gen-connectrpc")):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [os.path.join(REPO, "src"), os.path.join(REPO, "connectrpc-otel"),
                    os.path.join(REPO, "protoc-gen-connectrpc"), REPO]
