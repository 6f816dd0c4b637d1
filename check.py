#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--replay FILE] [--jobs N] [--budget S]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"

if os.environ.get("OSYM_CHILD") != "1":
    import resource
    import shutil

    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass
    py = PY if os.path.exists(PY) else (shutil.which("python3-vt") or sys.executable)
    env = dict(os.environ, OSYM_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, VERIF)
from osym.main import main  # noqa: E402

sys.exit(main(VERIF, sys.argv[1:]))
