#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property by seeded deterministic simulation of the devpi-server
code in /repo. Exit 0: held in all runs; 1: VIOLATION; 2: no answer."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    """our own interpreter settings: fixed hash seed, the test environment."""
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    if os.environ.get("DST_EXEC") != "1":
        env = dict(os.environ, PYTHONHASHSEED="0", DST_EXEC="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=HERE)
        for k in list(env):
            if k.startswith(("DEVPI", "HTTP_PROXY", "http_proxy")):
                del env[k]
        os.chdir(HERE)
        os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, HERE)
    from dst import checkmain
    sys.exit(checkmain.main(sys.argv[1:]))
