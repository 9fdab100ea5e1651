"""Import path: the code under test from /repo, Hypothesis from the tooling venv."""
import os
import sys

REPO = os.environ.get('FCA_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)      # appended: numpy stays the project's own
