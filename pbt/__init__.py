"""Property-based checks of alipay/sofa-bolt-python. See ../DESIGN.md."""
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")   # the checks registered in MANIFEST.json never set this
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The code under test always comes from the working tree of /repo, compiled from source.
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
# hypothesis lives in the tool venv; it is appended, so that the project's own dependencies win
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
logging.disable(logging.CRITICAL)
