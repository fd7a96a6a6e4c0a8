"""Makes the working tree of the repository importable."""
import os
import sys
import warnings

REPO = os.environ.get("NDM_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
