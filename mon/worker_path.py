import os
import sys

REPO = os.environ.get("MON_REPO", "/repo")
sys.path.insert(0, REPO)
