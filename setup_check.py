"""Nothing needs building: the checks run the Python sources of /repo's working tree. This only says so early when an interpreter is missing."""
import os
import subprocess
import sys

py = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
sys.exit(subprocess.run([py, "-B", "-c", "import sys, lark, packaging, toml; assert sys.version_info[:2] == (3, 12)"]).returncode)
