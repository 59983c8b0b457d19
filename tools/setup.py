"""Nothing is compiled: checks that the interpreters and libraries the checks need are present."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
ok = subprocess.run(["python3-vt", "-c", "import z3"]).returncode == 0
ok &= subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, torch, scipy"]).returncode == 0
sys.exit(0 if ok else 1)
