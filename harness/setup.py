#!/opt/venv/bin/python
"""Nothing is built: checks that what the checks need is there."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
p = subprocess.run(['java', '-version'], stderr=subprocess.STDOUT, stdout=subprocess.PIPE)
sys.exit(0 if p.returncode == 0 and os.path.exists('/opt/veriftools/tla/tla2tools.jar') else 2)
