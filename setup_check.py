"""setup_cmd: nothing to build; checks that the tools the checks need are there."""
import subprocess, sys
a = subprocess.run(["python3-vt", "-c", "import z3, cvc5, sympy"]).returncode
b = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, sklearn, poap, dill"]).returncode
sys.exit(1 if a or b else 0)
