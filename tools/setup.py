"""Setup: nothing to build; verifies that the two interpreters the checks need are there."""
import subprocess, sys
for cmd in (["python3-vt", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import jax, numpy"]):
    subprocess.run(cmd, check=True)
print("ok")
