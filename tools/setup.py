"""Nothing to build; checks that the interpreters and back ends the checks need are there."""
import subprocess, sys
for c in (["/opt/venv/bin/python", "-c", "import numpy, scipy, tables, fasteners, six"],
          ["/opt/veriftools/pyvenv/bin/python", "-c", "import z3"]):
    if subprocess.call(c) != 0:
        sys.exit("missing: " + " ".join(c))
print("ok")
