"""Nothing is built ahead: every check reads /repo's current source. Verifies the tools are present."""
import shutil, subprocess, sys
subprocess.run(["python3-vt", "-c", "import z3, cvc5"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, pandas, fastparquet"], check=True)
print("ok")
