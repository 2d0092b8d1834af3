"""setup_cmd: nothing to install; checks that the tools the checks use are present."""
import subprocess, sys, os
subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3, numpy"], check=True)
subprocess.run(["cargo", "--version"], check=True)
