"""Nothing to build ahead: checks compile the C++ engine themselves. Confirms that the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import uxenv, tlc
for m in sorted(os.listdir(tlc.SPEC)):
    if m.endswith(".tla"):
        r = subprocess.run(["java", "-cp", tlc.classpath(), "tla2sany.SANY", os.path.join(tlc.SPEC, m)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=tlc.SPEC)
        if r.returncode:
            print(r.stdout.decode())
            sys.exit(1)
print("specifications parse")
