"""Sanity of the toolchain: parse all specifications with SANY."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "-DTLA-Library=" + os.path.join(V, "spec"), "tla2sany.SANY", f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Fatal errors" in p.stdout:
        print(f, p.stdout[-1500:])
        bad = 1
sys.exit(bad)
