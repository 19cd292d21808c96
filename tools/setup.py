#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the specification parses."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import tlc  # noqa: E402

with tempfile.TemporaryDirectory() as tmp:
    for mod in sorted(f[:-4] for f in os.listdir(tlc.SPEC) if f.endswith(".tla")):
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", tlc.JAR, "tla2sany.SANY", os.path.join(tlc.SPEC, mod + ".tla")], cwd=tlc.SPEC,
                           capture_output=True, text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
            print(mod, p.stdout[-2000:], p.stderr[-500:])
            sys.exit(1)
        print("parsed", mod)
