#!/usr/bin/env python3
"""Offline setup: nothing to build (pure Python); checks that the tools the checks need are there."""
import subprocess
import sys
for cmd in (['python3-vt', '-c', 'import z3; print("z3", z3.get_version_string())'],
            ['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "/repo/src"); import footprints; print("footprints", footprints.__name__)']):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)
