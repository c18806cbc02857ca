#!/usr/bin/env python3
"""replay.py FILE [-v]    replays a simulated run; exit 1 if it breaks its property"""
import subprocess
import sys

import build as builder

out = builder.build()
head = open(sys.argv[1]).read(4000)
exe = "expected_sim" if "prop S11" in head else "engine"
sys.exit(subprocess.run([str(out / exe), "replay", *sys.argv[1:]]).returncode)
