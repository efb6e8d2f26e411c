#!/usr/bin/env python3
"""Nothing is kept between runs; only checks that the tool chain can build the harness offline."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=os.path.join(V, "harness"), stdout=subprocess.DEVNULL).returncode)
