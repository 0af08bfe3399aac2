#!/usr/bin/env python3
"""Nothing to build: checks that the toolchain is there."""
import os, sys
need = ["/opt/veriftools/tla/tla2tools.jar", "/opt/venv/bin/python", "/repo/ciscoconfparse/ciscoconfparse.py"]
missing = [n for n in need if not os.path.exists(n)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
