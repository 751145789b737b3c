#!/usr/bin/env python3
"""Builds every monitor once in every configuration, so that failures to build show early."""
import os, shutil, subprocess, sys, tempfile
import run
from checks import CHECKS, CONFIGS
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for cmd, cfg in sorted({tuple(x) for c in CHECKS.values() for x in c["runs"]}):
        try:
            run.build(tmp, cmd, cfg, None, 1)
            print("built", cmd, cfg)
        except run.Broken as b:
            if not CONFIGS[cfg].get("optional"):
                print(b)
                sys.exit(1)
            print("skipped", cmd, cfg, str(b)[:500])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
