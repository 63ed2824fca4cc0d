#!/usr/bin/env python3
"""Builds every check binary (a cache: each check rebuilds what is stale or missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
from registry import BINARIES
import check
for b in BINARIES:
    try:
        print(check.build(b))
    except vbuild.BuildError as e:
        print(str(e)[-3000:])
        sys.exit(1)
