#!/usr/bin/env python3
"""Builds the library variants and every harness once, so that checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS
with vbuild.Lock():
    for prop, cfg in sorted(CHECKS.items()):
        vbuild.harness(cfg["harness"], cfg.get("variant", "asan"), cfg.get("extra", ()), cfg.get("libs", ()))
        for variant in cfg.get("tools", {}).values(): vbuild.tool(variant)
