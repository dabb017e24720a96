#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current sources.

usage: python3 check.py C01 [--tier quick|thorough] [--repo DIR]
"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def cli():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--repo", default="/repo")
    a = p.parse_args()
    from gsa import harness
    mod = importlib.import_module("rules." + a.prop.lower())
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rc = harness.main(a.prop, mod, tier, a.repo)
    sys.exit(rc)


if __name__ == "__main__":
    cli()
