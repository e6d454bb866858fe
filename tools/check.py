#!/usr/bin/env python3
"""check.py <PROPERTY> --tier quick|thorough"""
import argparse, importlib.util, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    p = os.path.join(HERE, "checks", a.prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("chk", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.exit(vlib.run_check(a.prop, a.tier, m.run))


main()
