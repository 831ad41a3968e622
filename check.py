#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.common import Ctx, main

MODULES = ["vlib.props_field", "vlib.props_conc", "vlib.props_mpi"]


def run():
    prop = sys.argv[1]
    for m in MODULES:
        mod = importlib.import_module(m)
        if hasattr(mod, prop):
            ctx = Ctx(prop)
            getattr(mod, prop)(ctx)
            return ctx.finish()
    print("no check for", prop)
    return 2


main(run)
