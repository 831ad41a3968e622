"""Builds every harness crate (all profiles) against /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *

c = Ctx("setup")
for crate, profile in (("conf", "dev"), ("conf", "release"), ("confmpi", "dev")):
    if os.path.isdir(os.path.join(VERIF, crate)):
        cargo(c, crate, profile)
