#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.path.insert(0, here)
import vp
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
mod = importlib.import_module(prop.lower())
sys.exit(vp.main(mod, prop, tier))
