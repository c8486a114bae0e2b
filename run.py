#!/usr/bin/env python3
import os, sys, runpy
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "engine"))
sys.path.insert(0, os.path.join(here, "checks"))
sys.dont_write_bytecode = True
pid = sys.argv[1]
runpy.run_path(os.path.join(here, "checks", pid + ".py"), run_name="__main__")
