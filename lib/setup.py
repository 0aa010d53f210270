"""Builds every flavour the checks need (they rebuild by themselves when the tree changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ortbuild
import lfuzz
for f in ("plain", "asan", "fi"): print(ortbuild.get(f))
print(lfuzz.build())
import rrun
print(rrun.shims())
