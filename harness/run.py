"""Entry point: run.py <property id>."""

import importlib
import sys

import core
from registry import WHERE

pid = sys.argv[1]
mod = next(m for m, ps in WHERE.items() if pid in ps)
sys.exit(core.main(pid, getattr(importlib.import_module(mod), pid.lower())))
