#!/usr/bin/env python3
"""Builds the extractor and the facts of the current /repo (both are rebuilt on demand by every check as well)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ista import build
from ista.model import Program
build.extractor()
P = Program()
print("units=%d functions=%d" % (len(P.tus), len(P.funcs)))
