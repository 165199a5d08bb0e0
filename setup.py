#!/usr/bin/env python3
"""Builds the program extractor (clang 18 libTooling) into /verif/build."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import model, irx
model.build_extractor()
irx.build_irdump()
print("extractor ready")
