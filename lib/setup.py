#!/usr/bin/env python3
"""Builds the engine and warms the dependency caches (checks rebuild what depends on /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_ir
build_ir.build_engine()
build_ir.build_native()
