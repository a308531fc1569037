#!/usr/bin/env python3
"""Builds the library under test with the harness once (the checks rebuild whatever has changed since)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
from vlib import build
build.build("plain", ["zeta", "core", "lin", "prod", "tools", "cli"]); build.oracle(); print("built")
