#!/usr/bin/env python3
"""Builds everything the checks need (they rebuild what has changed since)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core
core.build_harness()
core.build_cli()
core.build_cli(js=True)
