#!/usr/bin/env python3
"""Builds the harness once (checks rebuild it from /repo's current tree)."""
import sys
sys.dont_write_bytecode = True
import driver
print(driver.build())
