#!/usr/bin/env python3
"""Build the driver and the dumps of the current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
import gen
for unit in ("b", "s"):
    gen.generate("quick", unit)
    try:
        print(dump.make_dump(unit))
    except dump.BuildError as e:
        print(e)
import compilefail
import spec
try:
    compilefail.run([('Thing::builder("t").build()', "0u8.none()", ("E0599",))])
except dump.BuildError as e:
    print(e)
