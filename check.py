#!/usr/bin/env python3
"""check.py <property id> : decides one property (see DESIGN.md)."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def load(pid):
    p = os.path.join(HERE, "props", pid + ".py")
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


if __name__ == "__main__":
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
    vlib.main(sys.argv[1], load(sys.argv[1]).run)
