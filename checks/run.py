#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
MODS = ["p_mem", "p_core", "p_sync", "p_txlib", "p_libc", "p_files", "p_num", "p_lib"]
def table():
    t = {}
    for m in MODS:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            t.update(importlib.import_module(m).CHECKS)
    return t
if __name__ == "__main__":
    t = table()
    pid = sys.argv[1]
    if pid not in t:
        print("unknown property", pid); sys.exit(2)
    sys.exit(lib.main(pid, t[pid]))
