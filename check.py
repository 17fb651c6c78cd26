#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from engine.harness import run_property
    import meta
    if pid == "--selftest":
        import engine.pyint, engine.compare, engine.lib
        for p in meta.PROPS:
            importlib.import_module("props." + p["id"])
        rc[0] = 0
        return
    info = [p for p in meta.PROPS if p["id"] == pid]
    title = info[0]["title"] if info else pid
    m = importlib.import_module("props." + pid)
    rc[0] = run_property(pid, title, m.obligations(tier), tier, getattr(m, "FLOORS", {}), getattr(m, "LEVEL", "other"),
                         getattr(m, "EXPLANATION", "") or (info[0].get("note", meta.GVN_NOTE) if info else ""), getattr(m, "RULE", "") or (info[0]["statement"] if info else ""))


rc = [3]
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
