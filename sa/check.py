#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import core

TABLE = {
    "P01": ("isa", "p01", "proof"), "P02": ("isa", "p02", "proof"), "P03": ("isa", "p03", "proof"),
    "P04": ("isa", "p04", "proof"),
    "P05": ("testvm", "p05", "proof"),
    "P06": ("enc", "p06", "proof"), "P07": ("enc", "p07", "proof"), "P08": ("enc", "p08", "proof"),
    "P09": ("enc", "p09", "proof"), "P10": ("enc", "p10", "proof"),
    "P11": ("cycle", "p11", "proof"),
    "P12": ("cycle", "p12", "proof"), "P14": ("cycle", "p14", "proof"), "P15": ("cycle", "p15", "proof"),
    "P16": ("cycle", "p16", "proof"), "P20": ("cycle", "p20", "proof"), "P26": ("cycle", "p26", "proof"), "P29": ("cycle", "p29", "proof"),
    "P30": ("par", "p30", "proof"), "P31": ("build", "p31", "proof"),
    "P22": ("vm", "p22", "proof"), "P23": ("vm", "p23", "proof"), "P17": ("vm", "p17", "proof"), "P18": ("vm", "p18", "proof"), "P24": ("vm", "p24", "proof"),
    "P13": ("mem", "p13", "proof"),
    "P25": ("circ", "p25", "proof"),
    "P21": ("rt", "p21", "proof"), "P19": ("rt", "p19", "proof"),
}


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        a = [x for x in a if x != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = sorted(TABLE) if a == ["all"] else a
    rc = 0
    for pid in ids:
        mod, f, level = TABLE[pid]
        fn = getattr(importlib.import_module("checks_" + mod), f)
        rc = max(rc, core.run(pid, fn, level, tier, seed))
    RC.append(rc)


RC = []
if __name__ == "__main__":
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0] if RC else 2)
