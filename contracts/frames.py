"""C19: the frame, independence and purity obligations of every contract under contract, on their own"""
from pyvc.spec import *  # noqa: F401,F403
from pyvc.spec import REGISTRY, Contract

FRAME = r"frame|independence|queries never change|not the stored"
QUICK = {"C13": ("canform canform", "covform both", "both covform", "absorb", "cancel"), "C17": ("normalize", "canform both", "covform canform", "any scope"),
         "C07": ("", )}


def collect():
    for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C23", "C26", "C27", "C29"):
        for c in REGISTRY.get(p, []):
            if "refuses" in c.name or "_add_log_weight" in c.name:
                continue
            tier = c.tier
            if p in QUICK and not any(q in c.name for q in QUICK[p]) or "singular" in c.name:
                tier = "thorough"
            d = Contract("C19", f"{p} {c.name}", c.fn, c.targets, tier)
            d.only = FRAME
            REGISTRY.setdefault("C19", []).append(d)


collect()
