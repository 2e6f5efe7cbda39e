#!/usr/bin/env python3
"""python3 run.py PROPERTY quick|thorough: decide one property on /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

MODULES = {
    "C01": "dom", "C02": "dom", "C30": "dom",
    **{"C%02d" % i: "render" for i in range(3, 16)},
    "C16": "sched",
    "C24": "fonts", "C25": "fonts",
    "C22": "plain", "C23": "plain",
    "C31": "viewer",
    "C26": "raster", "C27": "raster", "C29": "raster",
    "C28": "robust",
    "C17": "pdf", "C18": "pdf", "C19": "pdf", "C20": "pdf", "C21": "pdf",
}


def main():
    prop = sys.argv[1]
    if prop == "setup":
        try:
            vlib.build()
            vlib.build(crate="sched", binary="vs")
            vlib.build(crate="raster", packages=("lester",), dirs=("lester",), binary="vr")
        except vlib.ToolError as e:
            sys.exit("setup: %s" % e)
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    module = importlib.import_module(MODULES[prop])
    sys.exit(vlib.run_check(prop, tier, getattr(module, prop)))


if __name__ == "__main__":
    main()
