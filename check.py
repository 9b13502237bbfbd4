#!/usr/bin/env python3
"""check.py <property>: one check.  Tier and seed come from VERIF_TIER and VERIF_SEED."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
from common import Run, MachineryError  # noqa

MODULES = ["check_graph", "check_text", "check_editor", "check_prune", "check_docgraph", "check_format", "check_files", "check_own", "check_regraph", "check_replicas", "check_batch", "check_nodes"]


def main():
    prop = sys.argv[1]
    checks = {}
    for m in MODULES:
        checks.update(importlib.import_module(m).CHECKS)
    run = Run(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        assumptions = checks[prop](run) or []
        return run.finish(assumptions)
    except MachineryError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


sys.exit(main())
