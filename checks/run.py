#!/usr/bin/env python3
"""entry point: run.py <property> [quick|thorough]"""
import sys, os, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
import importlib
MODS = {"C01": "c_events", "C02": "c_events", "C03": "c_events", "C04": "c_events", "C05": "c_events", "C06": "c_events",
        "C07": "c_history", "C18": "c_history", "C19": "c_history", "C08": "c_levels", "C09": "c_levels", "C25": "c_cgm",
        "C10": "c_models", "C11": "c_models", "C12": "c_models", "C13": "c_models", "C26": "c_models", "C14": "c_golden", "C15": "c_golden",
        "C16": "c_program", "C20": "c_program", "C17": "c_memory", "C21": "c_python", "C22": "c_python", "C23": "c_data", "C24": "c_kernels"}


def main():
    pid = sys.argv[1]
    import vlib
    ck = vlib.Check(pid)
    try:
        m = importlib.import_module(MODS[pid])
        getattr(m, pid)(ck)
    except vlib.BuildError as e:
        # the tree does not build in this configuration: the property cannot be observed to hold
        ck.viol("the tree does not build: %s" % str(e)[-600:])
    except Exception as e:
        # the code under observation produced something the monitor cannot interpret
        traceback.print_exc()
        ck.viol("the monitor could not interpret what it observed: %s: %s" % (type(e).__name__, e))
    sys.exit(ck.finish())


if __name__ == "__main__":
    main()
