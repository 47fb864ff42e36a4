#!/usr/bin/env python3
"""python3 bin/check.py <property> [--tier quick|thorough]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import ToolError

import c_session
import c_reverse
import c_chain
import c_conc
import c_numbers
import c_cxx
import c_columns

CHECKS = {}
for m in (c_session, c_reverse, c_chain, c_conc, c_numbers, c_cxx, c_columns):
    CHECKS.update(m.CHECKS)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    os.makedirs(vlib.WORK, exist_ok=True)
    try:
        CHECKS[a.property](a.property, a.tier)
    except ToolError as e:
        print("ERROR property=%s %s" % (a.property, e))
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
