#!/usr/bin/env python3-vt
import importlib
import os
import sys
import traceback
if os.environ.get('PYTHONHASHSEED') is None:      # reproducible term order
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.report import Check          # noqa: E402
from engine.vf import AnalysisError      # noqa: E402


def main():
    prop = sys.argv[1]
    ck = Check(prop)
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        mod.run(ck)
    except AnalysisError as e:
        ck.undecided.append(('analysis could not proceed', '', str(e)))
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc(limit=-2)
    except Exception as e:   # engine defect: error exit, never a verdict
        traceback.print_exc(limit=-2)
        ck.undecided.append(('internal error', '', repr(e)))
    sys.exit(ck.finish())


main()
