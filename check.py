#!/usr/bin/env python3
"""check.py ID...: decides properties of /repo's current sources statically."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.project import AnalysisBroken, SourceBroken, extractor
from sa.report import Report


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args == ['setup']:
        extractor()
        return 0
    rc = 0
    for prop in args:
        rep = Report(prop, tier, seed)
        try:
            mod = importlib.import_module('checks.' + prop.lower())
            mn = mod.run(rep)
        except SourceBroken as e:
            print('%s: no answer: %s' % (prop, e))
            rc = rc or 3
            continue
        except AnalysisBroken as e:
            rep.unsure('analysis', str(e))
            mn = 1
        except Exception as e:
            traceback.print_exc()
            rep.unsure('analysis', 'the analysis failed: %r' % e)
            mn = 1
        r = rep.finish(mn or 1)
        rc = r if rc == 0 or r == 1 else rc
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 5)
