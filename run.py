#!/usr/bin/env python3
"""run.py <ID> [--replay FILE]   -- runs one property's check (env: VERIF_SEED, VERIF_TIER)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1].upper()
    import common
    mod = importlib.import_module(prop.lower())
    if '--replay' in sys.argv:
        return mod.replay(json.load(open(sys.argv[sys.argv.index('--replay') + 1]))['replay'])
    try:
        return mod.main()
    except common.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        import shutil
        shutil.rmtree(os.path.join(common.BUILD, 'scratch', str(os.getpid())), ignore_errors=True)


sys.exit(main())
