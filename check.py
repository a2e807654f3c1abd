#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides a property on the tree in /repo.
check.py replay <file>: executes a recorded violation again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
sys.dont_write_bytecode = True
import fw


def main():
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        c = fw.Check(d['property'] + '-replay', 'quick')
        c.prop = d['property']
        c.validate(d['module'], [d['ops']], d['what'], profile=d['profile'], env=d.get('env', {}))
        return c.finish()
    if sys.argv[1] == 'setup':
        # checks build again what changed
        fw.build('dev')
        fw.build('release')
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = fw.Check(prop, tier)
    try:
        import checks
        checks.CHECKS[prop](c)
        return c.finish()
    except fw.ToolError as e:
        print('ERROR: ' + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()


sys.exit(main())
