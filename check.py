#!/opt/venv/bin/python
"""
check.py PROPERTY          run the check of a property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
check.py replay FILE       run the recorded execution again
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    if argv and not argv[0] in ('worker', 'digests', 'minimise', 'replay', 'known', 'zygote') and os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from sim import runner
    cmd, *rest = argv
    if cmd == 'setup':
        # nothing to build: the code under test is imported from /repo's working tree by every run
        from sim import backends
        for kind in (backends.LXML, backends.STD):
            backends.load(kind)
        print('ok')
        return 0
    if cmd == 'zygote':
        from sim.props import H04
        return H04.zygote()
    if cmd == 'worker':
        return runner.worker(rest)
    if cmd == 'digests':
        return runner.digests(rest)
    if cmd == 'minimise':
        return runner.minimise(rest)
    if cmd == 'known':
        prop = runner.load_prop(rest[0])
        runner.warm_up(prop)
        for line in prop.known_findings():
            print('KNOWN-FINDING: property=%s %s' % (rest[0], line))
        return 0
    if cmd == 'replay':
        if os.environ.get('PYTHONHASHSEED') != '0':
            os.environ['PYTHONHASHSEED'] = '0'
            os.execv(sys.executable, [sys.executable] + sys.argv)
        return runner.replay(rest)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in rest:
        tier = 'thorough'
    return runner.run_check(cmd, tier, int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
