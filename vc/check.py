"""check.py Cxx [--tier quick|thorough]"""
import sys, os, importlib, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import core
    ck = core.Check(pid, tier, seed)
    m = importlib.import_module('props.' + pid.lower())
    try:
        m.check(ck)
    except core.Violated:
        pass
    except Exception as e:
        traceback.print_exc()
        ck.undecided('running the check', '%s: %s' % (type(e).__name__, e))
    return ck.finish()


if __name__ == '__main__':
    # terms are deep: a larger stack
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if soft != resource.RLIM_INFINITY and soft < want and (hard == resource.RLIM_INFINITY or hard > soft) and not os.environ.get('IIR_STACK'):
        os.environ['IIR_STACK'] = '1'
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
