"""check runner: main.py <ID> <quick|thorough>"""
import importlib, signal, sys, time, traceback
sys.setrecursionlimit(5000)
import common
from registry import CHECKS


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    c = CHECKS[pid]
    rep = common.Report(pid, tier)
    if tier == 'quick':
        # a path that cannot be exhausted is undecided, which is not a pass
        def late(*_):
            raise TimeoutError('not decided within the time limit')
        signal.signal(signal.SIGALRM, late)
        signal.alarm(780)
    try:
        importlib.import_module(c['module']).__dict__[c.get('fn', 'run')](rep)
    except common.extract.ExtractError as e:
        print(e)
        rep.oblige(False, 'extract', 'the program could not be compiled for analysis')
    except Exception:
        # fail closed: a check that cannot analyse the tree does not pass it
        tb = traceback.format_exc()
        print(tb[-3000:])
        rep.oblige(False, 'internal', 'the analysis failed: %s' % tb.strip().split('\n')[-1], tb.split('\n')[-12:])
    sys.exit(common.finish(rep, c['level'], c['technique'], time.time() - t0, c['explanation'], c['trusted'],
                           c.get('assumptions')))


main()
