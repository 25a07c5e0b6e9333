"""python3 run.py check <ID> [--tier quick|thorough]   decide one property
   python3 run.py all                                  decide all of them"""
import importlib, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def one(pid, tier):
    from sa.report import Report
    from sa.prog import AnalysisBroken
    R = Report(pid, tier)
    try:
        m = importlib.import_module('checks.' + pid.lower())
        m.check(R)
        return R.finish()
    except AnalysisBroken as x:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if a and a[0] == 'check' and len(a) == 2: return one(a[1], tier)
    print(__doc__)
    return 2

if __name__ == '__main__':
    rc = [2]
    threading.stack_size(512 * 1024 * 1024)
    def go(): rc[0] = main()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
