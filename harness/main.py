import importlib, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import Check, ChildError, Found, InternalError, REPO


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(pid, tier, seed)
    try:
        importlib.import_module(pid.lower()).run(ck)
    except Found:
        pass
    except InternalError as e:
        print('INTERNAL %s: %s' % (pid, e))
        if ck.violations:
            sys.exit(ck.finish())
        shutil.rmtree(ck.scratch, ignore_errors=True)
        sys.exit(2)
    except Exception as e:
        tb = e.tb if isinstance(e, ChildError) else traceback.format_exc()
        print(tb[-3000:])
        inside = e.inside if isinstance(e, ChildError) else any(f.filename.startswith(REPO + '/') for f in traceback.extract_tb(e.__traceback__))
        kind = tb.strip().splitlines()[-1].split(':')[0]
        if kind in ('TypeError', 'AttributeError', 'ValueError', 'KeyError', 'IndexError', 'UnicodeDecodeError', 'UnicodeEncodeError', 'AssertionError'):
            inside = True          # or gave something nobody can make sense of
        if inside:                 # the code under test failed where the check relies on it to work
            ck.violations.append({'module': '-', 'case': {'ev': []}, 'event': 0, 'got': tb[-3000:],
                                  'expected': 'no failure while setting up', 'human': type(e).__name__})
        if ck.violations:
            sys.exit(ck.finish())
        shutil.rmtree(ck.scratch, ignore_errors=True)
        sys.exit(2)
    sys.exit(ck.finish())


main()
