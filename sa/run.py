"""python3 sa/run.py <property> [--tier quick|thorough]"""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import props


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    ctx = check.Ctx(tier)
    R = check.Report(pid, ctx)
    meta = props.META[pid]
    R.guard('check', lambda: meta['run'](ctx, R))
    return check.finish(R, tier, meta)


if __name__ == '__main__':
    rc = []

    def go():
        try:
            rc.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
