import importlib
import os
import signal
import subprocess
import sys
import traceback

LIMIT = {'quick': 780, 'thorough': 6 * 3600}


def child(pid, tier):
    from . import core
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module('harness.' + REG[pid])
        rc = mod.run(ctx)
    except core.HarnessError as e:
        print('HARNESS ERROR property=%s: %s' % (pid, e))
        rc = 3
    except Exception as e:
        tb = traceback.format_exc()
        if isinstance(e, core.ImplError) or core.from_impl(tb):
            # raised inside kymatio on a case which the specification accepts
            ctx.violations.append((dict(case='unexpected exception'), [pid + '.Runs'], tb))
            rc = ctx.finish('model_checking', 'stopped by an exception raised in kymatio')
        else:
            print(tb)
            print('HARNESS ERROR property=%s (unexpected exception)' % pid)
            rc = 3
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


REG = {'C01': 'p1d', 'C02': 'p1d', 'C03': 'p1d', 'C04': 'p1d', 'C05': 'pfilt',
       'C06': 'pjtfs', 'C07': 'pjtfs', 'C08': 'p2d', 'C09': 'p2d', 'C10': 'p3d',
       'C11': 'pfront', 'C12': 'pbatch', 'C13': 'phist', 'C14': 'ptorch',
       'C15': 'pgrad', 'C16': 'pvalid', 'C17': 'pback', 'C18': 'phost',
       'C19': 'pinv', 'C20': 'pcache', 'C21': 'pconc',
       'C22': 'pblocks'}


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    if os.environ.get('KYVERIF_CHILD') == '1':
        return child(pid, tier)
    env = dict(os.environ, KYVERIF_CHILD='1')
    p = subprocess.Popen([sys.executable, '-m', 'harness.main', pid, tier], env=env,
                         start_new_session=True)
    why = None
    try:
        rc = p.wait(timeout=LIMIT.get(tier, 780))
    except subprocess.TimeoutExpired:
        why = 'the check did not finish'
        rc = 3
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if why or rc < 0:
        print('HARNESS ERROR property=%s: %s' % (pid, why or 'killed by signal %d' % -rc))
        rc = 3
    sys.exit(rc)


if __name__ == '__main__':
    main()
