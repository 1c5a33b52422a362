"""PyPy side: executes cases against the code in /repo."""
import gc
import importlib
import json
import logging
import os
import sys
import traceback


def main():
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    os.set_inheritable(rfd, False)
    os.set_inheritable(wfd, False)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    # silence everything the code under test prints
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(1, 'w', closefd=False)
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import runlmc
    root = os.path.realpath(runlmc.__path__[0])
    assert root == '/repo/runlmc', root
    logging.getLogger().setLevel(logging.WARNING)
    from core import R, Violation, HarnessError, LogTap
    tap = LogTap()
    logging.getLogger('runlmc').addHandler(tap)
    logging.getLogger('runlmc').propagate = False
    logging.getLogger('paramz').propagate = False
    logging.getLogger('paramz').addHandler(logging.NullHandler())
    logging.getLogger('GP').propagate = False

    rin = os.fdopen(rfd, 'r', buffering=1)

    def send(obj):
        data = (json.dumps(obj) + '\n').encode()
        while data:
            k = os.write(wfd, data)
            data = data[k:]

    send({'hello': 1})
    mods = {}
    count = 0
    main_pid = os.getpid()
    while True:
        line = rin.readline()
        if not line:
            return
        msg = json.loads(line)
        prop, part, case = msg['p'], msg['part'], msg['c']
        count += 1
        out = {'s': 'ok', 'nt': False, 'lab': [], 'msg': ''}
        r = R(tap)
        try:
            if prop not in mods:
                mods[prop] = importlib.import_module('checks.' + prop.lower())
            fn = getattr(mods[prop], 'part_' + part)
            r.seed(line)
            tap.records.clear()
            fn(case, r)
            r.finish()
        except Violation as e:
            out['s'], out['msg'] = 'viol', str(e)
        except (HarnessError, MemoryError, ImportError, NameError) as e:
            if isinstance(e, NameError) and _in_sut(sys.exc_info()[2], root):
                out['s'], out['msg'] = 'viol', _fmt(e)
            elif isinstance(e, ImportError) and _in_sut(
                    sys.exc_info()[2], root) and prop in mods:
                out['s'], out['msg'] = 'viol', _fmt(e)
            else:
                out['s'], out['msg'] = 'err', _fmt(e)
        except Exception as e:  # unexpected exception out of the code
            if _in_sut(sys.exc_info()[2], root) or r.in_sut:
                out['s'], out['msg'] = 'viol', 'unexpected ' + _fmt(e)
            else:
                out['s'], out['msg'] = 'viol?', 'unexpected ' + _fmt(e)
        if os.getpid() != main_pid:
            os._exit(0)
        out['nt'] = bool(r.nontrivial)
        out['lab'] = sorted(r.labels)
        r = None
        if count % 40 == 0 or getattr(mods.get(prop), 'GC_EACH', False):
            gc.collect()
        send(out)


def _in_sut(tb, root):
    while tb is not None:
        if os.path.realpath(
                tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _fmt(e):
    return '%s: %s\n%s' % (type(e).__name__, e,
                           ''.join(traceback.format_exc()[-2500:]))


main()
