"""Driver side of the worker protocol (CPython)."""
import json
import os
import select
import signal
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = '/opt/pvenv/bin/python'


class HarnessError(Exception):
    """The machinery itself failed (never a violation)."""


class Hang(Exception):
    pass


class Died(Exception):
    pass


def worker_env():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH='/repo')
    return env


class Worker:
    """One PyPy process that executes cases against /repo."""

    RECYCLE = 1500

    def __init__(self):
        self.proc = None
        self.history = []

    def start(self):
        self.stop()
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        os.set_inheritable(req_r, True)
        os.set_inheritable(res_w, True)
        self.proc = subprocess.Popen(
            [PYPY, '-W', 'ignore', os.path.join(HERE, 'worker.py'),
             str(req_r), str(res_w)],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE if os.environ.get('PBT_STDERR') is None
            else None,
            env=worker_env(), cwd=HERE, pass_fds=(req_r, res_w),
            start_new_session=True)
        os.close(req_r)
        os.close(res_w)
        self.wfd, self.rfd = req_w, res_r
        self.buf = b''
        self.history = []
        try:
            hello = self._read(180)
        except (Hang, Died) as e:
            err = b''
            if self.proc.stderr is not None:
                os.killpg(self.proc.pid, signal.SIGKILL)
                err = self.proc.stderr.read()[-3000:]
            self.stop()
            raise HarnessError('worker did not start: %r\n%s'
                               % (e, err.decode('utf8', 'replace')))
        if hello.get('hello') != 1:
            raise HarnessError('bad hello %r' % hello)
        if self.proc.stderr is not None:
            # drain in background so the worker never blocks on stderr
            import threading
            threading.Thread(target=self._drain, args=(self.proc.stderr,),
                             daemon=True).start()

    @staticmethod
    def _drain(f):
        try:
            while f.read(65536):
                pass
        except Exception:
            pass

    def stop(self):
        if self.proc is None:
            return
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        for fd in (self.wfd, self.rfd):
            try:
                os.close(fd)
            except OSError:
                pass
        self.proc = None

    def _read(self, timeout):
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([self.rfd], [], [], min(left, 1.0))
            if r:
                data = os.read(self.rfd, 1 << 20)
                if not data:
                    raise Died()
                self.buf += data
            elif self.proc.poll() is not None:
                raise Died()
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def call(self, prop, part, case, timeout=90):
        if self.proc is None or len(self.history) >= self.RECYCLE:
            self.start()
        msg = json.dumps({'p': prop, 'part': part, 'c': case}) + '\n'
        self.history.append((part, case))
        data = msg.encode()
        try:
            while data:
                k = os.write(self.wfd, data)
                data = data[k:]
            return self._read(timeout)
        except BrokenPipeError:
            self.stop()
            raise Died()
        except (Hang, Died):
            self.stop()
            raise

    def call_robust(self, prop, part, case, timeout=90, retry_timeout=200):
        """Like call, but a hang or crash is retried in a fresh worker and
        only then reported as a violation."""
        try:
            return self.call(prop, part, case, timeout)
        except (Hang, Died):
            pass
        self.start()
        try:
            return self.call(prop, part, case, retry_timeout)
        except Hang:
            return {'s': 'viol', 'nt': True, 'lab': [],
                    'msg': 'does not terminate (no answer after %d s, twice)'
                           % retry_timeout}
        except Died:
            return {'s': 'viol', 'nt': True, 'lab': [],
                    'msg': 'kills the interpreter (twice)'}
