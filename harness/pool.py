"""A pool of MPI ranks that execute cases against the built library."""
import json
import os
import selectors
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

import build

HERE = os.path.dirname(os.path.abspath(__file__))


class CaseError(Exception):
    """The case ended abnormally: kind is 'exc', 'crash' or 'hang'."""

    def __init__(self, kind, detail, rank=None):
        super().__init__('%s: %s' % (kind, detail))
        self.kind, self.detail, self.rank = kind, detail, rank


class HarnessError(Exception):
    pass


class Pool:
    def __init__(self, n, src, preload='', max_cases=400, timeout=40.0, env=None, python=None):
        self.n, self.src, self.preload = n, src, preload
        self.max_cases, self.timeout = max_cases, timeout
        self.extra, self.python = env or {}, python or build.VENV_PY
        self.proc = None
        self.dir = tempfile.mkdtemp(prefix='r4py-')
        self.log = os.path.join(self.dir, 'log')
        self.starts = 0
        self.cases = 0

    def start(self):
        for k in range(3):
            try:
                return self._start()
            except HarnessError:
                self.stop()
                if k == 2:
                    raise
                time.sleep(2)

    def _start(self):
        self.stop()
        path = os.path.join(self.dir, 's%d' % self.starts)
        self.starts += 1
        lsock = socket.socket(socket.AF_UNIX)
        lsock.bind(path)
        lsock.listen(self.n)
        e = build.env({'PYTHONPATH': self.src, 'R4PY_SOCK': path, 'R4PY_SRC': self.src,
                       'R4PY_PRELOAD': self.preload, 'TMPDIR': self.dir, 'PYTHONHASHSEED': '0'})
        e.update(self.extra)
        cmd = [self.python, os.path.join(HERE, 'worker.py')]
        cmd = ['mpirun.openmpi', '-n', str(self.n)] + cmd
        self.logf = open(self.log, 'wb')
        self.proc = subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=self.logf,
                                     stderr=subprocess.STDOUT, start_new_session=True, cwd=self.dir)
        self.conn = [None] * self.n
        self.pids = [None] * self.n
        socks = []
        try:
            lsock.settimeout(1)
            t0 = time.time()
            while len(socks) < self.n:
                try:
                    c, _ = lsock.accept()
                except socket.timeout:
                    if self.proc.poll() is not None or time.time() - t0 > 120:
                        raise HarnessError('workers did not start: ' + self.tail())
                    continue
                socks.append(c)
            for c in socks:
                c.settimeout(120)
                m = self._recv(c)
                if 'fatal' in m:
                    raise HarnessError(m['fatal'])
                self.conn[m['hello']] = c
                self.pids[m['hello']] = m['pid']
        except (OSError, EOFError) as ex:
            raise HarnessError('workers did not start: %r %s' % (ex, self.tail()))
        finally:
            lsock.close()
            os.unlink(path)
        self.cases = 0

    def tail(self):
        try:
            with open(self.log, errors='replace') as f:
                t = f.read()
            return t[:3000] + (' ... ' + t[-1500:] if len(t) > 4500 else '')
        except OSError:
            return ''

    def stop(self):
        if self.proc is None:
            return
        for c in self.conn:
            if c is not None:
                c.close()
        for p in self.pids:
            if p:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        try:
            self.proc.wait(3)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        self.logf.close()
        self.proc = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    @staticmethod
    def _read(sock, n):
        b = b''
        while len(b) < n:
            x = sock.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    def _recv(self, sock):
        return json.loads(self._read(sock, struct.unpack('<I', self._read(sock, 4))[0]))

    def run(self, kind, prog, size=1, progs=None):
        """Runs the case on the first `size` ranks; the list of the ranks' results."""
        if self.proc is None or self.cases >= self.max_cases:
            self.start()
        self.cases += 1
        assert size <= self.n
        for r in range(size):
            b = json.dumps({'kind': kind, 'size': size, 'prog': progs[r] if progs else prog}).encode()
            try:
                self.conn[r].settimeout(self.timeout)
                self.conn[r].sendall(struct.pack('<I', len(b)) + b)
            except OSError as ex:
                self.stop()
                raise HarnessError('send failed: %r' % ex)
        out = [None] * size
        sel = selectors.DefaultSelector()
        for r in range(size):
            sel.register(self.conn[r], selectors.EVENT_READ, r)
        left, end, bad = size, time.time() + self.timeout, None
        while left and bad is None:
            ev = sel.select(max(0.01, end - time.time()))
            if not ev:
                if time.time() >= end:
                    bad = CaseError('hang', 'no result from ranks %s within %d s' % (
                        [r for r in range(size) if out[r] is None], self.timeout))
                continue
            for k, _ in ev:
                r = k.data
                try:
                    m = self._recv(self.conn[r])
                except (EOFError, OSError):
                    time.sleep(0.3)
                    bad = CaseError('crash', 'rank %d died; output: %s' % (r, self.tail()), r)
                    break
                sel.unregister(self.conn[r])
                left -= 1
                out[r] = m
                if 'exc' in m:
                    bad = CaseError('exc', 'rank %d raised %s\n%s' % (r, m['exc'], '\n'.join(m['tb'])), r)
                    break
        sel.close()
        if bad is not None:
            if not (bad.kind == 'exc' and left == 0):
                self.stop()
            raise bad
        return [m['ok'] for m in out]
