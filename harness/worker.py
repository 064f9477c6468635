"""One rank of a worker pool: connects to the driver's socket and executes cases.

Runs under /opt/venv's Python with the freshly built repast4py on PYTHONPATH. Each case names
an executor (a module of harness/ex with a function run(comm, prog)) and is executed on a fresh
duplicate of a sub-communicator of the first `size` ranks.
"""
import faulthandler
import gc
import importlib
import json
import os
import socket
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'ex'))

from mpi4py import MPI  # noqa: E402


def default(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if hasattr(o, 'tolist'):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(repr(type(o)))


def main():
    faulthandler.enable()
    world = MPI.COMM_WORLD
    rank, size = world.Get_rank(), world.Get_size()
    sock = socket.socket(socket.AF_UNIX)
    sock.connect(os.environ['R4PY_SOCK'])
    f = sock.makefile('rwb')

    def send(obj):
        b = json.dumps(obj, default=default).encode()
        f.write(struct.pack('<I', len(b)) + b)
        f.flush()

    import repast4py
    src = os.environ['R4PY_SRC']
    if not os.path.abspath(repast4py.__file__).startswith(os.path.abspath(src)):
        send({'fatal': 'imported %s, not the build in %s' % (repast4py.__file__, src)})
        return
    comms = {}
    for n in range(1, size + 1):
        c = world.Split(0 if rank < n else MPI.UNDEFINED, rank)
        if rank < n:
            comms[n] = c
    for m in os.environ.get('R4PY_PRELOAD', '').split():
        importlib.import_module(m)
    send({'hello': rank, 'pid': os.getpid()})
    gc.collect()
    gc.freeze()
    while True:
        h = f.read(4)
        if len(h) < 4:
            os._exit(0)
        job = json.loads(f.read(struct.unpack('<I', h)[0]))
        try:
            comm = comms[job['size']].Dup()
            res = {'ok': importlib.import_module(job['kind']).run(comm, job['prog'])}
        except BaseException as e:
            tb = traceback.format_exc().strip().splitlines()
            res = {'exc': '%s: %s' % (type(e).__name__, e), 'tb': tb[-14:]}
        send(res)


main()
