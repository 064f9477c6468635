"""C24-C27: loggers, free file names and parameters, in a scratch directory given by the driver."""
import os
from dataclasses import make_dataclass

import numpy as np
from mpi4py import MPI
from repast4py import logging, parameters, random, util

OPS = {'SUM': MPI.SUM, 'MIN': MPI.MIN, 'MAX': MPI.MAX, 'PROD': MPI.PROD}


class Source:
    """A data source that is not a dataclass field."""

    def __init__(self, name, dtype):
        self._n, self._d, self.v = name, np.dtype(dtype), 0

    @property
    def name(self):
        return self._n

    @property
    def dtype(self):
        return self._d

    @property
    def value(self):
        return self.v


def value(raw, j, rank, size, col):
    x = ((raw * (rank * 7 + 3) + j * 11 + rank * rank) % 41) - 20
    if col.get('big') and col['op'] != 'PROD':
        if col['t'] == 'int':
            return x * 2**55 + raw
        return x / 3e-9 if col['op'] != 'SUM' else x * 2.**60
    return x if col['t'] == 'int' else x / 4


def reducing(comm, prog):
    rank, size = comm.Get_rank(), comm.Get_size()
    cols = prog['cols']
    own = [(j, c) for j, c in enumerate(cols) if not (c['src'] and prog['mode'])]
    DC = make_dataclass('DC', [('f%d' % j, int if c['t'] == 'int' else float) for j, c in own])
    dc = DC(*[0 if c['t'] == 'int' else 0. for j, c in own])
    loggers, srcs = [], {}
    for j, c in enumerate(cols):
        if c['src']:
            srcs[j] = Source(c['name'], {'int': np.int64, 'float': np.float64}[c['t']])
            loggers.append(logging.ReducingDataLogger(srcs[j], OPS[c['op']], rank))
        elif not prog['mode']:
            loggers += logging.create_loggers(dc, op=OPS[c['op']], names={'f%d' % j: c['name']}, rank=rank)
    fs = [(j, c) for j, c in enumerate(cols) if not c['src']]
    if prog['mode'] == 1:
        loggers += logging.create_loggers(dc, op=OPS[cols[0]['op']], rank=rank)
    elif prog['mode'] == 2 and fs:
        # all fields at once, under their own names or others
        loggers += logging.create_loggers(dc, op=OPS[cols[0]['op']], rank=rank, names={
            'f%d' % j: None if c['name'] == 'f%d' % j else c['name'] for j, c in reversed(fs)})
    out = []
    for bad in (lambda: logging.create_loggers(dc, MPI.SUM, rank, {'nothing': 'x'}), lambda: logging.DCDataSource(dc, 'nothing')):
        try:
            bad()
            out.append('a field that does not exist was accepted')
        except ValueError:
            pass
    ds = logging.ReducingDataSet(loggers, comm, prog['path'], prog['delim'], prog['buffer'])
    for op in prog['ops']:
        if op[0] == 'write':
            ds.write()
        else:
            for tick, raw in op[1]:
                for j, c in enumerate(cols):
                    v = value(raw, j, rank, size, c)
                    if j in srcs:
                        srcs[j].v = v
                    else:
                        setattr(dc, 'f%d' % j, v)
                ds.log(tick)
    # what follows the last log must not show
    for j, c in enumerate(cols):
        if j not in srcs:
            setattr(dc, 'f%d' % j, 99)
    ds.close()
    return out + direct(comm, prog['direct'])


def direct(comm, prog):
    """A logger that is reduced by the caller, who keeps what is returned."""
    rank, size = comm.Get_rank(), comm.Get_size()
    col = {'t': prog['t'], 'op': 'MAX'}
    src = Source('d', {'int': np.int64, 'float': np.float64}[prog['t']])
    lg = logging.ReducingDataLogger(src, MPI.MAX, rank)
    kept = []
    for block in prog['blocks']:
        for raw in block:
            src.v = value(raw, 0, rank, size, col)
            lg.log()
        n = lg.size
        got = lg.reduce(comm)
        if n != len(block) or lg.size != 0:
            return ['%d values logged, size %d, then %d' % (len(block), n, lg.size)]
        if rank == 0:
            kept.append((got, [max(value(raw, 0, r, size, col) for r in range(size)) for raw in block]))
    return ['a direct reduction is %s, expected %s' % (g.tolist(), e) for g, e in kept if g.tolist() != e][:1]


def tabular(comm, prog):
    rank = comm.Get_rank()
    lg = logging.TabularLogger(comm, prog['path'], prog['headers'], prog['delim'])
    for op in prog['ops']:
        if op[0] == 'write':
            lg.write()
        elif op[1] % comm.Get_size() == rank:
            lg.log_row(*op[2])
    lg.close()


def files(comm, prog):
    """Creates outputs one after another; each is written to."""
    names = []
    for k, (what, path, arg) in enumerate(prog['makes']):
        if what == 'tabular':
            lg = logging.TabularLogger(comm, path, ['h%d' % k])
            lg.log_row('row%d' % k)
            lg.close()
        elif what == 'reducing':
            s = Source('s%d' % k, np.int64)
            ds = logging.ReducingDataSet([logging.ReducingDataLogger(s, MPI.SUM, comm.Get_rank())], comm, path)
            ds.log(k)
            ds.close()
        elif what == 'dump':
            parameters.init_params(prog['params'], '{"k": %d}' % k, path)
        else:
            names.append(str(util.find_free_filename(path)))
    return names


def draws():
    import torch
    return [random.default_rng.random(5).tolist(), random.default_rng.integers(0, 1000, 5).tolist(), torch.rand(3).tolist()]


def params(comm, prog):
    random.init(prog['before'])
    random.default_rng.random(3)
    if prog['cmd']:
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            args = parameters.create_args_parser().parse_args(
                [prog['file']] + ([prog['json']] if prog['json'] is not None else []))
        p = parameters.init_params(args.parameters_file, args.parameters, prog['dump'])
    else:
        p = parameters.init_params(prog['file'], prog['json'] or '', prog['dump'])
    res = {'params': p, 'same': p is parameters.params, 'types': {k: type(v).__name__ for k, v in p.items()}}
    if prog['seed'] is not None:
        res['seed'] = random.seed
        res['draws'] = draws()
        random.init(prog['seed'])
        res['expect'] = draws()
    return res


def run(comm, prog):
    if prog.get('cwd'):
        old = os.getcwd()
        os.chdir(prog['cwd'])
    try:
        return {'reducing': reducing, 'tabular': tabular, 'files': files, 'params': params}[prog['do']](comm, prog)
    finally:
        if prog.get('cwd'):
            os.chdir(old)
