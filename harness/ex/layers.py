"""C21-C23: value layers of one and of many ranks."""
import numpy as np
import torch
from repast4py import value_layer, context, random
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint, BorderType

DT = {'f8': torch.float64, 'f4': torch.float32, 'i8': torch.int64, 'i4': torch.int32, 'u1': torch.uint8, 'i2': torch.int16}


def num(v):
    return v.item() if hasattr(v, 'item') else v


def cells(b):
    for z in range(b[4], b[4] + max(1, b[5])):
        for y in range(b[2], b[2] + max(1, b[3])):
            for x in range(b[0], b[0] + b[1]):
                yield [x, y, z]


def nghs(layer, p, pt=None):
    pt = pt or DiscretePoint(*p)
    v, c = layer.get_nghs(pt)
    a = np.asarray(c)
    c = [a.tolist()] if a.ndim == 1 else a.tolist()
    out = [v.tolist(), [list(t) for t in zip(*c)], [pt.x, pt.y, pt.z] == list(p)]
    a += 1000       # the locations are the caller's to change
    return out


def index(p, origin, nd):
    """Where a tensor whose first cell is at origin keeps the value at p."""
    return tuple(p[k] - origin[k] for k in reversed(range(nd)))


def single(comm, prog):
    b = BoundingBox(*prog['bounds'])
    bd = BorderType.Periodic if prog['periodic'] else BorderType.Sticky
    random.init(prog['seed'])
    k = prog['kind']
    if k == 'plain':
        vl = value_layer.ValueLayer(b, bd, prog['init'], DT[prog['dtype']])
    elif k == 'shared':
        vl = value_layer.SharedValueLayer(comm, b, bd, prog['buffer'], prog['init'], DT[prog['dtype']])
    else:
        vl = value_layer.ReadWriteValueLayer(comm, b, bd, prog['buffer'], prog['init'], DT[prog['dtype']])
    src = vl.read_layer if k == 'rw' else vl
    out = {'init': [num(src.get(DiscretePoint(*p))) for p in cells(b)], 'ops': [], 'bounds': list(vl.bounds),
           'numel': src.grid.numel(), 'dtype': src.grid.dtype is DT[prog['dtype']]}
    if k == 'rw':
        out['init2'] = [num(vl.write_layer.get(DiscretePoint(*p))) for p in cells(b)]
    same = DiscretePoint(0, 0, 0)
    nd = 3 if b.zextent else 2 if b.yextent else 1
    inside = [[b[2 * k], b[2 * k] + b[2 * k + 1]] for k in range(nd)]
    for i, op in enumerate(prog['ops']):
        pt = DiscretePoint(*op[1])
        if prog['reuse'] and i % 3:
            same._reset(tuple(op[1]))
            pt = same
        if op[0] == 'set':
            if op[3] == 1 and all(lo <= v < hi for v, (lo, hi) in zip(op[1], inside)):
                # through the tensor
                (vl.write_layer if k == 'rw' else vl).grid[index(op[1], [b[0], b[2], b[4]], nd)] = op[2]
            elif op[3] == 2:
                vl.set(pt, torch.tensor(op[2], dtype=DT[prog['dtype']]))
            elif op[3] == 3:
                vl.set(pt, np.float64(op[2]) if prog['dtype'][0] == 'f' else np.int64(op[2]))
            else:
                vl.set(pt, op[2])
            if k == 'rw':       # read back from where it was written
                vl.swap_layers()
                out['ops'].append(num(vl.get(pt)))
                vl.swap_layers()
            else:
                out['ops'].append(num(vl.get(pt)))
        elif op[0] == 'get':
            out['ops'].append(num((vl.write_layer if k == 'rw' else vl).get(pt)))
        elif op[0] == 'copy':
            w = vl.write_layer if k == 'rw' else vl
            vl.set(pt, w.get(DiscretePoint(*op[2])))
            out['ops'].append(num(w.get(pt)))
        elif op[0] == 'nghs':
            out['ops'].append(nghs(vl.write_layer if k == 'rw' else vl, op[1], pt))
        elif op[0] == 'sync':
            cx = context.SharedContext(comm)
            if k != 'plain':
                cx.add_value_layer(vl)
            cx.synchronize(lambda d: None)
            out['ops'].append(None)
        if [pt.x, pt.y, pt.z] != list(op[1]):
            out['ops'].append('the point was changed')
    if k == 'rw':
        out['read'] = [num(vl.get(DiscretePoint(*p))) for p in cells(b)]
        vl.swap_layers()
        src = vl.read_layer
    out['end'] = [num(vl.get(DiscretePoint(*p))) for p in cells(b)]
    out['grid'] = src.grid.flatten().tolist()
    return out


def multi(comm, prog):
    b = BoundingBox(*prog['bounds'])
    per, buf = prog['periodic'], prog['buffer']
    bd = BorderType.Periodic if per else BorderType.Sticky
    random.init(prog['seed'] + comm.Get_rank())
    cx = context.SharedContext(comm)
    rw = prog['kind'] == 'rw'
    vl = (value_layer.ReadWriteValueLayer if rw else value_layer.SharedValueLayer)(
        comm, b, bd, buf, prog['init'], DT[prog['dtype']])
    cx.add_value_layer(vl)
    if prog.get('second'):      # another layer in the same context
        v2 = value_layer.SharedValueLayer(comm, b, bd, buf, 1 + comm.Get_rank(), torch.int64)
        cx.add_value_layer(v2)
    lb = (vl.read_layer if rw else vl).local_bounds
    lb = [int(v) for v in lb]
    nd = 1 if b[3] == 0 else 2

    def area():
        r = []
        for k in range(2):
            lo, hi = lb[2 * k], lb[2 * k] + lb[2 * k + 1]
            if k >= nd:
                r.append((0, 1))
                continue
            if comm.Get_size() > 1 or per:
                lo, hi = lo - buf, hi + buf
            if not per:
                lo, hi = max(lo, b[2 * k]), min(hi, b[2 * k] + b[2 * k + 1])
            r.append((lo, hi))
        return r
    (x0, x1), (y0, y1) = area()

    def read(layer):
        o = {'vals': [num(layer.get(DiscretePoint(x, y, 0))) for y in range(y0, y1) for x in range(x0, x1)]}
        if per:     # the same cells by their coordinates within the bounds
            o['wrapped'] = [num(layer.get(DiscretePoint(b[0] + (x - b[0]) % b[1], b[2] + (y - b[2]) % b[3] if nd > 1 else 0, 0)))
                            for y in range(y0, y1) for x in range(x0, x1)]
        return o

    out = {'lb': lb, 'area': [x0, x1, y0, y1], 'dumps': [], 'fails': []}
    try:
        value_layer.SharedValueLayer(comm, BoundingBox(0, 9, 0, 9, 0, 9), bd, 0, 0)
        out['fails'].append('a 3-D shared layer was made')
    except Exception:     # any (documented)
        pass

    def dump(ng):
        d = {'read': read(vl.read_layer if rw else vl)}
        if rw:
            d['get'] = read(vl)['vals']
            d['write'] = read(vl.write_layer)
            if vl.read_grid is not vl.read_layer.grid or vl.write_grid is not vl.write_layer.grid:
                out['fails'].append('read_grid or write_grid is the tensor of another layer')
        if ng:
            d['nghs'] = [[p] + nghs(vl, p) for p in cells(lb)]
        out['dumps'].append(d)

    def mine(p):
        return all(lb[2 * k] <= p[k] < lb[2 * k] + lb[2 * k + 1] for k in range(nd))

    # the tensor starts at the buffer, if there is one on that side
    origin = [lb[2 * k] - (buf if comm.Get_size() > 1 and (per or lb[2 * k] > b[2 * k]) else 0) for k in range(nd)]
    dump(False)
    for op in prog['ops']:
        if op[0] == 'set':
            _, p, sh, v, raw = op
            if raw and mine(p):
                (vl.write_layer if rw else vl).grid[index(p, origin, nd)] = v
            elif mine(p):
                q = list(p)
                if per:
                    q[0] += sh[0] * b[1]
                    q[1] += sh[1] * b[3]
                vl.set(DiscretePoint(*q), v)
        elif op[0] == 'swap':
            vl.swap_layers()
        elif op[0] == 'sync':
            cx.synchronize(lambda d: None)
            dump(prog['ng'])
        elif op[0] == 'nosync':
            cx.synchronize(lambda d: None, False)
            dump(False)
        elif op[0] == 'dump':
            dump(False)
    return out


def run(comm, prog):
    return {'single': single, 'multi': multi}[prog['do']](comm, prog)
