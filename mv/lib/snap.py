"""Plain-data pictures of library objects: `snapshot` of everything they hold, `describe` of what an instrument says."""
from __future__ import annotations
import enum
from dataclasses import is_dataclass


def snapshot(obj, depth=0, memo=None, skip=()):
    """Everything reachable from obj, as nested tuples; shared and cyclic structure is shown once per path (depth-limited by memo)."""
    memo = memo if memo is not None else {}
    if type(obj).__module__ == 'numpy' and hasattr(obj, 'item') and getattr(obj, 'ndim', 1) == 0:
        obj = obj.item()
    if obj is None or isinstance(obj, (bool, int, str, bytes)):
        return obj
    if isinstance(obj, float):
        return repr(obj)
    if isinstance(obj, enum.Enum):
        return f'{type(obj).__name__}.{obj.name}'
    key = id(obj)
    if key in memo:
        return memo[key]
    memo[key] = '<cycle>'
    if isinstance(obj, dict):
        out = ('dict', tuple((snapshot(k, depth + 1, memo, skip), snapshot(v, depth + 1, memo, skip)) for k, v in obj.items()))
    elif isinstance(obj, tuple) and hasattr(obj, '_fields'):
        out = (type(obj).__name__, tuple(snapshot(x, depth + 1, memo, skip) for x in obj))
    elif isinstance(obj, (list, tuple)):
        out = (type(obj).__name__, tuple(snapshot(x, depth + 1, memo, skip) for x in obj))
    elif isinstance(obj, (set, frozenset)):
        out = ('set', tuple(sorted(repr(snapshot(x, depth + 1, memo, skip)) for x in obj)))
    elif hasattr(obj, '__dict__'):
        out = (type(obj).__name__, tuple((k, snapshot(v, depth + 1, memo, skip)) for k, v in sorted(vars(obj).items()) if k not in skip))
    else:
        out = (type(obj).__name__, str(obj))
    memo[key] = out
    return out


def differ(a, b, path=''):
    """the first difference between two snapshots or descriptions, or None"""
    if a == b:
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        named = lambda t: len(t) == 2 and isinstance(t[0], str)
        if len(a) != len(b):
            return f'{path}: {len(a)} against {len(b)} elements: {short(a)} / {short(b)}'
        for n, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}.{x[0]}' if isinstance(x, tuple) and named(x) else f'{path}[{n}]')
            if d:
                return d
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k):
                return differ(a.get(k), b.get(k), f'{path}.{k}')
    return f'{path}: {short(a)} / {short(b)}'


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '…'


def describe(instr, types=True, flags=True, raw=False):
    """What the instrument says, as plain data independent of how the expressions are held."""
    def par(p):
        return dict(name=p.name, unit=None if not p.unit else p.unit.strip('"'), type=str(p.value.data_type), vector=bool(p.value.is_vector), default=text(p.value))

    def text(e):
        return None if e is None else str(e)

    def triple(t):
        v, ref = t
        return dict(v=[text(x) for x in (v if not hasattr(v, 'x') else (v.x, v.y, v.z))], ref=None if ref is None else ref.name)

    def meta(ms):
        return [dict(name=m.name.strip('"'), mime=m.mimetype, value=m.value) for m in ms]

    def jump(j):
        return dict(target=j.target if j.relative_target == 0 else None, by=j.relative_target, iterate=bool(j.iterate), cond=text(j.condition))

    def inst(i):
        return dict(name=i.name, type=i.type.name, params={p.name: text(p.value) for p in i.parameters}, at=triple(i.at_relative), rot=triple(i.rotate_relative),
                    split=text(i.split), when=text(i.when), group=i.group or None, extend='\n'.join(x.source for x in i.extend), removable=bool(i.removable),
                    cpu=bool(i.cpu), jumps=[jump(j) for j in i.jump], metadata=meta(i.metadata))

    out = dict(name=instr.name, params=[par(p) for p in instr.parameters], metadata=meta(instr.metadata), components=[inst(i) for i in instr.components])
    for s in ('declare', 'user', 'initialize', 'save', 'final'):
        out[s] = '\n'.join(x.source for x in getattr(instr, s))
    if flags:
        out['flags'] = sorted({w for f in instr.flags for w in f.split()})
    return out
