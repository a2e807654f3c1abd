"""Operations on iterators."""
from fw import rng
from layouts import *
from gen_vec import element
from gen_ext import bucket, size

FRONT = ['collect', 'skip', 'take', 'step', 'enumerate', 'zip', 'chain', 'last', 'count', 'for', 'fold', 'skipnext', 'peek', 'byref']
BACK = ['rev', 'revskip', 'skiprev', 'takerev', 'revtake', 'enumrev', 'ziprev', 'steprev', 'chainrev', 'rfold', 'lens']


# positions beyond any sequence; those of their bytes overflow
BIG = ['max', 'max-1', 'half', 'i32', 'i32+1', 'wrap', 'wrap-1', 'wrap+1', 'iwrap', 'quarter', 'quarter+1']


def ops(r, q, n, kinds, count):
    """q: numbers of items of the buckets, or None"""
    out, regs = [], []

    def new(t):
        if q and n and r.random() < 0.5:
            i = r.randrange(n)
            out.append({'op': 'iter', 'r': t, 'how': 'items', 'n': i})
            return ['items', q[i]]
        out.append({'op': 'iter', 'r': t, 'how': r.choice(['iter', 'ref', 'into'])})
        return ['view', n]
    regs.append(new(0))
    while len(out) < count:
        a = r.randrange(len(regs))
        k, m = regs[a]
        x = r.random()
        if x < 0.5:
            how = r.choice(['next', 'next', 'back', 'back', 'nth', 'nthb'] if k == 'view' else ['next', 'next', 'nth'])
            o = {'op': how, 'r': a}
            if how.startswith('nth'):
                o['n'] = r.choice([0, 1, 2, max(0, m - 1), m, m + 1])
                if r.random() < 0.08:
                    o.update(n=r.choice(BIG), big=True)
                regs[a][1] = 0 if 'big' in o else max(0, m - o['n'] - 1)
            else:
                regs[a][1] = max(0, m - 1)
            out.append(o)
        elif x < 0.62:
            out.append({'op': 'len' if k == 'view' else 'hint', 'r': a})
        elif x < 0.85:
            out.append({'op': 'adapt', 'r': a, 'a': r.choice(FRONT + (BACK if k == 'view' else [])),
                        'n': r.choice([0, 1, 2, 3, m, m + 1, max(0, m - 1)])})
            if r.random() < 0.1:
                out[-1].update(n=r.choice(BIG), big=True)
        else:
            t = r.randrange(min(3, len(regs) + 1))
            if x < 0.93:
                out.append({'op': 'clone', 'r': t, 'q': a})
                y = list(regs[a])
            else:
                y = new(t)
            if t == len(regs):
                regs.append(y)
            else:
                regs[t] = y
    return out


def all_adapters(kind, n):
    out = [{'op': 'iter', 'r': 0, 'how': 'into'}]
    for a in FRONT + BACK:
        for k in sorted({0, 1, 2, max(0, n - 1), n, n + 1}):
            out.append({'op': 'adapt', 'r': 0, 'a': a, 'n': k})
        out += [{'op': 'adapt', 'r': 0, 'a': a, 'n': k, 'big': True} for k in BIG]
    for a in ['nth', 'nthb'] if kind != 'items' else ['nth']:
        for k in BIG:
            out += [{'op': 'iter', 'r': 0, 'how': 'iter'}, {'op': a, 'r': 0, 'n': k, 'big': True}, {'op': 'len', 'r': 0}]
    return out


def source(r, kind, name, n):
    if kind == 'av' or kind == 'vec':
        return [element(name, r) for _ in range(n)]
    room, el = (255 if name == 'TsD' else 100000), []
    for _ in range(n):
        b = bucket(name, r, r.choice([0, 1, 1, 2, 3]))
        if size(name, b) > room:
            b = []
        room -= size(name, b)
        el.append(b)
    return el


def sequences(quick):
    r = rng('iter')
    out = []
    for kind, names in [('av', ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']), ('mv', ['TsA', 'TsB', 'TsC', 'TsD'])]:
        for name in names:
            for k in range(20 if quick else 60):
                n = r.choice([0, 1, 2, 3, 5, 8, 13])
                el = source(r, kind, name, n)
                extra = r.choice([0, 0, r.randrange(STRUCTS[name]['size'])]) if kind == 'av' else 0
                q = [{'op': 'reset', 'd': 'iter', 'kind': kind, 's': name, 'el': el, 'extra': extra}]
                if r.random() < 0.3 and n:
                    a = r.randint(0, n)
                    b = r.randint(a, n)
                    q.append({'op': 'vslice', 'a': a, 'b': b})
                    el, n = el[a:b], b - a
                if k % 3 == 0:
                    q += all_adapters(kind, n)
                else:
                    q += ops(r, [len(b) for b in el] if kind == 'mv' else None, n, None, 50)
                out.append(q)
    return out


def debugs(quick):
    r = rng('dbg')
    out = []
    for kind, names in [('av', ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']), ('vec', ['V1', 'V4', 'V16']), ('mv', ['TsA', 'TsB', 'TsC', 'TsD'])]:
        for name in names:
            for n in list(range(14)) + [20, 31] + ([] if quick else [99, 100, 101, 150] + list(range(14))):
                el = source(r, kind, name, n)
                extra = r.choice([0, 0, r.randrange(STRUCTS[name]['size'])]) if kind == 'av' else 0
                q = [{'op': 'reset', 'd': 'iter', 'kind': kind, 's': name, 'el': el, 'extra': extra}, {'op': 'vdbg'}]
                if kind != 'vec':
                    q += [{'op': 'iter', 'r': 0, 'how': r.choice(['iter', 'ref', 'into'])}, {'op': 'dbg', 'r': 0}]
                    m = n
                    while m and len(q) < 60:
                        p = r.choice(['next', 'back', 'nth', 'nthb'])
                        k = r.choice([0, 0, 1, 3]) if p.startswith('nth') else 0
                        q += [{'op': p, 'r': 0, 'n': k}, {'op': 'dbg', 'r': 0}]
                        m = max(0, m - k - 1)
                    if kind == 'mv' and n:
                        for i in range(min(n, 4)):
                            q += [{'op': 'iter', 'r': 1, 'how': 'items', 'n': i}, {'op': 'dbg', 'r': 1},
                                  {'op': 'next', 'r': 1}, {'op': 'dbg', 'r': 1}]
                    a = r.randint(0, n)
                    b = r.randint(a, n)
                    q += [{'op': 'vslice', 'a': a, 'b': b}, {'op': 'vdbg'}]
                out.append(q)
    # buckets with many items
    for name in ['TsA', 'TsB']:
        ns = (9, 10, 11, 12, 30, 102, 260)
        el = [bucket(name, r, k) for k in ns]
        q = [{'op': 'reset', 'd': 'iter', 'kind': 'mv', 's': name, 'el': el, 'extra': 0}, {'op': 'vdbg'}]
        for i in range(len(ns)):
            q += [{'op': 'iter', 'r': 0, 'how': 'items', 'n': i}, {'op': 'dbg', 'r': 0}, {'op': 'next', 'r': 0}, {'op': 'dbg', 'r': 0}]
        out.append(q)
    return out
