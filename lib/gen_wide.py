"""Operations on arrays and multiarrays of more than 2^32 elements or bytes."""
from fw import rng
from layouts import *
from gen_vec import element
from gen_ext import bucket, size

W = 1 << 32


def num(x):
    return list((x & ((1 << 64) - 1)).to_bytes(8, 'little'))


def point(r, n, esize, marks):
    """An index which is of interest; n: length"""
    x = r.random()
    if x < 0.25:
        return n + r.choice([-2, -1, -1, 0, 1])
    if x < 0.6 and marks:
        return max(0, r.choice(marks) + r.choice([0, 0, 0, 0, 1, -1]))
    if x < 0.75:
        return r.choice([0, 1, 2, W - 1, W, W + 1, W // 2, n // 2, (W - 1) // esize, (W - 1) // esize + 1, (W // 2 - 1) // esize + 1])
    if x < 0.85:
        return r.choice(marks + [0, 1, n - 1]) + r.choice([W, W * W // esize, W * W // 2 // esize, W * W // esize + 1])
    if x < 0.92:
        return r.choice([W * W - 1, W * W - 2, W * W // 2, W * W // 2 - 1])
    return r.randrange(n)


def clip(x):
    return num(min(max(x, 0), W * W - 1))


def ops(r, n, esize, marks, count, debug):
    out, lens, iters = [], [(0, n)], []
    for _ in range(count):
        a = r.randrange(len(lens))
        lo, hi = lens[a]
        m = hi - lo
        near = [x - lo for x in marks if lo <= x < hi]
        p = lambda: point(r, m, esize, near) if m else r.choice([0, 1, W])
        x = r.random()
        if x < 0.3:
            i = p()
            out.append({'op': 'at', 'r': a, 'i': clip(i)})
        elif x < 0.5:
            q = r.randrange(min(4, len(lens) + 1))
            sk, ek = r.choice(['inc', 'inc', 'exc', 'unb']), r.choice(['inc', 'exc', 'exc', 'unb'])
            i, j = p(), p()
            if i > j and r.random() < 0.8:
                i, j = j, i
            i, j = [int.from_bytes(bytes(clip(y)), 'little') for y in (i, j)]
            out.append({'op': 'slice', 'r': a, 'q': q, 'sk': sk, 's': num(i), 'ek': ek, 'e': num(j)})
            b = 0 if sk == 'unb' else i + (sk == 'exc')
            e = m if ek == 'unb' else j + (ek == 'inc')
            if b <= e <= m:
                if q == len(lens):
                    lens.append(0)
                lens[q] = (lo + b, lo + e)
        elif x < 0.6 or not iters:
            y = r.randrange(min(4, len(iters) + 1))
            out.append({'op': 'iter', 'r': a, 'x': y})
            iters[y:y + 1] = [m]
        elif x < 0.65:
            y, z = r.randrange(min(4, len(iters) + 1)), r.randrange(len(iters))
            out.append({'op': 'clone', 'x': y, 'y': z})
            iters[y:y + 1] = [iters[z]]
        elif x < 0.9:
            y = r.randrange(len(iters))
            out.append({'op': r.choice(['next', 'back', 'back']), 'x': y})
            iters[y] = max(0, iters[y] - 1)
        elif debug and m > 10:
            out.append({'op': 'dbg', 'r': a})
            y = r.randrange(len(iters))
            if iters[y] > 10:
                out.append({'op': 'idbg', 'x': y})
        else:
            out.append({'op': 'state', 'r': a})
    return out


def around(r, n, esize):
    """Indices of elements which are not zero"""
    c = [0, 1, 3, n - 1, n - 2, n - 5, W - 1, W, W + 1, W // 2, (W - 1) // esize, (W - 1) // esize + 1, n - W, W // 2 // esize, n // 2]
    return sorted(x for x in set(c) if 0 <= x < n and r.random() < 0.8)


def arrays(quick, debug=False):
    r = rng('wide', debug)
    out = []
    lens = {'V1': [W + 5, W, 2 * W + 1, W - 1], 'V2': [W + 3, W // 2 + 7], 'V3': [W // 3 + 9, W + 2], 'V16': [W + 7, W // 16 + 3, W // 8],
            'V5': [W // 5 + 2, W + 4], 'HUGE': [500], 'BIG33': [150, 260]}
    if debug:
        lens = {'V1': [W + 5], 'V16': [W + 1], 'BIG33': [150]}
    for name in lens:
        for n in lens[name] if not quick else lens[name][:2]:
            for _ in range(1 if quick else 6):
                es = STRUCTS[name]['size']
                marks = around(r, n, es)
                q = [{'op': 'reset', 'd': 'wide', 'kind': 'av', 's': name, 'len': num(n), 'el': [[num(i), element(name, r)] for i in marks]}]
                out.append(q + ops(r, n, es, marks, 60 if quick else 150, debug))
    # buckets: (name, length, number of last buckets, tags of items)
    many = [('TsW', W + 3, 5, [1]), ('TsB', 2 * W + 5, 6, [3, 255, 128]), ('TsW', 40, 38, [9]), ('TsD', W + 2, 3, [0]), ('TsW', 450, 448, [2, 1])]
    if debug:
        many = [('TsW', W + 12, 12, [1]), ('TsW', 40, 38, [9])]
    for name, n, k, tags in many:
        for _ in range(1 if quick else 4):
            b, room = [], (1 << INDEXES[VARIADICS[name]['index']]['bits']) - 1
            for j in range(k):
                x = bucket(name, r, r.choice([0, 1, 2, 3]) if tags != [9] else r.choice([3, 4, 5]), tags)
                if size(name, x) > room:
                    x = []
                room -= size(name, x)
                b.append([num(n - k + j), x])
            isize = INDEXES[VARIADICS[name]['index']]['size']
            q = [{'op': 'reset', 'd': 'wide', 'kind': 'mv', 's': name, 'len': num(n), 'el': b}]
            marks = [0, 1] + list(range(n - k, n)) if k < 10 else list(range(n - k, n))
            out.append(q + ops(r, n, isize, marks, 60 if quick else 150, debug))
    return out


def vectors(quick):
    """C05"""
    r = rng('widevec')
    out = []
    for name, n in [('V1', W + 1), ('V1', W - 1), ('V16', W // 16), ('V3', W // 3), ('BIG33', 124)]:
        es = STRUCTS[name]['size']
        marks = around(r, n, es)
        q = [{'op': 'reset', 'd': 'wide', 'kind': 'vec', 's': name, 'len': num(n), 'el': []}]
        for k in range(40 if quick else 200):
            x = r.random()
            if x < 0.4:
                q.append({'op': 'set', 'i': clip(point(r, n, es, marks)), 'v': element(name, r)})
            elif x < 0.75:
                q.append({'op': 'at', 'r': 0, 'i': clip(point(r, n, es, marks))})
            elif x < 0.9 and not (k > 20 and es > 1000):
                q.append({'op': 'grow', 'v': element(name, r)})
                n += 1
            else:
                q.append({'op': 'state', 'r': 0})
        out.append(q + [{'op': 'dbg', 'r': 0}])
    return out
