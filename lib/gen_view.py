"""Operations on views."""
from fw import rng
from layouts import *
from gen_vec import element, SYMBOLS
from gen_ext import bucket, size


def bound(r, n):
    x = r.random()
    if x < 0.04:
        return r.choice(SYMBOLS + ['max-2']), True
    if x < 0.2:
        return r.choice([n, n + 1, n + 2, n + 100]), False
    return r.randint(0, n), False


def ops(r, n, count, kind):
    """Operations on views; lens are only guessed"""
    out = []
    lens = [n]
    for _ in range(count):
        a = r.randrange(len(lens))
        m = lens[a]
        x = r.random()
        if x < 0.3:
            i, big = bound(r, m)
            out.append({'op': r.choice(['at', 'at', 'atq']) if kind != 'rawmv' else 'at', 'r': a, 'i': i, 'big': big})
        elif x < 0.9:
            q = r.randrange(min(4, len(lens) + 1))
            sk, ek = r.choice(['inc', 'inc', 'exc', 'unb']), r.choice(['inc', 'exc', 'exc', 'unb'])
            i, sbig = bound(r, m)
            j, ebig = bound(r, m)
            if not sbig and not ebig and i > j and r.random() < 0.8:
                i, j = j, i
            out.append({'op': 'slice', 'r': a, 'q': q, 'sk': sk, 's': i, 'sbig': sbig, 'ek': ek, 'e': j, 'ebig': ebig,
                        'tuple': r.random() < 0.3})
            big = (sk != 'unb' and sbig) or (ek != 'unb' and ebig)
            lo = 0 if sk == 'unb' else i + (sk == 'exc') if not sbig else 0
            hi = m if ek == 'unb' else j + (ek == 'inc') if not ebig else 0
            if not big and lo <= hi <= m:
                if q == len(lens):
                    lens.append(0)
                lens[q] = hi - lo
        else:
            out.append({'op': 'state', 'r': a})
    return out


def sequences(quick):
    r = rng('view')
    out = []
    for name in ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']:
        for k in range(20 if quick else 60):
            n = r.choice([0, 1, 2, 7, 30, 12])
            q = [{'op': 'reset', 'd': 'view', 'kind': 'av', 's': name, 'el': [element(name, r) for _ in range(n)],
                  'extra': r.choice([0, 0, r.randrange(STRUCTS[name]['size'])])}]
            out.append(q + ops(r, n, 40, 'av'))
    for name in ['TsA', 'TsB', 'TsC', 'TsD']:
        for k in range(20 if quick else 60):
            n = r.choice([0, 1, 2, 7, 20, 12])
            room, el = (255 if name == 'TsD' else 100000), []
            for _ in range(n):
                b = bucket(name, r, r.choice([0, 1, 1, 2, 5]))
                if size(name, b) > room:
                    b = []
                room -= size(name, b)
                el.append(b)
            q = [{'op': 'reset', 'd': 'view', 'kind': 'mv', 's': name, 'el': el}]
            out.append(q + ops(r, n, 40, 'mv'))
    return out


def damaged(quick):
    """Multivectors with arbitrary index and data"""
    r = rng('rawmv')
    out = []
    for name in ['TsA', 'TsB', 'TsC', 'TsD']:
        vs = VARIADICS[name]['variants']
        ix = INDEXES[VARIADICS[name]['index']]
        for k in range(24 if quick else 80):
            dat, starts = [], [0]
            for _ in range(r.randint(0, 6)):
                for _ in range(r.randint(0, 2)):
                    t, st = r.choice(vs)
                    dat += [t] + [r.randrange(256) for _ in range(STRUCTS[st]['size'])]
                starts.append(len(dat))
            for _ in range(r.choice([0, 1, 1, 2])):
                x = r.random()
                if x < 0.5:
                    i = r.randrange(len(starts))
                    starts[i] = r.choice([len(dat), len(dat) + 1, starts[i] + 1, max(0, starts[i] - 1), 0,
                                          (1 << ix['bits']) - 1, (1 << (ix['bits'] - 1))])
                elif x < 0.7 and dat:
                    dat.pop()
                elif x < 0.85 and dat:
                    dat[r.randrange(len(dat))] = r.randrange(256)
                elif len(starts) > 1:
                    starts.pop()
            idx = []
            for x in starts:
                idx += list((x & ((1 << ix['bits']) - 1)).to_bytes(ix['size'], 'little'))
            if k % 6 == 0:
                idx = []
            idx += [7] * r.choice([0, 0, 0, ix['size'] - 1])
            n = max(0, len(idx) // ix['size'] - 1)
            q = [{'op': 'reset', 'd': 'view', 'kind': 'rawmv', 's': name, 'idx': idx, 'dat': dat}]
            q += [{'op': 'at', 'r': 0, 'i': i} for i in range(n + 2)]
            out.append(q + ops(r, n, 20, 'rawmv'))
    return out


def compared(quick):
    """Comparisons of items which are similar: of variants with the same values, or different in one field"""
    r = rng('compared')
    out = []
    for name in ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']:
        for _ in range(6 if quick else 40):
            el = [element(name, r)]
            for _ in range(7):
                v = list(r.choice(el))
                if r.random() < 0.7:
                    i = r.randrange(len(v))
                    v[i] ^= 1 << r.randrange(min(30, STRUCTS[name]['fields'][i][3]))
                el.append(v)
            q = [{'op': 'reset', 'd': 'view', 'kind': 'av', 's': name, 'el': el, 'extra': 0}]
            q.append({'op': 'slice', 'r': 0, 'q': 1, 'sk': 'inc', 's': 3, 'sbig': False, 'ek': 'unb', 'e': 0, 'ebig': False, 'tuple': False})
            q += [{'op': 'cmp', 'r': 0, 'i': i, 'q': 0, 'j': j} for i in range(8) for j in range(i, 8)]
            q += [{'op': 'cmp', 'r': 0, 'i': r.randrange(9), 'q': 1, 'j': r.randrange(6)} for _ in range(5)]
            out.append(q)
    for name in ['TsA', 'TsB', 'TsC', 'TsD']:
        variants = VARIADICS[name]['variants']
        for _ in range(10 if quick else 60):
            el, room = [], 255 if name == 'TsD' else 100000
            for _ in range(4):
                b = []
                for _ in range(r.choice([0, 1, 3, 4])):
                    t, st = r.choice(variants)
                    fields = STRUCTS[st]['fields']
                    x = r.random()
                    old = [y[1:] for z in el + [b] for y in z]
                    if old and x < 0.5:
                        v = (r.choice(old) + [0] * len(fields))[:len(fields)]
                        v = [y & ((1 << min(30, f[3])) - 1) for y, f in zip(v, fields)]
                    else:
                        v = [0] * len(fields) if x < 0.7 else element(st, r)
                    if x > 0.9 or x < 0.2:
                        i = r.randrange(len(v))
                        v[i] ^= 1 << r.randrange(min(30, fields[i][3]))
                    b.append([t] + v)
                if size(name, b) > room:
                    b = []
                room -= size(name, b)
                el.append(b)
            q = [{'op': 'reset', 'd': 'view', 'kind': 'mv', 's': name, 'el': el}]
            q.append({'op': 'slice', 'r': 0, 'q': 1, 'sk': 'inc', 's': 1, 'sbig': False, 'ek': 'unb', 'e': 0, 'ebig': False, 'tuple': False})
            q += [{'op': 'cmp', 'r': 0, 'i': i, 'q': 0, 'j': j} for i in range(4) for j in range(4)]
            q += [{'op': 'cmp', 'r': 0, 'i': r.randrange(5), 'q': 1, 'j': r.randrange(4)} for _ in range(4)]
            out.append(q)
    return out
