"""Operations on fields: read_bytes!, write_bytes!"""
from fw import rng

TYPES = {'bool': 8, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def b8(v):
    return list((v & (2**64 - 1)).to_bytes(8, 'little'))


def fit_values(t, w, r, n):
    """Values which are representable in the field."""
    if t == 'bool':
        return [r.randrange(2) for _ in range(n)]
    if t[0] == 'i':
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        c = [lo, hi, -1, 0, 1 if hi else 0, hi >> 1]
    else:
        lo, hi = 0, (1 << w) - 1
        c = [hi, 1, 0, 1 << (w - 1), hi >> 1]
    c += [r.randint(lo, hi) for _ in range(3)]
    r.shuffle(c)
    return c[:n]


def extremes(t, w):
    if t == 'bool':
        return [1, 0]
    if t[0] == 'i':
        return [-(1 << (w - 1)), (1 << (w - 1)) - 1]
    return [(1 << w) - 1, 1 << (w - 1), 0]


def wide_values(t, w, r):
    """Any values of the type."""
    if t == 'bool':
        return [r.randrange(2)]
    n = TYPES[t]
    if t[0] == 'i':
        return [r.choice([-(1 << (n - 1)), (1 << (n - 1)) - 1, -1, r.randint(-(1 << (n - 1)), (1 << (n - 1)) - 1)])]
    return [r.choice([(1 << n) - 1, 1 << (n - 1), r.randint(0, (1 << n) - 1)])]


def content(r, n):
    k = r.randrange(5)
    if k == 0:
        return [255] * n
    if k == 1:
        return [0] * n
    if k == 2:    # a single bit
        b = [0] * n
        b[r.randrange(n)] = 1 << r.randrange(8)
        return b
    return [r.randrange(256) for _ in range(n)]


def set_field(b, o, w, val):
    """The same buffer with other bits outside of the field"""
    x = int.from_bytes(bytes(b), 'little')
    m = ((1 << w) - 1) << o
    y = int.from_bytes(bytes(val), 'little')
    return list((((y & ~m) | (x & m)) & ((1 << (8 * len(b))) - 1)).to_bytes(len(b), 'little'))


def combos(offsets):
    for t, n in TYPES.items():
        for w in range(1, n + 1):
            for o in offsets:
                yield t, w, o


def sequences(prop, quick):
    r = rng('codec', prop)
    out = []
    offs = list(range(0, 8)) + [8, 9, 13, 15, 22, 71] if quick else list(range(0, 25)) + [31, 47, 63, 64, 65, 71, 127, 1001]
    for t, w, o in combos(offs):
        n = (o + w + 7) // 8 + r.choice([0, 0, 1, 3])
        f = {'t': t, 'o': o, 'w': w}
        s = [{'op': 'reset', 'd': 'codec'}]
        if prop == 'C01':
            s.append({'op': 'load', 'b': content(r, n)})
            for v in extremes(t, w) + fit_values(t, w, r, 2 if quick else 7):
                s.append(dict(f, op='w', v=b8(v)))
                s.append(dict(f, op='r'))
            # a disjoint field in between
            if o >= 8:
                s.append({'op': 'w', 't': 'u8', 'o': 0, 'w': min(o, 8), 'v': b8(r.randrange(256))})
                s.append(dict(f, op='r'))
        elif prop == 'C02':
            b = content(r, n)
            # nothing but the field changes, in either direction
            for x, v in [(0, 1 if t == 'bool' else -1 if t[0] == 'i' else (1 << TYPES[t]) - 1), (255, 0)]:
                s.append({'op': 'load', 'b': [x] * n})
                s.append(dict(f, op='w', v=b8(v)))
                s.append({'op': 'load', 'b': set_field([x] * n, o, w, [x ^ 255] * n)})
                s.append(dict(f, op='r'))
            s.append({'op': 'load', 'b': b})
            v = wide_values(t, w, r)[0]
            s.append(dict(f, op='w', v=b8(v)))
            if t != 'bool':
                # the value with other high bits
                m = TYPES[t]
                low = v & ((1 << w) - 1)
                alt = low | (r.getrandbits(m) & ~((1 << w) - 1)) & ((1 << m) - 1)
                if t[0] == 'i' and alt >= 1 << (m - 1):
                    alt -= 1 << m
                s.append({'op': 'load', 'b': b})
                s.append(dict(f, op='w', v=b8(alt)))
            s.append({'op': 'load', 'b': b})
            s.append(dict(f, op='r'))
            s.append({'op': 'load', 'b': set_field(b, o, w, [x ^ 255 for x in b])})
            s.append(dict(f, op='r'))
            if not quick:
                s.append({'op': 'load', 'b': set_field(b, o, w, content(r, n))})
                s.append(dict(f, op='r'))
        else:
            top = (1 << (o + w - 1)).to_bytes(n, 'little')
            for b in [list(top), [x ^ 255 for x in top], set_field([255] * n, o, w, [0] * n), set_field([0] * n, o, w, [255] * n)]:
                s.append({'op': 'load', 'b': b})
                s.append(dict(f, op='r'))
            s.append({'op': 'load', 'b': content(r, n)})
            s.append(dict(f, op='r'))
            s.append(dict(f, op='w', v=b8(wide_values(t, w, r)[0])))
            s.append({'op': 'load', 'b': [r.randrange(256) for _ in range(n)]})
            s.append(dict(f, op='r'))
            s.append(dict(f, op='w', v=b8(r.choice(fit_values(t, w, r, 4)))))
            if not quick:
                for _ in range(4):
                    s.append({'op': 'load', 'b': content(r, n)})
                    s.append(dict(f, op='r'))
                    s.append(dict(f, op='w', v=b8(wide_values(t, w, r)[0])))
            if w == TYPES[t]:
                # the defaults of the macros
                s.append(dict(f, op='rdo'))
                s.append(dict(f, op='wdo', v=b8(wide_values(t, w, r)[0])))
                if o == 0:
                    s.append({'op': 'rd', 't': t})
        out.append(s)
    # fields far behind the beginning of a struct
    for base in [255, 8191, 8192, 65535, 65536, (1 << 24) + 1, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 32) - 1, 1 << 32] + ([] if quick else [8190, 32767, 32768, 65533, (1 << 31) - 2, 1 << 31, 1 << 30, 1 << 33, (1 << 36) + 5]):
        for t, m in TYPES.items():
            s = [{'op': 'reset', 'd': 'codec'}]
            for _ in range(3 if quick else 8):
                o = r.randrange(24)
                w = r.choice([m, r.randint(1, m)])
                n = (o + w + 7) // 8 + r.choice([0, 0, 1, 3])
                f = {'t': t, 'o': o, 'w': w}
                s.append({'op': 'load', 'b': content(r, n), 'base': str(base)})
                s.append(dict(f, op='r'))
                for v in r.sample(extremes(t, w) + fit_values(t, w, r, 2), 2):
                    s.append(dict(f, op='w', v=b8(v)))
                    s.append(dict(f, op='r'))
                if w == m:
                    s.append(dict(f, op='rdo'))
                    s.append(dict(f, op='wdo', v=b8(fit_values(t, w, r, 1)[0])))
                    s.append(dict(f, op='r'))
            out.append(s)
    # longer histories with overlapping and disjoint fields
    for _ in range(200 if quick else 1500):
        n = r.randrange(9, 24)
        s = [{'op': 'reset', 'd': 'codec'}, {'op': 'load', 'b': content(r, n)}]
        fields = []
        for _ in range(6):
            t = r.choice(list(TYPES))
            w = r.randint(1, TYPES[t])
            o = r.randint(0, 8 * n - w)
            fields.append({'t': t, 'o': o, 'w': w})
        for _ in range(30):
            f = r.choice(fields)
            if r.random() < 0.5:
                v = r.choice(fit_values(f['t'], f['w'], r, 3) if prop == 'C01' else wide_values(f['t'], f['w'], r))
                s.append(dict(f, op='w', v=b8(v)))
            else:
                s.append(dict(f, op='r'))
        out.append(s)
    return out
