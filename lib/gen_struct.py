"""Operations on handles of structs."""
from fw import rng
from layouts import *
from gen_codec import b8, fit_values, wide_values, content


def value(f, r, wide=False):
    n, t, o, w = f
    if t in ENUMS:
        return b8(r.choice(ENUMS[t]['vals']))
    if t == 'bool':
        return b8(r.randrange(2))
    return b8(r.choice(wide_values(t, w, r) if wide else fit_values(t, w, r, 9)))


def raw(s, r):
    b = content(r, s['size'])
    for n, t, o, w in s['fields']:
        if t in ENUMS:
            b = to_field(b, o, w, r.choice(ENUMS[t]['vals']))
    return b


def sequences(prop, quick):
    r = rng('struct', prop)
    out = []
    wide = prop in ('C02', 'C03')
    for name, s in STRUCTS.items():
        if name[0] != 'S':
            continue
        nf = len(s['fields'])
        # each field by itself, over all zeros and all ones
        for f in range(nf):
            for b in ([0] * s['size'], [255] * s['size']):
                if name == 'S4':
                    b = raw(s, r)
                q = [{'op': 'reset', 'd': 'struct'}, {'op': 'raw', 'r': 0, 's': name, 'b': b}]
                for _ in range(6):
                    q.append({'op': 'set', 'r': 0, 'f': f, 'v': value(s['fields'][f], r, wide)})
                q.append({'op': 'get', 'r': 0})
                if prop == 'C04':
                    q.append({'op': 'dbg', 'r': 0})
                out.append(q)
        for _ in range(60 if quick else 400):
            q = [{'op': 'reset', 'd': 'struct'}]
            n = 3
            for k in range(n):
                q.append({'op': 'new', 'r': k, 's': name} if r.random() < 0.5 else {'op': 'raw', 'r': k, 's': name, 'b': raw(s, r)})
            for _ in range(25):
                a, b = r.randrange(n), r.randrange(n)
                k = r.random()
                if prop in ('C01', 'C02', 'C03') or k < 0.5:
                    f = r.randrange(nf)
                    q.append({'op': 'set', 'r': a, 'f': f, 'v': value(s['fields'][f], r, wide)})
                elif k < 0.6 and a != b:
                    q.append({'op': 'copy', 'r': a, 'q': b})
                elif k < 0.72:
                    q.append({'op': 'eq', 'r': a, 'q': b})
                elif k < 0.78 and a != b:
                    # equal or different in a single field
                    f = r.randrange(nf)
                    q.append({'op': 'copy', 'r': a, 'q': b})
                    q.append({'op': 'eq', 'r': a, 'q': b})
                    q.append({'op': 'set', 'r': a, 'f': f, 'v': value(s['fields'][f], r)})
                    q.append({'op': 'eq', 'r': a, 'q': b})
                    q.append({'op': 'eq', 'r': b, 'q': a})
                elif k < 0.86:
                    q.append({'op': 'dbg', 'r': a})
                elif k < 0.93:
                    q.append({'op': 'raw', 'r': a, 's': name, 'b': raw(s, r)})
                else:
                    q.append({'op': 'get', 'r': a})
            for k in range(n):
                q.append({'op': 'get', 'r': k})
            out.append(q)
    return out
