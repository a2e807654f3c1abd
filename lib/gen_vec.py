"""Operations on vectors."""
from fw import rng
from layouts import *

SYMBOLS = ['max', 'max-1', 'half', 'i32', 'i32+1', 'wrap', 'wrap-1', 'wrap+1', 'iwrap']
HUGE_SIZES = ['max', 'max-1', 'half', 'wrap-1', 'iwrap', 'wrap', 'wrap+1']


def element(name, r):
    """Values which fit the fields and TLC's integers"""
    out = []
    for n, t, o, w in STRUCTS[name]['fields']:
        m = (1 << min(w, 30)) - 1
        out.append(r.choice([0, 1, m, m >> 1, r.randint(0, m), r.randint(0, m)]))
    return out


def sequences(quick):
    r = rng('vec')
    out = []
    for name in ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']:
        nf = len(STRUCTS[name]['fields'])
        for k in range(40 if quick else 150):
            q = [{'op': 'reset', 'd': 'vec', 's': name}, {'op': 'new', 'r': 0, 'n': r.choice([-1, -2, 0, 1, 5])}]
            lens = [max(q[-1]['n'], 0)]
            for _ in range(40):
                a = r.randrange(len(lens))
                k = r.random()
                if k < 0.35:
                    for _ in range(r.choice([1, 1, 2, 6])):
                        q.append({'op': 'grow', 'r': a, 'v': element(name, r)})
                        lens[a] += 1
                elif k < 0.5:
                    i = r.choice([0, lens[a] - 1, lens[a], lens[a] + 1, r.randrange(lens[a] + 1)])
                    q.append({'op': 'set', 'r': a, 'i': max(i, 0), 'f': r.randrange(nf), 'v': element(name, r)[0] & 63})
                elif k < 0.55:
                    q.append({'op': r.choice(['at', 'set']), 'r': a, 'i': r.choice(SYMBOLS), 'big': True, 'f': 0, 'v': 1})
                elif k < 0.57:
                    q.append({'op': 'huge', 'r': a, 'what': r.choice(['new', 'reserve']), 'n': r.choice(HUGE_SIZES[:5 if name == 'V1' else 7])})
                elif k < 0.63:
                    q.append({'op': 'at', 'r': a, 'i': max(0, r.choice([0, lens[a] - 1, lens[a], lens[a] + 1, lens[a] + 7]))})
                elif k < 0.73:
                    n = r.choice([0, 1, 2, 3, 10, 50])
                    q.append({'op': 'reserve', 'r': a, 'n': n})
                    if r.random() < 0.6:
                        for _ in range(min(n, 12)):
                            q.append({'op': 'grow', 'r': a, 'v': element(name, r)})
                            lens[a] += 1
                elif k < 0.83:
                    t = r.randrange(min(3, len(lens) + 1))
                    q.append({'op': 'clone', 'r': t, 'q': a})
                    if t == len(lens):
                        lens.append(0)
                    lens[t] = lens[a]
                elif k < 0.88:
                    t = r.randrange(min(3, len(lens) + 1))
                    n = r.choice([-1, -2, 0, 1, 2, 7])
                    q.append({'op': 'new', 'r': t, 'n': n})
                    if t == len(lens):
                        lens.append(0)
                    lens[t] = max(n, 0)
                else:
                    b = r.randrange(len(lens))
                    if a != b and lens[a] and lens[b]:
                        q.append({'op': 'copy', 'r': a, 'q': b, 'i': r.randrange(lens[a]), 'j': r.randrange(lens[b])})
                if max(lens) > 60:
                    break
            q += [{'op': 'state', 'r': a} for a in range(len(lens))]
            out.append(q)
    # large elements and many elements
    for name, n in [('HUGE', 4), ('V3', 150)] + ([] if quick else [('HUGE', 12), ('V16', 300), ('BIG33', 3)]):
        q = [{'op': 'reset', 'd': 'vec', 's': name}, {'op': 'new', 'r': 0, 'n': 1}]
        for _ in range(n):
            q.append({'op': 'grow', 'r': 0, 'v': element(name, r)})
            if n > 100:
                q.append({'op': 'at', 'r': 0, 'i': r.randrange(n)})
        if n > 100:
            # the complete state is compared only now and then
            q = [x for i, x in enumerate(q) if x['op'] != 'at' or i % 50 == 0]
        q.append({'op': 'at', 'r': 0, 'i': n})
        q.append({'op': 'at', 'r': 0, 'i': n + 1})
        q.append({'op': 'clone', 'r': 1, 'q': 0})
        q.append({'op': 'state', 'r': 0})
        out.append(q)
    return out
