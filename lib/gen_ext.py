"""Operations on external vectors and multivectors."""
from fw import rng
from layouts import *
from gen_vec import element

SCHEMAS = ['', 'schema of res', 'a\nb\n', 'a' * 300, 'index(x)', 'schema "quoted"']


def partial(name, r):
    v = element(name, r)
    return v[:r.choice([len(v), len(v), len(v), 0, 1])]


def grow(name, r, rep=1):
    return {'op': 'grow', 'rep': rep, 'v0': partial(name, r) if r.random() < 0.3 else [], 'v': partial(name, r)}


def vectors(quick):
    r = rng('ev')
    out = []
    for name in ['V1', 'V2', 'V3', 'V4', 'V5', 'V16']:
        for k in range(16 if quick else 80):
            q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': ['mem', 'file'][k % 2], 's': name}]
            for _ in range(r.randint(1, 3)):
                q.append({'op': 'create', 'schema': r.choice(SCHEMAS)})
                for _ in range(r.choice([0, 1, 2, 5, 20])):
                    q.append(grow(name, r, r.choice([0, 1, 1, 1, 2, 9])))
                q.append({'op': 'close'})
            out.append(q)
    # elements which fill the buffer (32 MiB)
    huge = [('HUGE', [0, 1, 2, 3]), ('HUGE', [4, 7]), ('BIG33', [1, 3]), ('HUGE', [3, 1, 3, 0]), ('BIG33', [0, 2, 1])]
    if not quick:
        huge += [(r.choice(['HUGE', 'HUGE', 'BIG33']), [r.randint(0, 9) for _ in range(r.randint(1, 3))]) for _ in range(12)]
    for k, (name, sizes) in enumerate(huge):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': ['mem', 'file'][k % 2], 's': name}]
        for n in sizes:
            q.append({'op': 'create', 'schema': 'huge'})
            for _ in range(n):
                q.append(grow(name, r))
            q.append({'op': 'close'})
        out.append(q)
    # the buffer is written several times
    for name, st, n in [('BIG33', 'file', 4), ('HUGE', 'mem', 11)]:
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': st, 's': name}, {'op': 'create', 'schema': 'often'}]
        out.append(q + [grow(name, r) for _ in range(n)] + [{'op': 'close'}])
    # many elements, most of them zero: the buffer is written just before, at or after the limit
    LIMIT = 1024 * 1024 * 32
    many = [('V16', 'mem', [0, 1]), ('V5', 'file', [1])] if quick else \
        [(n, st, list(range(-2, 3))) for n in ['V16', 'V5', 'V4', 'V3'] for st in ['mem', 'file']]
    for name, st, deltas in many:
        size = STRUCTS[name]['size']
        for d in deltas:
            n = (LIMIT - 8) // size + d
            q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': st, 's': name}, {'op': 'create', 'schema': 's'}]
            q += [grow(name, r), {'op': 'grow', 'rep': n - 3, 'v0': [], 'v': []}]
            q += [grow(name, r) for _ in range(6)] + [{'op': 'close'}]
            out.append(q)
    return out


def wide_vectors(quick):
    """More than 2^32 bytes"""
    r = rng('wide ev')
    out = []
    for name, n, st in [('BIG33', 126, 'file')] + ([] if quick else [('HUGE', 376, 'file'), ('BIG33', 125, 'mem'), ('BIG33', 280, 'file')]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': st, 's': name}, {'op': 'create', 'schema': 'wide'}]
        q += [{'op': 'biggrow', 'rep': 1, 'v': element(name, r)} for _ in range(n)]
        out.append(q + [{'op': 'bigclose'}])
    return out


def metered(q, of='write'):
    """C22: memory needed after the reset"""
    return q[:1] + [{'op': 'heapstart'}] + q[1:] + [{'op': 'heap', 'of': of}]


def bounded(quick):
    """C22: many more data than needs to be in memory; in files"""
    r = rng('bounded ev')
    out = []
    for name, n in [('V16', 1 << 30), ('HUGE', 1 << 30), ('BIG33', 9 << 29)] + ([] if quick else [('V1', 1 << 29), ('V5', 1 << 30), ('HUGE', 3 << 30)]):
        size = STRUCTS[name]['size']
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': 'file', 's': name}, {'op': 'create', 'schema': 'large'}]
        q += [{'op': 'biggrow', 'rep': n // size // 8, 'v': element(name, r) if name == 'HUGE' else []} for _ in range(8)]
        q += [{'op': 'biggrow', 'rep': 1, 'v': element(name, r)}, {'op': 'bigclose'}]
        out.append(metered(q))
    # much data, many buckets without data, or both
    for name, n, tags, k in [('TsW', 90, [2, 1], 2), ('TsC', 1 << 27, [0], 0), ('TsC', 1 << 25, [0], 4)] + ([] if quick else [('TsW', 300, [2], 1), ('TsB', 1 << 28, [3], 0)]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': 'file', 's': name}, {'op': 'create', 'schema': 'large'}]
        q += [{'op': 'grow', 'rep': 1, 'items': bucket(name, r, 2, tags[:1])}]
        for j in range(10):
            q.append({'op': 'grow', 'rep': n // 10, 'items': bucket(name, r, k, tags[:1])})
            q.append({'op': 'grow', 'rep': 1, 'items': bucket(name, r, j % 2, tags[-1:])})
        out.append(metered(q + [{'op': 'bigclose'}]))
    return out


def debugs(quick):
    """C20: debug output of writers"""
    r = rng('debug ev')
    out = []
    for name in ["V1", "V16", "HUGE"]:
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': r.choice(['mem', 'file']), 's': name}]
        for _ in range(2 if quick else 6):
            q += [{'op': 'create', 'schema': 's'}, {'op': 'dbg'}]
            for _ in range(5 if name == 'HUGE' else 14):
                q += [grow(name, r, r.choice([0, 1, 1, 4])), {'op': 'dbg'}]
            q.append({'op': 'close'})
        out.append(q)
    # long ones
    for name, ns in [('V1', [999, 1, 1, 64534, 1, 1 << 20, 5, 1 << 24, 50000000]), ('V5', [1000, 100000 - 1000, 900001, 33 << 20])]:
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': 'file', 's': name}, {'op': 'create', 'schema': 'long'}]
        for n in ns:
            q += [{'op': 'biggrow', 'rep': n, 'v': []}, {'op': 'dbg'}]
        out.append(q + [{'op': 'bigclose'}])
    return out


def many_elements():
    """More than 2^32 elements"""
    q = [{'op': 'reset', 'd': 'ext', 'kind': 'ev', 'st': 'file', 's': 'V1'}, {'op': 'create', 'schema': 'wide'}]
    q += [{'op': 'biggrow', 'rep': 1, 'v': [5]}]
    q += [{'op': 'biggrow', 'rep': 1 << 30, 'v': []} for _ in range(4)]
    return [q + [{'op': 'biggrow', 'rep': 1, 'v': [7]}, {'op': 'bigclose'}]]


def wide_multivectors(quick):
    r = rng('wide mv')
    out = []
    for n, tags, st in [(64, [9, 9, 1], 'file')] + ([] if quick else [(200, [2, 1], 'file'), (60, [9], 'mem'), (150, [9, 2, 1], 'file')]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': st, 's': 'TsW'}, {'op': 'create', 'schema': 'wide'}]
        for _ in range(n):
            q.append({'op': 'grow', 'rep': 1, 'items': bucket('TsW', r, r.choice([0, 1, 3, 4, 4]), tags)})
        total = sum(size('TsW', o['items']) for o in q[2:])
        while total < 1 << 32:
            q.append({'op': 'grow', 'rep': 1, 'items': bucket('TsW', r, 3, [9])})
            total += size('TsW', q[-1]['items'])
        q += [{'op': 'grow', 'rep': 1, 'items': bucket('TsW', r, k, [9, 1])} for k in (1, 0, 2, 0)]
        out.append(q + [{'op': 'bigclose'}])
    for k, (name, ns) in enumerate([('TsA', [65535, 3, 65537]), ('TsC', [40000, 0, 140000])]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': ['mem', 'file'][k % 2], 's': name}, {'op': 'create', 'schema': 'long'}]
        for n in ns:
            q.append({'op': 'grow', 'rep': 1, 'times': n, 'items': bucket(name, r, 1)})
        out.append(q + [{'op': 'bigclose'}])
    # 2^32 - 1 bytes of data fit into an index of 32 bits, 2^32 do not
    for a, b, c, st in [(121, 9, 1048476, 'file'), (124, 0, 1048483, 'file')] + ([] if quick else [(130, 0, 5, 'mem')]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': st, 's': 'TsG'}, {'op': 'create', 'schema': 'edge'}]
        q += [{'op': 'grow', 'rep': 1, 'items': bucket('TsG', r, 1, [t])} for t in [9] * a + [2] * b]
        q += [{'op': 'grow', 'rep': c, 'items': bucket('TsG', r, 1, [1])}]
        out.append(q + [{'op': 'bigclose'}])
    return out


def bucket(name, r, n, tags=None):
    vs = VARIADICS[name]['variants']
    out = []
    for _ in range(n):
        t, st = r.choice([v for v in vs if tags is None or v[0] in tags])
        out.append([t] + partial(st, r))
    return out


def size(name, items):
    d = dict((t, STRUCTS[n]['size']) for t, n in VARIADICS[name]['variants'])
    return sum(1 + d[i[0]] for i in items)


def narrow(quick):
    """As much data as fits into an index of 8 bits, or more"""
    r = rng('narrow')
    out = []
    for k, total in enumerate([252, 254, 254, 256, 256, 258, 300, 510, 512, 514, 600] * (1 if quick else 6)):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': ['mem', 'file'][k % 2], 's': 'TsD'}]
        for n in [total, r.choice([total, 10, 254])]:
            q.append({'op': 'create', 'schema': 's'})
            while n > 0:
                b = bucket('TsD', r, r.choice([0, 1, 3, 9]))
                while size('TsD', b) > n:
                    b = b[1:]
                if n <= 6 and not b:
                    b = bucket('TsD', r, n // 2, [0])
                n -= size('TsD', b)
                q.append({'op': 'grow', 'rep': 1, 'items': b})
            q += [{'op': 'grow', 'rep': 1, 'items': []}] * r.choice([0, 0, 1, 3]) + [{'op': 'close'}]
        out.append(q)
    return out


def multivectors(quick):
    r = rng('mv')
    out = []
    for name in ['TsA', 'TsB', 'TsC', 'TsD']:
        for k in range(20 if quick else 100):
            q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': ['mem', 'file'][k % 2], 's': name}]
            for _ in range(r.randint(1, 3)):
                q.append({'op': 'create', 'schema': r.choice(SCHEMAS)})
                # some of them do not fit into the index
                room = (1 << INDEXES[VARIADICS[name]['index']]['bits']) - 1 if r.random() < 0.6 else 1 << 70
                for _ in range(r.choice([0, 1, 2, 5, 20])):
                    b = bucket(name, r, r.choice([0, 0, 1, 1, 2, 3, 8]))
                    rep = r.choice([0, 1, 1, 1, 3])
                    if size(name, b) * rep > room:
                        b = []
                    room -= size(name, b) * rep
                    q.append({'op': 'grow', 'rep': rep, 'items': b})
                q.append({'op': 'close'})
            out.append(q)
    out += narrow(quick)
    # many items in a bucket
    for k, (name, ns) in enumerate([('TsA', [255, 1]), ('TsA', [257]), ('TsB', [256, 1]), ('TsC', [0, 260, 127])]):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': ['mem', 'file'][k % 2], 's': name}, {'op': 'create', 'schema': 'long'}]
        for n in ns:
            q.append({'op': 'grow', 'rep': 1, 'times': n, 'items': bucket(name, r, 1)})
        out.append(q + [{'op': 'grow', 'rep': 1, 'items': bucket(name, r, 50)}, {'op': 'close'}])
    # the data (TsG) or the index (TsH) fills the buffer
    huge = [('TsG', [3]), ('TsH', [7]), ('TsG', [1, 2, 0]), ('TsH', [9, 2]), ('TsH', [6])]
    if not quick:
        huge += [(r.choice(['TsG', 'TsH']), [r.randint(0, 12) for _ in range(r.randint(1, 2))]) for _ in range(12)]
    for k, (name, sizes) in enumerate(huge):
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': ['file', 'mem'][k % 2], 's': name}]
        for n in sizes:
            q.append({'op': 'create', 'schema': 'huge'})
            big = 0
            for _ in range(n):
                b = bucket(name, r, r.choice([0, 1, 2, 3]))
                w = size(name, b)
                if big + w > 220000000:
                    b = [x for x in b if size(name, [x]) < 100]
                    w = 0
                big += w
                q.append({'op': 'grow', 'rep': 1, 'items': b})
            q.append({'op': 'close'})
        out.append(q)
    # the data or the index is written several times
    for k, (name, tags, n) in enumerate([('TsG', [9], 4), ('TsG', [2], 11), ('TsH', [0, 200], 22)]):
        for st in ['mem', 'file'][k % 2:][:1] if quick else ['mem', 'file']:
            q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': st, 's': name}, {'op': 'create', 'schema': 'often'}]
            for j in range(n):
                b = bucket(name, r, 1, tags)
                q.append({'op': 'grow', 'rep': 1, 'items': b + bucket(name, r, j % 2, [1]) if name == 'TsG' else b})
            out.append(q + [{'op': 'close'}])
    # many empty buckets: only the index is written in between
    for st, n in [('mem', 8388606 + 3)] if quick else [(st, 8388606 + d) for st in ('mem', 'file') for d in range(-2, 4)]:
        q = [{'op': 'reset', 'd': 'ext', 'kind': 'mv', 'st': st, 's': 'TsA'}, {'op': 'create', 'schema': 's'},
             {'op': 'grow', 'rep': n, 'items': []}]
        q += [{'op': 'grow', 'rep': 1, 'items': bucket('TsA', r, 2)} for _ in range(5)] + [{'op': 'close'}]
        out.append(q)
    return out
