"""Operations on storages."""
import unicodedata
from fw import rng

SCHEMAS = ['', 'x', 'schema', 'a\nb', 'a\nb\n', '\n', 'é', 'struct A {\n  x : u32 : 3;\n}\n', '日本語 schema', '𝄞', '"', 'x' * 400,
           'a\r\nb\r\n', 'a\r\nb\n', '\t', 'line\n\nline', '\u0000']
# directories and resources have different names; d1 etc. are directories
NAMES = ['r', 's', 'R', 'r_index', 'd1/r', 'd1/s', 'd1/d2/r', 'd3/d2/d1/r', 'r.schema.schema', 'd1.x/r', 'name with blank', 'ünï', 'a.archive', '.hidden',
         'r ', ' r', 'r.', '%72', 'd1\\r', 'u\u0308n', '-r', 'long' * 50, 'long' * 50 + 'x']
DIRS = ['d1', 'd3', 'd1/d2', 'd3/d2']


def sch(x):
    return list(x.encode())


def data(r, n=None):
    n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 100, 255, 256, 300]) if n is None else n
    return [r.choice([0, 255, r.randrange(256)]) for _ in range(n)]


def frame(b):
    return list(len(b).to_bytes(8, 'little')) + b + [0] * 8


ROOTS = [[114, 255, 254, 120], sch('ünï cödé'), sch('a/./b//c'), sch('a.b'), [128]]


def spell(n, r):
    """Another way to write a path"""
    return n if r.random() < 0.8 else r.choice(['./' + n, n.replace('/', '//'), n.replace('/', '/./'), './/./' + n])


class Seq:
    """A random sequence; keeps track of the directories of the handles."""
    def __init__(self, r, st):
        self.r, self.q, self.dirs = r, [{'op': 'reset', 'd': 'storage', 'st': st}], ['']
        if r.random() < 0.3:
            self.q[0]['root'] = r.choice(ROOTS)
        elif st == 'file' and r.random() < 0.2:
            self.q[0]['via'] = True
        self.names = []

    def name(self):
        r = self.r
        return r.choice(self.names) if self.names and r.random() < 0.8 else r.choice(NAMES)

    def sub(self):
        r = self.r
        h = r.randrange(len(self.dirs))
        d = r.choice(DIRS)
        q = r.randint(1, min(len(self.dirs), 4))
        if h == q:
            h = 0
        p = self.dirs[h] + d + '/'
        d = spell(d, r) + r.choice(['', '', '', '/', '/.'])
        if r.random() < 0.1:
            d, p = r.choice(['', '.', './']), self.dirs[h]
        self.q.append({'op': 'sub', 'h': h, 'd': d, 'q': q})
        if q < len(self.dirs):
            self.dirs[q] = p
        else:
            self.dirs.append(p)

    def locate(self, path):
        """A handle and a name for a path"""
        hs = [(h, path[len(d):]) for h, d in enumerate(self.dirs) if path.startswith(d) and len(path) > len(d)]
        h, n = self.r.choice(hs)
        return {'h': h, 'n': n}

    def add(self, op, path, **kw):
        where = {'h': 0, 'n': path} if 'fresh' in kw else self.locate(path)
        where['n'] = spell(where['n'], self.r)
        self.q.append(dict({'op': op}, **where, **kw))


def near(n, r):
    """A name which is similar but another one, or that of a directory"""
    base = n.rsplit('/', 1)[-1]
    if r.random() < 0.2:
        return r.choice(DIRS + ['d1.x', 'd3/d2/d1']) + r.choice(['', '', '/'])
    m = r.choice([n[:-1], n + 'x', n + '.', n + '.schem', n + '.schema.schema', n + '_index', base, 'd1/' + n, n[:-1] + n[-1].swapcase(), 'x' + n])
    return m if m else 'no' + base


def distinct(names):
    """Neither the names of directories nor of schemas"""
    return [n for n in names if n not in DIRS + ['d1.x', 'd3/d2/d1'] and not n.endswith('.schema') and len(n.rpartition('/')[2].encode()) < 230]


def similar(n, r):
    """Another name of a resource in the same directory, which some transformation may confuse with it"""
    d, b = n.rpartition('/')[0::2]
    d = d + '/' if d else ''
    m = r.choice([b + ' ', ' ' + b, b + '.', b + '\t', b + '\n', b + 'x', b + b, b.swapcase(), '.' + b, b + '~', b + '.tmp', b + '%20', '"' + b + '"',
                  b + '\u0301', b + '\u200b', b + '\\', b[::-1], b.split('.')[0] + '.y', '_' + b, b + '_', b + '0', '0' + b, b.ljust(64, 'x'), b.ljust(130, 'x')])
    return d + m


def maybe_fresh(r):
    return {'fresh': True} if r.random() < 0.3 else {}


def roundtrips(quick):
    """C10: everything written is read back, and has the right frame"""
    r = rng('c10')
    out = []
    for k in range(80 if quick else 300):
        s = Seq(r, ['mem', 'file'][k % 2])
        s.names = r.sample(NAMES, r.randint(1, 5))
        if r.random() < 0.6:
            n = r.choice(s.names)
            s.names = [n] + distinct([similar(n, r) for _ in range(3)])
        written = {}
        for _ in range(r.choice([2, 5, 9])):
            if r.random() < 0.3:
                s.sub()
            n = s.name()
            x = r.choice(SCHEMAS)
            b = data(r)
            s.add('write', n, sch=sch(x), b=b)
            written[n] = x
            for m in [n, r.choice(list(written))]:
                s.add('read', m, sch=sch(written[m]), **maybe_fresh(r))
                s.add('raw', m, pin=r.random() < 0.5, **maybe_fresh(r))
                s.add('raw', m + '.schema', pin=False, **maybe_fresh(r))
            s.add('exists', n)
            s.add('exists', n + '.schema')
            for _ in range(2):
                s.add(r.choice(['exists', 'exists', 'raw']), near(n, r), pin=False)
        for m in written:
            s.add('read', near(m, r), sch=sch(written[m]))
            s.add('read', m, sch=sch(written[m]), fresh=True)
            s.add('raw', m, pin=False, fresh=True)
        s.q.append({'op': 'files'})
        out.append(s.q)
    # all sizes
    for st in ['mem', 'file']:
        q = [{'op': 'reset', 'd': 'storage', 'st': st}]
        for n in (list(range(0, 34)) + [63, 64, 127, 128, 254, 255, 256, 257, 511, 512] if quick else list(range(0, 300)) + [4095, 4096, 4097]):
            q += [{'op': 'write', 'h': 0, 'n': 'r%d' % n, 'sch': sch('x' * (n % 5)), 'b': data(r, n)},
                  {'op': 'read', 'h': 0, 'n': 'r%d' % n, 'sch': sch('x' * (n % 5))},
                  {'op': 'raw', 'h': 0, 'n': 'r%d' % n, 'pin': False, 'fresh': True}]
        out.append(q)
    # long schemas
    for st in ['mem', 'file']:
        q = [{'op': 'reset', 'd': 'storage', 'st': st}]
        for n in [1000, 4096, 8191, 65535, 65536, 65537] + ([] if quick else [131072, 200000]):
            x = ''.join(r.choice('abc\n é') if n < 9000 else 'aé\nbc'[i % 5] for i in range(n))
            q += [{'op': 'write', 'h': 0, 'n': 'r', 'sch': sch(x), 'b': [1]},
                  {'op': 'read', 'h': 0, 'n': 'r', 'sch': sch(x)},
                  {'op': 'raw', 'h': 0, 'n': 'r.schema', 'pin': False, 'fresh': True}]
        out.append(q)
    # large data
    for st, n in [('mem', 70000), ('file', 66000)] + ([] if quick else [('file', 400000), ('mem', 300000)]):
        out.append([{'op': 'reset', 'd': 'storage', 'st': st},
                    {'op': 'write', 'h': 0, 'n': 'x', 'sch': sch('s'), 'b': data(r, n)},
                    {'op': 'read', 'h': 0, 'n': 'x', 'sch': sch('s')},
                    {'op': 'read', 'h': 0, 'n': 'x', 'sch': sch('s'), 'fresh': True},
                    {'op': 'raw', 'h': 0, 'n': 'x', 'pin': False}])
    return out


UTF8 = ['80', 'bf', 'c0 80', 'c1 bf', 'c2', 'c2 80', 'df bf', 'e0 80 80', 'e0 a0 80', 'e0 9f bf', 'ed 9f bf', 'ed a0 80', 'ef bf bf',
        'e1 80', 'e1 80 41', 'f0 90 80 80', 'f0 8f bf bf', 'f4 8f bf bf', 'f4 90 80 80', 'f1 80 80', 'f5 80 80 80', 'ff', 'fe', '41 ff',
        'c3 28', '00', '7f', 'f0 9d 84 9e']
HEADERS = [0, 1, 15, 16, 17, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63] + [(1 << 64) - k for k in (1, 2, 8, 9, 15, 16, 17, 18, 24, 25, 32)]


def others(x):
    """Schemas which some normalisation may take for the same"""
    ys = [x.replace('\n', '\r\n'), x.replace('\r\n', '\n'), x.replace('\n', '\r'), x.replace('\n', '\n\n'), x.swapcase(), x.strip(), x.replace(' ', '  '), x.replace(' ', '\t'),
          x.replace('\n', ' '), x.replace('\n', ''), x + '\n\n', x + ';', x.replace(';', ''), '\n' + x, x + x, ' '.join(x.split()), x[::-1]]
    ys += [unicodedata.normalize(f, x) for f in ('NFD', 'NFC', 'NFKD')] + [x.encode('ascii', 'ignore').decode(), x.encode('ascii', 'replace').decode()]
    return [sch(y) for y in sorted(set(ys)) if y != x]


def damaged(quick):
    """C11: all kinds of damage"""
    r = rng('c11')
    out = []
    put = lambda n, b: {'op': 'put', 'h': 0, 'n': n, 'b': b}
    for st in ['mem', 'file']:
        def case(files, schemas=('x',), name='r'):
            q = [{'op': 'reset', 'd': 'storage', 'st': st}]
            q += [put(n, b) for n, b in files]
            for x in schemas:
                q += [{'op': 'read', 'h': 0, 'n': name, 'sch': sch(x)}, {'op': 'read', 'h': 0, 'n': name, 'sch': sch(x), 'fresh': True}]
            out.append(q)
        for size in [0, 1, 8, 40]:
            b = data(r, size)
            f = frame(b)
            # each bit of the header
            for bit in range(64):
                g = list(f)
                g[bit // 8] ^= 1 << (bit % 8)
                case([('r', g), ('r.schema', sch('x'))])
            for h in HEADERS:
                for g in ([f[8:]] if quick else [f[8:], f[9:], f[8:] + [0]]):
                    case([('r', list(h.to_bytes(8, 'little')) + g), ('r.schema', sch('x'))])
                    # the size of the complete resource in place of the data
            for delta in [-16, -8, -1, 1, 8, 16]:
                case([('r', list(((size + delta) % (1 << 64)).to_bytes(8, 'little')) + f[8:]), ('r.schema', sch('x'))])
            # all lengths, with a header which says what the file had or has
            for n in range(0, 26):
                for h in {size, n - 16, n - 8, n} & set(range(-16, 200)):
                    g = (list((h % (1 << 64)).to_bytes(8, 'little')) + [0] * 100)[:n]
                    case([('r', g), ('r.schema', sch('x'))])
            # padding may be anything
            case([('r', f[:-8] + [1] * 8), ('r.schema', sch('x'))])
            for bad in [f, f[:-1], f + [0], []]:
                case([('r', bad)])
                case([('r.schema', sch('x'))])
                case([])
                case([('r', bad), ('R.schema', sch('x'))])
                for s in [b'x', b'y', b'', b'x\n', b'\xff', b'x\x00', b' x', b'X', b'xx']:
                    case([('r', bad), ('r.schema', list(s))], ('x', ''))
        f = frame([1, 2, 3])
        for u in UTF8:
            b = bytes.fromhex(u.replace(' ', ''))
            case([('r', f), ('r.schema', list(b))], ('x', ''))
            case([('r', f), ('r.schema', list(b'abc\n' + b + b'.'))], ('abc\n',))
            try:
                case([('r', f), ('r.schema', list(b))], (b.decode(),))
            except UnicodeDecodeError:
                case([('r', f), ('r.schema', list(b))], (b.decode('utf8', 'replace'), b.decode('utf8', 'ignore')))
        # schemas which differ in one byte
        for x in SCHEMAS:
            c = sch(x)
            for y in [c + [10], c + [32], c[:-1], c[1:], [239, 187, 191] + c, c + [0]] + others(x) + [c[:i] + [c[i] ^ 1] + c[i + 1:] for i in range(0, len(c), 1 if len(c) < 30 else 57)]:
                case([('r', f), ('r.schema', y)], (x,))
        # schemas of which only the end, or a place far inside, differs
        for size in ([5000, 70000] if quick else [5000, 33000, 66000, 70000, 140000, 1100000]):
            c = [97 + (i * i) % 23 for i in range(size)]
            for y in [c, c[:-1] + [65], c[:-1] + [10], c + [97], c[:size // 2] + [65] + c[size // 2 + 1:], c[:-300] + [65] + c[-299:]]:
                case([('r', f), ('r.schema', y)], (bytes(c).decode(),))
        # random damage
        for _ in range(500 if quick else 3000):
            g, s = frame(data(r, r.choice([0, 1, 2, 3, 30]))), sch(r.choice(['x', 'schema', 'é']))
            want = bytes(s).decode()
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = r.random()
                if x < 0.3 and g:
                    g[r.randrange(len(g))] ^= 1 << r.randrange(8)
                elif x < 0.5:
                    g = g[:r.randrange(len(g) + 1)]
                elif x < 0.6:
                    g = g + data(r, 3)
                elif x < 0.9 and s:
                    s[r.randrange(len(s))] ^= 1 << r.randrange(8)
                else:
                    s = s[:r.randrange(len(s) + 1)]
            name = r.choice(['r', 'd1/r'])
            files = [(name, g), (name + '.schema', s)]
            if r.random() < 0.2:
                files.pop(r.randrange(2))
            case(files, (want,), name)
    # one reset for many cases: the sequences are short
    merged = []
    for i in range(0, len(out)):
        merged.append(out[i])
    return merged


def large(quick):
    """C11: sizes beyond 32 bits, as sparse files"""
    q = [{'op': 'reset', 'd': 'storage', 'st': 'file'}]
    b8 = lambda x: list((x % (1 << 64)).to_bytes(8, 'little'))
    sizes = [1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 15, (1 << 32) + 16, (1 << 32) + 17] + ([] if quick else [(1 << 33) + 5, 1 << 40])
    n = 0
    for s in sizes:
        for h in [s - 16, s, s - 8, s - 15, s - 17, (s - 16) % (1 << 32), (s - 16) % (1 << 31), s - 16 + (1 << 32), s - 16 + (1 << 63), -1, 0]:
            h %= 1 << 64
            q += [{'op': 'sparse', 'n': 'r%d' % n, 'len': str(s), 'hdr': str(h), 'lenb': b8(s), 'hdrb': b8(h), 'sch': sch('s')},
                  {'op': 'readlen', 'n': 'r%d' % n, 'sch': sch('s')}]
            if n % 7 == 0:
                q.append({'op': 'readlen', 'n': 'r%d' % n, 'sch': sch('t')})
            n += 1
    return [q]


def bounded(quick):
    """C22: large files are read without loading them"""
    b8 = lambda x: list(x.to_bytes(8, 'little'))
    q = [{'op': 'reset', 'd': 'storage', 'st': 'file'}, {'op': 'heapstart'}]
    for k, s in enumerate([64 << 20, 1 << 30, (1 << 32) + 100] + ([] if quick else [1 << 36])):
        n = 'r%d' % k
        q += [{'op': 'sparse', 'n': n, 'len': str(s), 'hdr': str(s - 16), 'lenb': b8(s), 'hdrb': b8(s - 16), 'sch': sch('s')}]
        q += [{'op': 'exists', 'h': 0, 'n': n}] + [{'op': 'readlen', 'n': n, 'sch': sch(x)} for x in 'sst'] + [{'op': 'exists', 'h': 0, 'n': n}] + [{'op': 'bigread', 'n': n, 'sch': sch('s'), 'at': [b8(s - 17), b8(s // 2)]}]
        # of a wrong size
        q += [{'op': 'sparse', 'n': n, 'len': str(s + 1), 'hdr': str(s - 16), 'lenb': b8(s + 1), 'hdrb': b8(s - 16), 'sch': sch('s')},
              {'op': 'readlen', 'n': n, 'sch': sch('s')}]
    return [q + [{'op': 'heap', 'of': 'read'}]]


def watched(seqs):
    """C21: files and directories are watched"""
    return [[dict(q[0], st='file', watch=True)] + q[1:] for q in seqs]


def normal(p):
    return '/'.join(c for c in p.split('/') if c not in ('', '.'))


def framed(seqs, parts=lambda a: []):
    """C23: the operations tell what they changed.  All resources in question are named at the beginning.
    parts: those of an archive"""
    out = []
    for q in seqs:
        names, dirs = set(), ['']
        for o in q:
            d = dirs[o.get('h', 0)] if o.get('h', 0) < len(dirs) else ''
            if o['op'] == 'sub':
                dirs[o['q']:o['q'] + 1] = [d + normal(o['d']) + '/' if normal(o['d']) else d]
            if 'n' in o:
                names.add(normal(d + o['n']))
            if 'to' in o:
                names.add(o['to'])
            if 'a' in o:
                names.update(d + p for p in parts(o['a']))
        names |= {n + '.schema' for n in names} | {n + '_index' for n in names}
        out.append([dict({k: v for k, v in q[0].items() if k != 'via'}, frame=sorted(names))] + q[1:])
    return out


def neighbours(n):
    """Names which only look as if they belonged to a resource"""
    d, b = ('/' + n).rsplit('/', 1)
    d = d[1:] + '/' if d else ''
    return [d + x for x in [b + '_index', b + '.schema.schema', b + '_index.schema', b + 'x', b[:-1] + 'schema', 'schema', '.schema', b + '.archive', b + '_data',
                            b.swapcase(), b + '.', 'x' + b, b + b, b + '0',
                            b + ' ', ' ' + b, b + '.tmp', '.' + b, '.' + b + '.tmp', b + '~', b + '.new', b + '.bak', b + '.old', b + '.part', b + '.lock', 'tmp']] + [b, 'd1/' + b, 'd3/' + b + 'x', b + '.schemas', b + '.schema_index']


def alone(quick):
    """C23: resources with similar names are written, replaced and patched, also if they are links to the same file"""
    r = rng('c23')
    out = []
    for k in range(100 if quick else 600):
        s = Seq(r, ['mem', 'file'][k % 2])
        main = r.choice(['r', 'res', 'R', 'a.b', 'd1/r', 'd1/d2/r', 'ünï'])
        names = [n for n in neighbours(main) + [main, main] if n not in ('d1', 'd3')]
        names = [n for n in names if not any(m.startswith(n + '/') for m in names)]
        s.names = [main] + r.sample(names, min(len(names), r.randint(2, 8)))
        streams, have = {}, set()
        for n in r.sample(s.names, len(s.names)):
            if r.random() < 0.7:
                s.add('write', n, sch=sch(r.choice(SCHEMAS)), b=data(r, r.choice([0, 3, 20])))
                have |= {n, n + '.schema'}
        for _ in range(r.choice([10, 25])):
            x = r.random()
            n = r.choice(s.names)
            busy = any(m in streams.values() for m in (n, n + '.schema'))
            if x < 0.1:
                s.sub()
            elif x < 0.4 and not busy:
                s.add('write', n, sch=sch(r.choice(SCHEMAS)), b=data(r, r.choice([0, 1, 5, 30])))
                have |= {n, n + '.schema'}
            elif x < 0.5 and not busy:
                m = n + r.choice(['', '.schema'])
                s.add('put', m, b=data(r, 4))
                have.add(m)
            elif x < 0.6 and not busy:
                i = r.randrange(3)
                if i not in streams:
                    s.add('sopen', n, x=i)
                    streams[i] = n
                    have.add(n)
            elif x < 0.75 and streams:
                i = r.choice(sorted(streams))
                s.q.append({'op': 'swrite', 'x': i, 'pos': r.choice([-1, -1, 0, 2]), 'b': data(r, r.choice([1, 4, 9]))})
            elif x < 0.8 and streams:
                i = r.choice(sorted(streams))
                s.q.append({'op': 'sdrop', 'x': i})
                del streams[i]
            elif x < 0.9 and len(have - set(streams.values())) > 0:
                a, b = r.choice(sorted(have - set(streams.values()))), r.choice(s.names)
                if a != b and b not in streams.values():
                    s.q.append({'op': 'link', 'h': 0, 'n': a, 'to': b, **r.choice([{}, {'soft': True}])})
                    have.add(b)
            else:
                s.add(r.choice(['read', 'exists', 'raw']), n, sch=sch('x'), pin=False)
        for i in sorted(streams):
            s.q.append({'op': 'sdrop', 'x': i})
        for n in sorted(have):
            s.add('raw', n, pin=False)
        out.append(s.q)
    return framed(out)


def untouched(quick):
    """C21: reading of what may be missing or damaged, also if nothing can be changed"""
    r = rng('c21')
    out = []
    for _ in range(60 if quick else 400):
        s = Seq(r, 'file')
        s.q[0].pop('root', None)
        s.q[0].pop('via', None)
        written = {}
        s.names = r.sample(NAMES, 5)
        for _ in range(r.choice([0, 1, 3])):
            n = s.name()
            written[n] = r.choice(SCHEMAS)
            if r.random() < 0.6:
                s.add('write', n, sch=sch(written[n]), b=data(r))
            else:
                s.add('put', n + r.choice(['', '.schema']), b=data(r))
        if r.random() < 0.5:
            s.q.append({'op': 'readonly', 'on': True})
        for _ in range(12):
            x = r.random()
            n = r.choice(s.names)
            if x < 0.2:
                s.sub()
            elif x < 0.6:
                s.add('read', n, sch=sch(written.get(n, 'x') if r.random() < 0.7 else r.choice(SCHEMAS)), **maybe_fresh(r))
            elif x < 0.8:
                s.add('raw', n + r.choice(['', '.schema']), pin=True, **maybe_fresh(r))
            elif x < 0.9:
                s.add('exists', n)
            else:
                s.add('read', near(n, r), sch=sch('x'))
        s.q += [{'op': 'readonly', 'on': False}, {'op': 'files'}]
        out.append(s.q)
    # resources with similar names
    for _ in range(40 if quick else 300):
        s = Seq(r, 'file')
        s.q[0].pop('root', None)
        s.q[0].pop('via', None)
        main = r.choice(['r', 'a.b', 'd1/r'])
        names = [n for n in neighbours(main) if n not in ('d1', 'd3')]
        names = r.sample([n for n in names if not any(m.startswith(n + '/') for m in names)], 9)
        for n in names[:6]:
            s.add(*r.choice([('write',), ('put',)]), n, sch=sch('x'), b=data(r, r.choice([0, 1, 5])))
        if r.random() < 0.7:
            s.add('write', main, sch=sch('x'), b=data(r, 3))
        for n in [main, names[0]]:
            for op in ['exists', 'read', 'raw', 'read']:
                s.add(op, n, sch=sch(r.choice(['x', 'x', 'y'])), pin=True)
        for n in r.sample(names, 4):
            s.add(r.choice(['exists', 'read', 'raw']), n, sch=sch('x'), pin=True)
        s.q += [{'op': 'files'}]
        out.append(s.q)
    return watched(out)


def wide(quick):
    """C10: data of more than 2^31 and 2^32 bytes"""
    r = rng('c10 wide')
    b8 = lambda x: list(x.to_bytes(8, 'little'))
    q = [{'op': 'reset', 'd': 'storage', 'st': 'file'}]
    for k, n in enumerate([(1 << 32) + 5, (1 << 31) - 3, 1 << 31, (1 << 32) - 16] + ([] if quick else [1 << 32, (1 << 33) + 1, (1 << 32) - 1, (3 << 31)])):
        pos = sorted(set([0, 7, n - 1, n // 2, n - (1 << 20)] + [r.randrange(n) for _ in range(3)] + ([(1 << 32) + 1] if n > (1 << 32) + 1 else [])))
        q.append({'op': 'bigwrite', 'h': 0, 'n': 'r%d' % (k % 3), 'sch': sch('s'), 'len': b8(n), 'nz': [[b8(p), r.randint(1, 255)] for p in pos]})
        q.append({'op': 'bigread', 'h': 0, 'n': 'r%d' % (k % 3), 'sch': sch('s'), 'at': [b8(p) for p in sorted(set(pos + [1, n - 2, n // 3]))]})
        q.append({'op': 'bigread', 'h': 0, 'n': 'r%d' % (k % 3), 'sch': sch('t'), 'at': []})
    return [q] + lengths(quick)


def lengths(quick):
    """C10: lengths around powers of two and their multiples, as of pages, buffers and blocks"""
    r = rng('c10 lengths')
    b8 = lambda x: list(x.to_bytes(8, 'little'))
    sizes = set()
    for e in range(9, 24 if quick else 27):
        for m in (1, 3) if e < 22 else (1,):
            sizes |= {(m << e) + d for d in (-16, -8, -1, 0, 1, 8)}
    sizes |= {m * 4096 + d for m in (5, 6, 7, 15, 17, 31, 100) for d in (-16, -8, 0)} | {1000, 10000, 100000, 1000000}
    sizes = r.sample(sorted(sizes), len(sizes))
    out = []
    for st in ['mem', 'file']:
        for i in range(0, len(sizes), 40):
            q = [{'op': 'reset', 'd': 'storage', 'st': st}]
            for k, n in enumerate(sizes[i:i + 40]):
                # bytes at the ends of pages and blocks, and everywhere else
                pos = {0, 1, 7, 8, n - 1, n - 2, n - 8, n // 2, n // 2 - 1}
                for b in (512, 4096, 8192, 1 << 16, 1 << 17, 1 << 20):
                    for x in r.sample(range(0, n + 1, b), min(3, n // b + 1)) + [n // b * b, (n - 1) // b * b]:
                        pos |= {p for p in (x - 17, x - 9, x - 8, x - 1, x, x + 1) if 0 <= p < n}
                pos = sorted(r.sample(sorted(p for p in pos if p >= 0), min(len(pos), 40)) + [n - 1, 0])
                q.append({'op': 'bigwrite', 'h': 0, 'n': 'r%d' % (k % 3), 'sch': sch('s'), 'len': b8(n), 'nz': [[b8(p), 1 + (p * 7 + k) % 255] for p in sorted(set(pos))]})
                more = sorted({r.randrange(n) for _ in range(10)} | set(pos))
                q.append({'op': 'bigread', 'h': 0, 'n': 'r%d' % (k % 3), 'sch': sch('s'), 'at': [b8(p) for p in more]})
            out.append(q)
    return out


def rewrites(quick):
    """C18: the same resources again and again through several handles, data handed out in between"""
    r = rng('c18')
    out = []
    for k in range(120 if quick else 500):
        s = Seq(r, ['file', 'mem'][k % 2])
        s.names = r.sample(NAMES, r.randint(1, 3))
        if r.random() < 0.3:
            s.names = s.names[:1] + distinct([similar(s.names[0], r)])
        schemas = {}
        size = r.choice([0, 1, 5, 60, 5000 if k % 5 == 0 else 20])
        stream = None
        for _ in range(r.choice([10, 25, 40])):
            x = r.random()
            n = r.choice(s.names)
            if r.random() < 0.08:
                s.sub()
            if x < 0.3:
                if stream is None or stream[0] not in (n, n + '.schema'):
                    b = data(r, r.choice([size, size, size, 0, size + 1, size // 2]))
                    schemas[n] = r.choice(['a', 'b', 'a', 'abc', ''])
                    s.add('write', n, sch=sch(schemas[n]), b=b)
            elif x < 0.4:
                if stream is None or stream[0] not in (n, n + '.schema'):
                    m = n + r.choice(['', '.schema'])
                    s.add('put', m, b=r.choice([frame(data(r, size)), sch('a'), [], sch('b')]))
            elif x < 0.46:
                if stream is None:
                    m = n + r.choice(['', '', '.schema'])
                    s.add('sopen', m, x=0)
                    stream = [m, 0]
            elif x < 0.58:
                if stream:
                    pos = r.choice([-1, -1, -1, 0, 3])
                    # writing nothing behind the end extends a Cursor but not a file
                    b = data(r, r.choice([1 if pos > 0 else 0, 1, 8, max(size, 1)]))
                    s.q.append({'op': 'swrite', 'x': 0, 'pos': pos, 'b': b})
                    if r.random() < 0.4:
                        s.q.append({'op': 'sdrop', 'x': 0})
                        stream = None
            elif x < 0.8:
                if stream is None or stream[0] not in (n, n + '.schema'):
                    s.add('read', n, sch=sch(r.choice([schemas.get(n, 'a'), schemas.get(n, 'a'), 'a', 'zz'])), **maybe_fresh(r))
                    if r.random() < 0.2:
                        s.q.append(dict(s.q[-1]))
            elif x < 0.93:
                m = n + r.choice(['', '.schema'])
                s.add('raw', m, pin=stream is None or stream[0] != m, **maybe_fresh(r))
            else:
                s.add('exists', n)
        if stream:
            s.q.append({'op': 'sdrop', 'x': 0})
        for n in s.names:
            s.add('read', n, sch=sch(schemas.get(n, 'a')))
        out.append(s.q)
    return out


def appended(quick):
    """C18: data read early stays as it is while more is appended to the same stream"""
    r = rng('c18a')
    out = []
    for k in range(12 if quick else 60):
        s = Seq(r, ['file', 'mem'][k % 2])
        s.names = ['r', 'r.x']
        n = r.choice(s.names)
        m = n + r.choice(['', '', '.schema'])
        if r.random() < 0.5:
            s.add('write', n, sch=sch('a'), b=data(r, r.choice([0, 3, 40])))
            s.add('raw', m, pin=True)
        s.add('sopen', m, x=0)
        for _ in range(r.choice([3, 6])):
            s.q.append({'op': 'swrite', 'x': 0, 'pos': -1, 'b': data(r, r.choice([1, 2, 8, 5000 if k < 4 else 30]))})
            for _ in range(r.choice([0, 1, 1, 2])):
                s.add('raw', m, pin=True, **(maybe_fresh(r) if r.random() < 0.3 else {}))
        s.q.append({'op': 'sdrop', 'x': 0})
        s.add('raw', m, pin=True)
        s.add('write', n, sch=sch('b'), b=data(r, 7))
        s.add('raw', m, pin=True)
        out.append(s.q)
    return out


def many(quick):
    """C18: data of many resources is handed out at the same time"""
    r = rng('c18m')
    out = []
    for st in ['file', 'mem']:
        # more than files can be open at the same time
        for n in [280, 1100] if st == 'file' or not quick else [280]:
            q = [{'op': 'reset', 'd': 'storage', 'st': st}, {'op': 'sub', 'h': 0, 'd': 'd1', 'q': 1}]
            rs = [(i % 2, '%s%d' % (r.choice(['r', 'res.', 'R']), i)) for i in range(n)]
            for k in range(2):
                for h, m in rs if k == 0 else r.sample(rs, n // 8):
                    q.append({'op': 'write', 'h': h, 'n': m, 'sch': sch('s%d' % k), 'b': data(r, r.choice([0, 1, 3]))})
                    if r.random() < 0.9:
                        q.append({'op': 'read', 'h': h, 'n': m, 'sch': sch('s%d' % k)})
                for h, m in r.sample(rs, n // 8):
                    q.append({'op': 'raw', 'h': h, 'n': m, 'pin': True})
            out.append(q)
    return out


def replaced(quick):
    """C18: many versions of a resource, and versions which differ in few bytes"""
    r = rng('c18 replaced')
    out = []
    b8 = lambda n: list(n.to_bytes(8, 'little'))
    for st in ['mem', 'file']:
        for n in [300] if quick else [300, 1200]:
            q = [{'op': 'reset', 'd': 'storage', 'st': st}]
            for k in range(n):
                m = r.choice(['r', 'r', 'd1/r', 'rx'])
                q.append({'op': 'write', 'h': 0, 'n': m, 'sch': sch('s'), 'b': data(r, 60 if r.random() < 0.8 else r.choice([0, 1, 61]))})
                q.append({'op': 'read', 'h': 0, 'n': m, 'sch': sch('s')})
            out.append(q)
        for size in [300, 5000, 70000] if quick else [300, 4096, 5000, 9000, 33000, 70000, 300000, 1100000]:
            q = [{'op': 'reset', 'd': 'storage', 'st': st}]
            b = data(r, size)
            places = [size - 1, 0, size // 2, size - 9, min(size - 1, 4096), min(size - 1, 65536), size // 3, 7, 8]
            for k in r.sample(places, len(places) if size < 20000 else 5) + [size - 1]:
                q.append({'op': 'write', 'h': 0, 'n': 'r', 'sch': sch('s'), 'b': b})
                q.append({'op': 'read', 'h': 0, 'n': 'r', 'sch': sch('s')})
                b = b[:k] + [b[k] ^ r.randint(1, 255)] + b[k + 1:]
            # in place, by a stream
            q.append({'op': 'sopen', 'h': 0, 'n': 'r', 'x': 0})
            q.append({'op': 'swrite', 'x': 0, 'pos': -1, 'b': b8(size) + b + [0] * 8})
            q.append({'op': 'read', 'h': 0, 'n': 'r', 'sch': sch('s'), 'fresh': True})
            q.append({'op': 'sdrop', 'x': 0})
            q.append({'op': 'read', 'h': 0, 'n': 'r', 'sch': sch('s')})
            out.append(q)
    return out


def pairs(seqs):
    out = []
    for k, s in enumerate(seqs):
        q = [{'op': 'reset', 'd': 'storage', 'st': ['mem', 'file'][k % 2]}]
        for o in s:
            q += [{'op': 'write', 'h': 0, 'n': 'r', 'sch': o['a'], 'b': []}, {'op': 'read', 'h': 0, 'n': 'r', 'sch': o['b']}]
        out.append(q)
    return out


def diffs(quick):
    """C19: texts which differ in lines"""
    r = rng('c19')
    out = []
    pairs = [(a, b) for a in SCHEMAS for b in SCHEMAS]
    texts = ['', 'a', 'b', 'a\n', 'b\n', '\n', '\n\n', 'a\na', 'a\nb', 'b\na', 'a\n\nb', 'a\nb\n', 'b\na\n', ' a', '-a', '+a', '-', '+', ' ', 'a\n-a', 'a\n a\n+a']
    pairs += [(a, b) for a in texts for b in texts]
    words = ['', 'a', 'b', 'c', ' x', '-x', '+x', 'long line of text', 'é', 'a', 'a ', 'a\t', 'A', 'a\u2028a', 'a\x0ca', 'a\u0085', '\ra', 'a\r', '\u00a0', '\t']

    def text():
        return '\n'.join(r.choice(words) for _ in range(r.choice([1, 2, 3, 5, 9, 20]))) + r.choice(['', '\n', '\n\n'])

    def edit(t):
        ls = t.split('\n')
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(ls) + 1)
            x = r.random()
            if x < 0.3:
                ls.insert(i, r.choice(words))
            elif x < 0.6 and ls:
                ls.pop(min(i, len(ls) - 1))
            elif ls:
                ls[min(i, len(ls) - 1)] = r.choice(words)
        return '\n'.join(ls)
    for _ in range(400 if quick else 2500):
        a = text()
        pairs.append((a, r.choice([edit(a), edit(a), text()])))
    for a in texts if quick else 5 * texts:
        for b in r.sample(texts, 4):
            pairs.append((a.replace('\n', '\r\n'), b))
            pairs.append((a, b.replace('\n', '\r\n')))
    for n in [70, 300, 1100] if quick else [70, 300, 1100, 2500]:
        a = [str(i) for i in range(n)]
        # differences everywhere, only at the end, only at the beginning, none but one in the middle
        for b in [[x for x in a if int(x) % 7], a[:-1] + ['x'], a + ['y'], ['z'] + a, a[:n // 2] + a[n // 2 + 1:]]:
            pairs.append(('\n'.join(a), '\n'.join(b)))
            pairs.append(('\n'.join(b), '\n'.join(a)))
    for n in [300, 5000, 70000]:
        # long lines
        pairs += [('x' * n, 'x' * (n - 1)), ('a\n' + 'é' * n, 'a\n' + 'é' * n + '\n')]
    for k in range(0, len(pairs), 20):
        q = [{'op': 'reset', 'd': 'storage', 'st': ['mem', 'file'][k // 20 % 2]}]
        for i, (a, b) in enumerate(pairs[k:k + 20]):
            n = r.choice(['r', 's', 'd1/r'])
            q += [{'op': 'write', 'h': 0, 'n': n, 'sch': sch(a), 'b': []}, {'op': 'read', 'h': 0, 'n': n, 'sch': sch(b)}]
        out.append(q)
    return out


def anything(quick):
    """C14: any operations"""
    r = rng('c14')
    out = []
    for k in range(150 if quick else 500):
        s = Seq(r, ['mem', 'file'][k % 2])
        s.names = r.sample(NAMES, r.randint(2, 5))
        if r.random() < 0.3:
            s.names = s.names[:2] + distinct([similar(s.names[0], r), similar(s.names[0], r)])
        streams = {}
        schemas = {}
        for _ in range(r.choice([15, 40])):
            x = r.random()
            n = s.name()
            busy = [m for m in (n, n + '.schema') if m in streams.values()]
            if x < 0.12:
                s.sub()
            elif x < 0.3 and not busy:
                schemas[n] = r.choice(SCHEMAS)
                s.add('write', n, sch=sch(schemas[n]), b=data(r, r.choice([0, 1, 5, 30])))
            elif x < 0.4 and not busy:
                s.add('put', n + r.choice(['', '.schema']), b=r.choice([[], frame(data(r, 3)), sch('x'), [255, 1], frame([])[:15]]))
            elif x < 0.46 and not busy:
                i = r.randrange(3)
                if i not in streams:
                    s.add('sopen', n, x=i)
                    streams[i] = n
            elif x < 0.6 and streams:
                i = r.choice(sorted(streams))
                pos = r.choice([-1, -1, 0, 2, 10, 40])
                # writing nothing behind the end extends a Cursor but not a file
                s.q.append({'op': 'swrite', 'x': i, 'pos': pos, 'b': data(r, r.choice([1 if pos > 0 else 0, 1, 4, 9]))})
            elif x < 0.65 and streams:
                i = r.choice(sorted(streams))
                s.q.append({'op': 'sdrop', 'x': i})
                del streams[i]
            elif x < 0.8:
                if not busy:
                    s.add('read', n, sch=sch(schemas.get(n, 'x') if r.random() < 0.7 else r.choice(SCHEMAS)), **maybe_fresh(r))
            elif x < 0.92:
                m = n + r.choice(['', '.schema'])
                s.add('raw', m, pin=m not in streams.values(), **maybe_fresh(r))
            else:
                s.add('exists', r.choice([n, n + '.schema', near(n, r), near(n, r)]))
        for i in sorted(streams):
            s.q.append({'op': 'sdrop', 'x': i})
        for n in s.names:
            s.add('raw', n, pin=False)
            s.add('raw', n + '.schema', pin=False)
            s.add('exists', n)
        out.append(s.q)
    return out


READ_ERRORS = [5, 13, 24, 12, 2]


def faulty_reads(quick):
    """Calls which fail while resources are read, and reads afterwards"""
    r = rng('faulty reads')
    out = []
    for k in range(60 if quick else 600):
        names = r.sample(['r', 'd/r', 'd/e/s', 'ü', 'r_index'], 3)
        q = [{'op': 'reset', 'd': 'storage', 'st': 'file'}]
        now = {}

        def write(n):
            now[n] = (r.choice(SCHEMAS), data(r, r.choice([0, 1, 9, 40, len(now[n][1]) if n in now else 3])))
            q.append({'op': 'write', 'h': 0, 'n': n, 'sch': sch(now[n][0]), 'b': now[n][1]})
        for n in names[:2]:
            write(n)
        for _ in range(8):
            x, n = r.random(), r.choice(names)
            if x < 0.25:
                write(n)
            elif x < 0.4 and n in now:
                q.append({'op': 'read', 'h': 0, 'n': n, 'sch': sch(now[n][0])})
            else:
                arm = {'op': 'arm', 'snap': False, 'at': r.choice([1, 1, 2, 2, 3, 4, 5]), 'writes': False, 'errno': r.choice(READ_ERRORS), 'sticky': r.random() < 0.3}
                n = r.choice([m for m in names if m in now] + [n])
                s = now[n][0] if n in now and r.random() < 0.8 else 'other'
                o = {'op': 'read', 'h': 0, 'n': n, 'sch': sch(s)} if r.random() < 0.7 else {'op': 'raw', 'h': 0, 'n': n, 'pin': False}
                q += [arm, dict(o, sys=True), {'op': 'disarm'}]
                for m in [n, r.choice(names)]:
                    q.append({'op': 'read', 'h': 0, 'n': m, 'sch': sch(now[m][0] if m in now else 's'), **maybe_fresh(r)})
        for m in names:
            q.append({'op': 'read', 'h': 0, 'n': m, 'sch': sch(now[m][0] if m in now else 's')})
        out.append(q)
    return out
