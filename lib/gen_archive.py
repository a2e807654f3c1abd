"""Operations on archives."""
from fw import rng
import gen_storage
from gen_storage import spell
from layouts import *

DAMAGE = ['nodata', 'noschema', 'none', 'trunc', 'long', 'short', 'empty', 'hdr', 'hdrhi', 'sch', 'schlong', 'schshort', 'schempty', 'schplain', 'schnext', 'schspace', 'schlead', 'schcase', 'utf8']
SIZES = ['small', 'big', 'hollow']     # of structs
NORTH, SOUTH = 'TransportationNetworkOfNorthAmerica', 'TransportationNetworkOfSouthAmerica'
NAMES = ['Leaf', 'Mid', 'Midway', 'Simple', 'Full', 'Opt', 'Deep', 'Vecs', 'Near', NORTH, SOUTH]


def parts(a, pre=''):
    out = [pre + a + '.archive']
    for kind, name, lay, opt in ARCHIVES[a]['res']:
        if kind == 'sub':
            out += parts(lay, pre + name + '/')
        else:
            out.append(pre + name)
            if kind == 'mv':
                out.append(pre + name + '_index')
    return out


def damages(a, pre=''):
    """All kinds of damage of each part"""
    out = [(pre + a + '.archive', how) for how in DAMAGE]
    for kind, name, lay, opt in ARCHIVES[a]['res']:
        if kind == 'sub':
            out += damages(lay, pre + name + '/')
            continue
        out += [(pre + name, how) for how in DAMAGE + {'struct': SIZES, 'vec': ['cleared'], 'raw': ['cleared'], 'mv': []}[kind]]
        if kind == 'mv':
            out += [(pre + name + '_index', how) for how in DAMAGE + ['noitems']]
    return out


def larges(a, pre=''):
    """Large resources, more than 4 GiB: intact, or of the right size modulo 2^32 only.  Data of multivectors has no items"""
    out = [[(pre + a + '.archive', 'large')], [(pre + a + '.archive', 'largebad')]]
    for kind, name, lay, opt in ARCHIVES[a]['res']:
        p = pre + name
        if kind == 'sub':
            out += larges(lay, p + '/')
        elif kind == 'struct':
            out += [[(p, 'largestruct')], [(p, 'largebad')]]
        elif kind == 'mv':
            out += [[(p, 'large'), (p + '_index', 'noitems')], [(p + '_index', 'large')], [(p, 'largebad'), (p + '_index', 'noitems')], [(p + '_index', 'largebad')]]
        else:
            out += [[(p, 'large')], [(p, 'largebad')]]
    return out


def reset(st, **kw):
    return dict({'op': 'reset', 'd': 'storage', 'st': st}, **kw)


def cases(seqs, a, quick=True):
    """Expands generated combinations of damage; several of them in one sequence, each in its directory"""
    ops = [o for s in seqs for o in s]
    out = []
    for k in range(0, len(ops), 12):
        q = [reset(['mem', 'file'][k // 12 % 2])]
        for i, o in enumerate(ops[k:k + 12]):
            q += [{'op': 'sub', 'h': 0, 'd': 'x%d' % i, 'q': i + 1}, dict(o, h=i + 1), {'op': 'aopen', 'h': i + 1, 'a': a}]
        out.append(q)
    return out


def opens(quick):
    r = rng('c12')
    out = []
    tests = []
    for a in NAMES:
        for p, how in damages(a):
            tests.append((a, [[p, how]]))
        tests.append((a, []))
        for _ in range(40 if quick else 800):
            n = r.choice([2, 2, 3, 4, 6])
            ps = parts(a)
            tests.append((a, [[p, r.choice([how for x, how in damages(a) if x == p])] for p in r.sample(ps, min(n, len(ps)))]))
    for i, (a, d) in enumerate(tests):
        q = [reset(['mem', 'file'][i % 2], probe=a), {'op': 'craft', 'h': 0, 'a': a, 'id': r.randrange(6), 'dmg': d},
             dict({'op': 'aopen', 'h': 0, 'a': a}, **[{}, {'alone': True}, {}, {'fresh': True}][i % 4])]
        if i % 3 == 0:
            q.append({'op': 'probe', 'a': a})
        if i % 7 == 0:
            # of another type
            q.append({'op': 'aopen', 'h': 0, 'a': r.choice(NAMES)})
        if i % 5 == 0:
            # completed later on
            q += [{'op': 'craft', 'h': 0, 'a': a, 'id': r.randrange(6), 'dmg': []}, {'op': 'aopen', 'h': 0, 'a': a}]
        out.append(q)
    # archives of the types of subarchives in the same and other directories
    for k in range(100 if quick else 600):
        a = r.choice(['Mid', 'Full', 'Opt', 'Deep'])
        subs = [(n, l) for kind, n, l, o in ARCHIVES[a]['res'] if kind == 'sub']
        q = [reset(['mem', 'file'][k % 2], probe=a), {'op': 'sub', 'h': 0, 'd': 'in', 'q': 1}, {'op': 'sub', 'h': 0, 'd': subs[0][0], 'q': 2},
             {'op': 'sub', 'h': 1, 'd': subs[0][0], 'q': 3}]
        for h in r.sample([0, 1, 2, 3], r.randint(1, 4)) + [0, 1]:
            n, l = r.choice(subs)
            q.append({'op': 'craft', 'h': h, 'a': r.choice([l, l, 'Leaf']), 'id': r.randrange(6), 'dmg': []})
        h = r.randrange(2)
        n, l = r.choice(subs)
        if r.random() < 0.5:
            d = [[p, 'none'] for p in parts(l, n + '/')]
        else:
            d = [[p, r.choice(DAMAGE)] for p in r.sample(parts(l, n + '/'), 1)]
        q += [{'op': 'craft', 'h': h, 'a': a, 'id': r.randrange(6), 'dmg': d}]
        q += [{'op': 'aopen', 'h': x, 'a': y} for x in (0, 1) for y in (a, 'Leaf', 'Mid')]
        out.append(q)
    # large elements
    for st in ['mem', 'file']:
        out.append([reset(st), {'op': 'craft', 'h': 0, 'a': 'Big', 'id': 2, 'dmg': []}, {'op': 'aopen', 'h': 0, 'a': 'Big'}])
    return out


def large(quick):
    """C12: archives with large resources in files"""
    r = rng('c12 large')
    out = []
    for a in NAMES:
        for d in larges(a):
            out.append([reset('file', probe=a), {'op': 'craft', 'h': 0, 'a': a, 'id': r.randrange(6), 'dmg': [list(x) for x in d]}, {'op': 'aopen', 'h': 0, 'a': a},
                        {'op': 'probe', 'a': a}])
        for _ in range(6 if quick else 40):
            d = sum(r.sample(larges(a), min(len(larges(a)), r.choice([2, 3, 5]))), [])
            q = [reset('file', probe=a), {'op': 'sub', 'h': 0, 'd': 'd', 'q': 1}]
            h = r.randrange(2)
            out.append(q + [{'op': 'craft', 'h': h, 'a': a, 'id': r.randrange(6), 'dmg': [list(x) for x in dict(d).items()]},
                            {'op': 'aopen', 'h': h, 'a': a}, {'op': 'aopen', 'h': h, 'a': a, 'fresh': True} if h == 0 else {'op': 'probe', 'a': a}])
    return out


class Build:
    """Random operations on the builders of archives"""
    def __init__(self, r, st, names, dirs, sys=False, **kw):
        self.r, self.st = r, st
        self.sys = {'sys': True} if sys else {}
        self.q = [reset(st, **kw)]
        self.handles = ['']
        for i, d in enumerate(dirs):
            self.q.append({'op': 'sub', 'h': 0, 'd': spell(d, r) + r.choice(['', '', '', '/']), 'q': i + 1})
            self.handles.append(d + '/')
        self.names = names
        self.builders = {}     # x: (archive, prefix)
        self.made = {}         # (prefix, archive): x
        self.writers = {}      # x: [builder, res, id, n]
        self.busy = set()
        self.good = set()      # finished resources
        self.nx = 0
        self.nw = 0

    def add(self, op, **kw):
        self.q.append(dict({'op': op}, **kw))

    def act(self, op, **kw):
        self.add(op, **dict(kw, **self.sys))

    def new(self, a=None, h=None):
        r = self.r
        a = a or r.choice(self.names)
        h = r.randrange(len(self.handles)) if h is None else h
        k = (self.handles[h], a)
        x = self.nx
        if k not in self.made:
            self.made[k] = x
            self.builders[x] = (a, self.handles[h])
            self.good.add(self.handles[h] + a + '.archive')
            self.nx += 1
        self.act('anew', h=h, x=x, a=a)

    def sub(self, y=None, res=None):
        r = self.r
        c = [(y, n, l) for y, (a, p) in self.builders.items() for k, n, l, o in ARCHIVES[a]['res'] if k == 'sub']
        if not c:
            return
        if y is not None:
            c = [x for x in c if x[0] == y and x[1] == res]
        y, n, l = r.choice(c)
        pre = self.builders[y][1] + n + '/'
        x = self.nx
        if (pre, l) not in self.made:
            self.made[(pre, l)] = x
            self.builders[x] = (l, pre)
            self.good.add(pre + l + '.archive')
            self.nx += 1
        self.act('asub', x=x, y=y, res=n)

    def resources(self, kinds):
        return [(y, n) for y, (a, p) in self.builders.items() for k, n, l, o in ARCHIVES[a]['res']
                if k in kinds and (self.builders[y][1] + n) not in self.busy]

    def set(self, y=None, n=None, k=None):
        c = self.resources(['raw', 'struct', 'vec'])
        if not c:
            return
        x, n = (y, n) if n else self.r.choice(c)
        self.good.add(self.builders[x][1] + n)
        self.act('aset', x=x, res=n, id=self.r.randrange(5) if k is None else k)

    def start(self, y=None, n=None, k=None):
        c = self.resources(['vec', 'mv'])
        if not c or len(self.writers) >= 3:
            return
        y, n = (y, n) if n else self.r.choice(c)
        w = self.nw
        self.nw += 1
        self.writers[w] = [y, n, self.r.choice([0, 1, 2, 3]) if k is None else k, 0]
        self.busy.add(self.builders[y][1] + n)
        self.good.discard(self.builders[y][1] + n)
        self.good.discard(self.builders[y][1] + n + '_index')
        self.act('wstart', x=w, y=y, res=n)
        return w

    def grow(self, w=None):
        c = [w for w, x in self.writers.items() if x[3] < x[2]]
        if not c:
            return
        w = self.r.choice(c) if w is None else w
        self.writers[w][3] += 1
        self.act('wgrow', x=w, id=self.writers[w][2])

    def close(self, w=None):
        c = [w for w, x in self.writers.items() if x[3] == x[2] or self.r.random() < 0.1]
        if not c:
            return
        w = self.r.choice(c) if w is None else w
        y, n, k, i = self.writers.pop(w)
        self.busy.discard(self.builders[y][1] + n)
        self.good.add(self.builders[y][1] + n)
        if ('mv', n) in [x[:2] for x in ARCHIVES[self.builders[y][0]]['res']]:
            self.good.add(self.builders[y][1] + n + '_index')
        self.act('wclose', x=w)

    def drop(self, unwind=None):
        if not self.writers:
            return
        ws = self.r.sample(sorted(self.writers), self.r.randint(1, len(self.writers)))
        for w in ws:
            y, n, k, i = self.writers.pop(w)
            self.busy.discard(self.builders[y][1] + n)
        self.add('wdrop', xs=ws, unwind=self.r.random() < 0.5 if unwind is None else unwind)

    def open(self, fresh=0.3):
        a = self.r.choice(self.names)
        if self.r.random() < fresh:
            self.add('aopen', h=0, a=a, fresh=True)
        elif self.r.random() < 0.3:
            self.add('aopen', h=self.r.randrange(len(self.handles)), a=a, alone=True)
        else:
            self.add('aopen', h=self.r.randrange(len(self.handles)), a=a)
        if self.r.random() < 0.2:
            self.add('adrop', i=self.r.randrange(100))

    def raws(self):
        for n in sorted(self.good):
            self.add('raw', h=0, n=n, pin=False)
            self.add('raw', h=0, n=n + '.schema', pin=False)

    def raw(self):
        if not self.builders:
            return
        a, p = self.builders[self.r.choice(sorted(self.builders))]
        n = self.r.choice([a + '.archive', a + '.archive.schema'] + [n for k, n, l, o in ARCHIVES[a]['res'] if k != 'sub' and p + n not in self.busy])
        self.add('raw', h=0, n=p + n, pin=False)

    def everything(self, a, h=0, k=None):
        """Writes an archive completely; optional resources at random"""
        r = self.r
        if (self.handles[h], a) not in self.made:
            self.new(a, h)
        todo = [self.made[(self.handles[h], a)]]
        while todo:
            y = todo.pop()
            a, pre = self.builders[y]
            for kind, n, l, o in r.sample(ARCHIVES[a]['res'], len(ARCHIVES[a]['res'])):
                if o and r.random() < 0.2:
                    continue
                if kind == 'sub':
                    if (pre + n + '/', l) not in self.made:
                        self.sub(y, n)
                    todo.append(self.made[(pre + n + '/', l)])
                elif kind in ('raw', 'struct') or kind == 'vec' and r.random() < 0.5:
                    self.set(y, n, r.randrange(1, 5))
                else:
                    w = self.start(y, n, r.randrange(0, 4))
                    while self.writers[w][3] < self.writers[w][2]:
                        self.grow(w)
                    self.close(w)


def builds(quick, salt='', all=False):
    """C13, C14 and C18: builders of several archives in common directories, opened in between.  all: at the end,
    each finished resource is read and no other one before"""
    r = rng('c13', salt)
    out = []
    sets = [(['Leaf', 'Mid'], ['leaf', 'd']), (['Mid', 'Midway', 'Leaf'], ['leaf', 'Mid']), (['Simple', 'Vecs', 'Leaf'], ['d']), (['Full', 'Leaf'], ['arch', 'oarch']),
            (['Near', 'Vecs', 'Leaf'], ['m_data']), (['Deep', 'Mid', 'Simple'], ['mid', 'omid', 'simple', 'mid/leaf']), (['Opt', 'Mid'], ['oarch', 'oarch/leaf']), ([NORTH, SOUTH], ['d']), ([NORTH, SOUTH, 'Leaf'], ['navigable_roads_of_the_continent_and_its_islands'])]
    for k in range(120 if quick else 600):
        names, dirs = sets[k // 2 % len(sets)]
        b = Build(r, ['mem', 'file'][k % 2], names, dirs)
        b.new()
        if r.random() < 0.5:
            b.everything(r.choice(names), 0)
        for _ in range(r.choice([10, 25])):
            x = r.random()
            if x < 0.15:
                b.new()
            elif x < 0.28:
                b.sub()
            elif x < 0.4:
                b.set()
            elif x < 0.5:
                b.start()
            elif x < 0.62:
                b.grow()
            elif x < 0.7:
                b.close()
            elif x < 0.73:
                b.drop()
            elif x < 0.9:
                b.open()
            elif not all:
                b.raw()
        while b.writers:
            b.drop(False)
        b.open()
        if all:
            b.raws()
        else:
            b.raw()
            b.raw()
        out.append(b.q)
    return out


def existing(quick):
    """C13: archives are created where there are signatures, possibly damaged ones, and resources already"""
    r = rng('c13e')
    out = []
    for a in NAMES:
        sig = a + '.archive'
        subs = [(n, l) for kind, n, l, o in ARCHIVES[a]['res'] if kind == 'sub']
        for i, how in enumerate(['ok'] + DAMAGE):
            for st in ['mem', 'file']:
                for rest in ['ok', 'none'] if not quick else [['ok', 'none'][i % 2]]:
                    q = [reset(st, probe=a), {'op': 'sub', 'h': 0, 'd': 'd', 'q': 1}]
                    h = r.randrange(2)
                    if r.random() < 0.3:
                        q.append({'op': 'craft', 'h': h, 'a': 'Midway' if a == 'Mid' else 'Mid' if a == 'Midway' else r.choice([x for x in NAMES if x != a]), 'id': 2, 'dmg': []})
                    q.append({'op': 'craft', 'h': h, 'a': a, 'id': r.randrange(6), 'dmg': [[sig, how]] + [[p, rest] for p in parts(a) if p != sig]})
                    raws = [{'op': 'raw', 'h': h, 'n': p + x, 'pin': False} for p in parts(a) for x in ('', '.schema')]
                    q += raws + [{'op': 'anew', 'h': h, 'x': 0, 'a': a}] + raws + [{'op': 'aopen', 'h': h, 'a': a}, {'op': 'anew', 'h': h, 'x': 1, 'a': a}] + raws[:2]
                    out.append(q)
        # the signature of a subarchive
        for n, l in subs:
            for how in ['ok'] + DAMAGE:
                st = r.choice(['mem', 'file'])
                q = [reset(st, probe=a), {'op': 'anew', 'h': 0, 'x': 0, 'a': a}, {'op': 'sub', 'h': 0, 'd': n, 'q': 1}]
                q.append({'op': 'craft', 'h': 1, 'a': l, 'id': r.randrange(6), 'dmg': [[l + '.archive', how]]})
                raws = [{'op': 'raw', 'h': 1, 'n': p + x, 'pin': False} for p in parts(l) for x in ('', '.schema')]
                q += raws + [{'op': 'asub', 'y': 0, 'x': 1, 'res': n}] + raws + [{'op': 'aopen', 'h': 1, 'a': l}, {'op': 'asub', 'y': 0, 'x': 2, 'res': n}] + raws[:2]
                out.append(q)
    return out


def stale(r, b, a):
    """Resources of a former archive, whose signature was removed, and which may be damaged or of another version"""
    if r.random() < 0.6:
        dmg = [[p, r.choice(['ok', 'sch', 'sch', 'sch'] + DAMAGE)] for p in parts(a)]
        dmg = [[p, 'none' if p.endswith('.archive') else how] for p, how in dmg]
        b.add('craft', h=0, a=a, id=r.randrange(5), dmg=dmg)


def snapshots(quick):
    """C15: the state of the files before each call which changes them"""
    r = rng('c15')
    out = []
    for k in range(100 if quick else 600):
        a = ['Leaf', 'Mid', 'Simple', 'Vecs', 'Full', 'Opt', 'Deep', 'Near'][k % 8]
        b = Build(r, 'file', [a], [], sys=True, probe=a)
        stale(r, b, a)
        arm = {'op': 'arm', 'snap': True, 'at': 0, 'writes': False, 'errno': 0, 'sticky': False}
        b.q.append(arm)
        if r.random() < 0.7:
            b.everything(a)
            if r.random() < 0.5:
                # some of it again
                for _ in range(3):
                    b.sub() if r.random() < 0.3 else b.set()
                b.everything(a)
        else:
            b.new(a)
            for _ in range(20):
                r.choice([b.sub, b.set, b.start, b.grow, b.grow, b.close])()
        b.q.append({'op': 'disarm'})
        b.q.append({'op': 'probe', 'a': a})
        while b.writers:
            b.drop(False)
        b.q.append({'op': 'probe', 'a': a})
        out.append(b.q)
    # larger than the buffer
    for n in [4] if quick else [3, 4, 6]:
        q = [reset('file', probe='Big'), {'op': 'arm', 'snap': True, 'at': 0, 'writes': False, 'errno': 0, 'sticky': False},
             {'op': 'anew', 'h': 0, 'x': 0, 'a': 'Big', 'sys': True}]
        for res in ['v', 'm']:
            q.append({'op': 'wstart', 'x': 0, 'y': 0, 'res': res, 'sys': True})
            q += [{'op': 'wgrow', 'x': 0, 'id': n, 'sys': True}] * n
            q.append({'op': 'wclose', 'x': 0, 'sys': True})
        q.append({'op': 'probe', 'a': 'Big'})
        out.append(q)
    return out


def unfinished(quick):
    """C15: an archive is opened after each operation while it is written, in both storages"""
    r = rng('c15u')
    out = []
    for k in range(100 if quick else 400):
        a = NAMES[k // 2 % len(NAMES)]
        b = Build(r, ['mem', 'file'][k % 2], [a], [], probe=a)
        if r.random() < 0.6:
            b.everything(a)
        else:
            b.new(a)
            for _ in range(25):
                r.choice([b.sub, b.set, b.start, b.grow, b.grow, b.close, b.close])()
        if r.random() < 0.4:
            for _ in range(8):
                r.choice([b.set, b.start, b.grow, b.close])()
        while b.writers:
            b.drop(False)
        q = []
        for o in b.q:
            q.append(o)
            if o['op'] != 'reset':
                q.append(r.choice([{'op': 'probe', 'a': a}, {'op': 'aopen', 'h': 0, 'a': a}, {'op': 'aopen', 'h': 0, 'a': a, 'fresh': True}]))
        out.append(q)
    # larger than the buffer
    for st in ['mem', 'file']:
        q = [reset(st, probe='Big'), {'op': 'anew', 'h': 0, 'x': 0, 'a': 'Big'}]
        for res in ['v', 'm']:
            q.append({'op': 'wstart', 'x': 0, 'y': 0, 'res': res})
            for i in range(4):
                q += [{'op': 'wgrow', 'x': 0, 'id': 4}] + [{'op': 'probe', 'a': 'Big'}] * (i == 3)
            q += [{'op': 'wclose', 'x': 0}, {'op': 'probe', 'a': 'Big'}]
        out.append(q)
    return out


def scenario(r, a):
    """Operations which write an archive, in which faults are injected"""
    b = Build(r, 'file', [a], [], sys=True, probe=a)
    stale(r, b, a)
    b.everything(a)
    if r.random() < 0.5:
        b.set()
        b.everything(a)
    return b.q


def faults(quick):
    """C16: a fault in each call of each operation"""
    r = rng('c16')
    out = []
    HARD = [5, 28, 13]
    for a in ['Leaf', 'Mid', 'Vecs', 'Simple', 'Full', 'Near'] if quick else NAMES * 3:
        q = scenario(r, a)
        acts = [i for i, o in enumerate(q) if o.get('sys')]
        if quick and len(acts) > 12:
            acts = sorted(r.sample(acts, 12))
        for i in acts:
            for at in range(1, 12 if q[i]['op'] in ('wstart', 'wclose', 'aset') else 8):
                kinds = [('hard', False), ('soft', False)] + ([('hard', True)] if not quick or at % 3 == 0 else [])
                for kind, sticky in kinds:
                    out.append(faulty(r, q, i, at, kind, sticky, a))
    # all writes are short or interrupted, one after the other
    for a in ['Simple', 'Vecs', 'Full']:
        q = scenario(r, a)
        s = []
        for o in q:
            if o.get('sys'):
                s.append({'op': 'arm', 'snap': False, 'at': r.randint(1, 4), 'writes': True, 'errno': r.choice([0, 4]), 'sticky': False})
            s.append(o)
        s += [{'op': 'disarm'}, {'op': 'probe', 'a': a}]
        out.append(s)
    return out


def faulty(r, q, i, at, kind, sticky, a):
    """The sequence with a fault in operation i.  Whatever depends on objects which were not created is left out."""
    errno = r.choice([5, 28, 13]) if kind == 'hard' else r.choice([0, 4])
    arm = {'op': 'arm', 'snap': False, 'at': at, 'writes': kind == 'soft' or (not sticky and r.random() < 0.3), 'errno': errno, 'sticky': sticky}
    if kind == 'hard' and not sticky and r.random() < 0.3:
        arm['torn'] = True
    s = q[:i] + [arm, q[i]]
    if sticky and q[i]['op'] in ('wgrow', 'aset') and i + 1 < len(q):
        # further operations while everything fails
        s.append(q[i + 1]) if q[i + 1]['op'] in ('aset',) else None
    s.append({'op': 'disarm'})
    s.append({'op': 'probe', 'a': a})
    # retry and continue, if the operation may have failed
    if kind == 'soft':
        s += q[i + 1:]
        s.append({'op': 'probe', 'a': a})
        return s
    o = q[i]
    if o['op'] == 'aset':
        s += q[i:]
    elif o['op'] == 'wgrow':
        # the vector can be closed or dropped
        s += [x for x in [{'op': 'wclose', 'x': o['x'], 'sys': True}]]
        s += [x for x in q[i + 1:] if x.get('x') != o['x'] or not x['op'].startswith('w')]
    elif o['op'] == 'wclose':
        s += q[i + 1:]
    s.append({'op': 'probe', 'a': a})
    # and something else can still be written
    s += [{'op': 'sub', 'h': 0, 'd': 'elsewhere', 'q': 9}, {'op': 'anew', 'h': 9, 'x': 9, 'a': 'Leaf', 'sys': True}]
    return fix_handles(s)


def fix_handles(s):
    n = sum(1 for o in s if o['op'] == 'sub' and o['q'] != 9)
    out = []
    for o in s:
        if o.get('q') == 9:
            o = dict(o, q=n + 1)
        if o.get('h') == 9:
            o = dict(o, h=n + 1)
        out.append(o)
    return out + [{'op': 'aset', 'x': 9, 'res': 'r', 'id': 3, 'sys': True}, {'op': 'aopen', 'h': n + 1, 'a': 'Leaf'}]


def directories(quick):
    """C16: a fault while a directory and an archive in it are created, and then other archives in this directory"""
    r = rng('c16d')
    out = []
    for d in ['d', 'd/e'] if quick else ['d', 'd/e', 'd/e/f']:
        for at in range(1, 7 if quick else 10):
            for kind in range(3 if quick else 6):
                arm = {'op': 'arm', 'snap': False, 'at': at, 'writes': False, 'errno': r.choice([5, 28, 13]), 'sticky': kind % 3 == 2}
                a = r.choice(['Leaf', 'Vecs'])
                q = [reset('file', probe='Simple'), {'op': 'sub', 'h': 0, 'd': d, 'q': 1}]
                if kind % 3 == 1:
                    # the directory is the one of a subarchive
                    sub = {'op': 'asub', 'y': 0, 'x': 1, 'res': 'arch', 'sys': True}
                    q += [{'op': 'sub', 'h': 1, 'd': 'arch', 'q': 2}, {'op': 'anew', 'h': 1, 'x': 0, 'a': 'Full', 'sys': True}, arm, sub]
                    h = 2
                else:
                    q += [arm, {'op': 'anew', 'h': 1, 'x': 1, 'a': a, 'sys': True}]
                    h = 1
                q += [{'op': 'disarm'}, {'op': 'anew', 'h': h, 'x': 2, 'a': 'Simple', 'sys': True}, {'op': 'aset', 'x': 2, 'res': 'r', 'id': 2, 'sys': True},
                      {'op': 'wstart', 'x': 0, 'y': 2, 'res': 'v', 'sys': True}, {'op': 'wgrow', 'x': 0, 'id': 1, 'sys': True}, {'op': 'wclose', 'x': 0, 'sys': True},
                      {'op': 'aopen', 'h': h, 'a': 'Simple'}]
                if kind % 3 == 2:
                    # the same with the parent directory, which may be missing too
                    q += [{'op': 'anew', 'h': 0, 'x': 3, 'a': 'Simple', 'sys': True}, {'op': 'aset', 'x': 3, 'res': 'r', 'id': 1, 'sys': True}]
                out.append(q)
    return out


def failed_lives(quick):
    """C17: vectors and multivectors which are closed or dropped after an error was reported"""
    r = rng('c17f')
    out = []
    n = 4
    for a, res in [('Big', 'v'), ('Big', 'm'), ('Sparse', 'm')]:
        for sticky in [False, True]:
            for end in ['close', 'drop', 'unwind', 'both'] if not quick else [['close', 'unwind', 'drop', 'both'], ['drop', 'unwind']][sticky]:
                q = [reset('file', probe=a), {'op': 'anew', 'h': 0, 'x': 0, 'a': a}, {'op': 'wstart', 'x': 0, 'y': 0, 'res': res}]
                if end == 'both' and a == 'Big':
                    q.append({'op': 'wstart', 'x': 1, 'y': 0, 'res': 'm' if res == 'v' else 'v'})
                g = {'op': 'wgrow', 'x': 0, 'id': n, 'sys': True}
                q += [{'op': 'arm', 'snap': False, 'at': 1, 'writes': True, 'errno': r.choice([5, 28]), 'sticky': sticky}] + [g] * (n + r.randrange(2)) + [{'op': 'heal'}]
                if end == 'close':
                    q.append({'op': 'wclose', 'x': 0, 'sys': True})
                else:
                    q.append({'op': 'wdrop', 'xs': [0, 1] if end == 'both' and a == 'Big' else [0], 'unwind': end == 'unwind'})
                out.append(q + [{'op': 'disarm'}, {'op': 'wstart', 'x': 0, 'y': 0, 'res': res, 'sys': True}, g, {'op': 'wdrop', 'xs': [0], 'unwind': False}])
    # errors while closing
    for res in 'vm':
        for at in range(1, 9 if res == 'v' else 17):
            for sticky in [False] if quick else [False, True]:
                q = [reset('file', probe='Vecs'), {'op': 'anew', 'h': 0, 'x': 0, 'a': 'Vecs'}, {'op': 'wstart', 'x': 0, 'y': 0, 'res': res}]
                q += [{'op': 'wgrow', 'x': 0, 'id': 3}] * r.choice([0, 3])
                q += [{'op': 'arm', 'snap': False, 'at': at, 'writes': False, 'errno': r.choice([5, 28]), 'sticky': sticky}, {'op': 'wclose', 'x': 0, 'sys': True}, {'op': 'disarm'}]
                q += [{'op': 'wstart', 'x': 0, 'y': 0, 'res': res}] + [{'op': 'wgrow', 'x': 0, 'id': 3}] * 3
                out.append(q + [{'op': 'wdrop', 'xs': [0], 'unwind': at % 2 == 0}, {'op': 'wstart', 'x': 0, 'y': 0, 'res': res}, {'op': 'wclose', 'x': 0}])
    return out


def big_faults(quick):
    """Faults while the buffer is flushed"""
    r = rng('c16b')
    out = []
    n = 4
    # the buffer of a vector, of the data of a multivector, or of its index
    for a, res in [('Big', 'v'), ('Big', 'm'), ('Sparse', 'm')]:
        start = [reset('file', probe=a), {'op': 'anew', 'h': 0, 'x': 0, 'a': a}, {'op': 'wstart', 'x': 0, 'y': 0, 'res': res}]
        g = {'op': 'wgrow', 'x': 0, 'id': n, 'sys': True}
        c = {'op': 'wclose', 'x': 0, 'sys': True}
        for at, errno, where in ([(1, 28, 'grow'), (2, 5, 'close'), (1, 0, 'grow')] if quick else
                                 [(k, e, w) for k in (1, 2, 3) for e in (28, 0, 4) for w in ('grow', 'close')]):
            arm = {'op': 'arm', 'snap': False, 'at': at, 'writes': True, 'errno': errno, 'sticky': False}
            s = list(start)
            if where == 'grow':
                s += [arm] + [g] * (n + 2)
                s += [c]
            else:
                s += [g] * n + [arm, c]
            s += [{'op': 'disarm'}, {'op': 'probe', 'a': a}]
            out.append(s)
        # a part of the buffer is written, then there is an error, and it is written again
        for at in [1] if quick else [1, 2]:
            for more in [0, 1] if quick else [0, 1, 2]:
                arm = {'op': 'arm', 'snap': False, 'at': at, 'writes': True, 'errno': 28, 'sticky': False, 'torn': True}
                out.append(start + [arm] + [g] * (n + 1 + more) + [{'op': 'disarm'}, c, {'op': 'probe', 'a': a}])
        # nothing is written, and then it is added again, once or several times in vain
        arm = {'op': 'arm', 'snap': False, 'at': 1, 'writes': True, 'errno': 28, 'sticky': False}
        out.append(start + [arm] + [g] * (n + 1) + [{'op': 'disarm'}, c, {'op': 'probe', 'a': a}])
        for more in [2] if quick else [0, 1, 2]:
            # two of them fit into the buffer
            out.append(start + [dict(arm, sticky=True)] + [g] * (3 + more) + [{'op': 'heal'}] + [g] * (n - 2) + [c, {'op': 'disarm'}, {'op': 'probe', 'a': a}])
        # short write followed by an error
        s = start + [{'op': 'arm', 'snap': False, 'at': 1, 'writes': True, 'errno': 28, 'sticky': True}] + [g] * (n + 1) + \
            [{'op': 'heal'}, c, {'op': 'disarm'}, {'op': 'probe', 'a': a}]
        out.append(s)
    return out


def lives(quick):
    """C17: vectors and multivectors which are closed, dropped, or dropped while unwinding"""
    r = rng('c17')
    out = []
    for k in range(150 if quick else 800):
        a = 'Near' if k % 3 == 0 else 'Vecs'
        b = Build(r, ['mem', 'file'][k % 2], [a], [])
        b.new(a, 0)
        for _ in range(r.choice([6, 15, 30])):
            r.choice([b.start, b.start, b.grow, b.grow, b.close, b.drop])()
        while b.writers:
            b.drop()
        b.open()
        out.append(b.q)
    return out


def big_lives(quick):
    """C17: writers part of whose data has left for the storage already"""
    r = rng('c17b')
    out = []
    for k, (st, unwind) in enumerate((st, u) for st in ['mem', 'file'] for u in [False, True]):
        for order in [['v', 'm'], ['m', 'v']] if not quick else [['v', 'm'] if k % 2 else ['m', 'v']]:
            q = [reset(st), {'op': 'anew', 'h': 0, 'x': 0, 'a': 'Big'}]
            q += [{'op': 'wstart', 'x': x, 'y': 0, 'res': n} for x, n in enumerate(order)]
            for n in [4, 5]:
                for x in (0, 1):
                    q += [{'op': 'wgrow', 'x': x, 'id': 4}] * (n if x == 0 else 5)
                if r.random() < 0.5:
                    q.append({'op': 'wdrop', 'xs': [0, 1], 'unwind': unwind})
                else:
                    q += [{'op': 'wdrop', 'xs': [0], 'unwind': unwind}, {'op': 'wdrop', 'xs': [1], 'unwind': unwind}]
                q += [{'op': 'wstart', 'x': x, 'y': 0, 'res': n} for x, n in enumerate(order)]
                if quick:
                    break
            q += [{'op': 'wclose', 'x': 0}, {'op': 'wclose', 'x': 1}, {'op': 'aopen', 'h': 0, 'a': 'Big'}]
            out.append(q)
    return out


def faulty_ops(seqs):
    """Generated operations, with what is armed before them"""
    out = []
    for s in seqs:
        q = []
        for o in s:
            if o['op'] == 'faulty':
                q += [dict(o['arm'], op='arm'), o['o'], {'op': 'disarm'}]
                if not o['arm']['snap']:
                    q.append({'op': 'probe', 'a': 'Vecs'})
            else:
                q.append(o)
        q.append({'op': 'probe', 'a': 'Vecs'})
        out.append(q)
    return out


def debugs(quick):
    """C20: debug output of archives, with and without optional resources"""
    r = rng('c20a')
    out = []
    for k in range(60 if quick else 200):
        a = NAMES[k // 2 % len(NAMES)]
        optional = optional_parts(a)
        dmg = [[p, 'none'] for p in r.sample(optional, r.randint(0, len(optional)))]
        out.append([reset(['mem', 'file'][k % 2]), {'op': 'craft', 'h': 0, 'a': a, 'id': r.randrange(6), 'dmg': dmg}, {'op': 'adebug', 'h': 0, 'a': a}])
    return out


def bounded(quick):
    """C22: archives of large data are opened without loading it"""
    q = [reset('file'), {'op': 'craft', 'h': 0, 'a': 'Big', 'id': 2, 'dmg': []}, {'op': 'heapstart'}]
    q += [{'op': 'aopen', 'h': 0, 'a': 'Big'}, {'op': 'aopen', 'h': 0, 'a': 'Big', 'fresh': True}, {'op': 'heap', 'of': 'read'}]
    out = [q]
    # more than 4 GiB in each resource
    for a in NAMES:
        for d in larges(a) if a in ('Full', 'Vecs', 'Deep') else larges(a)[-2:]:
            out.append([reset('file'), {'op': 'craft', 'h': 0, 'a': a, 'id': 3, 'dmg': [list(x) for x in d]}, {'op': 'heapstart'}, {'op': 'aopen', 'h': 0, 'a': a},
                        {'op': 'anew', 'h': 0, 'x': 0, 'a': a}, {'op': 'heap', 'of': 'read'}])
    return out


def framed(seqs):
    return gen_storage.framed(seqs, parts)


def full(quick):
    """C23: archives of several types, all of whose resources exist, while some of them are written again, also with faults"""
    r = rng('c23 archives')
    out = []
    for k in range(100 if quick else 600):
        a = NAMES[k // 4 % len(NAMES)]
        faulty = k % 4 > 1
        b = Build(r, 'mem' if k % 4 == 0 else 'file', [a], ['d', 'e'], sys=faulty, probe=a)
        b.new(a, 0)
        b.new(a, 1)
        b.add('craft', h=2, a=r.choice(NAMES), id=r.randrange(5), dmg=[])
        for h in (0, 1):
            # signatures of subarchives are missing
            b.add('craft', h=h, a=a, id=r.randrange(5), dmg=[[p, 'none'] for p in parts(a) if p.endswith('.archive')])
        for _ in range(r.choice([15, 40])):
            r.choice([b.set, b.set, b.start, b.start, b.grow, b.grow, b.grow, b.close, b.close, b.drop] + [b.sub] * (not faulty))()
        while b.writers:
            b.drop(False)
        b.open()
        q = []
        for i, o in enumerate(b.q):
            if faulty and i > 9 and o.get('sys') and r.random() < 0.4:
                arm = {'op': 'arm', 'snap': False, 'at': r.choice([1, 1, 2, 3, 4, 6]), 'writes': r.random() < 0.3, 'errno': r.choice([5, 28, 13]), 'sticky': r.random() < 0.3}
                q += [arm, o, {'op': 'disarm'}]
            else:
                q.append(o)
        out.append(q)
    return out


def untouched(quick):
    """C21: opening archives, also missing and damaged ones and also if nothing can be changed; creating existing ones"""
    r = rng('c21 archives')
    out = []
    for k in range(150 if quick else 1000):
        a = r.choice(NAMES)
        q = [reset('file', watch=True, probe=a), {'op': 'sub', 'h': 0, 'd': 'in', 'q': 1}, {'op': 'sub', 'h': 0, 'd': 'no/where', 'q': 2}]
        h = r.randrange(2)
        ps = parts(a)
        d = [[p, r.choice(DAMAGE)] for p in r.sample(ps, r.choice([0, 0, 1, 1, 2]) % (len(ps) + 1))]
        if k % 2:
            # without optional parts
            d += [[p, 'none'] for p in optional_parts(a) if r.random() < 0.7]
        if k % 10:
            q.append({'op': 'craft', 'h': h, 'a': a, 'id': r.randrange(6), 'dmg': d})
        signature = k % 10 and not any(p == a + '.archive' for p, x in d)
        if r.random() < 0.5:
            q.append({'op': 'readonly', 'on': True})
        for _ in range(8):
            x = r.random()
            g = h if r.random() < 0.7 else r.randrange(3)
            if x < 0.5:
                q.append(dict({'op': 'aopen', 'h': g, 'a': a if r.random() < 0.9 else r.choice(NAMES)}, **(r.choice([{}, {}, {'alone': True}] + ([{'fresh': True}] if g == 0 else [])))))
            elif x < 0.6:
                q.append({'op': 'raw', 'h': g, 'n': r.choice(ps) + r.choice(['', '.schema']), 'pin': True})
            elif x < 0.7:
                q.append({'op': 'adrop', 'i': r.randrange(5)})
            elif x < 0.8:
                q.append({'op': 'probe', 'a': a})
            elif x < 0.9 and not d and k % 10:
                q.append({'op': 'adebug', 'h': h, 'a': a})
            else:
                q.append({'op': 'sub', 'h': 0, 'd': r.choice(['in', 'other', 'in/x']), 'q': r.choice([2, 3])})
        q.append({'op': 'readonly', 'on': False})
        if signature:
            q += [{'op': 'anew', 'h': h, 'x': 0, 'a': a}, {'op': 'aopen', 'h': h, 'a': a}]
        out.append(q)
    return out


def optional_parts(a, pre=''):
    out = []
    for kind, name, lay, opt in ARCHIVES[a]['res']:
        if kind == 'sub':
            out += [pre + name + '/' + lay + '.archive'] if opt else optional_parts(lay, pre + name + '/')
        elif opt:
            out.append(pre + name)
    return out


def faulty_opens(quick):
    """Calls which fail while archives are opened, and opening them afterwards"""
    r = rng('faulty opens')
    out = []
    for a in ['Leaf', 'Simple', 'Vecs', 'Mid', 'Full', 'Opt', 'Deep']:
        top = 5 * len(parts(a)) + 3
        for k in range(8 if quick else 40):
            d = [] if k % 3 else [[p, r.choice([how for x, how in damages(a) if x == p])] for p in r.sample(parts(a), 1)]
            q = [reset('file', probe=a), {'op': 'craft', 'h': 0, 'a': a, 'id': r.randrange(6), 'dmg': d}]
            if k % 2:
                q.append({'op': 'aopen', 'h': 0, 'a': a})
            for at in sorted(r.sample(range(1, top), min(5, top - 1))):
                arm = {'op': 'arm', 'snap': False, 'at': at, 'writes': False, 'errno': r.choice([5, 13, 24, 12, 2]), 'sticky': False}
                q += [arm, {'op': 'aopen', 'h': 0, 'a': a, 'sys': True}, {'op': 'disarm'}]
                if r.random() < 0.6:
                    q.append(dict({'op': 'aopen', 'h': 0, 'a': a}, **r.choice([{}, {}, {'fresh': True}])))
            q.append({'op': 'aopen', 'h': 0, 'a': a})
            out.append(q)
    return out
