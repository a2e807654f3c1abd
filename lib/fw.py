"""Infrastructure: building the harness, executing operations, running TLC, reporting."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = VERIF + '/spec'
TLA = '/opt/veriftools/tla'
JOBS = 8


class ToolError(Exception):
    pass


def rng(*what):
    """Random numbers determined by VERIF_SEED and the purpose."""
    return random.Random(zlib.crc32(repr((int(os.environ.get('VERIF_SEED', '1')),) + what).encode()))


def build(profile='dev'):
    env = dict(os.environ, RUSTFLAGS='--cap-lints warn -A warnings', CARGO_INCREMENTAL='0')
    cmd = ['cargo', 'build', '--offline', '--quiet', '--target-dir', VERIF + '/target']
    if profile == 'release':
        cmd.append('--release')
    r = subprocess.run(cmd, cwd=VERIF + '/harness', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('build failed:\n' + r.stdout[-4000:])
    return VERIF + '/target/' + ('release' if profile == 'release' else 'debug') + '/fdh'


def walks(start, edges, maxlen):
    """Sequences of operations from the initial state which together take each transition."""
    out, init = {}, edges[0][0]
    for a, o, b in edges:
        out.setdefault(a, []).append((o, b))
    # shortest paths from the initial state
    path, queue = {init: []}, [init]
    for a in queue:
        for o, b in out.get(a, []):
            if b not in path:
                path[b] = path[a] + [o]
                queue.append(b)
    todo = {a: list(reversed(v)) for a, v in out.items()}
    pending = [a for a in queue if todo.get(a)]
    seqs = []
    while pending:
        cur = pending[0]
        s = list(start) + path[cur]
        while len(s) < maxlen:
            if todo.get(cur):
                o, cur = todo[cur].pop()
                s.append(o)
                continue
            # nearest state with transitions left
            seen, q, found = {cur: []}, [cur], None
            for a in q:
                if todo.get(a):
                    found = a
                    break
                if len(seen[a]) >= 6:
                    break
                for o, b in out.get(a, []):
                    if b not in seen:
                        seen[b] = seen[a] + [o]
                        q.append(b)
            if found is None:
                break
            s += seen[found]
            cur = found
        seqs.append(s)
        pending = [a for a in pending if todo.get(a)]
    return seqs


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.dir = '%s/out/%s' % (VERIF, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='fdh-%s-' % prop, dir=base)
        if os.path.exists('%s/evidence/%s.json' % (VERIF, prop)):
            os.remove('%s/evidence/%s.json' % (VERIF, prop))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0,
                    'samples': [], 'runs': []}
        self.violations = []   # (what, replay path)
        self.known = {}        # description -> count
        self.listed = [l.split()[1] for l in open(VERIF + '/known_findings.txt')
                       if l.startswith('KNOWN-FINDING: ') and 'property=' + prop in l.split()]
        self.assumptions = []
        # both are built while TLC runs
        self.builders = ThreadPoolExecutor(2)
        self.bins = {p: self.builders.submit(build, p) for p in ['dev', 'release']}
        self.nruns = 0
        self.gb = 3  # limit of the memory of an execution

    def cleanup(self):
        self.builders.shutdown()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def binary(self, profile='dev'):
        return self.bins[profile].result()

    # -- execution ---------------------------------------------------------
    def execute(self, ops, name, profile='dev'):
        """Observations of the operations; the last one is a crash if the process did not survive."""
        f, out = '%s/%s.ops' % (self.dir, name), '%s/%s.obs' % (self.dir, name)
        with open(f, 'w') as w:
            for o in ops:
                w.write(json.dumps(o, separators=(',', ':')) + '\n')
        sc = '%s/%s' % (self.scratch, name)
        os.makedirs(sc)
        crash = None
        # a defect may lead to unlimited loops or allocations
        timeout = 120 if self.quick else 600
        def limit():
            resource.setrlimit(resource.RLIMIT_DATA, (self.gb << 30, self.gb << 30))
            # as usual
            resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024))
        with open(self.dir + '/' + name + '.err', 'w+') as e:
            try:
                r = subprocess.run([self.binary(profile), 'run', f, out], env=dict(os.environ, FDH_SCRATCH=sc),
                                   stdout=subprocess.DEVNULL, stderr=e, timeout=timeout, preexec_fn=limit)
                if r.returncode == 3:
                    e.seek(0)
                    raise ToolError('harness: ' + e.read()[-1000:])
                if r.returncode != 0:
                    crash = {'k': 'crash', 'code': r.returncode}
            except subprocess.TimeoutExpired:
                crash = {'k': 'timeout'}
        shutil.rmtree(sc, ignore_errors=True)
        with open(out) as g:
            obs = []
            for l in g:
                if l.endswith('\n'):
                    obs.append(json.loads(l))
        if crash is None and len(obs) != len(ops):
            raise ToolError('harness: %d observations for %d operations' % (len(obs), len(ops)))
        if crash is not None:
            if len(obs) >= len(ops):
                # died afterwards
                obs = obs[:len(ops) - 1]
            obs.append(crash)
        return obs

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env={}, args=(), timeout=800, mem='3g', workers='1'):
        self.nruns += 1
        meta = '%s/meta%d' % (self.dir, self.nruns)
        cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + self.scratch, '-cp',
               TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC', '-workers', workers,
               '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, LAYOUTS=VERIF + '/harness/layouts.json', **env),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timeout: ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, '\n'.join(l for l in r.stdout.split('\n') if not l.startswith(('Parsing file', 'Semantic processing')))

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found', out)
        if m:
            return int(m[-1][1]), int(m[-1][0])
        m = re.findall(r'The number of states generated: (\d+)', out)
        return (int(m[-1]), int(m[-1])) if m else (0, 0)

    def model_check(self, module, cfg=None, expect='ok', **kw):
        """Checks the specification itself.  expect='violation' for models of former defects."""
        rc, out = self.tlc(module, cfg, workers=kw.pop('workers', '4'), **kw)
        d, g = self.counts(out)
        if expect == 'ok' and rc != 0:
            raise ToolError('TLC on %s %s: %s' % (module, cfg, out[-3000:]))
        if expect == 'violation' and not (rc in (12, 13) or 'is violated' in out):
            raise ToolError('TLC on %s %s found no violation: %s' % (module, cfg, out[-3000:]))
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.cov['runs'].append({'model': cfg or module, 'distinct_states': d, 'transitions': g, 'result': expect})
        return out

    def apalache(self, module, cinit, init, inv, length):
        self.nruns += 1
        out = '%s/apalache%d' % (self.scratch, self.nruns)
        os.makedirs(out)
        cmd = ['apalache-mc', 'check', '--cinit=' + cinit, '--init=' + init, '--inv=' + inv, '--length=%d' % length, '--no-deadlock',
               '--out-dir=' + out, '%s/%s.tla' % (SPEC, module)]
        try:
            r = subprocess.run(cmd, cwd=out, env=dict(os.environ, TMPDIR=out, JVM_ARGS='-Xmx2g'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError('Apalache timeout: ' + module)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        return {0: 'holds', 12: 'violated'}.get(r.returncode), r.stdout

    def prove(self, module, bugs):
        """An inductive invariant, for parameters of any size: it holds initially, is preserved by every step, and
        implies what is claimed.  There are states of interest which satisfy it, and defective variants of
        the specification violate the claim."""
        goals = [('CInit', 'Init', 'Ind', 0, 'holds'), ('CInit', 'Any', 'Ind', 1, 'holds'), ('CInit', 'Any', 'Safety', 0, 'holds'),
                 ('CInit', 'Any', 'Nothing', 0, 'violated')] + [('C' + b.capitalize(), 'Init', 'Safety', 5, 'violated') for b in bugs]
        with ThreadPoolExecutor(4) as ex:
            for g, (res, out) in zip(goals, ex.map(lambda g: self.apalache(module, *g[:4]), goals)):
                if res != g[4]:
                    raise ToolError('Apalache on %s %s: %s' % (module, g, out[-3000:]))
                self.cov['runs'].append({'model': module, 'constants': g[0], 'inductive': '%s => %s after %d steps' % g[1:4], 'result': res,
                                         'checker': 'apalache-mc (symbolic, parameters of any size)'})
        self.cov['proved'] = self.cov.get('proved', 0) + 3

    def generate(self, module, cfg=None, maxlen=150, suffix=(), **kw):
        """Operation sequences from a specification: walks through its state graph which cover all
        transitions."""
        f = '%s/gen%d.nd' % (self.dir, self.nruns)
        open(f, 'w').close()
        rc, out = self.tlc(module, cfg, env=dict({'GEN_OUT': f}, **kw.pop('env', {})), **kw)
        if rc != 0:
            raise ToolError('TLC on %s %s: %s' % (module, cfg, out[-3000:]))
        d, g = self.counts(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        start, edges = None, []
        for l in open(f):
            x = json.loads(l)
            if isinstance(x, str):
                x = json.loads(x)
            if 'start' in x:
                start = x['start']
            else:
                edges.append((json.dumps(x['f']), x['o'], json.dumps(x['t'])))
        if start is None or not edges:
            raise ToolError('%s generated nothing' % module)
        seqs = walks(start, edges, maxlen)
        self.cov['runs'].append({'generator': cfg or module, 'mode': 'walks over all transitions',
                                 'distinct_states': d, 'transitions': len(edges), 'sequences': len(seqs)})
        os.remove(f)
        return [q + list(suffix) for q in seqs]

    # -- trace validation --------------------------------------------------
    def validate(self, module, seqs, what, profile='both', jobs=JOBS, env={}, timeout=700, gb=3):
        """Executes sequences (each starts with a reset) and validates the recorded traces.
        For the module Pair they are executed with both storages.  They are executed with and without
        overflow checks and debug assertions; a trace which is recorded in both ways is validated once."""
        if self.violations:
            return
        self.gb = gb
        seqs = [s for s in seqs if len(s) > 1]
        total = sum(len(s) for s in seqs)
        jobs = max(1, min(jobs, len(seqs), total // 300 + 1))
        shards = [[] for _ in range(jobs)]
        load = [0] * jobs
        for s in seqs:
            k = load.index(min(load))
            shards[k].append(s)
            load[k] += len(s) + 2
        self.nruns += 1
        tag = 'v%d' % self.nruns
        for p in ['dev', 'release']:
            if profile in [p, 'both']:
                self.binary(p)
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(lambda k: self._shard(module, shards[k], '%s-%d' % (tag, k), profile, env, timeout), range(jobs)))
        ok = 0
        for k, (n, known, bad) in enumerate(rs):
            self.cov['events_validated'] += n
            ok += len(shards[k])
            for d in known:
                self.known[d] = self.known.get(d, 0) + 1
            if bad:
                self.violation(what, bad)
        self.cov['traces_validated_against_impl'] += ok
        self.cov['runs'].append({'traces': what, 'module': module, 'profile': profile, 'sequences': len(seqs), 'events': total})
        if seqs and len(self.cov['samples']) < 4:
            self.cov['samples'].append({'what': what, 'ops': json.dumps(max(seqs[:50], key=len))[:1500]})

    def _files(self, module, name):
        return ['%s/%s%s' % (self.dir, m, e) for m in [name] + ([name + 'm'] if module == 'Pair' else []) for e in ('.ops', '.obs', '.err')]

    def _events(self, module, ops, name, profile):
        """Operations with what was observed."""
        if module != 'Pair':
            return [{'op': o, 'obs': b} for o, b in zip(ops, self.execute(ops, name, profile))]
        with_st = lambda st: [dict(o, st=st) if o['op'] == 'reset' else o for o in ops]
        obs = self.execute(with_st('mem'), name + 'm', profile)
        other = self.execute(with_st('file'), name, profile)
        # after a crash of one of them the others are not compared
        return [{'op': {'op': o['op']}, 'obs': a, 'other': b} for o, a, b in zip(ops, obs, other)]

    def _shard(self, module, seqs, name, profile, env, timeout):
        ops = [o for s in seqs for o in s]
        if profile != 'both':
            return self._trace(module, ops, self._events(module, ops, name, profile), name, profile, env, timeout)
        events = self._events(module, ops, name, 'dev')
        same = self._events(module, ops, name + 'r', 'release') == events
        r = self._trace(module, ops, events, name, 'dev', env, timeout)
        if r[2] or same:
            for x in self._files(module, name + 'r'):
                os.remove(x)
            return r
        events = self._events(module, ops, name + 'r', 'release')
        n, known, bad = self._trace(module, ops, events, name + 'r', 'release', env, timeout)
        return r[0] + n, r[1] + known, bad

    def _trace(self, module, ops, events, name, profile, env, timeout):
        f = '%s/%s.trace' % (self.dir, name)
        with open(f, 'w') as w:
            for e in events:
                w.write(json.dumps(e, separators=(',', ':')) + '\n')
        rc, out = self.tlc(module + 'Trace', env=dict({'TRACE': f, 'PROP': self.prop, 'KNOWN': ' '.join(self.listed)}, **env), timeout=timeout)
        m = re.search(r'DIAMETER (\d+)', out)
        known = re.findall(r'KNOWN (.*?)"', out)
        if not m:
            raise ToolError('TLC on %s: %s' % (f, out[-3000:]))
        n = int(m.group(1)) - 1
        bad = None
        if n < len(events):
            start = max(i for i in range(n + 1) if ops[i]['op'] == 'reset')
            exp = re.findall(r'EXPECT (\d+) (.*)"', out)
            exp = [json.loads(('"' + e[1] + '"').replace('\\\\"', '\\"')) for e in exp if int(e[0]) == n + 1]
            e = events[n]
            bad = {'module': module, 'profile': profile, 'ops': ops[start:n + 1], 'observed': e.get('other', e['obs']), 'expected': exp[:5], 'env': env}
            if rc == 0:
                raise ToolError('inconsistent result of TLC: ' + out[-2000:])
        elif rc != 0:
            raise ToolError('TLC on %s: %s' % (f, out[-3000:]))
        if n == len(events):
            for x in [f] + self._files(module, name):
                os.remove(x)
        return min(n, len(events)), known, bad

    def violation(self, what, data):
        path = '%s/violation%d.json' % (self.dir, len(self.violations) + 1)
        with open(path, 'w') as w:
            json.dump(dict(data, property=self.prop, what=what), w, indent=1)
        self.violations.append((what, path))

    # -- reporting ---------------------------------------------------------
    def finish(self):
        self.cleanup()
        ev = {'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': int(os.environ.get('VERIF_SEED', '1')),
              'level': 'model_checking', 'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as w:
            json.dump(ev, w, indent=1)
        for d in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s (%d times)' % (self.prop, d, self.known[d]))
        for what, path in self.violations:
            print('%s: %s' % (self.prop, what))
            d = json.load(open(path))
            print('  last operation: ' + json.dumps(d['ops'][-1])[:600])
            print('  observed: ' + json.dumps(d['observed'])[:600])
            for e in d.get('expected', []):
                print('  expected: ' + str(e)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if not self.violations:
            print('OK property=%s states=%d transitions=%d traces=%d events=%d %.1fs' % (
                self.prop, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'],
                self.cov['events_validated'], time.time() - self.t0))
        return 1 if self.violations else 0
