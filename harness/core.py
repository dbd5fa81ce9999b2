"""Common machinery: running TLC, gathering verdicts, evidence, findings."""
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class HarnessError(Exception):
    """Something the machinery itself got wrong (never a verdict)."""


class ImplError(Exception):
    """The implementation raised, or returned something which cannot be recorded, where
    nothing in the specification allows it."""


def from_impl(tb):
    return '/repo/kymatio' in tb


def errpart(out):
    i = out.find('Error:')
    return out[i:i + 5000] if i >= 0 else out[-5000:]


class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.generated = self.distinct = 0
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        self.ok = (rc == 0 and 'No error has been found' in out)
        self.violated = re.findall(r'Invariant (\w+) is violated', out)
        self.coverage = {}
        for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', out, re.M):
            a = self.coverage.setdefault(m.group(1), [0, 0])
            a[0] += int(m.group(2))
            a[1] += int(m.group(3))

    def messages(self, tag):
        """JSON values printed by PrintT(tag \\o ToJson(..))."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + ' '):
                s = json.loads(line)
                res.append(json.loads(s[len(tag) + 1:]))
        return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(zlib.crc32(('%s/%d' % (pid, seed)).encode()))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='kyverif_')
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.tlc_runs = []
        self.notes = {}
        self.kf = load_findings()

    @property
    def quick(self):
        return self.tier != 'thorough'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, heap='3g', timeout=700,
            extra=(), need_ok=True, depth=None, simulate=None, coverage=True):
        """Runs TLC on spec/<module>.tla with the configuration text cfg."""
        k = len(self.tlc_runs)
        d = os.path.join(self.tmp, 'tlc%d' % k)
        os.makedirs(d)
        cfgfile = os.path.join(d, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
               '-Djava.io.tmpdir=' + d,
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
               '-metadir', os.path.join(d, 'meta'), '-config', cfgfile,
               '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
               '-fp', '1']
        if coverage and simulate is None:
            cmd += ['-coverage', '1']
        if simulate is not None:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
            if depth:
                cmd += ['-depth', str(depth)]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError('TLC timed out on %s' % module)
        out = p.stdout.decode('utf8', 'replace')
        r = TLCResult(out, p.returncode)
        self.states += r.distinct
        self.transitions += r.generated
        self.tlc_runs.append({'module': module, 'wall_s': round(time.time() - t, 1),
                              'distinct': r.distinct, 'generated': r.generated,
                              'actions': {a: c[1] for a, c in r.coverage.items()}})
        if simulate is None and need_ok and not r.ok:
            raise HarnessError('TLC failed on %s:\n%s' % (module, errpart(out)))
        if simulate is not None and need_ok and (r.violated or 'Error:' in out):
            raise HarnessError('TLC failed on %s:\n%s' % (module, errpart(out)))
        shutil.rmtree(d, ignore_errors=True)
        return r

    def write(self, name, obj):
        p = os.path.join(self.tmp, name)
        with open(p, 'w') as f:
            json.dump(obj, f)
        return p

    def mc(self, module, cfg, must_cover=(), **kw):
        """Exhaustive exploration of the specification itself."""
        r = self.tlc(module, cfg, **kw)
        for a in must_cover:
            if r.coverage.get(a, [0, 0])[1] == 0:
                raise HarnessError('action %s of %s never taken' % (a, module))
        return r

    def generate(self, module, cfg, cases, tag='PLAN', **kw):
        p = self.write('gen_%d.json' % len(self.tlc_runs), cases)
        kw.setdefault('coverage', False)
        r = self.tlc(module, cfg, env={'CASES': p, **kw.pop('env', {})}, **kw)
        plans = {m['id']: m for m in r.messages(tag)}
        if sorted(plans) != list(range(1, len(cases) + 1)):
            raise HarnessError('TLC generated %d plans for %d cases (%s)\n%s' % (
                len(plans), len(cases), module, r.out[-2000:]))
        return [plans[i + 1] for i in range(len(cases))]

    def validate(self, module, cfg, traces, labels, clauses=None, tag='VERDICT',
                 selfcheck=None, **kw):
        """Trace validation: exactly one verdict per trace.

        labels[i] describes case i in the report.  clauses: regular expression
        selecting the clauses that belong to this property.
        selfcheck: list of (corrupted trace, clause) which must be rejected
        with that clause: shows on every run that the binding is not vacuous.
        """
        sc = selfcheck or []
        allt = list(traces) + [c for c, _ in sc]
        p = self.write('trace_%d.json' % len(self.tlc_runs), allt)
        kw.setdefault('coverage', False)
        r = self.tlc(module, cfg, env={'CASES': p, **kw.pop('env', {})}, **kw)
        vs = {m['id']: m for m in r.messages(tag)}
        if sorted(vs) != list(range(1, len(allt) + 1)):
            raise HarnessError('TLC gave %d verdicts for %d traces (%s)\n%s' % (
                len(vs), len(allt), module, r.out[-3000:]))
        rx = re.compile(clauses) if clauses else None
        self.traces += len(traces)
        for i in range(len(traces)):
            bad = sorted(b for b in vs[i + 1]['bad'] if rx is None or rx.match(b))
            if bad:
                self.fail(labels[i], bad, traces[i])
        # A corrupted copy of a trace that is itself faulty proves nothing.
        if not self.violations:
            for k, (c, clause) in enumerate(sc):
                bad = vs[len(traces) + k + 1]['bad']
                if not any(re.match(clause, b) for b in bad):
                    raise HarnessError('corrupted trace %d accepted: expected %s, got %s'
                                       % (k, clause, bad))
            self.notes['corrupted_traces_rejected'] = \
                self.notes.get('corrupted_traces_rejected', 0) + len(sc)
        return [vs[i + 1]['bad'] for i in range(len(traces))]

    # -- verdicts -------------------------------------------------------
    def fail(self, label, clauses, detail=None):
        """label: dict identifying the case."""
        for f in self.kf:
            if f['status'] == 'known' and f['property'] == self.pid and \
               f.get('case') == label.get('known_case', '-') and \
               set(clauses) <= set(f['clauses']):
                self.known.append(f)
                return
        self.violations.append((label, clauses, detail))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))

    def finish(self, level, rule, assumptions=()):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': self.pid, 'tier': 'thorough' if not self.quick else 'quick',
            'seed': self.seed, 'level': level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': rule, 'samples': self.samples or ['-'],
                'tlc_runs': self.tlc_runs, **self.notes},
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for f in self.known:
            if f['case'] not in seen:
                seen.add(f['case'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        if not self.violations:
            print('OK property=%s states=%d traces=%d evaluations=%d wall=%.1fs' % (
                self.pid, self.states, self.traces, self.evaluations,
                time.time() - self.t0))
            return 0
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        for k, (label, clauses, detail) in enumerate(self.violations[:10]):
            path = os.path.join(rd, '%s-%d.json' % (self.pid, k))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'case': label,
                           'failing_clauses': clauses, 'trace': detail}, f,
                          indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(path, VERIF)))
            print('  clauses %s on %s' % (clauses[:8], json.dumps(label, default=str)[:600]))
        if len(self.violations) > 10:
            print('  ... and %d more' % (len(self.violations) - 10))
        return 1


def load_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        return json.load(open(p))['findings']
    return []


# -- numeric helpers ------------------------------------------------------
UNIT = 1000          # a quantised error of UNIT is exactly the tolerance


def quant(err, tol):
    """Quantised error: integer, UNIT means 'equal to the tolerance'."""
    import math
    if err is None or not math.isfinite(err):
        return 10**9
    v = err / tol * UNIT
    return int(min(1e9, math.ceil(v)))


def relerr(a, b, scale=None):
    """max |a-b| relative to max |b| (or the given scale); inf on shape mismatch
    or non-finite values."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    if not np.all(np.isfinite(a)):
        return float('inf')
    s = float(np.max(np.abs(b))) if scale is None else float(scale)
    return float(np.max(np.abs(a - b))) / max(s, 1e-300)


def excname(e):
    return type(e).__name__


# -- parallel evaluation --------------------------------------------------
def _call(args):
    fn, a = args
    return fn(a)


def pmap(fn, items, procs=6, timeout=600):
    """Maps fn over items in worker processes.  A worker that dies or hangs gives
    {'dead': reason} for its items: the implementation crashed the process."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context('fork')
    procs = min(procs, len(items))
    chunks = [list(range(k, len(items), procs)) for k in range(procs)]
    res = [None] * len(items)
    ps = []
    for ch in chunks:
        rd, wr = ctx.Pipe(duplex=False)

        def run(ch=ch, wr=wr):
            for i in ch:
                try:
                    v = ('ok', fn(items[i]))
                except HarnessError as e:
                    v = ('harness', repr(e))
                except BaseException as e:
                    import traceback
                    v = ('exc', traceback.format_exc())
                wr.send((i, v))
            wr.close()
            os._exit(0)
        p = ctx.Process(target=run)
        p.start()
        wr.close()
        ps.append((p, rd, ch))
    t_end = time.time() + timeout
    for p, rd, ch in ps:
        left = set(ch)
        reason = ''
        while left:
            rem = t_end - time.time()
            if rem <= 0 or not rd.poll(rem):
                reason = 'Timeout'
                break
            try:
                i, v = rd.recv()
            except EOFError:
                reason = 'Dead'
                break
            res[i] = v
            left.discard(i)
        if left:
            p.kill()
            for i in left:
                res[i] = ('dead', reason)
        p.join(10)
    out = []
    for i, v in enumerate(res):
        if v[0] == 'ok':
            out.append(v[1])
        elif v[0] == 'dead':
            out.append({'dead': v[1]})
        elif v[0] == 'exc':
            # Either the implementation raised, or what it returned is so far from
            # the specified structure that the driver cannot record it.
            raise ImplError('case %.1500r: %s' % (items[i], v[1]))
        else:
            raise HarnessError('case %.1500r: %s' % (items[i], v[1]))
    return out
