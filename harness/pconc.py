"""C21: several threads of one process use transforms at once.

The threads run one at a time: a trace function gives the control back after as many
lines of the implementation as the schedule says, so that an interleaving drawn by the
machine is replayed exactly."""
import copy
import os
import sys
import threading
import time

import numpy as np

from . import core, front, pfront, phist
from .core import excname, quant

MC = """SPECIFICATION Spec
CONSTANTS Micro=%d Calls=%d
INVARIANTS InvAlone InvShared InvOrder InvFree
"""
SPEC = "SPECIFICATION Spec\n"
ACTIONS = ('EnterAny', 'LoadAny', 'ComputeAny', 'ExitAny')
FES = [('numpy',), ('torch',), ('numpy', 'torch'), ('tensorflow',), ('numpy', 'sklearn'), ('jax',), ('torch', 'torch'), ('numpy', 'numpy')]
LIB = '/repo/kymatio' + os.sep


class Schedule:
    """Runs functions in threads, one at a time, handing over as planned."""

    def __init__(self, slices, patience=20):
        self.slices, self.patience = slices, patience
        self.free = False

    def tracer(self, t):
        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self.budget[t] -= 1
                if self.budget[t] <= 0:
                    self.back[t].release()
                    self.go[t].acquire()
            return local

        def enter(frame, event, arg):
            co = frame.f_code
            if co.co_name != '<module>' and co.co_filename.startswith(LIB):
                return local
            return None
        return enter

    def run(self, fns):
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in fns]
        self.back = [threading.Semaphore(0) for _ in fns]
        self.budget = [0] * n
        over = [False] * n

        def body(t):
            self.go[t].acquire()
            sys.settrace(self.tracer(t))
            try:
                fns[t]()
            finally:
                sys.settrace(None)
                over[t] = True
                self.back[t].release()
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for th in ths:
            th.start()
        away = set()            # handed over, not heard of since (waiting for another thread)
        k = 0
        t_end = time.time() + 6 * self.patience
        last = -1
        while not all(over) and time.time() < t_end:
            if k < 3 * len(self.slices):
                s = self.slices[k % len(self.slices)]
                t, q = s['t'] - 1, s['q'] * (1 if k < len(self.slices) else 20)
            else:
                t, q = k % n, 10 ** 9
            k += 1
            if over[t]:
                if k >= 3 * len(self.slices) and len(away) and all(over[u] or u in away for u in range(n)):
                    time.sleep(.01)
                    away = {u for u in away if not self.back[u].acquire(blocking=False)}
                continue
            if t in away:
                if self.back[t].acquire(timeout=.05):
                    away.discard(t)
                continue
            self.budget[t] = q
            self.go[t].release()
            last = t
            if not self.back[t].acquire(timeout=self.patience):
                away.add(t)
        self.free = True
        done = all(over)
        for g in self.go:
            g.release()
        for th in ths:
            th.join(1)
        return done


def perform(f, S, q, t):
    """One call: its result as (keys, arrays), or text."""
    if q['op'] == 'query':
        return (['query'], [phist.query(f, S, 'meta') + phist.query(f, S, 'size')])
    if q['op'] == 'new':
        S = phist.construct(f)
    ks, vs = pfront.leaves(phist.invoke(f, S, t))
    return ks, vs


def settle(r):
    return r[0], [v if isinstance(v, str) else front.to_np(v) for v in r[1]]


def distance(r, ref, f32):
    if r[0] != ref[0] or len(r[1]) != len(ref[1]):
        return False, 10 ** 9
    e = 0
    for v, w in zip(r[1], ref[1]):
        if isinstance(w, str):
            e = max(e, 0 if v == w else 10 ** 9)
        else:
            e = max(e, quant(core.relerr(v, w), 1e-5 if f32 else 1e-9))
    return True, e


def observe(a):
    case, plan, seed = a
    cfgs = case['cfgs']
    phist.load(sorted({f['fe'] for f in cfgs}))
    prog = plan['prog']
    data = {}

    def given(o, x):
        if (o, x) not in data:
            data[o, x] = phist.as_input(cfgs[o - 1], phist.content(cfgs[o - 1], seed, x, 1))
        return data[o, x]
    refs = {}
    for p in prog:
        for q in p:
            key = (q['op'], q['o'], q['x'])
            if key not in refs:
                f = cfgs[q['o'] - 1]
                S = phist.construct(f)
                refs[key] = settle(perform(f, S, q, given(q['o'], q['x'])))
    shared = [phist.construct(f) for f in cfgs]
    before = [(phist.filters_print(f, S), phist.params_print(S)) for f, S in zip(cfgs, shared)]
    prints = {k: phist.digest(v) for k, v in data.items()}
    events, raw = [], {}

    def work(t):
        def go():
            for i, q in enumerate(prog[t]):
                events.append(dict(k='enter', t=t + 1, exc='', keys=True, err=0))
                f = cfgs[q['o'] - 1]
                e = dict(k='exit', t=t + 1, exc='', keys=True, err=0)
                try:
                    raw[t, i] = perform(f, shared[q['o'] - 1], q, given(q['o'], q['x']))
                except Exception as ex:
                    e['exc'] = excname(ex)
                e['i'] = i
                events.append(e)
        return go
    world = repr(sorted(np.geterr().items())), np.random.get_state()[1].tobytes()
    ok = Schedule(plan['sched'], patience=case.get('patience', 20)).run([work(t) for t in range(len(prog))])
    inside, overlaps = set(), 0
    for e in events:
        if e['k'] == 'enter':
            inside.add(e['t'])
            continue
        inside.discard(e['t'])
        overlaps += bool(inside)
        i = e.pop('i')
        if not e['exc']:
            q = prog[e['t'] - 1][i]
            f = cfgs[q['o'] - 1]
            e['keys'], e['err'] = distance(settle(raw[e['t'] - 1, i]), refs[q['op'], q['o'], q['x']], f['fe'] not in ('numpy', 'sklearn'))
    ob = dict(events=events, finished=ok, after=0, overlaps=overlaps,
              filters=all(phist.filters_print(f, S) == b[0] for f, S, b in zip(cfgs, shared, before)),
              params=all(phist.params_print(S) == b[1] for S, b in zip(shared, before)),
              inputs=all(phist.digest(v) == prints[k] for k, v in data.items()),
              world=world == (repr(sorted(np.geterr().items())), np.random.get_state()[1].tobytes()))
    for p in prog:
        for q in p:
            if q['op'] == 'call':
                f = cfgs[q['o'] - 1]
                try:
                    r = settle(perform(f, shared[q['o'] - 1], q, given(q['o'], q['x'])))
                    ob['after'] = max(ob['after'], distance(r, refs[q['op'], q['o'], q['x']], f['fe'] not in ('numpy', 'sklearn'))[1])
                except Exception:
                    ob['after'] = 10 ** 9
    return ob


def places(fn):
    """The line events of one run of fn, as a list of source lines."""
    seen = []

    def local(frame, event, arg):
        if event == 'line':
            seen.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def enter(frame, event, arg):
        co = frame.f_code
        return local if co.co_name != '<module>' and co.co_filename.startswith(LIB) else None

    def go():
        sys.settrace(enter)
        try:
            fn()
        finally:
            sys.settrace(None)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return seen


def sweep(a):
    """One call, interrupted in turn at each source line it goes through."""
    case, plan, seed = a
    cfgs = case['cfgs']
    f32 = [f['fe'] not in ('numpy', 'sklearn') for f in cfgs]
    phist.load(sorted({f['fe'] for f in cfgs}))
    prog = plan['prog']
    data, refs = {}, {}
    for p in prog:
        for q in p:
            f = cfgs[q['o'] - 1]
            data[q['o'], q['x']] = phist.as_input(f, phist.content(f, seed, q['x'], 1))
            S = phist.construct(f)
            refs[q['op'], q['o'], q['x']] = settle(perform(f, S, q, data[q['o'], q['x']]))
    S = phist.construct(cfgs[0])
    first = prog[0][0]
    start = [S]

    def alone():
        try:
            perform(cfgs[0], start[0], first, data[first['o'], first['x']])
        except Exception:
            pass
    evs = places(alone)
    start[0] = phist.construct(cfgs[0])
    evs = places(alone)
    where = {}
    for i, e in enumerate(evs):
        where.setdefault(e, []).append(i + 1)
    rng = __import__('random').Random(seed)
    steps = sorted({v[0] for v in where.values()} | {rng.choice(v) for v in where.values()})
    if len(steps) > case['steps']:
        steps = sorted(rng.sample(steps, case['steps']))
    prints = {k: phist.digest(v) for k, v in data.items()}
    world = repr(sorted(np.geterr().items())), np.random.get_state()[1].tobytes()
    events, finished, same, after = [], True, [True, True], 0
    done, overlaps = 0, 0
    t_end = time.time() + case['seconds']
    for s in steps:
        if time.time() > t_end or not finished:
            break
        shared = [phist.construct(f) for f in cfgs]
        before = [(phist.filters_print(f, S), phist.params_print(S)) for f, S in zip(cfgs, shared)]
        raw, mine = {}, []

        def work(t):
            def go():
                for i, q in enumerate(prog[t]):
                    mine.append(dict(k='enter', t=t + 1, exc='', keys=True, err=0))
                    e = dict(k='exit', t=t + 1, exc='', keys=True, err=0, i=i)
                    try:
                        raw[t, i] = perform(cfgs[q['o'] - 1], shared[q['o'] - 1], q, data[q['o'], q['x']])
                    except Exception as ex:
                        e['exc'] = excname(ex)
                    mine.append(e)
            return go
        slices = [dict(t=z['t'], q=s if z['q'] == 0 else 10 ** 9) for z in plan['sched']]
        finished = Schedule(slices, patience=case.get('patience', 20)).run([work(0), work(1)])
        inside = set()
        for e in mine:
            if e['k'] == 'enter':
                inside.add(e['t'])
                continue
            inside.discard(e['t'])
            overlaps += bool(inside)
            i = e.pop('i')
            if not e['exc']:
                q = prog[e['t'] - 1][i]
                e['keys'], e['err'] = distance(settle(raw[e['t'] - 1, i]), refs[q['op'], q['o'], q['x']], f32[q['o'] - 1])
        events += mine
        done += 1
        same[0] &= all(phist.filters_print(f, S) == b[0] for f, S, b in zip(cfgs, shared, before))
        same[1] &= all(phist.params_print(S) == b[1] for S, b in zip(shared, before))
        try:
            r = settle(perform(cfgs[0], shared[0], first, data[first['o'], first['x']]))
            after = max(after, distance(r, refs[first['op'], first['o'], first['x']], f32[0])[1])
        except Exception:
            after = 10 ** 9
        if any(e['exc'] or e['err'] > 1000 or not e['keys'] for e in mine):
            break
    return dict(events=events, finished=finished, after=after, overlaps=overlaps, filters=same[0], params=same[1], rounds=done,
                at=list(evs[s - 1]) if done else [],
                inputs=all(phist.digest(v) == prints[k] for k, v in data.items()),
                world=world == (repr(sorted(np.geterr().items())), np.random.get_state()[1].tobytes()))


def either(a):
    return sweep(a) if a[0]['sweep'] else observe(a)


def corrupt(traces):
    res = []
    for t in traces:
        ev = t['obs']['events']
        ex = [k for k, e in enumerate(ev) if e['k'] == 'exit']
        if not ex or any(e['exc'] for e in ev):
            continue

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u['events'][ex[0]].update(err=1001), 'C21.SameAsAlone')
        c(lambda u: u['events'][ex[0]].update(keys=False), 'C21.Structure')
        c(lambda u: u['events'][ex[0]].update(exc='IndexError'), 'C21.Runs')
        c(lambda u: u['events'].pop(ex[-1]), 'C21.NobodyWaits')
        c(lambda u: u['events'].pop(0), 'C21.Behaviour')
        c(lambda u: u.update(finished=False), 'C21.NobodyWaits')
        c(lambda u: u.update(filters=False), 'C21.ObjectsIntact')
        c(lambda u: u.update(world=False), 'C21.GlobalSettings')
        c(lambda u: u.update(after=2000), 'C21.UsableAfterwards')
        break
    return res


def run(ctx):
    ctx.mc('MC_Concurrent', MC % ctx.n((3, 1), (3, 2)), must_cover=ACTIONS, workers=6, timeout=5000)
    rng = ctx.rng
    raws = []
    for q in range(ctx.n(120, 1200)):
        fes = FES[q % len(FES)]
        cfgs = []
        for i in range(len(fes)):
            kind = ['1d', 'tf', '2d', '3d', '1d'][(q + q // 8) % 5] if i == 0 else rng.choice(['1d', 'tf', '2d', '3d'])
            cf = pfront.sample(rng, kind)
            if i and kind == cfgs[0]['k'] == '1d' and rng.random() < .6:
                cf = dict(cfgs[0]['cf'], Q=rng.choice([(1, 1), (2, 1), (3, 1)]), mo=rng.choice([1, 2]))
            cfgs.append(dict(k=kind, cf=cf, fe=fes[i]))
        raws.append(cfgs)
    n_rand = len(raws)
    for q in range(ctx.n(24, 160)):
        kind, fe = ['1d', '2d', '3d', 'tf'][q % 4], ['numpy', 'torch', 'tensorflow', 'torch', 'jax', 'sklearn'][(q // 4) % 6]
        cf = pfront.sample(rng, kind)
        raws.append([dict(k=kind, cf=cf, fe=fe), dict(k=kind, cf=cf, fe=fe)])
    settled = {id(s[1]) for s in pfront.settle_tf(ctx, [(f['k'], f['cf'], f['fe']) for raw in raws for f in raw])}
    cases, gcases = [], []
    for q, raw in enumerate(raws):
        raw = [f for f in raw if id(f['cf']) in settled]
        if not raw:
            continue
        for f in raw:
            ok = pfront.outs(f['k'], f['cf'])
            if f['fe'] == 'sklearn' and 'array' not in ok:
                f['fe'] = 'numpy'
            f['ot'] = 'array' if f['fe'] == 'sklearn' else rng.choice(ok)
            f['mo'] = 2 if f['k'] == 'tf' else rng.choice([1, 2])
            f['dt'] = np.float64 if f['fe'] in ('numpy', 'sklearn') and rng.random() < .7 else np.float32
        if q >= n_rand:
            raw = [raw[0], dict(raw[0])]
            cases.append(dict(cfgs=raw, sweep=True, steps=ctx.n(400, 4000), seconds=ctx.n(60, 900)))
            gcases.append(dict(objs=2, sweep=True, threads=2, calls=1, inputs=4, slices=1, ops=[['call']] * 2))
            continue
        cases.append(dict(cfgs=raw, sweep=False))
        ops = [['call', 'call', 'call', 'new'] + (['query'] if f['k'] in ('1d', 'tf') else []) for f in raw]
        gcases.append(dict(objs=len(raw), sweep=False, threads=rng.choice([2, 2, 3]), calls=rng.choice([1, 2, 2, 3]), inputs=2,
                           slices=ctx.n(80, 200), ops=ops))
    plans = ctx.generate('Gen_Concurrent', SPEC, gcases, workers=1, extra=['-seed', str(ctx.seed)], timeout=3000)
    seeds = [rng.randrange(2 ** 30) for _ in plans]
    obs = core.pmap(either, list(zip(cases, plans, seeds)), procs=8, timeout=ctx.n(700, 9000))
    traces, labels, calls, over, rounds = [], [], 0, 0, 0
    for case, g, p, s, o in zip(cases, gcases, plans, seeds, obs):
        lab = dict(cfgs=[(f['k'], f['fe'], f['ot'], f['mo'], f['cf']) for f in case['cfgs']], seed=s, prog=p['prog'], sched=p['sched'][:40])
        if 'dead' in o:
            ctx.fail(lab, ['C21.Survives'])
            continue
        calls += sum(e['k'] == 'exit' for e in o['events'])
        over += o.pop('overlaps')
        ctx.count(dict(s=s, p=p['prog'], q=p['sched']), nontrivial=any(a['k'] == b['k'] == 'enter' for a, b in zip(o['events'], o['events'][1:])))
        prog = p['prog']
        if case['sweep']:
            n = o.pop('rounds')
            rounds += n
            lab['at'] = o.pop('at')
            prog = [t * n for t in prog]
        traces.append(dict(cfg=dict(objs=g['objs'], prog=prog, micro=2), obs=o))
        labels.append(lab)
    ctx.notes['calls'] = calls
    ctx.notes['calls_interrupted_at_a_source_line'] = rounds
    ctx.notes['calls_that_ended_while_another_was_running'] = over
    if traces and over * 10 < calls:
        raise core.HarnessError('the schedules hardly interleave anything')
    ctx.validate('Trace_Concurrent', SPEC, traces, labels, clauses='C21', selfcheck=corrupt(traces), timeout=3000, workers=4)
    ctx.sample(dict(prog=plans[0]['prog'], sched=plans[0]['sched'][:10]))
    return ctx.finish('model_checking',
                      'programs of two or three threads and schedules drawn by the machine, replayed line by line under a '
                      'deterministic scheduler; every result compared with that of a fresh object used by one thread alone',
                      ['threads are switched between lines of kymatio, not inside the libraries it calls',
                       'parameters are not reassigned and modules not moved while other threads use them'])
