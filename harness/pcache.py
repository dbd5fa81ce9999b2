"""C20: histories of cache directory lookups in a scratch tree."""
import contextlib
import copy
import os
import pathlib
import shutil
import sys
import tempfile

from . import core
from .core import excname

MC = """SPECIFICATION Spec
CONSTANTS Steps = %d Up = %s
VIEW View
INVARIANTS InvTree InvCwd
PROPERTIES PropKeeps PropMakes PropRefuses PropNoCreate PropOrder
"""
GEN = TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('SetEnv', 'SetHome', 'Cd', 'Mkdir', 'Write', 'MkLink', 'Remove', 'Find', 'Get')
NAMES = [[], ['mnist'], ['a'], ['qm7', 'experiments'], ['a', 'b', 'c d']]
# names which some library or shell gives a meaning to, but which are those of directories here
ODD = ['b\u00e9 x', '~', '$HOME', '%41', '...', '.h', '${KYMATIO_CACHE}', '-r', 'a*', '[ab]', 'x.y', '{a}', '%s', '#', 'a;b']

# Called just before every mkdir of this process (audit events are raised by the
# interpreter, whatever function asked for the directory).
_on_mkdir = [None]
_hooked = []


def _audit(event, args):
    if event == 'os.mkdir' and _on_mkdir[0] is not None:
        _on_mkdir[0](args[0])


def session(a):
    plan, cfg, seed = a
    import kymatio.caching as kc
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked.append(1)
    root = os.path.realpath(tempfile.mkdtemp(prefix='kyverif_cache_'))
    old_cwd, old_env = os.getcwd(), dict(os.environ)
    try:
        os.makedirs(os.path.join(root, 'home'))
        os.environ.pop('KYMATIO_CACHE', None)
        os.environ['HOME'] = os.path.join(root, 'home')
        os.chdir(root)
        out = []
        for h in plan['hist']:
            try:
                out.append(step(kc, root, h))
            except OSError:
                # the tree is no longer the one of the history: the trace ends here
                break
        return out
    finally:
        _on_mkdir[0] = None
        os.chdir(old_cwd)
        os.environ.clear()
        os.environ.update(old_env)
        shutil.rmtree(root, ignore_errors=True)


def full(root, p):
    return os.path.join(root, *p) if p else root


def segs(root, p):
    r = os.path.relpath(p, root)
    return [] if r == '.' else r.split('/')


def text(root, x):
    """The string for a place of the specification."""
    if x['how'] == 'none':
        return None
    return full(root, x['p']) if x['how'] == 'abs' else '/'.join(x['p'])


def dress(s, form):
    if s is None or s == '':
        return s
    return pathlib.Path(s) if form == 'path' else s + '/' if form == 'slash' else s


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for f in sorted(ds + fs):
            p = os.path.join(d, f)
            r = dict(p=segs(root, p), k='file', v=0, to=[])
            if os.path.islink(p):
                r.update(k='link', to=segs(root, os.readlink(p)))
            elif os.path.isdir(p):
                r.update(k='dir')
            else:
                with open(p) as h:
                    t = h.read()
                r.update(v=int(t) if t.isdigit() else -1)
            out.append(r)
    return out


def idents(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in ds + fs:
            s = os.lstat(os.path.join(d, f))
            res[os.path.join(d, f)] = (s.st_ino, s.st_mode, s.st_uid)
    return res


def put(p, v):
    with open(p, 'w') as h:
        h.write(str(v))


def step(kc, root, h):
    o, op = h['o'], h['o']['op']
    e = dict(o=o, want=h['outcome'], exc='', ret=[], real=[], disk=[], kept=True, ctx=True)
    if op in ('find', 'get'):
        before, env, cwd, um = idents(root), dict(os.environ), os.getcwd(), os.umask(0o022)
        base = dress(text(root, o['base']), o['form'])
        race = []
        try:
            with contextlib.ExitStack() as st:
                if op == 'find':
                    # an omitted argument and None are the same
                    ret = kc.find_cache_base_dir() if base is None and o['form'] == 'str' else \
                        kc.find_cache_base_dir(base) if o['form'] == 'path' else kc.find_cache_base_dir(cache_base_dir=base)
                else:
                    name = '/'.join(o['name'])
                    kw = {}
                    if o['create'] != 'default':
                        kw['create'] = o['create'] == 'yes'
                    if base is not None or o['form'] != 'str':
                        kw['cache_base_dir'] = base
                    if o['name'] or o['form'] != 'str':
                        kw['name'] = dress(name, o['form'])
                    if o['at']:
                        goal = full(root, h['target'])
                        left = [o['at']]

                        def other(path):
                            # another process gets there first
                            left[0] -= 1
                            if left[0] == 0:
                                _on_mkdir[0] = None
                                os.makedirs(goal)
                                put(os.path.join(goal, 'race'), 3)
                                race.append(1)
                        _on_mkdir[0] = other
                    if o['form'] == 'path' and len(kw) == 3:
                        ret = kc.get_cache_dir(kw['name'], kw['cache_base_dir'], kw['create'])
                    else:
                        ret = kc.get_cache_dir(**kw)
            e['ret'] = segs(root, os.path.abspath(os.fspath(ret)))
            e['real'] = segs(root, os.path.realpath(os.fspath(ret)))
        except Exception as ex:     # judged by the trace specification
            e['exc'] = excname(ex)
        finally:
            _on_mkdir[0] = None
        if op == 'get' and o['at'] and not race and not e['exc']:
            # it arrived late
            put(os.path.join(full(root, h['target']), 'race'), 3)
        after = idents(root)
        e['kept'] = all(after.get(p) == i for p, i in before.items())
        e['ctx'] = dict(os.environ) == env and os.getcwd() == cwd and os.umask(um) == 0o022
    elif op == 'env':
        if o['to']['how'] == 'none':
            os.environ.pop('KYMATIO_CACHE', None)
        else:
            os.environ['KYMATIO_CACHE'] = text(root, o['to'])
    elif op == 'home':
        os.environ['HOME'] = full(root, o['to'])
    elif op == 'cd':
        os.chdir(full(root, o['to']))
    elif op == 'mkdir':
        os.mkdir(full(root, o['at']))
    elif op == 'write':
        put(full(root, o['at']), o['v'])
    elif op == 'link':
        os.symlink(full(root, o['to']), full(root, o['at']))
    elif op == 'rm':
        p = full(root, o['at'])
        assert p.startswith(root + '/')
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    e['disk'] = listing(root)
    return e


def corrupt(traces):
    res = []

    def first(f):
        for t in traces:
            for k, e in enumerate(t['obs']):
                if f(e, t['obs'][k - 1] if k else None):
                    return t, k
        return None

    def c(found, change, clause):
        if found is None:
            return
        t, k = found
        u = copy.deepcopy(t)
        change(u['obs'], k)
        res.append((u, clause))
    find = first(lambda e, p: e['o']['op'] == 'find' and not e['exc'])
    made = first(lambda e, p: e['o']['op'] == 'get' and not e['exc'] and p and len(p['disk']) < len(e['disk']) and e['o']['at'] == 0)
    had = first(lambda e, p: e['o']['op'] == 'get' and not e['exc'] and p and p['disk'] == e['disk'])
    ref = first(lambda e, p: e['o']['op'] == 'get' and e['want'] == 'raises')
    race = first(lambda e, p: e['o']['op'] == 'get' and e['o']['at'] > 0 and not e['exc'])
    new = dict(p=['zz'], k='dir', v=0, to=[])
    c(find, lambda u, k: u[k].update(ret=['zz'], real=['zz']), 'C20.BaseDirectory')
    c(find, lambda u, k: u[k]['disk'].append(new), 'C20.FindCreatesNothing')
    c(find, lambda u, k: u[k].update(exc='E'), 'C20.FindsBase')
    c(made, lambda u, k: u[k].update(disk=u[k - 1]['disk']), 'C20.Created')
    c(made, lambda u, k: u[k].update(exc='E'), 'C20.Creates')
    c(had, lambda u, k: u[k].update(exc='E'), 'C20.ReturnsExisting')
    c(had, lambda u, k: u[k].update(disk=u[k]['disk'][1:]), 'C20.Untouched')
    c(had, lambda u, k: u[k].update(kept=False), 'C20.Untouched')
    c(had, lambda u, k: u[k].update(ctx=False), 'C20.NoSideEffects')
    c(had, lambda u, k: u[k].update(ret=['zz'], real=['zz']), 'C20.CacheDirectory')
    c(ref, lambda u, k: u[k].update(exc=''), 'C20.Refuses')
    c(ref, lambda u, k: u[k]['disk'].append(new), 'C20.RefusalCreatesNothing')
    c(race, lambda u, k: u[k].update(exc='E'), 'C20.SurvivesRace')
    c(find, lambda u, k: u.pop(), 'C20.Behaviour')
    return res


def run(ctx):
    ctx.mc('MC_CacheDir', MC % (ctx.n(3, 4), 'FALSE'), must_cover=ACTIONS, workers=6, timeout=7000)
    ctx.mc('MC_CacheDir', MC % (ctx.n(2, 3), 'TRUE'), must_cover=ACTIONS, workers=6, timeout=7000)
    n, steps = ctx.n(150, 2000), ctx.n(60, 120)
    cases = [dict(segs=['a', 'b', 'kymatio_cache'] if q % 2 else ['a', ODD[(q // 2) % len(ODD)]], deep=2, ups=q % 3 > 0,
                  names=[[], ['a']] + ctx.rng.sample(NAMES[1:] + [[o] for o in ODD], 2), steps=steps) for q in range(n)]
    plans = ctx.generate('Gen_CacheDir', GEN, cases, workers=1, extra=['-seed', str(ctx.seed)], timeout=6000)
    kinds = {(h['o']['op'], h['outcome'], bool(h['o'].get('at')) if h['o']['op'] == 'get' else False)
             for p in plans for h in p['hist']}
    if not kinds >= {('find', 'path', False), ('get', 'path', False), ('get', 'path', True), ('get', 'raises', False)}:
        raise core.HarnessError('the histories do not contain every kind of lookup')
    obs = core.pmap(session, [(p, cf, ctx.seed) for p, cf in zip(plans, cases)], procs=6, timeout=ctx.n(300, 4000))
    traces, labels, ops = [], [], {}
    for i, ob in enumerate(obs):
        lab = dict(case=i, seed=ctx.seed)
        if isinstance(ob, dict):
            ctx.fail(lab, ['C20.Survives'])
            continue
        for k, (e, h) in enumerate(zip(ob, plans[i]['hist'])):
            if h['outcome'] != 'none':
                key = e['o']['op'] + ' ' + h['outcome'] + (' race' if e['o'].get('at') and e['o']['op'] == 'get' else '')
                ops[key] = ops.get(key, 0) + 1
                ctx.count(dict(i=i, k=k, s=ctx.seed))
        lab['hist'] = [dict(o=h['o'], expected=h['outcome'], target=h['target'], got=e['exc'] or e['ret']) for h, e in zip(plans[i]['hist'], ob)]
        traces.append(dict(cfg=cases[i], obs=ob))
        labels.append(lab)
    ctx.notes['lookups'] = ops
    ctx.validate('Trace_CacheDir', TRACE, traces, labels, clauses='C20', selfcheck=corrupt(traces), timeout=6000)
    ctx.sample([h['o'] for h in plans[0]['hist']][:12])
    return ctx.finish('model_checking',
                      'random behaviours of the file system machine (environment, home and working directory changes, '
                      'creations, links, removals, lookups, lookups racing another process at a given mkdir) replayed in a '
                      'scratch tree; after every operation the whole tree is compared with the machine',
                      ['looking up a path at which a regular file lies is left open by the documentation and not exercised'])
