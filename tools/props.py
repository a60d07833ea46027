"""For each property: scenarios, execution, records for TLC."""
import collections
import json
import math
import random
from fractions import Fraction

import core
import gen
import harness
from harness import V, VV, agg_line, call_args, csr, indexed, mesh_line

ASSUMPTIONS = [
    'input data are integers (exact in floating point), so that rounding decides nothing',
    'meshes are symmetric graphs without self-loops or repeated neighbours',
    'scenarios are drawn at random from the generators of tools/gen.py (seeded), plus all small graphs',
]

BIG = -2000000007


class Job:
    def __init__(self, name, module, recs, **kw):
        self.name, self.module, self.recs, self.kw = name, module, recs, kw


class Ctx:
    def __init__(self, rng, tier):
        self.rng, self.tier = rng, tier
        self.f = 1 if tier == 'quick' else 6
        self.stats = collections.OrderedDict()
        self.samples = []
        self.models = {}
        self.dir = None

    def generate(self, name, module, **kw):
        """Behaviours of the specification, to be replayed on the code."""
        r = core.generate(module, **kw)
        self.models[name] = {'distinct': r['distinct'], 'generated': r['states'], 'wall_s': round(r['wall'], 1),
                             'behaviours replayed': len(r['hist'])}
        return r['hist']

    def n(self, k):
        return int(k * self.f)

    def few(self, k):
        return k if self.tier == 'quick' else 2 * k

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def build(self, *names):
        self.dir = harness.build(*names)

    def run(self, drv, lines, seconds=20):
        """Execute; repeat alone what took too long; drop what was not run."""
        exe = self.dir + '/drv_' + drv
        res = harness.run_driver(exe, lines, seconds)
        for k, r in enumerate(res):
            if r is not None and r['st'] == 'timeout':
                again = harness.run_driver(exe, [renumber(lines[k], 0)], 60)[0]
                res[k] = again
                break
        for k, r in enumerate(res):
            if r is None:
                self.count('not run')
            else:
                self.count('answers ' + r['st'])
        return [None if r is None else norm(r) for r in res]


def renumber(line, k):
    t = line.split(' ', 2)
    return '%s %d %s' % (t[0], k, t[2])


DEFAULTS = {'f2c': [], 'lidx': [], 'lines': [], 'kept': True, 'f2ckept': True, 'lineskept': True}


def norm(r):
    for k, v in DEFAULTS.items():
        r.setdefault(k, v)
    return r


def answer(r):
    return {k: r[k] for k in ('st', 'f2c', 'lidx', 'lines')}


def tmesh(m):
    return {k: m[k] for k in ('n', 'dim', 'adj', 'w', 'vol', 'cen', 'prio', 'bnd')}


def slim(m):
    return {k: m[k] for k in ('n', 'dim', 'adj')}


def describe(rec):
    return json.dumps(rec)


# ------------------------------------------------------------ agglomeration --
def requests(ctx, n, lo=1, hi=24, big=0, huge=0, lookahead=0.0, **force):
    """Requests: trivial meshes, all small graphs, random ones, large ones."""
    rng, out = ctx.rng, []
    for m in gen.trivial_meshes():
        out.append((m, gen.settings(rng, m)))
    for k in (3, 4):
        for m in gen.small_graphs(rng, k):
            c = gen.settings(rng, m)
            if rng.random() < 0.3:
                gen.with_lines(rng, m, c)
            out.append((m, c))
    while len(out) < n:
        out.append(gen.scenario(rng, lo, hi if rng.random() < 0.75 else 2 * hi))
    for _ in range(big):
        out.append(gen.scenario(rng, 80, 300))
    for _ in range(huge):   # more than 256 coarse cells
        m = gen.mesh(rng, 900, 1400)
        c = gen.settings(rng, m, min=2, goal=rng.choice([2, 3]), max=3)
        if rng.random() < 0.5:
            gen.with_lines(rng, m, c)
        out.append((m, c))
    for m, c in out:
        for k, v in force.items():
            c[k] = v(rng) if callable(v) else v
        if lookahead and rng.random() < lookahead:
            c['iter'] = gen.lookahead(rng, m, c)
    for m, c in out:
        ctx.count('meshes')
        ctx.count('cells', m['n'])
        if c['aniso']:
            ctx.count('with lines built' if c['build'] else 'with lines provided')
        if c['iter'] > 1:
            ctx.count('with look-ahead')
    m, c = out[-1 - big - huge]
    ctx.samples.append({'mesh': {k: m[k] for k in ('n', 'dim', 'kind', 'adj', 'bnd', 'prio')}, 'settings': c})
    return out


def agg(ctx, reqs, drv='api', seconds=20, **over):
    lines = []
    for k, (m, c) in enumerate(reqs):
        a = call_args(m, c)
        a.update(over)
        lines.append(agg_line(k, a))
    return ctx.run(drv, lines, seconds)


def fallback(ctx, reqs, res, **over):
    """Where the checked build gave nothing, take the answer of the plain one."""
    bad = [k for k, r in enumerate(res) if r is not None and r['st'] == 'crash']
    if bad:
        ctx.build('apiopt')
        sub = agg(ctx, [reqs[k] for k in bad], drv='apiopt', **over)
        for k, r in zip(bad, sub):
            res[k] = r
    return res


def struct_job(ctx, pid, reqs, res):
    recs = [{'m': slim(m), 'c': c, 'r': answer(r)} for (m, c), r in zip(reqs, res) if r is not None]
    return [Job('structure', 'TraceStruct', recs, invs=[pid])]


def listing(f2c, n):
    """Cells of each coarse cell and place of each cell there (see Large)."""
    if len(f2c) != n or not all(0 <= x < n for x in f2c):
        return {'ls': [], 'at': []}
    ls, at = [[] for _ in range(max(f2c) + 1)], []
    for x, a in enumerate(f2c):
        ls[a].append(x + 1)
        at.append(len(ls[a]))
    return {'ls': ls, 'at': at}


def large_calls(ctx, pid, **force):
    """More than 65536 coarse cells, with the plain build."""
    ctx.build('apiopt')
    rng, reqs = ctx.rng, []
    for k in range(ctx.few(2)):
        m = gen.huge(rng, rng.randint(134000, 140000), 'chain' if k % 2 and rng.random() < 0.3 else None)
        c = gen.settings(rng, m, min=2, goal=2, max=rng.choice([2, 2, 3]))
        if k % 2 and 'bl' in m['kind']:
            gen.with_built(rng, m, c)
        c['corr'] = k % 2 == 1
        c.update(force)
        reqs.append((m, c))
        ctx.count('large meshes')
    recs = []
    for (m, c), r in zip(reqs, agg(ctx, reqs, drv='apiopt', seconds=100)):
        if r is not None:
            ctx.count('coarse cells of large meshes', max(r['f2c'], default=-1) + 1)
            recs.append(dict({'m': slim(m), 'c': {k: c[k] for k in ('min', 'max', 'build')}, 'r': answer(r)},
                             **listing(r['f2c'], m['n'])))
    return Job('large meshes', 'TraceLarge', recs, invs=[pid])


def c01(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(9000), lookahead=0.25, big=ctx.n(40), huge=ctx.n(4)) + all_small(ctx, 3)
    return struct_job(ctx, 'C01', reqs, agg(ctx, reqs)) + [large_calls(ctx, 'C01')]


def c02(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(9000), lo=4, lookahead=0.25, big=ctx.n(40), huge=ctx.n(4)) + all_small(ctx, 3)
    for m, c in reqs:
        if c['sing'] > 1 or ctx.rng.random() < 0.5:
            c['corr'] = True
    return struct_job(ctx, 'C02', reqs, fallback(ctx, reqs, agg(ctx, reqs))) + [large_calls(ctx, 'C02')]


def c03(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(9000), lo=4, lookahead=0.25, big=ctx.n(40), huge=ctx.n(4), corr=False)
    reqs += all_small(ctx, 3, corr=False, Sings='{1}')
    return struct_job(ctx, 'C03', reqs, fallback(ctx, reqs, agg(ctx, reqs))) + [large_calls(ctx, 'C03', corr=False)]


def c04(ctx):
    ctx.build('api', 'cls')
    rng = ctx.rng
    reqs = requests(ctx, ctx.n(7000), lo=4, lookahead=0.1, big=ctx.n(30), corr=True,
                    sing=lambda r: r.choice([1, 1, 2, 2, 3, 3, 4]))
    for m, c in reqs:
        if rng.random() < 0.5:
            # leave something to correct
            c['min'] = max(c['min'], rng.choice([3, 4, 5]))
            c['goal'] = max(c['goal'], c['min'])
            c['max'] = max(c['max'], c['goal'])
    pre, post = agg(ctx, reqs, corr=False), agg(ctx, reqs)
    recs = []
    for (m, c), a, b in zip(reqs, pre, post):
        if a is None or b is None:
            continue
        if a['f2c'] != b['f2c']:
            ctx.count('changed by the correction')
        recs.append({'m': slim(m), 'c': c, 'r': answer(a), 'post': answer(b)})
    # any coarse cells, given to the container
    hist = [partition_history(rng) for _ in range(ctx.n(5000))] + all_fillings(ctx, late=False)
    ans = ctx.run('cls', cont_lines(hist))
    pieces = []
    for (m, thr, ops), r in zip(hist, ans):
        if r is None:
            continue
        a, b = ({'st': 'ok', 'f2c': x['f2c']} if r['st'] == 'ok' else {'st': r['st'], 'f2c': []}
                for x in r.get('recs', [{}, {}])[-2:])
        if r['st'] != 'ok':
            a = {'st': 'ok', 'f2c': given(m, ops)}
        if a['f2c'] != b['f2c']:
            ctx.count('changed by the correction of given cells')
        pieces.append({'m': slim(m), 'na': sum(1 for o in ops if o[0] == 'aniso'), 'thr': thr, 'r': a, 'post': b})
    return [Job('correction', 'TraceStruct', recs, invs=['C04']),
            Job('correction of given cells', 'TraceStruct', pieces, invs=['C04Given'])]


def agg_job(ctx, mode, reqs, post=False):
    pre = agg(ctx, reqs, corr=False)
    fin = agg(ctx, reqs) if post else pre
    recs = [{'m': tmesh(m), 'c': c, 'r': answer(a), 'post': answer(b)}
            for (m, c), a, b in zip(reqs, pre, fin) if a is not None and b is not None]
    return Job(mode, 'TraceAgg', recs, spec='TSpec', invs=['Conforms'], consts={'Mode': '"%s"' % mode})


def c08(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(5000), lo=3, lookahead=0.1, big=ctx.n(60), kind='B') + all_small(ctx, 3, Kinds='{"B"}', Sings='{1}')
    return [agg_job(ctx, 'seeds', reqs)]


def c09(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(5000), lo=3, lookahead=0.1, big=ctx.n(60), kind='N') + all_small(ctx, 3, Kinds='{"N"}', Sings='{1}')
    return [agg_job(ctx, 'seeds', reqs)]


def grow_job(ctx, n, look=False, deep=0):
    """One coarse cell from a given seed with some cells already taken."""
    rng, sc, lines = ctx.rng, [], []
    for k in range(n + deep):
        m = gen.mesh(rng, 3, 20 if look else 30) if k < n else gen.mesh(rng, 5, 10)
        if not look and k < ctx.few(40):
            m = gen.hub(rng, rng.randint(20, 60))
        c = gen.settings(rng, m)
        if k >= n:
            # few cells and many steps ahead
            c['max'] = max(c['max'], rng.randint(4, 8))
            c['goal'] = rng.randint(c['min'], c['max'])
            c['iter'] = rng.choice([3, 4, 4, 5])
            while len(m['adj']) * max(map(len, m['adj'])) ** c['iter'] > 12000:
                c['iter'] -= 1
        elif look:
            c['iter'] = gen.lookahead(rng, m, c, 40000)
        if look:
            ctx.count('depth %d' % c['iter'])
        p = rng.choice([0, 0, 0.2, 0.4])
        taken = [x for x in range(1, m['n'] + 1) if rng.random() < p]
        free = [x for x in range(1, m['n'] + 1) if x not in taken]
        if not free:
            continue
        seed = rng.choice(free)
        lines.append(' '.join(['GROW', str(len(sc)), mesh_line(m, ar=c['ar']), str('BN'.index(c['kind'])), str(c['goal']),
                               str(c['min']), str(c['max']), str(c['ar']), str(c['nb']), str(c['iter']),
                               VV([[x - 1] for x in taken]), str(seed - 1)]))
        sc.append((m, c, free, seed))
    res = ctx.run('cls', lines)
    recs = [{'m': tmesh(m), 'c': c, 'free': free, 'seed': seed,
             'g': {'st': r['st'], 'cc': r.get('cc', [])}}
            for (m, c, free, seed), r in zip(sc, res) if r is not None]
    return Job('growth from a seed', 'TraceGrow', recs, invs=['C10'])


def c10(ctx):
    ctx.build('api', 'cls')
    reqs = requests(ctx, ctx.n(2500), lo=4, big=ctx.n(6)) + all_small(ctx, 3, Sings='{1}')
    return [grow_job(ctx, ctx.n(3000)), agg_job(ctx, 'growth', reqs)]


def c22(ctx):
    ctx.build('api', 'cls')
    rng = ctx.rng
    reqs = []
    for m, c in requests(ctx, ctx.n(1200), lo=4, hi=12):
        c['iter'] = gen.lookahead(rng, m, c, 40000)
        if c['iter'] > 1:
            reqs.append((m, c))
    ctx.count('calls', len(reqs))
    return [grow_job(ctx, ctx.n(2000), True, ctx.n(1500)), agg_job(ctx, 'growth', reqs)]


def all_small(ctx, n, corr=None, **over):
    """All the requests of MC_Small."""
    kw = small(n, [], **over)[2]
    out = []
    for h in ctx.generate('requests with up to %d cells' % n, 'MC_Reqs', spec='ReqSpec', action=None,
                          invs=['Printed'], consts=kw['consts']):
        m, c = h['m'], h['c']
        m['sc'], m['kind'] = gen.scales(ctx.rng), 'small'
        if corr is not None:
            c['corr'] = corr
        out.append((m, c))
    return out


def c21(ctx):
    ctx.build('api')
    reqs = requests(ctx, ctx.n(4000), lo=3, big=ctx.n(6))
    every = all_small(ctx, 3)
    if ctx.tier != 'quick':
        four = all_small(ctx, 4, Sings='{2}')
        every += ctx.rng.sample(four, min(len(four), 60000))
    return [agg_job(ctx, 'full', reqs, post=True), agg_job(ctx, 'full', every, post=True)]


# -------------------------------------------------------------------- lines --
def lines_line(k, m, c):
    idx, cells = indexed(c['lines'])
    return ' '.join(['LINES', str(k), mesh_line(m, c['comp']), harness.num(float(c['thr'][0] / c['thr'][1])),
                     harness.num(c['odd']), str(c['maxc']), str(c['coup']), harness.num(c['force']),
                     harness.num(c['build']), V(idx), V(cells)])


def lines_jobs(ctx, pid, reqs):
    res = agg(ctx, reqs)
    cls = ctx.run('cls', [lines_line(k, m, c) for k, (m, c) in enumerate(reqs)])
    recs = []
    for (m, c), r, o in zip(reqs, res, cls):
        rec = {'m': tmesh(m), 'c': c}
        if r is not None:
            rec['r'] = answer(r)
        if o is not None:
            rec['o'] = {k: o.get(k, []) for k in ('i0', 'l0', 'i1', 'l1', 'f2c')}
            rec['o']['st'] = o['st']
            ctx.count('fine lines', max(0, len(rec['o']['i0']) - 1))
        recs.append(rec)
    return [Job('lines', 'TraceLines', recs, invs=[pid])]


def c05(ctx):
    ctx.build('api', 'cls')
    reqs = [gen.lines_scenario(ctx.rng, 40) for _ in range(ctx.n(3500))]
    reqs += [gen.lines_scenario(ctx.rng, 250) for _ in range(ctx.n(100))]
    for m, c in reqs:
        if ctx.rng.random() < 0.4:
            c['maxc'] = -1
    ctx.samples.append({'mesh': reqs[-1][0], 'settings': reqs[-1][1]})
    return lines_jobs(ctx, 'C05', reqs)


def c06(ctx):
    ctx.build('api', 'cls')
    rng, reqs = ctx.rng, []
    for k in range(ctx.n(5000)):
        if rng.random() < 0.35:
            reqs.append(gen.lines_scenario(rng, 40 if rng.random() < 0.95 else 150))
        else:
            m = gen.mesh(rng, 2, 30 if rng.random() < 0.95 else 120)
            if rng.random() < 0.4:
                # ends that cannot be told by their boundary faces
                b = rng.choice([0, 1])
                m['bnd'] = [b] * m['n']
            c = gen.with_lines(rng, m, gen.settings(rng, m))
            if not any(len(x) for x in c['lines']):
                continue
            reqs.append((m, c))
    ctx.samples.append({'mesh': reqs[-1][0], 'settings': reqs[-1][1]})
    return lines_jobs(ctx, 'C06', reqs)


def coarse(m, f2c):
    """The coarse graph, from its definition."""
    n = max(f2c) + 1
    w = [dict() for _ in range(n)]
    cells = [[] for _ in range(n)]
    for x in range(m['n']):
        cells[f2c[x]].append(x)
        for y, ww in zip(m['adj'][x], m['w'][x]):
            if f2c[y - 1] != f2c[x]:
                w[f2c[x]][f2c[y - 1]] = w[f2c[x]].get(f2c[y - 1], 0) + ww
    vol = [sum(m['vol'][x] for x in cs) for cs in cells]
    cen = [[sum(m['vol'][x] * m['cen'][x][k] for x in cs) / v for k in range(len(m['cen'][0]))]
           for cs, v in zip(cells, vol)]
    return {'n': n, 'dim': m['dim'], 'sc': m.get('sc'), 'adj': [[b + 1 for b in sorted(a)] for a in w],
            'w': [[a[b] for b in sorted(a)] for a in w], 'vol': vol, 'cen': cen,
            'prio': [max(m['prio'][x] for x in cs) for cs in cells],
            'bnd': [max(m['bnd'][x] for x in cs) for cs in cells], 'kind': m['kind']}


def is_partition(m, f2c):
    return len(f2c) == m['n'] and m['n'] > 0 and sorted(set(f2c)) == list(range(max(f2c) + 1))


def unindexed(idx, cells):
    return [[x + 1 for x in cells[a:b]] for a, b in zip(idx, idx[1:])]


def valid_indexed(idx, cells):
    return (not idx and not cells) or (len(idx) >= 2 and idx[0] == 0 and idx[-1] == len(cells)
                                       and all(a <= b for a, b in zip(idx, idx[1:])))


def c07(ctx):
    ctx.build('api')
    rng = ctx.rng
    cur = []
    for k in range(ctx.n(2500)):
        r = rng.random()
        if k < ctx.few(6):     # more than 255 coarse cells along lines
            m = {'n': 0}
            while m['n'] < 700:
                m, c = gen.lines_scenario(rng, 1600)
        elif r < 0.5:
            m, c = gen.lines_scenario(rng, rng.choice([60] * 16 + [150] * 3 + [300]))
        else:
            m = gen.mesh(rng, 4, 50)
            c = gen.with_lines(rng, m, gen.settings(rng, m))
            if not any(len(x) for x in c['lines']):
                continue
        cur.append((m, c, []))
    done = []
    for level in range(4):
        if not cur:
            break
        res = agg(ctx, [(m, c) for m, c, _ in cur])
        nxt = []
        for (m, c, hist), r in zip(cur, res):
            if r is None:
                done.append(hist)
                continue
            hist = hist + [{'m': slim(m), 'c': c, 'r': answer(r)}]
            on = c['aniso'] and (c['build'] or any(len(x) for x in c['lines']))
            good = r['st'] == 'ok' and is_partition(m, r['f2c']) and valid_indexed(r['lidx'], r['lines']) \
                and all(x <= max(r['f2c']) for x in r['lines'])
            if not good or not on or not r['lines'] or m['n'] < 2:
                done.append(hist)
                continue
            m2 = coarse(m, r['f2c'])
            c2 = gen.settings(rng, m2)
            c2.update(aniso=True, build=False, lines=unindexed(r['lidx'], r['lines']),
                      odd=rng.random() < 0.7, maxc=rng.choice([-1, -1, -1, 2, 3, 4]))
            nxt.append((m2, c2, hist))
        cur = nxt
    done += [h for _, _, h in cur]
    recs = [{'levels': h} for h in done if h]
    for r in recs:
        ctx.count('chains of %d levels' % len(r['levels']))
    ctx.samples.append({'first level': recs[-1]['levels'][0]})
    return [Job('levels', 'TraceLevels', recs, invs=['C07'])]


def c24(ctx):
    ctx.build('api')
    rng, sc, lines = ctx.rng, [], []
    n = ctx.n(3000)
    while len(sc) < n:
        m, c = gen.scenario(rng, 2, rng.choice([40] * 84 + [120] * 15 + [400]))
        if c['maxc'] == 1:
            c['maxc'] = 2
        if rng.random() < 0.1:
            c['iter'] = gen.lookahead(rng, m, c)
        most = rng.choice([2, 3, 30, 30, 30])
        a = call_args(m, c)
        t = agg_line(len(sc), a, types=rng.choice([0, 0, 3])).split(' ')
        t[0] = 'H'
        # the variant and the initial content of the output are not read
        lines.append(' '.join(t[:-2] + [str(most), harness.num(c['build'] and rng.random() < 0.4)]))
        sc.append((m, c, most))
    res = ctx.run('api', lines)
    recs = []
    for (m, c, most), r in zip(sc, res):
        if r is None:
            continue
        lv = []
        if r['st'] == 'ok':
            u = m['sc']
            for k, f2c in enumerate(r['f2cs']):
                x = {'f2c': f2c, 'lidx': r['lidxs'][k], 'lines': r['liness'][k],
                     'adj': [], 'w': [], 'vol': [], 'prio': [], 'bnd': []}
                if k < len(r['rps']):
                    w = [whole(y, u['w']) for y in r['ws'][k]]
                    col = [y + 1 for y in r['cols'][k]]
                    rp = r['rps'][k]
                    x.update(adj=[col[a:b] for a, b in zip(rp, rp[1:])], w=[w[a:b] for a, b in zip(rp, rp[1:])],
                             vol=[whole(y, u['vol']) for y in r['vols'][k]],
                             prio=[whole(y, u['prio'], u['off']) for y in r['prios'][k]], bnd=r['bnds'][k])
                lv.append(x)
        ctx.count('hierarchies of %d levels' % len(lv))
        recs.append({'m': tmesh(m), 'st': r['st'], 'most': most, 'levels': lv, 'c': c})
    ctx.samples.append(recs[-1])
    return [Job('hierarchies', 'TraceHier', recs, invs=['C24']), large_levels(ctx)]


def large_levels(ctx):
    ctx.build('apiopt')
    rng, sc, lines = ctx.rng, [], []
    for k in range(ctx.few(1)):
        m = gen.huge(rng, rng.randint(134000, 140000), rng.choice(['plane', 'space']))
        m['sc'] = dict.fromkeys(m['sc'], 0)
        c = gen.settings(rng, m, min=2, goal=2, max=rng.choice([2, 3]))
        t = agg_line(k, call_args(m, c)).split(' ')
        t[0] = 'H'
        lines.append(' '.join(t[:-2] + ['2', '0']))
        sc.append((m, c))
    recs = []
    for (m, c), r in zip(sc, ctx.run('apiopt', lines, 150)):
        if r is None:
            continue
        lv, h = [], None
        if r['st'] == 'ok':
            for k, f2c in enumerate(r['f2cs']):
                h = f2c if h is None else [f2c[x] if x < len(f2c) else -1 for x in h]
                w = [whole(y) for y in r['ws'][k]]
                col = [y + 1 for y in r['cols'][k]]
                rp = r['rps'][k]
                lv.append(dict({'f2c': f2c, 'adj': [col[a:b] for a, b in zip(rp, rp[1:])],
                                'w': [w[a:b] for a, b in zip(rp, rp[1:])], 'vol': [whole(y) for y in r['vols'][k]],
                                'prio': [whole(y) for y in r['prios'][k]], 'bnd': r['bnds'][k]},
                               **listing(h, m['n'])))
        ctx.count('large hierarchies')
        recs.append({'m': tmesh(m), 'st': r['st'], 'levels': lv})
    return Job('large meshes', 'TraceLarge', recs, invs=['C24'])


# ---------------------------------------------------------------- utilities --
def whole(x, exp=0, off=0):
    """An exact integer in units of 2^exp, or something wrong."""
    if isinstance(x, str) or x != x:
        return BIG
    x = (x - off) * 2.0 ** -exp
    if abs(x) > 2e9 or x != int(x):
        return BIG
    return int(x)


def coarse_answer(r, n, sc):
    """The coarse graph given by the library, as in CoarseMesh."""
    g = {'st': r['st'], 'adj': [], 'w': [], 'vol': [], 'sum': [], 'prio': [], 'bnd': []}
    if r['st'] != 'ok':
        return g
    rp, col = r['rp'], r['col']
    sizes = {len(rp) - 1, len(r['vol']), len(r['cen']), len(r['prio']), len(r['bnd'])}
    if sizes != {n} or rp[0] != 0 or rp[-1] != len(col) or len(r['w']) != len(col) \
            or any(a > b for a, b in zip(rp, rp[1:])):
        g['st'] = 'sizes'
        return g
    for a, b in zip(rp, rp[1:]):
        g['adj'].append([x + 1 for x in col[a:b]])
        g['w'].append([whole(x, sc['w']) for x in r['w'][a:b]])
    g['vol'] = [whole(x, sc['vol']) for x in r['vol']]
    g['prio'] = [whole(x, sc['prio'], sc['off']) for x in r['prio']]
    g['bnd'] = [whole(x) for x in r['bnd']]
    for c, v in zip(r['cen'], r['vol']):
        s = []
        for x in c:
            y = x * v * 2.0 ** -(sc['vol'] + sc['cen']) if not isinstance(x, str) and not isinstance(v, str) \
                else float('nan')
            s.append(int(round(y)) if y == y and abs(y) < 1e9 and abs(y - round(y)) < 1e-6 else BIG)
        g['sum'].append(s)
    return g


GRAPH = ('rp', 'col', 'w', 'vol', 'cen', 'prio', 'bnd')


def graph_line(k, ty, f2c, a, junk):
    return ' '.join(['G', str(k), str(ty), V(f2c), V(a['rp']), V(a['col']), V(a['w']), V(a['vol']),
                     VV(a['cen']), V(a['prio']), V(a['bnd']), str(junk)])


def random_partition(rng, m):
    style = rng.choice(['any', 'any', 'blocks', 'one', 'all'])
    n = m['n']
    if style == 'one':
        f = [0] * n
    elif style == 'all':
        f = list(range(n))
        rng.shuffle(f)
    elif style == 'any':
        k = rng.randint(1, n)
        f = [rng.randrange(k) for _ in range(n)]
    else:
        f = [None] * n
        cur = 0
        for x in range(n):
            if f[x] is None:
                f[x] = cur
                for y in m['adj'][x]:
                    if f[y - 1] is None and rng.random() < 0.5:
                        f[y - 1] = cur
                cur += 1
    ids = sorted(set(f))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    ids = {x: k for k, x in enumerate(ids)}
    return [ids[x] for x in f]


def large_values(rng, m):
    """Data using more digits than single precision has (sums below 2^31)."""
    m['w'] = [[rng.randint(2 ** 24, 2 ** 24 + 2 ** 22) for _ in a] for a in m['w']]
    m['vol'] = [rng.randint(2 ** 24, 2 ** 25) for _ in m['vol']]
    m['cen'] = [[rng.randint(-2, 2) for _ in x] for x in m['cen']]
    m['prio'] = [rng.randint(2 ** 25, 2 ** 25 + 5) for _ in m['prio']]


def c12(ctx):
    ctx.build('api', 'py')
    rng = ctx.rng
    cur = []
    for _ in range(ctx.n(3500)):
        m = gen.mesh(rng, 1, 24, scale=False) if rng.random() < 0.99 else gen.mesh(rng, 80, 300, scale=False)
        if m['n'] <= 12 and rng.random() < 0.3:
            large_values(rng, m)
            ctx.count('large values')
        elif rng.random() < 0.3:
            m['w'] = [[rng.randint(1, 9) for _ in a] for a in m['w']]
        if rng.random() < 0.1:
            # faces of no area
            m['w'] = [[rng.choice([0, 0, v]) for v in a] for a in m['w']]
        f = random_partition(rng, m)
        u = harness.data(m)
        rp, col, w = csr(u)
        a = dict(rp=rp, col=col, w=w, vol=u['vol'], cen=u['cen'], prio=u['prio'], bnd=m['bnd'])
        cur.append((m, f, f, a))
    recs = []
    for level in range(3):
        lines = [graph_line(k, rng.choice([0, 0, 1]), step, a, rng.choice([0, 3, 50]))
                 for k, (m, f, step, a) in enumerate(cur)]
        res = ctx.run('api', lines)
        part = [x for x in cur if rng.random() < 0.2]
        pres = run_python(ctx, [py_call(rng, 'build_coarse_graph', [step] + [a[x] for x in GRAPH])
                                for m, f, step, a in part])
        recs += [{'m': tmesh(m), 'f2c': f, 'g': coarse_answer(r, max(f) + 1, m['sc'])}
                 for (m, f, step, a), r in zip(part, pres) if r is not None]
        nxt = []
        for (m, f, step, a), r in zip(cur, res):
            if r is None:
                continue
            n = max(f) + 1
            recs.append({'m': tmesh(m), 'f2c': f, 'g': coarse_answer(r, n, m['sc'])})
            ctx.count('level %d' % (level + 1))
            if recs[-1]['g']['st'] == 'ok' and n > 1 and not any(isinstance(x, str) for c in r['cen'] for x in c):
                cm = {'n': n, 'adj': recs[-1]['g']['adj']}
                if any(not 1 <= y <= n for z in cm['adj'] for y in z):
                    continue
                step2 = random_partition(rng, cm)
                nxt.append((m, [step2[x] for x in f], step2,
                            dict(rp=r['rp'], col=r['col'], w=[float(x) for x in r['w']], vol=r['vol'],
                                 cen=[[float(x) for x in c] for c in r['cen']], prio=r['prio'], bnd=r['bnd'])))
        cur = nxt
    ctx.samples.append(recs[0])
    return [Job('coarse graphs', 'TraceUtil', recs, invs=['C12']), large_graphs(ctx)]


def large_graphs(ctx):
    ctx.build('apiopt')
    rng, sc, lines = ctx.rng, [], []
    for k in range(ctx.few(1)):
        m = gen.huge(rng, rng.randint(134000, 140000), rng.choice(['plane', 'space']))
        m['sc'] = dict.fromkeys(m['sc'], 0)
        f, cur = [None] * m['n'], 0
        for x in range(m['n']):   # pairs of neighbours
            if f[x] is None:
                f[x] = cur
                for y in m['adj'][x]:
                    if f[y - 1] is None:
                        f[y - 1] = cur
                        break
                cur += 1
        ids = list(range(cur))
        rng.shuffle(ids)
        f = [ids[x] for x in f]
        rp, col, w = csr(m)
        lines.append(graph_line(k, 0, f, dict(m, rp=rp, col=col, w=w), 3))
        sc.append((m, f))
        ctx.count('coarse cells of large meshes', cur)
    recs = [dict({'m': tmesh(m), 'f2c': f, 'g': coarse_answer(r, max(f) + 1, m['sc'])}, **listing(f, m['n']))
            for (m, f), r in zip(sc, ctx.run('apiopt', lines, 100)) if r is not None]
    return Job('large meshes', 'TraceLarge', recs, invs=['C12'])


def c13(ctx):
    ctx.build('api', 'py')
    rng, sc, lines, part, calls = ctx.rng, [], [], [], []
    for k in range(ctx.n(8000)):
        r = rng.random()
        m = gen.mesh(rng, 1, 30, scale=False) if r < 0.975 else gen.mesh(rng, 80, 200, scale=False) if r < 0.998 \
            else gen.chain(rng, rng.randint(250, 400))
        wall = [x for x in range(1, m['n'] + 1) if rng.random() < rng.choice([0, 0.05, 0.2, 0.5, 1])]
        if m['kind'] == 'chain':
            wall = [rng.choice([1, 2, m['n']])]
        rng.shuffle(wall)
        rp, col, _ = csr(m)
        w = [x - 1 for x in wall]
        lines.append(' '.join(['W', str(k), str(rng.randrange(2)), V(rp), V(col), V(w),
                               str(rng.choice([0, 0, 5, m['n'], 300]))]))
        sc.append((m, wall))
        if rng.random() < 0.15:
            part.append((m, wall))
            calls.append(py_call(rng, 'compute_neighbourhood_based_wall_distance', [rp, col, w]))
    res = ctx.run('api', lines) + run_python(ctx, calls)
    recs = []
    for (m, wall), r in zip(sc + part, res):
        if r is None:
            continue
        d = [whole(x) for x in r.get('dist', [])]
        recs.append({'m': slim(m), 'wall': wall, 'd': {'st': r['st'], 'dist': d}})
        ctx.count('walls empty' if not wall else 'walls')
        ctx.count('unreachable cells', sum(1 for x in d if x < 0))
    ctx.samples.append(recs[0])
    return [Job('wall distances', 'TraceUtil', recs, invs=['C13']), large_walls(ctx)]


def large_walls(ctx):
    ctx.build('apiopt')
    rng, sc, lines = ctx.rng, [], []
    for k in range(ctx.few(2)):
        m = gen.chain(rng, rng.randint(66000, 70000)) if k % 2 == 0 else gen.huge(rng, 40000)
        if k % 2 == 0:   # one end: distances beyond 65536
            wall = [min(x + 1 for x in range(m['n']) if len(m['adj'][x]) == 1)]
        else:
            wall = rng.sample(range(1, m['n'] + 1), rng.choice([1, 5, 50]))
        rp, col, _ = csr(m)
        lines.append(' '.join(['W', str(k), '0', V(rp), V(col), V([x - 1 for x in wall]), '0']))
        sc.append((m, wall))
        ctx.count('large meshes')
    recs = [{'m': slim(m), 'wall': wall, 'd': {'st': r['st'], 'dist': [max(-1, whole(x)) for x in r.get('dist', [])]}}
            for (m, wall), r in zip(sc, ctx.run('apiopt', lines, 100)) if r is not None]
    return Job('large meshes', 'TraceLarge', recs, invs=['C13'])


def c14(ctx):
    ctx.build('api', 'py')
    rng, sc, lines, part, calls = ctx.rng, [], [], [], []
    for k in range(ctx.n(8000)):
        m = gen.mesh(rng, 1, 30, scale=False) if rng.random() < 0.99 else gen.mesh(rng, 250, 400, scale=False)
        if rng.random() < 0.3:
            m['bnd'] = [rng.randint(0, 6) for _ in m['bnd']]
        al = sorted({rng.randint(-2, 10) for _ in range(rng.randint(0, 5))})
        if rng.random() < 0.03:
            al = sorted({rng.randint(-2, 60) for _ in range(rng.randint(10, 40))})
        rp, _, _ = csr(m)
        lines.append(' '.join(['F', str(k), str(rng.randrange(2)), V(rp), V(m['bnd']), V(al),
                               str(rng.choice([0, 0, 3, 60]))]))
        sc.append((m, al))
        if rng.random() < 0.15:
            part.append((m, al))
            calls.append(py_call(rng, 'filter_cells_by_n_edges', [rp, m['bnd'], al]))
    res = ctx.run('api', lines) + run_python(ctx, calls)
    recs = []
    for (m, al), r in zip(sc + part, res):
        if r is None:
            continue
        cells = [x + 1 for x in r.get('cells', [])]
        recs.append({'m': dict(slim(m), bnd=m['bnd']), 'allowed': al, 'f': {'st': r['st'], 'cells': cells}})
        ctx.count('cells kept', len(cells))
    ctx.samples.append(recs[0])
    return [Job('filters', 'TraceUtil', recs, invs=['C14']), large_filters(ctx)]


def large_filters(ctx):
    """Cells with hundreds or tens of thousands of faces, and large meshes."""
    ctx.build('apiopt')
    rng, sc, lines = ctx.rng, [], []
    for k in range(ctx.few(4)):
        if k % 4 == 3:
            m = gen.huge(rng, 70000)
            al = sorted(rng.sample(range(0, 7), 3))
        else:
            sizes = [rng.choice([70000, 40000, 66000])] if k % 4 == 0 else [rng.randint(200, 700) for _ in range(12)]
            m = {'n': 0, 'dim': 2, 'adj': [], 'bnd': []}
            for d in sizes:   # a star
                o = m['n']
                m['adj'].append([o + 2 + j for j in range(d)])
                m['adj'] += [[o + 1] for _ in range(d)]
                m['n'] += d + 1
            m['bnd'] = [rng.choice([0, 0, 1, 2]) for _ in range(m['n'])]
            hubs = [len(a) + b for a, b in zip(m['adj'], m['bnd']) if len(a) > 100]
            al = sorted({x for x in hubs if rng.random() < 0.5}
                        | {x % y for x in hubs for y in (128, 256, 32768, 65536) if rng.random() < 0.5})
        rp = [0]
        for a in m['adj']:
            rp.append(rp[-1] + len(a))
        lines.append(' '.join(['F', str(k), '0', V(rp), V(m['bnd']), V(al), '0']))
        sc.append((m, al))
        ctx.count('large meshes')
    recs = [{'m': dict(slim(m), bnd=m['bnd']), 'allowed': al,
             'f': {'st': r['st'], 'cells': [x + 1 for x in r.get('cells', [])]}}
            for (m, al), r in zip(sc, ctx.run('apiopt', lines, 100)) if r is not None]
    return Job('large meshes', 'TraceLarge', recs, invs=['C14'])


def inverse(x, exp):
    """An integer whose inverse, in units of 2^exp, is x."""
    if isinstance(x, str) or x < 0:
        return BIG
    if x == 0:
        return 0
    y = 2.0 ** -exp / x
    return int(round(y)) if y < 1e9 and abs(y - round(y)) < 1e-6 else BIG


def c23(ctx):
    ctx.build('cls')
    rng, sc, lines = ctx.rng, [], []
    while len(sc) < ctx.n(5000):
        r = rng.random()
        m = gen.mesh(rng, 1, 24) if r < 0.7 else gen.finish(rng, gen.layered(rng, 30)) if r < 0.99 \
            else gen.mesh(rng, 60, 150)
        if len(sc) < ctx.few(4):
            m = gen.hub(rng, rng.randint(130, 300))
        m['bnd'] = [min(b, m['dim']) for b in m['bnd']]
        cells = list(range(1, m['n'] + 1))
        some = [[x for x in cells if rng.random() < rng.choice([0.1, 0.3, 0.6])] for _ in range(3)]
        if rng.random() < 0.6:
            # a connected set
            s = [rng.choice(cells)]
            for _ in range(rng.randint(0, 7)):
                fr = [y for z in s for y in m['adj'][z - 1] if y not in s]
                if fr:
                    s.append(rng.choice(fr))
            some[0] = s
        frm = rng.choice([[rng.choice(cells)], some[0] or [1]])
        taken = [x for x in some[1] if x not in frm]
        c = gen.with_built(rng, m, gen.settings(rng, m))
        if not gen.exact_lines(m, c['thr']) and c['coup'] == 1:
            continue
        if 0 <= c['thr'][0] <= c['thr'][1]:
            c['thr'] = [3, 1]
        depth, card = rng.choice([0, 1, 1, 2, 2, 3, 4, 6]), rng.choice([2, 3, 4, 8, 12, 30])
        lines.append(' '.join(['GRAPH', str(len(sc)), mesh_line(m, c['comp']), V([x - 1 for x in some[0]]),
                               V([x - 1 for x in taken]), V([x - 1 for x in frm]), str(depth), str(card),
                               harness.num(float(c['thr'][0] / c['thr'][1])), str(c['coup'])]))
        sc.append((m, {'set': some[0], 'taken': taken, 'from': frm, 'depth': depth, 'card': card,
                       'p': {k: c[k] for k in ('comp', 'thr', 'coup', 'force', 'odd', 'maxc')}}))
    res = ctx.run('cls', lines)
    recs = []
    for (m, a), r in zip(sc, res):
        if r is None:
            continue
        g = {'st': r['st']}
        if r['st'] == 'ok':
            u = m['sc']
            g.update({k: r.get(k) for k in ('same', 'deg', 'bnd', 'tot', 'on', 'cpt', 'mincpt', 'ord', 'depth', 'conn',
                                            'flag', 'scpt', 'scard', 'sconn')})
            for k in ('nbs', 'snbs'):
                g[k] = [[x + 1 for x in y] for y in r.get(k, [])]
            for k in ('ws', 'sws'):
                g[k] = [[whole(x, u['w']) for x in y] for y in r.get(k, [])]
            for k in ('ebw', 'etw'):
                g[k] = [whole(x, u['w']) for x in r[k]]
            for k in ('around', 'seeds', 'smap'):
                g[k] = [x + 1 for x in r.get(k, [])]
            g['svol'] = [whole(x, u['vol']) for x in r.get('svol', [])]
            near = a['p']['coup'] == 1
            g['strong'] = [([1, inverse(x, 2 * u['cen'])] if near and x != 0 else [whole(x, u['w']), 1])
                           for x in r['mw']]
            g['alt'] = []
            if near:
                al = [inverse(x, 2 * u['cen']) for x in r['alt']]
                for nb in m['adj']:
                    g['alt'].append(al[:len(nb)])
                    al = al[len(nb):]
            g = {k: v for k, v in g.items() if v is not None}
            ctx.count('sets connected' if g.get('sconn') else 'other sets')
            ctx.count('graphs connected' if g['conn'][0] else 'other graphs')
            ctx.count('anisotropic cells', len(g['seeds']))
        recs.append(dict(a, m=tmesh(m), g=g))
    ctx.samples.append(recs[0])
    return [Job('queries', 'TraceGraph', recs, invs=['C23']), large_queries(ctx)]


def distances(m, x):
    d = [-1] * m['n']
    d[x - 1], front = 0, [x]
    while front:
        nxt = []
        for a in front:
            for b in m['adj'][a - 1]:
                if d[b - 1] < 0:
                    d[b - 1] = d[a - 1] + 1
                    nxt.append(b)
        front = nxt
    return d


def large_queries(ctx):
    rng, sc, lines = ctx.rng, [], []
    for k in range(ctx.few(2)):
        m = gen.chain(rng, rng.randint(150000, 200000)) if k % 2 == 0 else gen.huge(rng, 100000, 'plane')
        m['sc'] = dict.fromkeys(m['sc'], 0)
        m['bnd'] = [min(b, m['dim']) for b in m['bnd']]
        if rng.random() < 0.4:   # in two parts
            x = rng.randrange(m['n'])
            for y in m['adj'][x]:
                j = m['adj'][y - 1].index(x + 1)
                del m['adj'][y - 1][j], m['w'][y - 1][j]
            m['adj'][x], m['w'][x] = [], []
        lines.append(' '.join(['GRAPH', str(k), mesh_line(m), V([0]), V([]), V([1]), '2', '4', '3.0', '0']))
        sc.append(m)
        ctx.count('large meshes')
    recs = []
    for m, r in zip(sc, ctx.run('cls', lines, 100)):
        if r is None:
            continue
        g = {'st': r['st']}
        if r['st'] == 'ok':
            g.update({k: r[k] for k in ('conn', 'deg', 'bnd', 'tot')})
            g['nbs'] = [[x + 1 for x in y] for y in r['nbs']]
            g['ws'] = [[whole(x) for x in y] for y in r['ws']]
        recs.append({'m': {k: m[k] for k in ('n', 'adj', 'w', 'bnd')}, 'dist': distances(m, 1), 'g': g})
    return Job('large meshes', 'TraceLarge', recs, invs=['C23'])


# ------------------------------------------------------------------ requests --
def valid_args(a):
    rp = a['rp']
    return {'dim': a['dim'], 'goal': a['goal'], 'min': a['min'], 'max': a['max'], 'iter': a['iter'],
            'rp': rp, 'ncol': len(a['col']), 'nw': len(a['w']), 'aniso': bool(a['aniso']),
            'build': bool(a['build']), 'lidx': a['lidx'], 'nlines': len(a['lines']), 'sing': a['sing'],
            'seeds': a['seeds'], 'ar': a['ar']}


def spoil(rng, a):
    """Change some arguments, maybe making them invalid."""
    k = rng.choice(['dim', 'min', 'goal', 'max', 'cards', 'iter', 'rp', 'rp+', 'col', 'w', 'lidx', 'lines',
                    'sing', 'seeds', 'ar', 'nothing'])
    if k == 'dim':
        a['dim'] = rng.choice([-1, 0, 1, 2, 3, 4, 5])
    elif k in ('min', 'goal', 'max'):
        a[k] = rng.choice([-2, 0, 1, 2, 3, 4, 9])
    elif k == 'cards':
        a['min'], a['goal'], a['max'] = (rng.randint(0, 6) for _ in range(3))
    elif k == 'iter':
        a['iter'] = rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 100])
    elif k == 'rp':
        if rng.random() < 0.4:
            a['rp'] = []
        else:
            a['rp'] = a['rp'][:-1] + [a['rp'][-1] + rng.choice([1, 2, 7])] if a['rp'] else []
    elif k == 'rp+' and len(a['rp']) > 1:
        a['rp'] = a['rp'][:-1]
    elif k == 'col':
        a['col'] = a['col'][:-1] if rng.random() < 0.5 else a['col'] + [0]
    elif k == 'w':
        a['w'] = a['w'][:-1] if rng.random() < 0.5 else a['w'] + [1]
    elif k == 'lidx' and a['lidx']:
        a['lidx'] = a['lidx'][:-1] + [a['lidx'][-1] + rng.choice([1, -1, 3])]
        if a['lidx'][-1] < 0:
            a['lidx'][-1] = 1
    elif k == 'lines' and a['lines']:
        a['lines'] = a['lines'][:-1] if rng.random() < 0.5 else a['lines'] + [0]
    elif k == 'sing':
        a['sing'] = rng.choice([-3, -1, 0, 1, 2, 9, 100])
    elif k == 'seeds':
        a['seeds'] = rng.choice([-1, 2, 3, 5, 9, 12, 100, 0, 1, 10, 11])
    elif k == 'ar':
        a['ar'] = rng.choice([-1, 10, 11, 50, 0, 3, 9])


def accepted(v):
    """Used only to know what can be executed; the verdict is in Requests.tla."""
    return (v['dim'] in (2, 3) and min(v['min'], v['goal'], v['max']) > 1 and v['min'] <= v['goal'] <= v['max']
            and 1 <= v['iter'] <= 4 and v['rp'] and v['rp'][-1] == v['ncol'] == v['nw'] and v['sing'] > 0
            and v['seeds'] in (0, 1, 10, 11) and 0 <= v['ar'] <= 9
            and not (v['aniso'] and not v['build'] and len(v['lidx']) >= 2 and v['nlines'] > 0
                     and v['lidx'][-1] != v['nlines']))


def sane(m, a):
    """Accepted requests must also describe a mesh."""
    n = m['n']
    if len(a['rp']) != n + 1 or a['rp'] != csr(m)[0] or a['col'] != csr(m)[1] or len(a['w']) != len(a['col']):
        return False
    if a['aniso'] and not a['build'] and a['lidx']:
        if len(set(a['lines'])) != len(a['lines']) or any(p > q for p, q in zip(a['lidx'], a['lidx'][1:])):
            return False
    if a['dim'] != m['dim']:
        return False
    return True


def c11(ctx):
    ctx.build('api', 'py')
    rng, sc, lines, part, calls = ctx.rng, [], [], [], []

    def add(a, variant=0):
        lines.append(agg_line(len(lines), a, variant=variant, junk=[7, 8, 9]))
        return len(lines) - 1
    while len(sc) < ctx.n(9000):
        m, c = gen.scenario(rng, 1, 14)
        a = call_args(m, c)
        same = []
        r = rng.random()
        if r < 0.75:
            for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
                spoil(rng, a)
            v = valid_args(a)
            # Aspect ratios are refused after the lines have been built
            if accepted(dict(v, ar=0)) and not sane(m, a):
                continue
        elif r < 0.8:     # lines missing
            a.update(aniso=True, build=False)
            a['lidx'], a['lines'] = rng.choice([([], []), ([0], []), ([], [0]), ([0], [0]), ([0, 0], [])])
            same.append(dict(a, aniso=False))
        elif r < 0.87:    # threshold too large
            a['sing'] = a['min'] + rng.randint(0, 3)
            a['corr'] = True
            same.append(dict(a, sing=a['min'] - 1))
        elif r < 0.93:    # null limit
            m, c = gen.lines_scenario(rng, 20)
            a = call_args(m, c)
            a['maxc'] = 0
            same.append(dict(a, maxc=-1000))
        else:             # unknown coupling
            m, c = gen.lines_scenario(rng, 20)
            a = call_args(m, c)
            a['coup'] = rng.choice([2, 3, -1, 50])
            same.append(dict(a, coup=0))
        v = valid_args(a)
        sc.append((v, add(a, rng.choice([0, 0, 0, 1])), [add(s) for s in same]))
        if rng.random() < 0.15 and (a['maxc'] >= 0 or a['maxc'] == -1000) \
                and all(x >= 0 for k in ('rp', 'col', 'comp', 'lidx', 'lines') for x in a[k]):
            part.append((v, sc[-1][2]))
            calls.append(py_agg(rng, a))
    res = ctx.run('api', lines)
    recs = []
    for (v, same), r in zip(part, run_python(ctx, calls)):
        if r is not None and all(res[s] is not None for s in same):
            recs.append({'a': v, 'r': dict(answer(r), f2ckept=True), 'same': [answer(res[s]) for s in same]})
    for v, k, same in sc:
        if res[k] is None or any(res[s] is None for s in same):
            continue
        ctx.count('accepted' if accepted(v) else 'to be refused')
        r = dict(answer(res[k]), f2ckept=res[k]['f2ckept'])
        recs.append({'a': v, 'r': r, 'same': [answer(res[s]) for s in same]})
    ctx.samples.append(recs[0])
    return [Job('requests', 'TraceReq', recs, invs=['C11'])]


PYDRV = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
import CoMMA
skip = int(sys.argv[4])
fin, fout = open(sys.argv[2]), open(sys.argv[3], 'a')
NAMES = {
    'agglomerate_one_level': [
        'adjMatrix_row_ptr', 'adjMatrix_col_ind', 'adjMatrix_areaValues', 'volumes', 'centers',
        'priority_weights', 'anisotropicCompliantCells', 'n_bnd_faces', 'build_anisotropic_lines',
        'is_anisotropic', 'odd_line_length', 'threshold_anisotropy', 'seed_ordering_type',
        'agglomerationLines_Idx', 'agglomerationLines', 'correction', 'dimension', 'goal_card', 'min_card',
        'max_card', 'aspect_ratio', 'singular_card_thresh', 'max_cells_in_line', 'aniso_cell_coupling',
        'force_line_direction', 'fc_choice_iter', 'type_of_isotropic_agglomeration'],
    'build_coarse_graph': ['f2c', 'f_adj_idx', 'f_adj', 'f_weights', 'f_volumes', 'f_centers', 'f_priority',
                           'f_n_bnd'],
    'compute_neighbourhood_based_wall_distance': ['neigh_idxs', 'neighs', 'wall'],
    'filter_cells_by_n_edges': ['indices', 'n_bnd_face', 'allowed']}
ENUMS = {
    'seed_ordering_type': ('SeedsPool', ['BOUNDARY', 'NEIGHBOURHOOD', 'BOUNDARY_POINT_INIT',
                                         'NEIGHBOURHOOD_POINT_INIT'], [0, 1, 10, 11]),
    'aspect_ratio': ('AR', ['DIAMETER_OVER_RADIUS', 'DIAMETER_OVER_MIN_EDGE', 'DIAMETER', 'ONE_OVER_MEASURE',
                            'ONE_OVER_INTERNAL_WEIGHTS', 'PERIMETER_OVER_RADIUS', 'EXTERNAL_WEIGHTS',
                            'MAX_BARY_DIST_OVER_RADIUS', 'MAX_OVER_MIN_BARY_DIST',
                            'ALGEBRAIC_PERIMETER_OVER_MEASURE'], list(range(10))),
    'aniso_cell_coupling': ('CellCoupling', ['MAX_WEIGHT', 'MIN_DISTANCE'], [0, 1]),
    'type_of_isotropic_agglomeration': ('Neighbourhood', ['EXTENDED', 'PURE_FRONT'], [0, 1])}
for k, ln in enumerate(fin):
    if k < skip:
        continue
    d = json.loads(ln)
    args, names = d['args'], NAMES[d['f']]
    before = json.dumps(args)
    call = list(args)
    if d['f'] == 'filter_cells_by_n_edges':
        call[2] = set(call[2])
    if d['enums']:
        for j, x in enumerate(call):
            if names[j] in ENUMS:
                e, keys, vals = ENUMS[names[j]]
                if x in vals:
                    call[j] = getattr(getattr(CoMMA, e), keys[vals.index(x)])
    try:
        if d['named']:
            r = getattr(CoMMA, d['f'])(**dict(zip(names, call)))
        else:
            r = getattr(CoMMA, d['f'])(*call)
        r = {'st': 'ok', 'r': r}
    except ValueError as e:
        r = {'st': 'inv'}
    except Exception as e:
        r = {'st': 'exc', 'msg': str(e)[:200]}
    r['kept'] = json.dumps(args) == before
    r['id'] = d['id']
    fout.write(json.dumps(r) + '\n')
    fout.flush()
'''


def py_call(rng, f, args):
    """A call of the Python function f, by position or by name."""
    return {'f': f, 'args': args, 'named': rng.random() < 0.4, 'enums': rng.random() < 0.4}


def py_agg(rng, a, defaults=False):
    args = [a['rp'], a['col'], a['w'], a['vol'], a['cen'], a['prio'], a['comp'], a['bnd'], a['build'],
            a['aniso'], a['odd'], a['thr'], a['seeds'], a['lidx'], a['lines'], a['corr'], a['dim'], a['goal'],
            a['min'], a['max']]
    if not defaults:
        args += [a['ar'], a['sing'], None if a['maxc'] < 0 else a['maxc'], a['coup'], a['force'], a['iter'],
                 a['nb']]
    return py_call(rng, 'agglomerate_one_level', args)


def run_python(ctx, items):
    import os
    import subprocess
    import sys
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='comma-py-')
    res = [None] * len(items)
    try:
        with open(tmp + '/drv.py', 'w') as f:
            f.write(PYDRV)
        with open(tmp + '/in', 'w') as f:
            for k, d in enumerate(items):
                f.write(json.dumps(dict(d, id=k)) + '\n')
        skip = 0
        while skip < len(items):
            if os.path.exists(tmp + '/out'):
                os.unlink(tmp + '/out')
            try:
                p = subprocess.run([sys.executable, tmp + '/drv.py', ctx.dir, tmp + '/in', tmp + '/out', str(skip)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200,
                                   preexec_fn=harness.limited)
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired:
                rc, err = -99, ''
            got = 0
            if os.path.exists(tmp + '/out'):
                for ln in open(tmp + '/out'):
                    try:
                        r = json.loads(ln)
                    except ValueError:
                        break
                    res[r['id']] = py_answer(items[r['id']], r)
                    got += 1
            if rc == 0:
                break
            if rc > 0 or got == 0 and skip == 0 and 'Import' in err:
                raise harness.HarnessError('Python driver: ' + err[-500:])
            res[skip + got] = py_answer(items[skip + got], {'st': 'crash', 'kept': True})
            skip += got + 1
            if skip > 20 and got == 0:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.count('python calls', sum(1 for r in res if r is not None))
    return res


def py_answer(d, r):
    """The answer of the Python function with the names used by the drivers."""
    out = {'st': r['st'], 'kept': r['kept']}
    if d['f'] == 'agglomerate_one_level':
        if r['st'] == 'ok':
            out['f2c'], out['lidx'], out['lines'] = [list(x) for x in r['r']]
        out['lineskept'] = out.get('lidx') == d['args'][13] and out.get('lines') == d['args'][14]
        return norm(out)
    if r['st'] == 'ok':
        if d['f'] == 'build_coarse_graph':
            out.update(zip(('rp', 'col', 'w', 'vol', 'cen', 'prio', 'bnd'), r['r']))
        else:
            out['dist' if d['f'].startswith('compute') else 'cells'] = r['r']
    return out


def c15(ctx):
    ctx.build('api', 'apiopt', 'py')
    rng = ctx.rng
    reqs = requests(ctx, ctx.n(2500), hi=20, lookahead=0.2, big=ctx.n(8))
    jobs, pyitems, opt = [], [], []     # (request, line without id)
    groups = []
    for q, (m, c) in enumerate(reqs):
        built = rng.random() < 0.12
        if built:
            # lines built with the default settings
            m, c = gen.lines_scenario(rng, 40)
            c = dict(c, aniso=True, lines=[], comp=list(range(1, m['n'] + 1)))
        a = call_args(m, c)
        dft = built or rng.random() < 0.35
        if dft:
            a.update(ar=0, sing=1, maxc=-1000, coup=0, force=True, iter=1, nb=0, build=True, odd=True, thr=4.0)
        if rng.random() < 0.4 and not a['aniso']:
            # content of the lines arguments when lines are not requested
            a['lidx'], a['lines'] = rng.choice([([], []), ([5, 6], [1]), ([0, 2], [0, 1]), ([3], []), ([], [1, 0]),
                                                ([0], [2]), ([0, 0, 0], []), ([0, 1, 2, 9], [7, 8, 9])])
        on = a['aniso'] and (a['build'] or (len(a['lidx']) >= 2 and len(a['lines']) > 0))
        groups.append((m, a, on))
        junk = [rng.randrange(100) for _ in range(rng.choice([0, 3, m['n'], 60]))]
        jobs.append((q, a, 0, []))
        jobs.append((q, a, 0, junk))
        jobs.append((q, a, 1, junk))
        if dft:
            jobs.append((q, a, 2, junk))
            jobs.append((q, a, 3, []))
        opt.append((q, a, rng.choice([0, 1]), junk))
        pyitems.append(py_agg(rng, a, dft and rng.random() < 0.5))
    rng.shuffle(jobs)
    rng.shuffle(opt)
    res = ctx.run('api', [agg_line(k, a, variant=v, junk=j) for k, (q, a, v, j) in enumerate(jobs)])
    ores = ctx.run('apiopt', [agg_line(k, a, variant=v, junk=j) for k, (q, a, v, j) in enumerate(opt)])
    pres = run_python(ctx, pyitems)
    rs = [[] for _ in groups]
    for (q, a, v, j), r in list(zip(jobs, res)) + list(zip(opt, ores)):
        if r is not None:
            rs[q].append(dict(answer(r), kept=r['kept'], lineskept=r['lineskept'], how='variant %d' % v))
    for q, r in enumerate(pres):
        if r is not None:
            rs[q].append(dict(answer(r), kept=r['kept'], lineskept=r['lineskept'], how='python'))
    recs = [{'a': {k: v for k, v in a.items() if k not in ('thr', 'cen')}, 'on': bool(on), 'rs': x}
            for (m, a, on), x in zip(groups, rs) if len(x) > 1]
    return [Job('repeated requests', 'TraceReq', recs, invs=['C15'])]


def unit(rng, m, k):
    if rng.random() < 0.5:
        m['sc'][k] = rng.choice([-40, -20, -7, 0, 12])


def transform(rng, m, c):
    """An equivalent description: mesh, numbering, types."""
    n = m['n']
    inexact = c['ar'] in (7, 8)
    m2 = {k: json.loads(json.dumps(v)) for k, v in m.items()}
    p = list(range(1, n + 1))
    done = []
    for t in rng.sample(['order', 'weights', 'volumes', 'coordinates', 'shift', 'mirror', 'swap', 'priority',
                         'boundary', 'renumber'], rng.choice([1, 1, 1, 2, 3])):
        if t == 'order':
            for x in range(n):
                z = list(zip(m2['adj'][x], m2['w'][x]))
                rng.shuffle(z)
                m2['adj'][x], m2['w'][x] = [a for a, _ in z], [b for _, b in z]
        elif t == 'weights':
            f = rng.choice([2, 4, 3, 5])
            m2['w'] = [[f * y for y in x] for x in m2['w']]
            unit(rng, m2, 'w')
        elif t == 'volumes':
            f = rng.choice([2, 4] if inexact else [2, 3, 7])
            m2['vol'] = [f * x for x in m2['vol']]
            unit(rng, m2, 'vol')
        elif t == 'coordinates':
            f = rng.choice([2, 4] if inexact else [2, 3])
            m2['cen'] = [[f * y for y in x] for x in m2['cen']]
            unit(rng, m2, 'cen')
        elif t == 'shift' and not inexact:
            d = [rng.randint(-30, 30) for _ in range(4)]
            m2['cen'] = [[y + z for y, z in zip(x, d)] for x in m2['cen']]
        elif t == 'mirror':
            ax = rng.randrange(len(m2['cen'][0]))
            for x in m2['cen']:
                x[ax] = -x[ax]
        elif t == 'swap' and not inexact:
            o = list(range(len(m2['cen'][0])))
            rng.shuffle(o)
            m2['cen'] = [[x[k] for k in o] for x in m2['cen']]
        elif t == 'priority':
            vals = sorted(set(m2['prio']))
            lo = rng.randint(-50, 0)
            new = {}
            for v in vals:
                lo += rng.randint(1, 9)
                new[v] = lo
            m2['prio'] = [new[v] for v in m2['prio']]
            m2['sc']['off'] = 0
            unit(rng, m2, 'prio')
        elif t == 'boundary':
            m2['bnd'] = [rng.randint(m['dim'], m['dim'] + 3) if b >= m['dim'] else b for b in m2['bnd']]
        elif t == 'renumber':
            if len(set(m2['prio'])) != n or (c['corr'] and c['sing'] > 1):
                continue
            q = list(range(1, n + 1))
            rng.shuffle(q)
            inv = [0] * n
            for x in range(n):
                inv[q[x] - 1] = x
            m2 = dict(m2, adj=[[q[y - 1] for y in m2['adj'][inv[x]]] for x in range(n)],
                      w=[m2['w'][inv[x]] for x in range(n)],
                      **{k: [m2[k][inv[x]] for x in range(n)] for k in ('vol', 'cen', 'prio', 'bnd')})
            p = [q[x - 1] for x in p]
        else:
            continue
        done.append(t)
    return m2, p, done


def c20(ctx):
    ctx.build('api')
    rng, lines, sc = ctx.rng, [], []

    def add(m, c, ty=0):
        lines.append(agg_line(len(lines), call_args(m, c), types=ty))
        return len(lines) - 1
    for _ in range(ctx.n(3500)):
        m = gen.mesh(rng, 2, 22) if rng.random() < 0.99 else gen.mesh(rng, 80, 200)
        if rng.random() < 0.4:
            m['prio'] = rng.sample(range(-40, max(60, m['n'])), m['n'])
        c = gen.settings(rng, m)
        if c['corr'] and c['sing'] > 1 and rng.random() < 0.5:
            c['sing'] = 1
        ts = []
        for _ in range(rng.choice([1, 2, 3])):
            m2, p, done = transform(rng, m, c)
            ty = rng.choice([0, 0, 1, 2, 3])
            for t in done + (['types'] if ty else []):
                ctx.count(t)
            ts.append((m2, p, done, add(m2, c, ty)))
        sc.append((m, c, add(m, c), ts))
    res = ctx.run('api', lines)
    recs = []
    for m, c, k, ts in sc:
        if res[k] is None or any(res[t[3]] is None for t in ts):
            continue
        recs.append({'m': tmesh(m), 'c': c, 'r': answer(res[k]),
                     'ts': [{'m': tmesh(m2), 'p': p, 'how': done, 'r': answer(res[j])} for m2, p, done, j in ts]})
    ctx.samples.append({'mesh': slim(sc[0][0]), 'settings': sc[0][1]})
    return [Job('equivalent meshes', 'TraceReq', recs, invs=['C20'])]


# ----------------------------------------------------------------- histories --
POOLOPS = {'init': 0, 'choose': 1, 'update': 2, 'ordered': 3, 'settop': 4, 'need': 5, 'taken': 6}


def pool_history(rng, most=None):
    large = most or rng.random() < 0.03
    n = rng.randint(260, most) if most else rng.randint(20, 60) if large else rng.randint(1, 12)
    m = {'n': n, 'dim': 3, 'prio': gen.priorities(rng, n), 'bnd': [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(n)],
         'sc': gen.scales(rng)}
    if rng.random() < 0.2:
        m['bnd'] = [rng.choice([0, 1])] * n
    kind, one = rng.choice('BN'), rng.random() < 0.5
    cells = list(range(1, n + 1))
    ops = []
    if rng.random() < 0.35:
        # as after an agglomeration along lines
        s = [rng.choice(cells) for _ in range(rng.randint(1, 5))]
        ops.append(('taken', [x for x in cells if x not in s and rng.random() < 0.4]))
        ops.append(('settop', [m['bnd'][s[0] - 1]]))
        ops.append(('update', s))
        ops.append(('need', []))
        if rng.random() < 0.5:
            ops.append(('init', []))
    else:
        if rng.random() < 0.3:
            ops.append(('need', []))
        ops.append(('init', []))
    for k in range(most or rng.randint(60, 120) if large else rng.randint(1, 25)):
        r = rng.random()
        if r < (0.9 if k > 150 else 0.45):
            ops.append(('choose', [1 if rng.random() < 0.8 else 0]))
        elif r < 0.6:
            ops.append(('update', [rng.choice(cells) for _ in range(rng.randint(0, rng.choice([4, 90]) if most else 4))]))
        elif r < 0.78:
            ops.append(('ordered', rng.sample(cells, rng.randint(0, min(rng.choice([5, 90]) if most else 5, n)))))
        elif r < 0.88:
            ops.append(('taken', rng.sample(cells, rng.randint(1, min(2, n)))))
        elif r < 0.97:
            ops.append(('need', []))
        else:
            ops.append(('init', []))
    return m, kind, one, ops


def pool_rec(ctx, sc):
    lines = []
    for k, (m, kind, one, ops) in enumerate(sc):
        t = []
        for op, arg in ops:
            shift = 1 if op in ('update', 'ordered', 'taken') else 0
            t += [str(POOLOPS[op]), V([x - shift for x in arg])]
        lines.append(' '.join(['POOL', str(k), str('BN'.index(kind)), harness.num(one), V(m['bnd']),
                               V([x * 2.0 ** m['sc']['prio'] + m['sc']['off'] for x in m['prio']]),
                               str(len(ops))] + t))
    res = ctx.run('cls', lines)
    recs = []
    for (m, kind, one, ops), r in zip(sc, res):
        if r is None:
            continue
        recs.append({'t': 'pool', 'm': m, 'kind': kind, 'one': one, 'st': r['st'],
                     'ops': [{'op': o, 'arg': a} for o, a in ops], 'ans': r.get('ans', [])})
        ctx.count('operations', len(ops))
        ctx.count('seeds handed out', sum(1 for (o, _), a in zip(ops, r.get('ans', [])) if o == 'choose' and a))
    return recs


def hist_job(name, recs, invs=('Conforms',)):
    return Job(name, 'TraceHist', recs, spec='HSpec', invs=list(invs))


def c16(ctx):
    ctx.build('cls')
    recs = pool_rec(ctx, [pool_history(ctx.rng) for _ in range(ctx.n(7000))]
                    + [pool_history(ctx.rng, 400) for _ in range(ctx.few(8))])
    ctx.samples.append(recs[0])
    every = []
    for n, bnds, most, depth in ((2, '{0, 1, 3}', 2, 6), (3, '{0, 2}', 2, 4 if ctx.tier == 'quick' else 5)):
        for h in ctx.generate('pool of %d cells' % n, 'MC_Pool', view='view', bound='Bounded',
                              invs=['Serves', 'HighestFirst'],
                              consts={'N': str(n), 'Bnds': bnds, 'Most': str(most), 'Depth': str(depth)}):
            m = dict(h['m'], sc=gen.scales(ctx.rng))
            # what is in the pool is seen by emptying it
            ops = [(o['op'], o['arg']) for o in h['ops']]
            if any(o[0] in ('init', 'settop') for o in ops):
                ops += [('choose', [1])] * (n + 1)
            every.append((m, h['kind'], h['one'], ops))
    return [hist_job('pool histories', recs, ('Conforms', 'PoolServes')),
            hist_job('transitions of the pool', pool_rec(ctx, every))]


NBHOPS = {'add': 0, 'copy': 1, 'get': 2}


def nbh_history(rng, most=None):
    large = most or rng.random() < 0.03
    m = gen.huge(rng, rng.randint(260, most)) if most \
        else gen.mesh(rng, 40, 80, scale=False) if large else gen.mesh(rng, 2, 24, scale=False)
    m['sc'] = dict.fromkeys(m['sc'], 0)
    kind = rng.choice([0, 1])
    cells = list(range(1, m['n'] + 1))
    seed = rng.choice(cells)
    p = rng.choice([1, 1, 0.8, 0.5])
    allowed = [x for x in cells if x != seed and rng.random() < p]
    # what was added to each object and its candidates
    objs = [set()]
    ops = [('add', 0, seed, m['adj'][seed - 1])]
    objs[0].add(seed)
    for _ in range(rng.randint(20, 40) if large else rng.randint(1, 14)):
        who = rng.randrange(len(objs))
        r = rng.random()
        front = [y for x in objs[who] for y in m['adj'][x - 1] if y in allowed and y not in objs[who]]
        if r < 0.75 and front:
            x = rng.choice(front)
            ops.append(('add', who, x, m['adj'][x - 1]))
            objs[who].add(x)
        elif r < 0.9:
            ops.append(('copy', who, 0, []))
            objs.append(set(objs[who]))
        else:
            ops.append(('get', who, 0, []))
    return m, kind, allowed, ops


def nbh_rec(ctx, sc):
    lines = []
    for k, (m, kind, allowed, ops) in enumerate(sc):
        t = []
        for op, who, x, nbs in ops:
            t += [str(NBHOPS[op]), str(who), str(max(0, x - 1)), V([y - 1 for y in nbs])]
        lines.append(' '.join(['NBH', str(k), str(kind), str(m['dim']), V([x - 1 for x in allowed]),
                               V(harness.data(m)['prio']),
                               str(len(ops))] + t))
    res = ctx.run('cls', lines)
    recs = []
    for (m, kind, allowed, ops), r in zip(sc, res):
        if r is None:
            continue
        recs.append({'t': 'nbh', 'm': {'n': m['n'], 'dim': m['dim'], 'prio': m['prio']}, 'kind': kind,
                     'allowed': allowed, 'st': r['st'],
                     'ops': [{'op': o, 'who': w + 1, 'cell': x, 'nbs': nb} for o, w, x, nb in ops],
                     'ans': r.get('ans', [])})
        ctx.count('operations', len(ops))
        ctx.count('copies', sum(1 for o in ops if o[0] == 'copy'))
    return recs


def c17(ctx):
    ctx.build('cls')
    recs = nbh_rec(ctx, [nbh_history(ctx.rng) for _ in range(ctx.n(7000))]
                   + [nbh_history(ctx.rng, 600) for _ in range(ctx.few(30))])
    ctx.samples.append(recs[0])
    every = []
    for h in ctx.generate('neighbourhoods in graphs of 5 cells', 'MC_Nbh', invs=['Sound', 'Complete'],
                          consts={'N': '5', 'Dims': '{2}' if ctx.tier == 'quick' else '{1, 2, 3}'}):
        n = len(h['adj'])
        m = {'n': n, 'dim': h['dim'], 'adj': h['adj'], 'prio': [0] * (n - 1) + [1]}
        every.append((m, h['kind'], list(range(2, n + 1)), [('add', 0, x, h['adj'][x - 1]) for x in h['add']]))
    return [hist_job('neighbourhood histories', recs),
            hist_job('all the coarse cells', nbh_rec(ctx, every))]


def bracket(x):
    """x as an interval of large naturals over 10^(4q)."""
    if isinstance(x, str):
        return {'ok': False, 'zero': False, 'q': 0, 'lo': [1], 'hi': [1]}
    if x == 0:
        return {'ok': True, 'zero': True, 'q': 0, 'lo': [0], 'hi': [0]}
    if x < 0:
        return {'ok': False, 'zero': False, 'q': 0, 'lo': [1], 'hi': [1]}
    f, q = Fraction(x), 0
    while f * 10 ** (4 * q) < 10 ** 12:
        q += 1
    y = f * 10 ** (4 * q)
    lo, hi = math.floor(y * (1 - Fraction(1, 10 ** 9))), math.ceil(y * (1 + Fraction(1, 10 ** 9)))
    return {'ok': True, 'zero': False, 'q': q, 'lo': big(lo), 'hi': big(hi)}


def big(n):
    out = []
    while True:
        out.append(n % 10000)
        n //= 10000
        if n == 0:
            return out


def c18(ctx):
    ctx.build('cls')
    rng, sc, lines = ctx.rng, [], []
    while len(sc) < ctx.n(5000):
        m = gen.huge(rng, rng.randint(260, 400)) if len(sc) < ctx.few(20) \
            else gen.mesh(rng, 2, 20 if rng.random() < 0.9 else 40)
        if rng.random() < 0.2:
            f, g = rng.randint(2, 3000), rng.randint(1, 50)
            m['vol'] = [f * v for v in m['vol']]
            m['w'] = [[g * v for v in a] for a in m['w']]
        x = rng.randint(1, m['n'])
        seq = [x]
        n = rng.randint(2, 8) if rng.random() < 0.95 else rng.randint(9, 30)
        while len(seq) < n:
            fr = sorted({y for z in seq for y in m['adj'][z - 1] if y not in seq})
            if not fr:
                break
            seq.append(rng.choice(fr))
        if len(seq) < 2:
            continue
        alt = [rng.choice([y for z in seq[:k] for y in m['adj'][z - 1]] or [seq[k]]) if k else seq[0]
               for k in range(len(seq))]
        t = rng.randrange(10)
        ctx.count('type %d in %dD' % (t, m['dim']))
        lines.append(' '.join(['FEAT', str(len(sc)), mesh_line(m, units=False), str(t), V([y - 1 for y in seq]),
                               V([y - 1 for y in alt])]))
        sc.append((m, t, seq))
    res = ctx.run('cls', lines)
    recs = []
    for (m, t, seq), r in zip(sc, res):
        if r is None:
            continue
        ans = []
        if r['st'] == 'ok':
            for k in range(len(seq) - 1):
                x = r['ar'][k]
                if t == 8 and not isinstance(x, str):
                    x = x * x
                ans.append({'sh': r['sh'][k], 'meas': whole(r['meas'][k]), 'nint': r['nint'][k],
                            'ext': whole(r['ext'][k]), 'int': whole(r['int'][k]), 'diam': whole(r['diam'][k]),
                            'edge': whole(r['edge'][k]), 'sum': [whole(y) for y in r['sum'][k]],
                            'fac': r['fac'][k], 'ar': bracket(x)})
        recs.append({'t': 'feat', 'm': tmesh(m), 'ar': t, 'seq': seq, 'st': r['st'],
                     'ops': list(range(len(seq) - 1)), 'ans': ans})
        ctx.count('additions', len(ans))
    ctx.samples.append(recs[0])
    return [hist_job('assemblies', recs)]


CONTOPS = {'iso': 0, 'aniso': 1, 'late': 2, 'flush': 3, 'correct': 4}


def compactness(m, s):
    if len(s) <= 1:
        return 0
    return min(sum(1 for y in m['adj'][x - 1] if y in s) for x in s)


def cont_history(rng, most=None):
    m = gen.huge(rng, most) if most \
        else gen.mesh(rng, 1, 16, scale=False) if rng.random() < 0.97 else gen.mesh(rng, 40, 80, scale=False)
    left = set(range(1, m['n'] + 1))
    ops = []
    na = rng.choice([0, 0, 1, 2])
    late = rng.random() < 0.4

    def piece(k):
        x = rng.choice(sorted(left))
        s = [x]
        left.discard(x)
        while len(s) < k:
            fr = sorted({y for z in s for y in m['adj'][z - 1] if y in left})
            if not fr:
                break
            y = rng.choice(fr)
            s.append(y)
            left.discard(y)
        return s
    while left and na > 0:
        s = piece(rng.choice([2, 2, 3]))
        na -= 1
        if len(s) == 1:
            left.add(s[0])
            continue
        ops.append(('aniso', rng.choice([1, compactness(m, set(s))]), s))
    while left:
        s = piece(rng.choice([1, 1, 1, 1, 1, 1, 1, 2] if most else [1, 1, 2, 2, 3, 4, 5]))
        kind = 'late' if late and rng.random() < 0.4 else 'iso'
        ops.append((kind, compactness(m, s), s))
        if late and rng.random() < 0.1:
            ops.append(('flush', 0, []))
        if not most and rng.random() < 0.03:
            break
    if late or rng.random() < 0.3:
        ops.append(('flush', 0, []))
    thr = rng.choice([1, 1, 2, 3])
    if not left and not most and rng.random() < 0.7:
        ops.append(('correct', 0, []))
    return m, thr, ops


def partition_history(rng):
    """Coarse cells covering the mesh, several of which to be corrected."""
    while True:
        m = gen.mesh(rng, 4, 26, scale=False) if rng.random() < 0.98 else gen.mesh(rng, 60, 120, scale=False)
        if max(len(a) for a in m['adj']) > 1:
            break
    thr = rng.choice([1, 2, 2, 3, 3, 4])
    left, done = set(range(1, m['n'] + 1)), []
    tight = rng.random()
    while left:
        x = rng.choice(sorted(left))
        s = {x}
        k = rng.randint(1, thr) if done and rng.random() < 0.4 else rng.randint(3, 8)
        while len(s) < k:
            fr = sorted({y for z in s for y in m['adj'][z - 1] if y in left and y not in s})
            if not fr:
                break
            if rng.random() < tight:
                # as few faces as possible, so that there is something to gain
                fr.sort(key=lambda y: sum(1 for z in m['adj'][y - 1] if z in s))
                s.add(fr[0])
            else:
                s.add(rng.choice(fr))
        left -= s
        done.append(sorted(s))
    rng.shuffle(done)
    na = sum(1 for s in done if len(s) in (2, 3) and rng.random() < 0.15)
    done.sort(key=lambda s: 0 if len(s) in (2, 3) else 1) if na else None
    ops = [('aniso' if k < na else 'iso', compactness(m, set(s)), s) for k, s in enumerate(done)]
    return m, thr, ops + [('correct', 0, [])]


def given(m, ops):
    f = [0] * m['n']
    for k, (o, _, s) in enumerate(x for x in ops if x[2]):
        for x in s:
            f[x - 1] = k
    return f


def cont_lines(sc):
    lines = []
    for k, (m, thr, ops) in enumerate(sc):
        t = []
        for op, cpt, cells in ops:
            # the correction takes a cardinality not used by the specification
            t += [str(CONTOPS[op]), str(8 if op == 'correct' else cpt), V([x - 1 for x in cells])]
        lines.append(' '.join(['CONT', str(k), mesh_line(m), str(thr), str(len(ops))] + t))
    return lines


def cont_rec(ctx, sc):
    res = ctx.run('cls', cont_lines(sc))
    recs = []
    for (m, thr, ops), r in zip(sc, res):
        if r is None:
            continue
        ans = []
        for x, idn in zip(r.get('recs', []), r.get('ids', [])):
            x['newid'] = idn
            ans.append(x)
        recs.append({'t': 'cont', 'm': slim(m), 'thr': thr, 'st': r['st'],
                     'ops': [{'op': o, 'cpt': p, 'cells': c} for o, p, c in ops], 'ans': ans})
        ctx.count('operations', len(ops))
        for o, _, _ in ops:
            ctx.count(o)
    return recs


def all_fillings(ctx, late=True):
    out = []
    for h in ctx.generate('containers of 4 cells', 'MC_Cont', invs=['Consistent', 'NothingToCorrect'],
                          consts={'N': '4', 'Thrs': '{1, 2}' if ctx.tier == 'quick' else '{1, 2, 3}', 'Most': '3'}):
        if not late and any(o['op'] == 'late' for o in h['ops']):
            continue
        n = len(h['adj'])
        m = {'n': n, 'dim': 2, 'adj': h['adj'], 'w': [[1] * len(a) for a in h['adj']], 'vol': [1] * n,
             'cen': [[x, 0] for x in range(n)], 'prio': [0] * n, 'bnd': [0] * n}
        out.append((m, h['thr'], [(o['op'], o['cpt'], o['cells']) for o in h['ops']]))
    return out


def c19(ctx):
    ctx.build('cls')
    sc = [h for h in (cont_history(ctx.rng) for _ in range(ctx.n(6000))) if h[2]]
    sc += [cont_history(ctx.rng, 290) for _ in range(ctx.few(1))]
    recs = cont_rec(ctx, sc)
    ctx.samples.append(recs[0])
    return [hist_job('container histories', recs),
            hist_job('all the fillings', cont_rec(ctx, all_fillings(ctx)))]


SUBOPS = {'add': 0, 'addall': 1, 'del': 2}


def sub_history(rng, most=None):
    large = rng.random() < 0.02
    m = gen.huge(rng, rng.randint(300, most)) if most \
        else gen.mesh(rng, 30, 60, scale=False) if large else gen.mesh(rng, 1, 14, scale=False)
    if rng.random() < 0.5:
        # weights all different
        ws = {}
        m['w'] = [[ws.setdefault((min(x, y), max(x, y)), len(ws) + 1) for y in a]
                  for x, a in enumerate(m['adj'], 1)]
    m['vol'] = [rng.randint(1, 50) for _ in m['vol']]
    every = list(range(1, m['n'] + 1))
    s = set(rng.sample(every, rng.randint(m['n'] * 9 // 10 if most else 1, m['n'])))
    ops = [('new', sorted(s))]
    for _ in range(rng.randint(20, 40) if large else rng.randint(1, 14)):
        out = [x for x in every if x not in s]
        near = [x for x in out if any(y in s for y in m['adj'][x - 1])] if rng.random() < 0.7 else out
        r = rng.random()
        if r < 0.45 and near:
            x = rng.choice(near)
            ops.append(('add', [x]))
            s.add(x)
        elif r < 0.6 and out:
            x = rng.sample(out, rng.randint(1, min(3, len(out))))
            ops.append(('addall', x))
            s |= set(x)
        elif s:
            x = rng.choice(sorted(s))
            ops.append(('del', [x]))
            s.discard(x)
    return m, ops


def sub_rec(ctx, sc):
    lines = []
    for k, (m, ops) in enumerate(sc):
        t = []
        for o, x in ops[1:]:
            t += [str(SUBOPS[o]), V([y - 1 for y in x])]
        first = ops[0][1]
        lines.append(' '.join(['SUB', str(k), mesh_line(m, units=False), V([y - 1 for y in first]),
                               str(compactness(m, set(first))), str(len(ops) - 1)] + t))
    recs = []
    for (m, ops), r in zip(sc, ctx.run('sub', lines)):
        if r is None:
            continue
        ans, gone = [], False
        for (o, _), a in zip(ops, r.get('recs', [])):
            # the coarse cell without graph cannot lose cells
            gone = gone or o == 'del'
            nb, w, p = [], [], 0
            for n in a['cnt']:
                nb.append([x + 1 for x in a['col'][p:p + n]])
                w.append([whole(x) for x in a['w'][p:p + n]])
                p += n
            ans.append({'sizes': a['sizes'], 'card': a['card'], 'cpt': a['cpt'], 'conn': a['conn'],
                        'cells': [x + 1 for x in a['cells']], 'vol': [whole(x) for x in a['vol']], 'nb': nb, 'w': w,
                        'base': [] if gone else [{'card': a['bcard'], 'cpt': a['bcpt'],
                                                  'cells': [x + 1 for x in a['bcells']]}]})
        recs.append({'t': 'sub', 'm': {k: m[k] for k in ('n', 'dim', 'adj', 'w', 'vol')}, 'st': r['st'],
                     'ops': [{'op': o, 'cells': x} for o, x in ops], 'ans': ans})
        ctx.count('operations', len(ops))
        for o, _ in ops:
            ctx.count(o)
    return recs


def c25(ctx):
    ctx.build('sub')
    recs = sub_rec(ctx, [sub_history(ctx.rng) for _ in range(ctx.n(7000))]
                   + [sub_history(ctx.rng, 400) for _ in range(ctx.few(4))])
    ctx.samples.append(recs[0])
    every = []
    for h in ctx.generate('graphs of coarse cells', 'MC_Sub', invs=['Symmetric', 'DegreeBound'],
                          consts={'N': '3', 'Depth': '5' if ctx.tier == 'quick' else '6'}):
        m = dict(h['m'], prio=[0] * 3, bnd=[0] * 3, cen=[[x, 0] for x in range(3)])
        every.append((m, [(o['op'], o['cells']) for o in h['ops']]))
    return [hist_job('histories', recs), hist_job('all short histories', sub_rec(ctx, every))]


DEPOPS = {'push': 0, 'pop': 1, 'ins': 0, 'left': 1, 'right': 2, 'erase': 3, 'son': 0, 'under': 1, 'del': 2}


def dep_history(rng, most=None):
    t = most or rng.choice(['queue', 'bimap', 'tree'])
    large = rng.random() < 0.02
    ops, a, b = [], {}, set()
    nv = rng.randint(300, 400) if most else rng.randint(20, 40) if large else rng.randint(2, 9)
    for k in range(rng.randint(400, 500) if most else rng.randint(60, 120) if large else rng.randint(1, 25)):
        r = rng.random() * (0.7 if most else 1)
        if t == 'queue':
            ops.append(('push', [rng.randint(0, nv)]) if r < 0.6 and (not most or k < 230) else ('pop', []))
        elif t == 'bimap':
            fl, fr = [x for x in range(nv) if x not in a], [x for x in range(nv) if x not in a.values()]
            if r < 0.45 and fl and fr:
                x, y = rng.choice(fl), rng.choice(fr)
                ops.append(('ins', [x, y]))
                a[x] = y
            elif r < 0.6 and fl:
                x, y = rng.randrange(nv), rng.choice(fl)
                ops.append(('left', [x, y]))
                if x in a:
                    a[y] = a.pop(x)
            elif r < 0.75 and fr:
                x, y = rng.randrange(nv), rng.choice(fr)
                ops.append(('right', [x, y]))
                a = {k: y if v == x else v for k, v in a.items()}
            elif a:
                x = rng.choice(sorted(a))
                ops.append(('erase', [x]))
                del a[x]
        else:
            free = [x for x in range(nv) if x not in b]
            if r < 0.45 and free:
                x = rng.choice(free)
                ops.append(('son', [x, k + 1]))
                b.add(x)
            elif r < 0.65 and b:
                ops.append(('under', [rng.choice(sorted(b)), rng.randint(0, 2 * nv), k + 1]))
            else:
                x = rng.randrange(nv)
                ops.append(('del', [x]))
                b.discard(x)
    return t, ops


def dep_rec(ctx, sc):
    lines = []
    for k, (t, ops) in enumerate(sc):
        o, a, b = [], {}, set()
        for op, x in ops:
            o += [str(DEPOPS[op]), V(x)]
            if op == 'ins':
                a[x[0]] = x[1]
            elif op == 'left' and x[0] in a:
                a[x[1]] = a.pop(x[0])
            elif op == 'right':
                a = {p: x[1] if q == x[0] else q for p, q in a.items()}
            elif op == 'erase':
                del a[x[0]]
            if t == 'bimap':
                o += [V(sorted(a)), V(sorted(a.values()))]
            elif t == 'tree':
                o.append(V(range(max(10, 1 + max(v for _, y in ops for v in y[:1])))))
        lines.append(' '.join([{'queue': 'QUE', 'bimap': 'BIM', 'tree': 'TRE'}[t], str(k), str(len(ops))] + o))
    recs = []
    for (t, ops), r in zip(sc, ctx.run('dep', lines)):
        if r is None:
            continue
        ans = r['recs'] if r['st'] == 'ok' else []
        for a in ans:
            for x in a.get('sons', []):
                x['sons'] = [{'i': y['i'], 'v': y['v']} for y in x['sons']]
        recs.append({'t': t, 'st': r['st'], 'ops': [{'op': o, 'arg': x} for o, x in ops], 'ans': ans})
        ctx.count('histories of a ' + t)
    return recs


def c26(ctx):
    ctx.build('dep')
    rng = ctx.rng
    recs = dep_rec(ctx, [x for x in (dep_history(rng) for _ in range(ctx.n(6000))) if x[1]]
                   + [dep_history(rng, t) for t in ('queue', 'bimap', 'tree') * ctx.few(1)])
    ctx.samples.append(recs[0])
    sc = []
    for _ in range(ctx.n(1000)):
        v = rng.choice([1, 2, 5, 100])
        sc.append([[rng.randint(-v, v), rng.randint(-v, v)] for _ in range(rng.randint(1, 9))])
    res = ctx.run('dep', ['PRI %d %s %s' % (k, V([x[0] for x in p]), V([x[1] for x in p])) for k, p in enumerate(sc)])
    for p, r in zip(sc, res):
        if r is not None:
            r = {k: r.get(k, []) for k in ('st', 'order', 'less', 'equal')}
            recs.append(dict(r, t='pairs', p=p))
    every = []
    for h in ctx.generate('containers', 'MC_Dep', view='view', invs=['BothWays', 'Distinct'],
                          consts={'Vals': '{0, 1, 2}', 'Depth': '5' if ctx.tier == 'quick' else '6'}):
        every.append((h['t'], [(o['op'], o['arg']) for o in h['ops']]))
    return [Job('histories', 'TraceDep', recs, spec='HSpec', invs=['Conforms']),
            Job('all short histories', 'TraceDep', dep_rec(ctx, every), spec='HSpec', invs=['Conforms'])]


# ------------------------------------------------------------------- threads --
def call_lines(rng, n, hi):
    """Calls of the functions, as lines of the driver without identifier."""
    out = []
    while len(out) < n:
        m, c = gen.scenario(rng, 2, hi)
        a = call_args(m, c)
        rp, col, w = a['rp'], a['col'], a['w']
        r = rng.random()
        if r < 0.7:
            if rng.random() < 0.1:
                spoil(rng, a)
                v = valid_args(a)
                if accepted(dict(v, ar=0)) and not sane(m, a):
                    continue
            elif rng.random() < 0.15:
                a['iter'] = gen.lookahead(rng, m, c, 40000)
            out.append(agg_line(0, a, types=rng.choice([0, 0, 0, 3]), variant=rng.choice([0, 0, 1]),
                                junk=[5] * rng.choice([0, 9])))
        elif r < 0.85:
            out.append(graph_line(0, rng.choice([0, 1]), random_partition(rng, m), a, rng.choice([0, 3])))
        elif r < 0.93:
            wall = [x for x in range(m['n']) if rng.random() < 0.2]
            out.append(' '.join(['W', '0', str(rng.randrange(2)), V(rp), V(col), V(wall), '0']))
        else:
            out.append(' '.join(['F', '0', str(rng.randrange(2)), V(rp), V(m['bnd']), V([2, 3, 5]), '0']))
    return out


def plain(a):
    return json.dumps({k: v for k, v in norm(dict(a)).items() if k != 'id'}, sort_keys=True)


def thread_rec(ctx, st, th, alone, r):
    recs = r.get('ev', [])
    now, most = 0, 0
    for e in recs:
        now += 1 if e[2] == 0 else -1
        most = max(most, now)
    ctx.count('calls', len(th))
    ctx.count('groups with %d calls at the same time' % most)
    return {'st': st, 'th': th, 'alone': alone, 'ans': [plain(x) for x in r.get('ans', [])], 'ev': recs,
            'msg': r.get('msg', '')}


def c27(ctx):
    ctx.build('thr')
    rng = ctx.rng
    calls, groups = call_lines(rng, ctx.n(3000), 24) + call_lines(rng, ctx.n(100), 150), []
    alone = ctx.run('thr', [renumber(x, k) for k, x in enumerate(calls)])
    good = [k for k, r in enumerate(alone) if r is not None and r['st'] in ('ok', 'inv', 'exc')]
    if not good:
        raise harness.HarnessError('no call can be made')
    for g in range(ctx.n(2500)):
        nt = rng.choice([2, 2, 3, 4])
        some = [rng.choice(good) for _ in range(rng.choice([1, 2, 4, 8]))]
        groups.append([(t, rng.choice(some)) for t in range(nt) for _ in range(rng.randint(1, 4))])
    lines = []
    for g, todo in enumerate(groups):
        lines.append('T %d %d ' % (g, 1 + max(t for t, _ in todo))
                     + '|'.join('%d %s' % (t, renumber(calls[k], k)) for t, k in todo))
    recs = []
    for todo, r in zip(groups, ctx.run('thr', lines)):
        if r is not None:
            recs.append(thread_rec(ctx, r['st'], [t + 1 for t, _ in todo], [plain(alone[k]) for _, k in todo], r))
    # the same arrays
    sc = []
    for _ in range(ctx.n(1200)):
        m, c = gen.scenario(rng, 2, 24 if rng.random() < 0.95 else 150)
        a = call_args(m, c)
        t = agg_line(0, a).split(' ')[3:-2]
        sc.append((rng.choice([2, 3, 4]), rng.randrange(2),
                   ' '.join(t + [V(random_partition(rng, m)), V([2, 3, 5])])))
    one = ctx.run('thr', ['S %d %d 1 %s' % (k, ty, x) for k, (n, ty, x) in enumerate(sc)])
    res = ctx.run('thr', ['S %d %d %d %s' % (k, ty, n, x) for k, (n, ty, x) in enumerate(sc)])
    for (n, ty, x), a, r in zip(sc, one, res):
        if a is None or r is None or a['st'] != 'ok':
            continue
        al = [plain(y) for y in a['ans']]
        recs.append(thread_rec(ctx, r['st'], [t + 1 for t in range(n) for _ in al], al * n, r))
    ctx.samples.append(recs[0])
    return [Job('calls at the same time', 'TraceThr', recs, spec='TSpec', invs=['Conforms', 'AllEnded'])]


PROPS = {'C%02d' % k: globals()['c%02d' % k] for k in range(1, 28)}


# ----------------------------------------------------------- specification --
def small(n, invs, props=(), **over):
    """The state machine on all the small graphs."""
    k = {'N': str(n), 'BndVals': '{0, 1}', 'Kinds': '{"B", "N"}', 'Cards': '<- MCCards', 'ARs': '{2}',
         'Sings': '{1, 2}', 'LineModes': '{0, 1, 2}'}
    k.update(over)
    return ('all graphs of %d cells' % n, 'MC_Small',
            dict(spec='MCSpec', invs=invs, props=props, consts=k, deadlock=True))


def models(invs, props=(), **over):
    return {'quick': [small(3, invs, props, **over)], 'thorough': [small(4, invs, props, **over)]}


def levels(n, **over):
    name, _, kw = small(n, ['Composition', 'Coarsens', 'OnePerComponent', 'LinesOfNeighbours'], ARs='{3}', **over)
    return ('hierarchies on ' + name, 'MC_Levels', dict(kw, spec='LSpec', deadlock=True))


def threads(modes, bnds):
    name, _, kw = small(3, ['EachPartition', 'EachSound', 'SameAnswer'], ['MeshKept'], LineModes=modes, BndVals=bnds,
                        Sings='{1}')
    return ('two agglomerations on ' + name, 'MC_Threads', dict(kw, spec='TSpec'))


LARGE = {'C01': ['PartitionListed', 'NoOtherListing'], 'C02': ['PartitionListed', 'NoOtherListing', 'SameConnection'],
         'C03': ['PartitionListed', 'NoOtherListing'], 'C12': ['PartitionListed', 'NoOtherListing', 'SameConnection'],
         'C13': ['OneSolution'], 'C14': ['OneFilter'], 'C23': ['OneSolution', 'SameConnectivity'],
         'C24': ['PartitionListed', 'NoOtherListing', 'SameConnection']}


def large(n, invs):
    """The definitions for large meshes agree with the others."""
    return ('definitions for large meshes on all graphs of up to %d cells' % n, 'MC_Large',
            dict(spec='Spec', invs=invs, consts={'N': str(n)}))


MODELS = {
    'C01': models(['Partition', 'DonePartition'], ['Progress']),
    'C02': models(['AllConnected', 'DoneConnected']),
    'C03': models(['Cardinalities']),
    'C04': models(['CorrectionSound', 'DonePartition', 'DoneConnected']),
    'C06': models(['LinesMadeOfPairs'], LineModes='{1, 2}'),
    'C07': models(['LinesMadeOfPairs', 'DoneConnected'], LineModes='{1, 2}'),
    'C08': models(['SeedOnHighestLevel'], Kinds='{"B"}'),
    'C09': models(['SeedOnHighestLevel'], Kinds='{"N"}'),
    'C21': models(['Partition', 'DonePartition', 'AllConnected', 'DoneConnected', 'Cardinalities',
                   'SeedOnHighestLevel', 'LinesMadeOfPairs', 'CorrectionSound'], ['Progress']),
    'C24': {'quick': [levels(3, LineModes='{0, 1, 2}')],
            'thorough': [levels(3, LineModes='{0, 1, 2}'), levels(4, LineModes='{0}')]},
    'C27': {'quick': [threads('{0, 1, 2}', '{0, 1}')]},
}
for _p, _invs in LARGE.items():
    _m = MODELS.setdefault(_p, {'quick': [], 'thorough': []})
    _m['quick'] = _m['quick'] + [large(3, _invs)]
    _m['thorough'] = _m['thorough'] + [large(4, _invs)]
