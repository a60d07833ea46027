"""Meshes and settings.

Meshes are dictionaries with the fields of the record of spec/Mesh.tla: cells
are numbered from 1 and all the data are integers, so that everything the
library compares is exact (see DESIGN.md, "Exactness").
"""
import math
import random


def lcm(a, b):
    return a * b // math.gcd(a, b)


# ----------------------------------------------------------------- graphs --
# A raw graph: n, edges [(a, b, weight)], centers, volumes, boundary faces
class Raw:
    def __init__(self, n, edges, cen, vol, bnd, dim, kind):
        self.n, self.edges, self.cen, self.vol = n, edges, cen, vol
        self.bnd, self.dim, self.kind = bnd, dim, kind


def spacings(rng, n, style):
    if style == 'unit':
        return [2] * n
    if style == 'rand':
        return [2 * rng.randint(1, 3) for _ in range(n)]
    # stretched, as in a boundary layer
    out, s = [], 2
    for _ in range(n):
        out.append(s)
        s = min(16, s * rng.choice([1, 2, 2]))
    return out if rng.random() < 0.7 else out[::-1]


def grid(rng, dims, style=None, holes=0.0):
    d = len(dims)
    style = style or rng.choice(['unit', 'unit', 'rand', 'bl'])
    sp = []
    for ax, k in enumerate(dims):
        if style == 'bl':
            sp.append(spacings(rng, k, 'bl') if ax == 0 else [rng.choice([8, 12, 16])] * k)
        else:
            sp.append(spacings(rng, k, style))
    pos = []
    for s in sp:
        x, p = 0, []
        for h in s:
            p.append(x + h // 2)
            x += h
        pos.append(p)
    ids, cells = {}, []

    def rec(pre):
        if len(pre) == d:
            if not (holes and rng.random() < holes):
                ids[tuple(pre)] = len(cells)
                cells.append(tuple(pre))
            return
        for k in range(dims[len(pre)]):
            rec(pre + [k])
    rec([])
    edges, bnd = [], []
    for c in cells:
        nb = 0
        for ax in range(d):
            for s in (-1, 1):
                o = list(c)
                o[ax] += s
                o = tuple(o)
                if o[ax] < 0 or o[ax] >= dims[ax]:
                    nb += 1
                elif o in ids:
                    if ids[o] > ids[c]:
                        w = 1
                        for a2 in range(d):
                            if a2 != ax:
                                w *= sp[a2][c[a2]] // 2
                        edges.append((ids[c], ids[o], w))
        bnd.append(nb)
    cen = [[pos[ax][c[ax]] for ax in range(d)] for c in cells]
    vol = []
    for c in cells:
        v = 1
        for ax in range(d):
            v *= sp[ax][c[ax]] // 2
        vol.append(v)
    return Raw(len(cells), edges, cen, vol, bnd, d, 'grid%d-%s' % (d, style))


def tri(rng, nx, ny):
    """Rectangles cut in two triangles."""
    ids = {}
    cen, vol, bnd = [], [], []
    for i in range(nx):
        for j in range(ny):
            for t in (0, 1):
                ids[i, j, t] = len(cen)
                cen.append([6 * i + (2 if t == 0 else 4), 6 * j + (2 if t == 0 else 4)])
                vol.append(18)
                bnd.append((i == 0) + (j == 0) if t == 0 else (i == nx - 1) + (j == ny - 1))
    edges = []
    for i in range(nx):
        for j in range(ny):
            edges.append((ids[i, j, 0], ids[i, j, 1], 8))
            if i + 1 < nx:
                edges.append((ids[i, j, 1], ids[i + 1, j, 0], 6))
            if j + 1 < ny:
                edges.append((ids[i, j, 1], ids[i, j + 1, 0], 6))
    return Raw(len(cen), edges, cen, vol, bnd, 2, 'tri')


def points(rng, n, dim, side):
    seen, out = set(), []
    while len(out) < n:
        p = tuple(rng.randint(0, side) for _ in range(dim))
        if p not in seen:
            seen.add(p)
            out.append(list(p))
    return out


def knn(rng, n, dim, k, maxdeg=6):
    side = max(4, int(3 * n ** (1.0 / dim)))
    cen = points(rng, n, dim, side)
    deg = [0] * n
    edges = set()
    for a in range(n):
        ds = sorted((sum((x - y) ** 2 for x, y in zip(cen[a], cen[b])), b) for b in range(n) if b != a)
        for _, b in ds[:k]:
            e = (min(a, b), max(a, b))
            if e not in edges and deg[a] < maxdeg and deg[b] < maxdeg:
                edges.add(e)
                deg[a] += 1
                deg[b] += 1
    edges = [(a, b, rng.randint(1, 6)) for a, b in sorted(edges)]
    bnd = [rng.choice([0, 0, 0, 1, 1, 2, 3]) for _ in range(n)]
    return Raw(n, edges, cen, [rng.randint(1, 4) for _ in range(n)], bnd, dim, 'knn%d' % dim)


def shaped(rng, n, dim):
    shape = rng.choice(['path', 'cycle', 'star', 'tree', 'comb', 'complete', 'ladder', 'caterpillar',
                        'wheel', 'barbell', 'random'])
    e = set()
    if shape == 'path':
        e = {(i, i + 1) for i in range(n - 1)}
    elif shape == 'cycle':
        e = {(i, i + 1) for i in range(n - 1)} | ({(0, n - 1)} if n > 2 else set())
    elif shape == 'star':
        n = min(n, rng.choice([9, 9, 9, 24]))
        e = {(0, i) for i in range(1, n)}
    elif shape == 'tree':
        e = {(rng.randrange(i), i) for i in range(1, n)}
    elif shape == 'comb':
        h = n // 2
        e = {(i, i + 1) for i in range(h - 1)} | {(i, h + i) for i in range(min(h, n - h))}
    elif shape == 'complete':
        n = min(n, rng.choice([7, 7, 7, 7, 14]))
        e = {(i, j) for i in range(n) for j in range(i + 1, n)}
    elif shape == 'ladder':
        h = n // 2
        e = {(i, i + 1) for i in range(h - 1)} | {(h + i, h + i + 1) for i in range(h - 1)} \
            | {(i, h + i) for i in range(h)}
    elif shape == 'caterpillar':
        h = max(1, n // 3)
        e = {(i, i + 1) for i in range(h - 1)} | {(rng.randrange(h), i) for i in range(h, n)}
    elif shape == 'wheel':
        n = max(4, min(n, 9))
        e = {(i, i + 1) for i in range(1, n - 1)} | {(1, n - 1)} | {(0, i) for i in range(1, n)}
    elif shape == 'barbell':
        h = max(2, min(5, n // 3))
        n = max(n, 2 * h)
        e = {(i, j) for i in range(h) for j in range(i + 1, h)}
        e |= {(n - 1 - i, n - 1 - j) for i in range(h) for j in range(i + 1, h)}
        e = {(min(a, b), max(a, b)) for a, b in e}
        e |= {(i, i + 1) for i in range(h - 1, n - h)}
    else:
        p = rng.choice([0.1, 0.2, 0.4])
        e = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < p}
    side = max(4, int(3 * n ** (1.0 / dim)))
    cen = points(rng, n, dim, side)
    edges = [(a, b, rng.randint(1, 5)) for a, b in sorted(e)]
    bnd = [rng.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(n)]
    if rng.random() < 0.3:
        bnd = [0] * n
    return Raw(n, edges, cen, [rng.randint(1, 5) for _ in range(n)], bnd, dim, shape)


def hub(rng, d):
    """One cell with d neighbours, some of which in a row."""
    dim = rng.choice([2, 3])
    cen = points(rng, d + 1, dim, max(4, int(3 * (d + 1) ** (1.0 / dim))))
    p = rng.choice([0, 0.5, 1])
    edges = [(0, k, rng.randint(1, 5)) for k in range(1, d + 1)]
    edges += [(k, k + 1, rng.randint(1, 5)) for k in range(1, d) if rng.random() < p]
    bnd = [rng.choice([0, 0, 1, 1, 2]) for _ in range(d + 1)]
    return finish(rng, Raw(d + 1, edges, cen, [rng.randint(1, 5) for _ in range(d + 1)], bnd, dim, 'hub'))


def union(rng, parts, isolated=0):
    """Disjoint union, far apart, and isolated cells."""
    dim = parts[0].dim
    n, edges, cen, vol, bnd, off = 0, [], [], [], [], 0
    for p in parts:
        edges += [(a + n, b + n, w) for a, b, w in p.edges]
        cen += [[p.cen[k][0] + off] + list(p.cen[k][1:]) for k in range(p.n)]
        vol += p.vol
        bnd += p.bnd
        n += p.n
        off = 2 + max([c[0] for c in cen], default=0)
    for _ in range(isolated):
        cen.append([off] + [0] * (dim - 1))
        off += 3
        vol.append(rng.randint(1, 3))
        bnd.append(rng.choice([0, 1, 4]))
        n += 1
    return Raw(n, edges, cen, vol, bnd, dim, '+'.join(p.kind for p in parts) + ('+iso' if isolated else ''))


def raw_mesh(rng, lo, hi, dim=None):
    dim = dim or rng.choice([2, 2, 3])
    n = rng.randint(lo, hi)
    r = rng.random()
    if r < 0.40:
        if dim == 2:
            nx = max(1, rng.randint(1, max(1, int(math.sqrt(n) * 1.5))))
            g = grid(rng, (nx, max(1, n // nx)), holes=rng.choice([0, 0, 0, 0.15]))
        else:
            a = rng.randint(1, max(1, int(round(n ** (1 / 3.0) * 1.4))))
            b = rng.randint(1, max(1, int(round(math.sqrt(n / a) * 1.3))))
            g = grid(rng, (a, b, max(1, n // (a * b))), holes=rng.choice([0, 0, 0.15]))
        if g.n == 0:
            g = grid(rng, (1,) * dim)
    elif r < 0.50 and dim == 2:
        k = max(1, int(math.sqrt(n / 2)))
        g = tri(rng, k, max(1, n // (2 * k)))
    elif r < 0.72:
        if rng.random() < 0.9:
            g = knn(rng, n, dim, rng.choice([2, 3, 3, 4]))
        else:
            g = knn(rng, n, dim, rng.randint(6, 14), rng.choice([8, 12, 16]))
    elif r < 0.90:
        g = shaped(rng, n, dim)
    else:
        h = max(1, n // 2)
        parts = [shaped(rng, max(1, h - 1), dim), knn(rng, max(2, h - 1), dim, 2)]
        if rng.random() < 0.5:
            parts.append(grid(rng, (2, 2) if dim == 2 else (2, 2, 1)))
        g = union(rng, parts, rng.choice([0, 1, 2]))
    return g


def priorities(rng, n):
    style = rng.choice(['equal', 'distinct', 'distinct', 'few', 'neg', 'negdistinct', 'neg-equal'])
    if style == 'equal':
        return [rng.choice([0, 1, 1000])] * n
    if style == 'neg-equal':
        return [-3] * n
    if style == 'distinct':
        p = list(range(n))
        rng.shuffle(p)
        return p
    if style == 'negdistinct':
        p = list(range(-n, 0))
        rng.shuffle(p)
        return p
    if style == 'few':
        return [rng.randint(0, 2) for _ in range(n)]
    return [rng.randint(-2, 1) for _ in range(n)]


def finish(rng, g, shuffle=True, scale=True, prio=None):
    """From a raw graph to a mesh: renumber, shuffle neighbours, scale weights
    so that the mean weight of the faces of boundary cells is an integer."""
    perm = list(range(g.n))
    if shuffle and rng.random() < 0.6:
        rng.shuffle(perm)
    adj = [[] for _ in range(g.n)]
    for a, b, w in g.edges:
        adj[perm[a]].append((perm[b] + 1, w))
        adj[perm[b]].append((perm[a] + 1, w))
    if shuffle and rng.random() < 0.6:
        for a in adj:
            rng.shuffle(a)
    else:
        for a in adj:
            a.sort()
    cen, vol, bnd = [None] * g.n, [0] * g.n, [0] * g.n
    for k in range(g.n):
        cen[perm[k]], vol[perm[k]], bnd[perm[k]] = list(g.cen[k]), g.vol[k], g.bnd[k]
    fac = 1
    if scale:
        for k in range(g.n):
            if bnd[k] > 0 and adj[k]:
                fac = lcm(fac, len(adj[k]))
        if fac > 840:
            # Too many different degrees: no boundary faces where it hurts
            fac = 1
            for k in range(g.n):
                if bnd[k] > 0 and adj[k]:
                    f2 = lcm(fac, len(adj[k]))
                    if f2 > 420:
                        bnd[k] = 0
                    else:
                        fac = f2
    m = {'n': g.n, 'dim': g.dim,
         'adj': [[x for x, _ in a] for a in adj],
         'w': [[fac * w for _, w in a] for a in adj],
         'vol': vol, 'cen': cen,
         'prio': prio if prio is not None else priorities(rng, g.n),
         'bnd': bnd}
    m['kind'] = g.kind
    m['sc'] = scales(rng)
    if g.dim == 2 and rng.random() < 0.08:
        # a surface: more coordinates than dimensions
        up = rng.choice([0, 1, 3])
        m['cen'] = [x + [rng.randint(-up, up)] for x in cen]
        m['kind'] += '-surface'
    return m


def scales(rng):
    """Units in which the library is given the data: powers of two, and an
    offset of the priority weights, none of which may change a comparison."""
    sc = {'w': 0, 'vol': 0, 'cen': 0, 'prio': 0, 'off': 0}
    if rng.random() < 0.4:
        for k in ('w', 'vol', 'cen', 'prio'):
            if rng.random() < 0.5:
                sc[k] = rng.choice([-40, -30, -20, -10, -3, 5, 20, 30])
        if sc['prio'] == 0 and rng.random() < 0.3:
            sc['off'] = rng.choice([-2 ** 40, 2 ** 33, 2 ** 45])
    return sc


def mesh(rng, lo, hi, dim=None, scale=True):
    return finish(rng, raw_mesh(rng, lo, hi, dim), scale=scale)


def chain(rng, n):
    g = Raw(n, [(k, k + 1, 1) for k in range(n - 1)], [[k, 0] for k in range(n)], [1] * n, [0] * n, 2, 'chain')
    return finish(rng, g, scale=False)


def huge(rng, n, kind=None):
    """About n cells, as a plane or solid grid, triangles or (only if asked) a chain."""
    kind = kind or rng.choice(['plane', 'space', 'tri'])
    if kind == 'chain':
        return chain(rng, n)
    k = int(n ** 0.5)
    if kind == 'plane':
        g = grid(rng, [k + 1, n // k + 1], rng.choice(['unit', 'rand', 'bl']))
    elif kind == 'space':
        k = int(n ** (1 / 3))
        g = grid(rng, [k + 1, k + 1, n // (k * k) + 1], rng.choice(['unit', 'rand']))
    else:
        k = int((n / 2) ** 0.5)
        g = tri(rng, k + 1, n // (2 * k) + 1)
    return finish(rng, g)


def trivial_meshes():
    """No cell, one cell, two cells joined or not."""
    out = []
    for dim in (2, 3):
        out.append(dict(n=0, dim=dim, adj=[], w=[], vol=[], cen=[], prio=[], bnd=[], kind='empty'))
        for b in (0, 1, 4):
            out.append(dict(n=1, dim=dim, adj=[[]], w=[[]], vol=[2], cen=[[0] * dim], prio=[-1], bnd=[b],
                            kind='one'))
        c2 = [[0] * dim, [3] + [0] * (dim - 1)]
        out.append(dict(n=2, dim=dim, adj=[[], []], w=[[], []], vol=[2, 1], cen=c2, prio=[0, 0],
                        bnd=[1, 0], kind='two'))
        out.append(dict(n=2, dim=dim, adj=[[2], [1]], w=[[3], [3]], vol=[2, 1], cen=c2, prio=[0, 1],
                        bnd=[0, 2], kind='edge'))
    return out


def small_graphs(rng, n):
    """All the labelled graphs with n cells."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for mask in range(1 << len(pairs)):
        edges = [(a, b, rng.randint(1, 3)) for k, (a, b) in enumerate(pairs) if mask >> k & 1]
        cen = points(rng, n, 2, 5)
        g = Raw(n, edges, cen, [rng.randint(1, 3) for _ in range(n)],
                [rng.choice([0, 0, 1, 2]) for _ in range(n)], 2, 'all%d' % n)
        yield finish(rng, g, shuffle=False)


# --------------------------------------------------------------- settings --
def cards(rng):
    r = rng.random()
    if r < 0.01:
        mn = rng.randint(2, 30)
        goal = mn + rng.randint(0, 20)
        return mn, goal, goal + rng.randint(0, 20)
    if r < 0.06:
        mn = rng.randint(2, 12)
        goal = mn + rng.randint(0, 6)
        return mn, goal, goal + rng.randint(0, 8)
    if r < 0.15:
        k = rng.randint(2, 8)
        return k, k, k
    if r < 0.3:
        return 2, rng.choice([2, 4]), rng.choice([4, 5, 6])
    mn = rng.choice([2, 2, 3, 3, 4, 6])
    goal = mn + rng.choice([0, 0, 1, 1, 2, 3])
    mx = goal + rng.choice([0, 0, 1, 2, 2, 4])
    return mn, goal, mx


def settings(rng, m, **kw):
    mn, goal, mx = cards(rng)
    c = {'kind': rng.choice('BN'), 'one': rng.random() < 0.4, 'goal': goal, 'min': mn, 'max': mx,
         'ar': rng.randrange(10), 'nb': rng.choice([0, 0, 1]), 'corr': rng.random() < 0.5,
         'sing': rng.choice([1, 1, 1, 1, 2, 2, 3, 3, rng.randint(1, 8)]), 'iter': 1,
         'aniso': False, 'build': False, 'lines': [], 'odd': True, 'maxc': -1, 'thr': [4, 1],
         'comp': [], 'coup': 0, 'force': True}
    c.update(kw)
    return c


def lookahead(rng, m, c, cost=3000000):
    """A depth whose cost (candidates to the power of the depth) is bearable."""
    k = rng.choice([2, 2, 3, 4])
    cand = min(m['n'], c['max'] * max([len(a) for a in m['adj']], default=0))
    while k > 1 and m['n'] * cand ** k > cost:
        k -= 1
    return k


def paths(rng, m, tries=6, maxlen=9):
    """Disjoint paths of the graph, of any length."""
    used, out = set(), []
    cells = list(range(1, m['n'] + 1))
    for _ in range(tries):
        free = [x for x in cells if x not in used]
        if not free:
            break
        x = rng.choice(free)
        p = [x]
        used.add(x)
        n = rng.randint(1, maxlen)
        while len(p) < n:
            nxt = [y for y in m['adj'][p[-1] - 1] if y not in used]
            if not nxt:
                break
            x = rng.choice(nxt)
            p.append(x)
            used.add(x)
        out.append(p)
        if rng.random() < 0.1:
            out.append([])
    return out


def with_lines(rng, m, c):
    """Lines provided by the caller."""
    c['aniso'], c['build'] = True, False
    c['lines'] = paths(rng, m, rng.choice([1, 6, 6, 6, 25]), rng.choice([3, 9, 9, 9, 40]))
    c['odd'] = rng.random() < 0.6
    c['maxc'] = rng.choice([-1, -1, -1, -1, 1, 2, 3, 4, 5, 6, 7, 9])
    return c


def fan(rng, hi, dim):
    """Layers of points, each one with several neighbours ahead which are about
    in the same direction."""
    rows = rng.randint(2, 4)
    layers = rng.randint(3, max(3, min(8, hi // rows)))
    step = rng.choice([8, 10, 12, 20])
    cen = [[k * step + rng.choice([0, 0, 1]), 2 * j] + [rng.choice([0, 1, 2])] * (dim - 2)
           for k in range(layers) for j in range(rows)]
    edges = []
    for k in range(layers):
        for j in range(rows):
            if j + 1 < rows and rng.random() < 0.3:
                edges.append((k * rows + j, k * rows + j + 1, rng.choice([1, 2])))
            for i in range(rows):
                if k + 1 < layers and rng.random() < (0.8 if abs(i - j) <= 1 else 0.3):
                    edges.append((k * rows + j, (k + 1) * rows + i, rng.choice([20, 20, 19, 18, 10, 4])))
    n = layers * rows
    return Raw(n, edges, cen, [rng.randint(1, 4) for _ in range(n)],
               [rng.choice([0, 0, 1, 2]) for _ in range(n)], dim, 'fan')


def layered(rng, hi, dim=None):
    """A mesh with stretched cells, where lines can be built."""
    dim = dim or rng.choice([2, 2, 3])
    if rng.random() < 0.15:
        return fan(rng, hi, dim)
    if dim == 2:
        long = rng.random()
        ny = rng.randint(2, 9) if long < (0.85 if hi < 150 else 0.5) else rng.randint(10, 24 if hi < 150 else 120)
        nx = rng.randint(1, max(1, hi // ny))
        dims = (ny, nx)
    else:
        nz = rng.randint(2, 6)
        a = rng.randint(1, 3)
        b = rng.randint(1, max(1, min(4, hi // (nz * a))))
        dims = (nz, a, b)
    g = grid(rng, dims, style='bl', holes=rng.choice([0, 0, 0.08]))
    if g.n == 0:
        return layered(rng, hi, dim)
    if rng.random() < 0.3:
        # bend it
        g.cen = [[c[0]] + [c[1] + rng.choice([0, 0, 1, 2])] + list(c[2:]) for c in g.cen]
    if rng.random() < 0.3:
        g.edges = [(a, b, max(1, w + rng.choice([0, 0, 0, 1, -1]))) for a, b, w in g.edges]
    elif rng.random() < 0.3:
        # faces just about strongly coupled
        f = rng.choice([[9, 10], [18, 19, 20], [9, 10, 10, 2], [8, 9, 10, 11]])
        g.edges = [(a, b, w * rng.choice(f)) for a, b, w in g.edges]
    return g


def exact_lines(m, thr):
    """Whether no comparison made when building lines is decided by rounding."""
    for k in range(m['n']):
        if not m['w'][k]:
            continue
        mx = max(m['w'][k])
        for w in m['w'][k]:
            if (w > 0.90 * mx) != (10 * w > 9 * mx):
                return False
        ds = [sum((a - b) ** 2 for a, b in zip(m['cen'][k], m['cen'][y - 1])) for y in m['adj'][k]]
        if min(ds) == 0:
            return False
        for d in ds:
            if 9 * d == 10 * min(ds):
                return False
    return True


def with_built(rng, m, c):
    c['aniso'], c['build'] = True, True
    ids = list(range(1, m['n'] + 1))
    r = rng.random()
    if r < 0.6:
        c['comp'] = ids
    elif r < 0.9:
        c['comp'] = [x for x in ids if rng.random() < 0.75]
    else:
        c['comp'] = [x for x in ids if rng.random() < 0.3]
    if rng.random() < 0.3:
        rng.shuffle(c['comp'])
    c['thr'] = rng.choice([[-1, 1], [-1, 1], [4, 1], [2, 1], [2, 1], [3, 2], [1, 2], [1, 4], [1, 1]])
    c['coup'] = rng.choice([0, 0, 1])
    c['force'] = rng.random() < 0.6
    c['odd'] = rng.random() < 0.6
    c['maxc'] = rng.choice([-1, -1, -1, -1, -1, 1, 2, 3, 4, 5, 6, 7, 10])
    return c


def lines_scenario(rng, hi):
    """Mesh and settings with lines to build."""
    while True:
        g = layered(rng, hi) if rng.random() < 0.8 else raw_mesh(rng, 4, hi)
        m = finish(rng, g)
        c = with_built(rng, m, settings(rng, m))
        if exact_lines(m, c['thr']):
            return m, c


def scenario(rng, lo, hi):
    """Any mesh with any settings."""
    r = rng.random()
    if r < 0.25:
        return lines_scenario(rng, hi)
    m = mesh(rng, lo, hi)
    c = settings(rng, m)
    if r < 0.45 and m['n'] > 1:
        with_lines(rng, m, c)
    return m, c
