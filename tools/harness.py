"""Build the drivers from the current /repo and run scenarios through them."""
import fcntl
import glob
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NPROC = 8
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
FLAGS = {'api': SAN, 'cls': SAN, 'sub': SAN, 'dep': SAN, 'apiopt': ['-O2', '-DNDEBUG'],
         'thr': ['-O1', '-g1', '-fsanitize=thread', '-pthread']}
SOURCE = {'api': 'drv_api.cpp', 'cls': 'drv_cls.cpp', 'sub': 'drv_sub.cpp', 'dep': 'drv_dep.cpp', 'apiopt': 'drv_api.cpp',
          'thr': 'drv_thr.cpp'}


class HarnessError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/include/**/*', recursive=True)) \
        + sorted(glob.glob(REPO + '/src/**/*', recursive=True)) \
        + [REPO + '/config_files/CoMMAConfig.h.in'] + sorted(glob.glob(VERIF + '/harness/*'))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    h.update(repr(FLAGS).encode())
    return h.hexdigest()[:20]


def config_header(where):
    os.makedirs(where + '/CoMMA', exist_ok=True)
    with open(REPO + '/config_files/CoMMAConfig.h.in') as f:
        s = f.read()
    for k, v in (('@INDEX_T@', 'unsigned long'), ('@REAL_T@', 'double'), ('@INT_T@', 'int'),
                 ('@PROJECT_VERSION@', '1.0.0'), ('@PROJECT_VERSION_MAJOR@', '1'),
                 ('@PROJECT_VERSION_MINOR@', '0'), ('@PROJECT_VERSION_PATCH@', '0')):
        s = s.replace(k, v)
    with open(where + '/CoMMA/CoMMAConfig.h', 'w') as f:
        f.write(s)


def pybind_flags():
    r = subprocess.run([sys.executable, '-m', 'pybind11', '--includes'], capture_output=True, text=True)
    if r.returncode == 0:
        return r.stdout.split()
    import sysconfig
    inc = ['-I' + sysconfig.get_paths()['include']]
    for d in glob.glob('/usr/include/pybind11') + glob.glob('/usr/local/include/pybind11') \
            + glob.glob(REPO + '/_build/_deps/*/include/pybind11') \
            + glob.glob('/opt/**/include/pybind11', recursive=True):
        inc.append('-I' + os.path.dirname(d))
        break
    return inc


def build(*names):
    """Compile the drivers for the current tree, return their directory."""
    os.makedirs(BUILD, exist_ok=True)
    tag = tree_hash()
    where = os.path.join(BUILD, tag)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(where, exist_ok=True)
        config_header(where)
        todo = [n for n in names if not os.path.exists(os.path.join(where, target(n)))]

        def one(n):
            out = os.path.join(where, target(n))
            tmp = out + '.tmp'
            if n == 'py':
                cmd = ['g++', '-std=c++17', '-O1', '-w', '-shared', '-fPIC', '-fvisibility=hidden',
                       '-I' + REPO + '/include', '-I' + where] + pybind_flags() \
                    + [REPO + '/src/CoMMA.cpp', '-o', tmp]
            else:
                cmd = ['g++', '-std=c++17', '-w'] + FLAGS[n] + ['-I' + REPO + '/include', '-I' + where,
                       '-I' + VERIF + '/harness', VERIF + '/harness/' + SOURCE[n], '-o', tmp]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=800)
            if r.returncode != 0:
                return n + ': ' + r.stderr[-3000:]
            os.rename(tmp, out)
            return None
        with ThreadPoolExecutor(4) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise HarnessError('compilation failed\n' + '\n'.join(errs))
        os.utime(where)
        # Keep a few builds only
        old = sorted((d for d in glob.glob(BUILD + '/*/') if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-4]:
            shutil.rmtree(d, ignore_errors=True)
    return where


def target(n):
    return 'CoMMA.so' if n == 'py' else 'drv_' + n


# ---------------------------------------------------------------- encoding --
def V(v):
    return '%d %s' % (len(v), ' '.join(map(num, v))) if v else '0'


def num(x):
    if isinstance(x, bool):
        return '1' if x else '0'
    return repr(x) if isinstance(x, float) else str(x)


def VV(v):
    return '%d %s' % (len(v), ' '.join(V(x) for x in v)) if v else '0'


def data(m, cen=True):
    """Weights, volumes, centers and priorities in the units of the mesh."""
    sc = m.get('sc')
    if not sc:
        return m
    f = {k: 2.0 ** sc[k] for k in ('w', 'vol', 'cen', 'prio')}
    if not cen:
        f['cen'] = 1
    return dict(m, w=[[x * f['w'] for x in a] for a in m['w']], vol=[x * f['vol'] for x in m['vol']],
                cen=[[x * f['cen'] for x in a] for a in m['cen']],
                prio=[x * f['prio'] + sc['off'] for x in m['prio']])


def csr(m):
    rp, col, w = [0], [], []
    for a, ws in zip(m['adj'], m['w']):
        col += [x - 1 for x in a]
        w += ws
        rp.append(len(col))
    return rp, col, w


def indexed(lines):
    if not lines:
        return [], []
    idx, out = [0], []
    for ln in lines:
        out += [x - 1 for x in ln]
        idx.append(len(out))
    return idx, out


SEEDS = {('B', False): 0, ('N', False): 1, ('B', True): 10, ('N', True): 11}


def call_args(m, c):
    """Arguments of the agglomeration as a dictionary, in order."""
    # One aspect ratio has an absolute tolerance
    m = data(m, c['ar'] != 8)
    rp, col, w = csr(m)
    lidx, lines = indexed(c['lines'])
    a = {'rp': rp, 'col': col, 'w': w, 'vol': m['vol'], 'cen': m['cen'], 'prio': m['prio'],
         'comp': [x - 1 for x in c['comp']], 'bnd': m['bnd'], 'build': c['build'], 'aniso': c['aniso'],
         'odd': c['odd'], 'thr': c['thr'][0] / c['thr'][1], 'seeds': SEEDS[c['kind'], c['one']],
         'lidx': lidx, 'lines': lines, 'corr': c['corr'], 'dim': m['dim'], 'goal': c['goal'],
         'min': c['min'], 'max': c['max'], 'ar': c['ar'], 'sing': c['sing'],
         'maxc': c['maxc'] if c['maxc'] >= 0 else -1000, 'coup': c['coup'], 'force': c['force'],
         'iter': c['iter'], 'nb': c['nb']}
    return a


def agg_line(i, a, types=0, variant=0, junk=()):
    return ' '.join(['A', str(i), str(types), V(a['rp']), V(a['col']), V(a['w']), V(a['vol']), VV(a['cen']),
                     V(a['prio']), V(a['comp']), V(a['bnd']), num(a['build']), num(a['aniso']),
                     num(a['odd']), num(float(a['thr'])), str(a['seeds']), V(a['lidx']), V(a['lines']),
                     num(a['corr']), str(a['dim']), str(a['goal']), str(a['min']), str(a['max']),
                     str(a['ar']), str(a['sing']), str(a['maxc']), str(a['coup']), num(a['force']),
                     str(a['iter']), str(a['nb']), str(variant), V(list(junk))])


def mesh_line(m, comp=(), clip=True, units=True, ar=0):
    if units:
        m = data(m, ar != 8)
    rp, col, w = csr(m)
    bnd = [min(b, m['dim']) for b in m['bnd']] if clip else m['bnd']
    return ' '.join([V(rp), V(col), V(w), V(m['vol']), VV(m['cen']), V(m['prio']),
                     V([x - 1 for x in comp]), V(bnd), str(m['dim'])])


# ------------------------------------------------------------------ running --
def starter(exe):
    """How to start a driver: the thread sanitizer may need a fixed layout of
    the memory."""
    if exe.endswith('_thr'):
        for cmd in ([exe], ['setarch', '-R', exe]):
            try:
                if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 4:
                    return cmd
            except OSError:
                pass
        raise HarnessError('the thread sanitizer does not start')
    return [exe]


def limited():
    """Bound the memory of a process without sanitizer."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run_driver(exe, lines, seconds=30):
    """Run the scenarios (one line each, ids 0..): list of results.  A crash or
    an endless loop is a result too ("crash", "timeout"); None if not run."""
    n = len(lines)
    res = [None] * n
    tmp = tempfile.mkdtemp(prefix='comma-verif-')
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=1500:allocator_may_return_null=0:color=never'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:color=never:hard_rss_limit_mb=3000'
    start = starter(exe)
    chunks = [list(range(k, n, NPROC)) for k in range(min(NPROC, n))]

    def work(k):
        ids = chunks[k]
        fin = os.path.join(tmp, 'in%d' % k)
        fout = os.path.join(tmp, 'out%d' % k)
        with open(fin, 'w') as f:
            for i in ids:
                f.write(lines[i] + '\n')
        skip, bad, slow = 0, 0, 0
        while skip < len(ids):
            if os.path.exists(fout):
                os.unlink(fout)
            try:
                p = subprocess.run(start + [fin, fout, str(skip), str(seconds)], env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=seconds + 600,
                                   preexec_fn=limited if exe.endswith('_apiopt') else None)
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired:
                rc, err = -1, 'timeout'
            if rc == 4:
                raise HarnessError('driver refused its input: ' + err[-300:])
            got = 0
            if os.path.exists(fout):
                with open(fout) as f:
                    for ln in f:
                        try:
                            r = json.loads(ln)
                        except ValueError:
                            break
                        res[r['id']] = r
                        got += 1
                        if r['st'] == 'timeout':
                            slow += 1
            if rc == 0 and skip + got >= len(ids):
                break
            if rc == 0:
                raise HarnessError('driver ended early')
            if rc == 3:
                skip += got
            else:
                i = ids[skip + got]
                res[i] = {'id': i, 'st': 'crash', 'msg': summary(err)}
                skip += got + 1
                bad += 1
            if bad > 40 or slow > 2:
                break
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(work, k) for k in range(len(chunks))]:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def summary(err):
    for ln in err.splitlines():
        if 'SUMMARY' in ln or 'runtime error' in ln or 'Assertion' in ln:
            return ln.strip()[:200]
    return err.strip()[-200:]
