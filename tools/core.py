"""Run TLC on recorded behaviours and report."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

import harness

SPEC = os.path.join(harness.VERIF, 'spec')
JAVA = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


class ModelError(Exception):
    pass


def tlc(module, data=None, spec='RecSpec', invs=(), props=(), consts=None, deadlock=False, cfg=None,
        timeout=700, extra=(), env=None, view=None, bound=None, action=None, workers=8):
    """Run TLC.  Returns counts, the name of what was violated (or None) and
    the record at fault (from 0)."""
    tmp = tempfile.mkdtemp(prefix='comma-tlc-')
    t0 = time.time()
    try:
        e = dict(os.environ)
        e.update(env or {})
        if data is not None:
            path = os.path.join(tmp, 'data.ndjson')
            with open(path, 'w') as f:
                for d in data:
                    f.write(json.dumps(d) + '\n')
            e['DATA'] = path
        if cfg is None:
            cfg = os.path.join(tmp, 'run.cfg')
            with open(cfg, 'w') as f:
                f.write('SPECIFICATION %s\n' % spec)
                if consts:
                    f.write('CONSTANTS\n')
                    for k, v in consts.items():
                        f.write('  %s %s\n' % (k, v if v.startswith('<-') else '= ' + v))
                if invs:
                    f.write('INVARIANTS ' + ' '.join(invs) + '\n')
                if props:
                    f.write('PROPERTIES ' + ' '.join(props) + '\n')
                for k, v in (('VIEW', view), ('CONSTRAINT', bound), ('ACTION_CONSTRAINT', action)):
                    if v:
                        f.write('%s %s\n' % (k, v))
                f.write('CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE'))
        cmd = JAVA[:1] + ['-Djava.io.tmpdir=' + tmp] + JAVA[1:] + ['-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(tmp, 'md'),
                      '-config', cfg] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError('TLC on %s: more than %d s' % (module, timeout))
        out = p.stdout
        res = {'out': out, 'bad': None, 'index': None, 'wall': time.time() - t0, 'states': 0, 'distinct': 0}
        k = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out)
        if k:
            res['states'], res['distinct'] = int(k[-1][0]), int(k[-1][1])
        if p.returncode == 0 and 'No error has been found' in out:
            return res
        v = re.search(r'Invariant (\S+) is violated', out) \
            or re.search(r'Temporal properties were violated', out) \
            or re.search(r'Action property (\S+) .*is violated', out) \
            or re.search(r'(Deadlock) reached', out)
        if not v and data is not None and p.returncode in (75, 76) \
                and not re.search(r'StackOverflow|OutOfMemory|stack overflow|out of memory|heap space', out + p.stderr):
            # a record the specification has no meaning for (wrong sizes, cells which do not exist...)
            ids = re.findall(r'^(?:/\\ )?i = (\d+)$', out, re.M)
            res.update(bad='evaluation', index=int(ids[-1]) - 1 if ids else None,
                       trace=out[out.find('Error:'):][-6000:], err='')
            return res
        if not v:
            raise ModelError('TLC on %s failed (%d):\n%s\n%s' % (module, p.returncode, out[-3500:], p.stderr[-500:]))
        res['bad'] = v.group(1) if v.groups() else 'temporal'
        ids = re.findall(r'^(?:/\\ )?i = (\d+)$', out, re.M)
        if ids:
            res['index'] = int(ids[-1]) - 1
        res['trace'] = out[out.find('Error:'):][-6000:]
        er = re.findall(r'^/\\ err = "([^"]*)"$', out, re.M)
        res['err'] = er[-1] if er else ''
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def generate(module, **kw):
    """Behaviours printed by the specification (one worker, in a fixed order)."""
    kw = dict(dict(spec='MCSpec', action='Record'), **kw)
    r = tlc(module, workers=1, **kw)
    if r['bad']:
        raise ModelError('the specification violates %s in %s\n%s' % (r['bad'], module, r['trace']))
    r['hist'] = [json.loads(json.loads(x)[5:]) for x in r['out'].split('\n') if x.startswith('"HIST ')]
    del r['out']
    return r
