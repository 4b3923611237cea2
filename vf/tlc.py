"""Running TLC."""
import os, re, subprocess, tempfile, shutil, json
from . import build
SPEC = os.path.join(build.VERIF, 'spec')

class TlcError(Exception):
    pass

def run(module, cfg=None, env=None, workers=4, timeout=800, extra=(), deadlock=False, heap='4g'):
    """-> dict(out, states, distinct, ok, violated). Raises TlcError if TLC itself fails."""
    d = tempfile.mkdtemp(prefix='tlc.', dir=build.scratch())
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f.endswith('.cfg'):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = cfg or module + '.cfg'
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cp = '/opt/veriftools/tla/tla2tools.jar'
    cmd = ['tlc', '-config', cfg, '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError('TLC timed out on ' + module)
    out = p.stdout
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
    r = {'out': out, 'rc': p.returncode, 'states': int(m[-1][1]) if m else 0, 'transitions': int(m[-1][0]) if m else 0,
         'module': module, 'cfg': cfg}
    r['ok'] = p.returncode == 0 and 'No error has been found' in out
    r['violated'] = re.findall(r'(?:Invariant|Action property|property) (\S+) is violated|Temporal properties were violated', out)
    return r

def must_hold(module, cfg=None, **kw):
    """Model check; the model not holding is an error of the specification, not of the code."""
    r = run(module, cfg, **kw)
    if not r['ok']:
        raise TlcError('%s/%s: TLC rc %s\n%s' % (module, cfg, r['rc'], r['out'][-4000:]))
    return r

def prints(out):
    """JSON values printed with PrintT(ToJson(..))"""
    res = []
    for ln in out.splitlines():
        if ln.startswith('"') and ln.endswith('"'):
            try:
                res.append(json.loads(json.loads(ln)))
            except ValueError:
                pass
    return res

def validate(module, traces, chunk=400, par=4, cfg=None):
    """Check traces (dicts with 'ev') with a trace module. -> (dict index -> reject info, stats)"""
    from concurrent.futures import ThreadPoolExecutor
    chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    def one(c):
        f = tempfile.NamedTemporaryFile('w', dir=build.scratch(), suffix='.ndjson', delete=False)
        for t in c:
            f.write(json.dumps({k: v for k, v in t.items() if k not in ('log', 'stderr', 'name', 'hang')}) + '\n')
        f.close()
        r = run(module, cfg, env={'VF_TRACES': f.name}, workers=1)
        os.unlink(f.name)
        if not r['ok']:
            raise TlcError('%s: TLC rc %s\n%s' % (module, r['rc'], r['out'][-3000:]))
        acc, stuck = set(), {}
        for v in prints(r['out']):
            if v.get('verdict') == 'ACCEPT':
                acc.add(v['tid'])
            elif v.get('verdict') == 'STUCK':
                if v['tid'] not in stuck or stuck[v['tid']]['l'] < v['l']:
                    stuck[v['tid']] = v
        return acc, stuck, r
    rej, st, tr = {}, 0, 0
    with ThreadPoolExecutor(par) as ex:
        for n, (acc, stuck, r) in enumerate(ex.map(one, chunks)):
            st += r['states']
            tr += r['transitions']
            for i in range(len(chunks[n])):
                if i + 1 not in acc:
                    rej[n * chunk + i] = stuck.get(i + 1, {'l': 0, 'expected': 'no explanation'})
    return rej, {'states': st, 'transitions': tr}
