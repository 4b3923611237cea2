"""C23: sessions used by several threads of one program at the same time."""
import os, shutil, subprocess, threading
from . import build, tlc, tooldrv, e2e
from . import checks_tool as ct, checks_e2e as ce

def SUPP():
    # what the (uninstrumented) libraries do among themselves is not looked at
    f = os.path.join(build.scratch(), 'tsan.supp')
    if not os.path.exists(f):
        with open(f + str(os.getpid()), 'w') as o:
            o.write('called_from_lib:libssl.so\ncalled_from_lib:libcrypto.so\n')
        os.rename(f + str(os.getpid()), f)
    return f

def run(g):
    """g: id, tool, delay, members (scenarios of tooldrv or e2e); all at the same time, each in a thread of its own"""
    ct.subreaper()
    root = os.path.join(build.scratch(), 's', 'g%d-%d' % (os.getpid(), g['id']))
    os.makedirs(root)
    try:
        env = {'LD_PRELOAD': build.shim('sched'), 'VF_DELAY': str(g['delay'])} if g['delay'] else {}
        if g['waits']:
            env['VF_WAITS'] = '1'
        env['TSAN_OPTIONS'] = 'exitcode=98:history_size=4:suppressions=' + SUPP()
        host = tooldrv.Host(g['tool'], len(g['members']), env, cwd=root)
        out, bad = [None] * len(g['members']), []
        def one(i):
            d = os.path.join(root, str(i))
            os.makedirs(d)
            try:
                out[i] = (e2e if g['kind'] == 'e2e' else tooldrv)._run(g['members'][i], d, slot=host.slots[i])
            except BaseException as e:
                bad.append(e)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(len(out))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        rc, err = host.close()
        if bad:
            raise bad[0]
        if rc != 0:
            e = [e for e in out[0]['ev'] if 'san' in e]
            if e:
                e[-1]['san'] = True
        for i, t in enumerate(out):
            t['name'] = '%s, thread %d: %s' % (g['name'], i, t['name'])
            t['stderr'] = err[-1500:].decode('latin1') if rc else ''
        return {'id': g['id'], 'name': g['name'], 'many': out, 'hang': any(t['hang'] for t in out)}
    finally:
        shutil.rmtree(root, ignore_errors=True)

def c23(check):
    env = ce.Env(check, globals_=False, untrusted=False)
    race = build.build('tsan', ('vf_tool',), tsan=True) + '/vf_tool'
    if subprocess.run([race], stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        race = None         # this program cannot run here
        check.assumptions.append('no race detector')
    check.model('Spawn', 'SpawnDeep.cfg' if check.thorough else None)
    for v in ('Later', 'Own', 'None'):
        r = tlc.run('Spawn', 'Spawn%s.cfg' % v)
        if r['rc'] != 13:
            raise tlc.TlcError('Spawn%s: the mistake was not found by TLC\n%s' % (v, r['out'][-1500:]))
        check.cover('mistakes found by Spawn')
    check.model('MCE2E')
    build.shim('sched')
    rng = check.rng
    te = ct.Env.__new__(ct.Env)
    te.b, te.n, te.check = env.b, 0, check
    def groups(kind, scs, n):
        out = []
        by = {}
        for s in scs:
            if not s.get('noerr') and 'env' not in s:
                by.setdefault(s['tool'], []).append(s)
        for k in range(n):
            tool = rng.choice(sorted(by))
            m = rng.choice([2, 3, 4, 6, 8])
            prog = race if race and rng.random() < .5 else tool
            out.append(dict(id=k + 1, tool=prog, kind=kind, members=[rng.choice(by[tool]) for _ in range(m)], tries=3, waits=rng.random() < .4,
                            delay=0 if prog != tool or 'asan' in tool else rng.choice([300, 1000, 3000, 8000]), name='%d threads (%s)' % (m, os.path.basename(os.path.dirname(prog)))))
        return out
    # sessions that all start and end at the same time, again and again
    libs = {b: env.lib(ce.BASE, b) for b in env.b}
    short = []
    for b in env.b:
        for i in range(20):
            st = []
            for _ in range(rng.choice([2, 3, 5])):
                st += [('start',), ('version', 1, 1), ('lib', lambda p: p.encode())]
                for f in rng.sample(sorted(ce.BASE), rng.randint(1, 3)):
                    st += [('file', 0, f.encode()), ('size', 0)] + ct.reads(rng, len(ce.BASE[f]), 0)[:6]
                    st.append((rng.choice(['feature', 'retfeature']), rng.choice(ce.FEATS['g'] + ce.FEATS['r'])))
                st.append(('free',))
            short.append(env.sc(b, libs[b], st, name='sessions'))
    gs = groups('e2e', short, check.n(40, 400)) + groups('e2e', ce.random_sessions(env, check, 200), check.n(40, 600))
    for i, g in enumerate(gs):
        g['id'] = i + 1
    check.cover('groups of threads with real executables', len(gs))
    check.conform('TraceE2E', gs, run, ce.sig, ce.corrupt, procs=4, chunk=150, label='threads', maxhang=6)
    gone = ct.crash_points(te, check) + ct.handshake_losses(te, check)
    gs = groups('tool', gone, check.n(60, 800)) + groups('tool', ct.delivery(te, check, 60), check.n(20, 200))
    for i, g in enumerate(gs):
        g['id'] = i + 5001
    check.cover('groups of threads with scripted executables', len(gs))
    check.conform('TraceTool', gs, run, ct.sig, ct.corrupt, procs=4, label='threads, executables that end', maxhang=6)

ALL = {'C23': c23}
