"""Long use of the real tool library and the real executable; traces for TraceHold."""
import os, time, shutil, signal, subprocess, resource
from . import build, lve, session, tooldrv, tlc, checks_lve as cl
from .lve import msg
from .checks_tool import family, reap, subreaper

def status(pid):
    """-> (open descriptors, resident memory of its own in KB)"""
    mem = -1
    for ln in open('/proc/%d/status' % pid):
        if ln.startswith('RssAnon'):
            mem = int(ln.split()[1])
    return len(os.listdir('/proc/%d/fd' % pid)), mem

def kids(pid):
    """children of the process, dead or alive"""
    try:
        return [int(x) for x in open('/proc/%d/task/%d/children' % (pid, pid)).read().split()]
    except OSError:
        return []

def collect():
    """processes that ended and whose parent has ended"""
    try:
        while os.waitpid(-1, os.WNOHANG)[0]:
            pass
    except ChildProcessError:
        pass

def settle(seen, conf, get):
    """a mark; what ends by itself is given the time to do so"""
    end = time.time() + 5
    while conf not in seen:
        m, n = get(), 0
        while n < 15:
            time.sleep(.02)
            m2 = get()
            n = n + 1 if (m['fds'], m['procs']) == (m2['fds'], m2['procs']) else 0
            m = m2
        seen[conf] = m
    while True:
        m, first = get(), seen[conf]
        if (m['fds'], m['procs']) == (first['fds'], first['procs']) or time.time() > end:
            return m
        time.sleep(.01)

def run_exe(sc):
    """one executable, sc['req'] repeated; sc: id, exe, lib, req(path), fault, n, warm"""
    d = os.path.join(build.scratch(), 's', 'h%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    env = {'VF_LM_GRANT': session.hexlist([b'g']), 'VF_LM_IN_FAIL': session.hexlist([b'r']), 'VF_LM_NEW_FAIL': '0'}
    if sc.get('fault'):
        env.update({'LD_PRELOAD': build.shim('fault'), 'VF_FAULT': sc['fault'], 'VF_FAULT_IN': sc['lib'] + sc['at']})
    if sc.get('newfail'):
        env['VF_LM_NEW_FAIL'] = '1000000'
    l = lve.Lve(sc['exe'], sc.get('key', 'tool0'), env=env, tls12=sc.get('tls12', False), cwd=d)
    try:
        ev, log, seen = [], [], {}
        l.handshake()
        for r in sc['pre']:
            l.call(r(sc['lib']))
        reqs = [r(sc['lib']) for r in sc['req']]
        def cycle(n):
            outs, last = set(), None
            for _ in range(n):
                last = tuple((r.c, r.n, r.data) for r in map(l.call, reqs))
                outs.add(last)
                if last[-1][0] in ('EOF', 'NONE', 'BAD'):
                    break
            ev.append({'e': 'cycle', 'n': n, 'alive': all(x[0] not in ('EOF', 'NONE') for x in last), 'late': False, 'outs': len(outs), 'steps': [{'op': 'request', 'k': 0, 'slot': 0, 'ok': True}]})
            log.append('%d times: %s' % (n, ' '.join('%s %s %s' % (x[0], x[1], session.q(x[2][:40])) for x in last)))
        def mark():
            f, m = status(l.p.pid)
            return {'e': 'mark', 'fds': f, 'procs': 0, 'mem': m}
        for n in [sc['warm']] + [sc['n']] * 3:
            cycle(n)
            if not ev[-1]['alive']:
                break
            ev.append(settle(seen, '', mark))
            log.append('held: %(fds)d descriptors, %(mem)d KB' % ev[-1])
        return {'id': sc['id'], 'name': sc['name'], 'slack': sc['slack'], 'ev': ev, 'log': log}
    finally:
        l.close('notify')
        shutil.rmtree(d, ignore_errors=True)

def run_tool(sc):
    """a program; sc: id, tool, pre, steps, n, warm.  Steps: (line) for vf_tool, ('limit', n) so many descriptors free, ('kill',) the executable"""
    subreaper()
    d = os.path.join(build.scratch(), 's', 'H%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    t = tooldrv.Tool(sc['tool'], {'VF_RUN': d, 'VF_LM_GRANT': session.hexlist([b'g']), 'VF_LM_IN_FAIL': session.hexlist([b'r'])}, cwd=d)
    t.p.stdin.flush()
    try:
        ev, log, seen = [], [], {}
        cur, late = [0], False
        coarse = any(s[0] == 'kill' for s in sc['pre'] + sc['steps'])
        def step(s):
            """-> (record, result)"""
            nonlocal late
            if s[0] == 'limit':
                n = 1024 if s[1] is None else len(os.listdir('/proc/%d/fd' % t.p.pid)) + s[1]
                resource.prlimit(t.p.pid, resource.RLIMIT_NOFILE, (min(n, 1024), 1024))
                return {'op': 'limit', 'k': 0, 'slot': 0, 'ok': True}, ''
            if s[0] == 'kill':
                k = family(d, [t.p.pid])
                if k:
                    os.kill(k[-1], signal.SIGKILL)
                    end = time.time() + 5
                    while k[-1] in family(d, [t.p.pid]) and time.time() < end:
                        time.sleep(.001)
                return {'op': 'kill', 'k': 0, 'slot': 0, 'ok': True}, ''
            t.send(s)
            l = t.line(time.time() + tooldrv.TIMEOUT)
            late = late or l is None
            op = s.split()[0]
            if op == 'sel':
                cur[0] = int(s.split()[1])
            slot = int(s.split()[1]) if op in ('file', 'ffree') else 0
            ok = bool(l) and l.split()[1:2] == ['ok']
            if op == 'start' or coarse:      # how the loss of an executable is noticed, and told, varies
                l = op + (' ok' if ok else ' fail')
            return {'op': op, 'k': cur[0], 'slot': slot, 'ok': ok}, l
        def cycle(steps, n):
            outs, rec = set(), []
            for i in range(n):
                r = [step(s) for s in steps]
                rec = [x for x, _ in r]
                outs.add(tuple(y for _, y in r))
                if late or not t.alive():
                    break
            ev.append({'e': 'cycle', 'n': n, 'alive': t.alive(), 'late': late, 'outs': len(outs), 'steps': rec})
            log.append('%d times: %s' % (n, ' | '.join('%s -> %s' % (str(s)[:30], (y or '')[:50]) for s, (_, y) in zip(steps, r))))
            return not late and t.alive()
        def mark():
            collect_here()
            f, m = status(t.p.pid)
            k = set(kids(t.p.pid)) | set(family(d, [t.p.pid]))
            return {'e': 'mark', 'fds': f, 'procs': len(k), 'mem': m}
        def collect_here():
            for p in kids(os.getpid()):
                if p != t.p.pid:
                    try:
                        os.waitpid(p, os.WNOHANG)
                    except OSError:
                        pass
        step('sel 0')            # it is up
        if not sc['pre'] or cycle(sc['pre'], 1):
            for n in [sc['warm']] + [sc['n']] * 3:
                if not cycle(sc['steps'], n):
                    break
                ev.append(settle(seen, '', mark))
                log.append('held: %(fds)d descriptors, %(procs)d processes, %(mem)d KB' % ev[-1])
        return {'id': sc['id'], 'name': sc['name'], 'slack': sc['slack'], 'ev': ev, 'log': log, 'hang': late}
    finally:
        t.close()
        t.err.close()
        for p in family(d):
            reap(p, 3)
        shutil.rmtree(d, ignore_errors=True)

def sig(tr, info):
    e = tr['ev'][info['l'] - 1] if 0 < info.get('l', 0) <= len(tr['ev']) else {}
    return '%s | %s' % (tr['name'], e)

def corrupt(tr, rng):
    marks = [i for i, e in enumerate(tr['ev']) if e['e'] == 'mark']
    k = rng.randrange(4)
    if k == 0:
        tr['ev'][marks[-1]]['fds'] += 1
    elif k == 1:
        tr['ev'][marks[-1]]['procs'] += rng.choice([1, 300])
    elif k == 2:
        for n, i in enumerate(marks):
            tr['ev'][i]['mem'] = 1000 + n * (tr['slack'] + 1)
    else:
        rng.choice([e for e in tr['ev'] if e['e'] == 'cycle'])['outs'] = 2
    return tr

def c22(check):
    t = (build.LVE, 'encrypt_file', 'vf_tool')
    build.scratch()
    build.keydir()
    build.shim('fault')
    b = build.build('plain', t)
    g = build.build('gplain', t, global_feature=cl.GLOB)
    check.log('built')
    check.model('Holdings')
    for v in ('Leaks', 'Inherits', 'Uncollected'):
        r = tlc.run('Holdings', 'Holdings%s.cfg' % v)
        if r['rc'] not in (12, 13):
            raise tlc.TlcError('Holdings%s: the mistake was not found by TLC\n%s' % (v, r['out'][-1500:]))
        check.cover('mistakes found by Holdings')
    src = dict(cl.BASE, **{'big.moc': b'model x end x; ' * 1400, 'big.txt': b'y' * 20000, 'deep/er/and/deeper.moc': b'z' * 100})
    lib = session.Lib(b, src, os.path.join(build.scratch(), 'HL'))
    with open(os.path.join(lib.path, 'bad.moc'), 'wb') as f:
        f.write(b'z' * 20000)
    os.makedirs(os.path.join(lib.path, 'other'))
    with open(os.path.join(lib.path, 'other', 'package.moc'), 'wb') as f:
        f.write(b'no package file')
    with open(os.path.join(lib.path, 'other', 'x.moc'), 'wb') as f:
        f.write(open(os.path.join(lib.path, 'big.moc'), 'rb').read())
    # -- the executable
    V, L = (lambda p: msg('VERSION', n=1)), (lambda p: msg('LIB', p.encode()))
    one = lambda *a, **k: (lambda p: msg(*a, **k))
    raw = lambda x: (lambda p: x)
    exe = []
    def add(name, reqs, pre=(V, L), exe_=b, **kw):
        exe.append(dict(id=len(exe) + 1, name='executable: ' + name, exe=os.path.join(exe_, build.LVE), lib=lib.path, req=reqs, pre=pre, n=check.n(4000, 60000), warm=500, slack=24, tls12=len(exe) % 4 == 3, **kw))
    for n, f in (('encrypted', 'big.moc'), ('plain', 'big.txt'), ('in a directory', 'sub/x.moc'), ('deep', 'deep/er/and/deeper.moc'), ('package', 'package.moc'), ('missing', 'nope/' + 'n' * 2000 + '.moc'), ('corrupt', 'bad.moc'),
                 ('under a corrupt package file', 'other/x.moc'), ('directory', 'sub'), ('above', '../' * 500), ('empty name', ''), ('too long', 'd/' * 4000)):
        add('file ' + n, [one('FILE', f.encode())])
    add('files in turn', [one('FILE', f.encode()) for f in ('big.moc', 'sub/x.moc', 'bad.moc', 'package.moc', 'nope')])
    for f in ('fopenr:1+', 'fread:1+', 'stat:1+', 'fclose:1+'):
        for at in ('/', '/sub/package.moc', '/package.moc', '/sub/x.moc'):
            add('unreadable %s (%s)' % (at, f), [one('FILE', b'sub/x.moc'), one('FILE', b'big.txt'), one('FILE', b'sub/package.moc')], fault=f, at=at)
    add('feature', [one('FEATURE', b'g'), one('RETURNFEATURE', b'g')])
    add('feature refused', [one('FEATURE', b'q' * 5000)])
    add('return refused', [one('RETURNFEATURE', b'r')])
    add('manager unavailable', [one('FEATURE', b'g')], newfail=True)
    add('license', [one('LICENSE', b'p' * 5000), one('RETURNLICENSE', b'p' * 5000)])
    add('refused requests', [raw(b'FOO ' + b'x' * 3000 + b'\n'), raw(b'FILE 5000\nabc'), L, V, raw(b'FILE -1\nabc'), raw(b'A' * 5000), one('NO', b'n' * 5000), one('ERROR', b'n' * 5000, n=3), raw(b'\n'), raw(b'FEATURE 1\nggg'), raw(b'FILE x\nabc')])
    add('before a version', [L, one('FILE', b'a.moc'), one('FEATURE', b'g'), one('LICENSE', b'p')], pre=())
    add('before a library', [V, one('FILE', b'a.moc'), one('FEATURE', b'g'), one('LIB', b'')], pre=(V,))
    add('blocked by the library feature', [one('FILE', b'big.moc'), one('FEATURE', b'g')], exe_=g)
    add('not trusted', [one('FILE', b'big.moc'), one('FEATURE', b'g')], key='other')
    add('no library', [one('FILE', b'big.moc'), one('FEATURE', b'g')], pre=(V, one('LIB', b'/nonexistent')))
    check.conform('TraceHold', exe, run_exe, sig, corrupt, label='executable')
    # -- the tool library
    hx = lambda s: (s if isinstance(s, bytes) else s.encode()).hex()
    S = 'start ' + hx(os.path.join(b, build.LVE))
    SG = 'start ' + hx(os.path.join(g, build.LVE))
    O = [S, 'version 1 9', 'lib ' + hx(lib.path)]
    tool = []
    noexe = os.path.join(build.scratch(), 'noexe')
    with open(noexe, 'w') as f:
        f.write('#!/bin/sh\n')
    def addt(name, steps, pre=(), n=None, warm=None):
        calls = not any(isinstance(s, str) and s.startswith('start') for s in steps)
        tool.append(dict(id=len(tool) + 1, name='tool: ' + name, tool=b + '/vf_tool', steps=steps, pre=list(pre), n=n or (check.n(1500, 30000) if calls else check.n(200, 2000)), warm=warm or (300 if calls else 80), slack=24))
    addt('sessions', O + ['file 0 ' + hx('big.moc'), 'ffree 0', 'free'])
    addt('sessions with files kept', O + ['file 0 ' + hx('big.moc'), 'file 1 ' + hx('big.txt'), 'free', 'size 0'])
    addt('sessions without calls', [S, 'free'])
    addt('sessions refused', [SG, 'version 1 9', 'lib ' + hx(lib.path), 'file 0 ' + hx('a.moc'), 'version 5 9', 'free'])
    addt('sessions in between', ['sel 1', SG, 'version 1 9', 'free', 'sel 0', 'feature ' + hx('g')], O)
    addt('two sessions', ['sel 0'] + O + ['sel 1'] + O + ['sel 0', 'free', 'sel 1', 'free'])
    addt('executables killed', O + [('kill',), 'feature ' + hx('g'), 'file 0 ' + hx('a.moc'), 'free'])
    for n, p in (('no such program', '/nonexistent/x'), ('not executable', lib.path + '/r.txt'), ('no permission', noexe), ('ends at once', '/bin/false'), ('talks', '/bin/echo'), ('directory', lib.path), ('empty path', ''), ('path too long', '/' + 'x' * 5000)):
        addt('start fails: ' + n, ['start ' + hx(p)], n=check.n(200, 4000))
    for n in range(6):
        addt('start with %d descriptors left' % n, [('limit', n), S, 'free', ('limit', None)])
    for n, s in {'file': ['file 0 ' + hx('big.moc'), 'size 0', 'read 0 100', 'read 0 100000', 'ffree 0'], 'file replaced': ['file 0 ' + hx('big.txt')], 'missing file': ['file 0 ' + hx('nope' + 'n' * 2000)], 'feature': ['feature ' + hx('g'), 'retfeature ' + hx('g')],
                 'feature refused': ['feature ' + hx('r' * 3000)], 'return refused': ['retfeature ' + hx('r')], 'license': ['license ' + hx('x' * 3000)], 'return license': ['retlicense ' + hx('x' * 3000)],
                 'second library': ['lib ' + hx(lib.path)], 'late version': ['version 1 9', 'version 7 3'], 'too long': ['feature ' + hx('x' * 20000), 'file 0 ' + hx('y' * 20000)]}.items():
        addt('calls: ' + n, s, O)
    addt('calls after the executable was killed', ['feature ' + hx('g'), 'file 0 ' + hx('a.moc'), 'version 1 1'], O + ['file 1 ' + hx('a.moc'), ('kill',), 'feature ' + hx('g')])
    check.conform('TraceHold', tool, run_tool, sig, corrupt, label='tool library')

ALL = {'C22': c22}
