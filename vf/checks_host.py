"""C24: the program around the tool library is left alone."""
import os, json, shutil, subprocess, time
from . import build, tlc, tooldrv, e2e
from . import checks_tool as ct, checks_e2e as ce

def run(sc):
    """sc: id, host, steps (words for vf_host; @D: scratch directory), must/never: indices of calls that have to succeed/fail"""
    ct.subreaper()
    d = os.path.join(build.scratch(), 's', 'h%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        with open(d + '/in', 'w') as f:
            f.write('input of the program\n' * 50)
        for n, t in sc['exes'].items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
            os.chmod(os.path.join(d, n), 0o755)
        env = {k: v for k, v in os.environ.items() if not k.startswith(('VF_LM_', 'SEMLA'))}
        env.update(ASAN_OPTIONS=tooldrv.ASAN, VF_RUN=d, VF_LM_GRANT='*', VF_LM_IN_FAIL='', VF_LM_NEW_FAIL='0', LC_ALL='C.UTF-8')
        words = [w[0].replace('@D', d) for w in sc['steps']]
        hung = False
        with open(d + '/in', 'rb') as i, open(d + '/out', 'wb') as o, open(d + '/err', 'wb') as x:
            p = subprocess.Popen([sc['host'], d + '/ran'] + words, stdin=i, stdout=o, stderr=x, env=env, cwd=d)
        try:
            rc = p.wait(2 * tooldrv.TIMEOUT)
        except subprocess.TimeoutExpired:
            p.kill()
            rc, hung = p.wait(), True
        end = time.time() + 3
        while ct.family(d, []) and time.time() < end:
            time.sleep(.02)
        left = ct.family(d, [])
        for k in left:
            try:
                os.kill(k, 9)
            except OSError:
                pass
        # the results in the order of the calls
        exp = [s for s in sc['steps'] if s[1] is not None]
        ev, last = [], -3
        lines = [json.loads(x) for x in open(d + '/ran.log', encoding='latin1').read().splitlines() if x.endswith('}')]
        opened, k, at = set(), 0, 0
        cur = [x for x in lines if x['op'] != 'last']
        for x in lines:
            if x['op'] == 'last':
                last = x['kid']
        for s in sc['steps']:
            op = s[0].split('=')[0]
            if op == 'use':
                at = s[0]
            if s[1] is None or op not in ('begin', 'kid', 'start', 'free') and at not in opened:
                continue
            if k >= len(cur):
                break
            x = cur[k]
            k += 1
            if op == 'start' and x['ok']:
                opened.add(at)
            if op == 'free':
                opened.discard(at)
            ev.append(dict(x, e='call', must=s[1] == 'must', never=s[1] == 'never'))
        ran = len(open(d + '/ran').read().split()) if os.path.exists(d + '/ran') else 0
        err = open(d + '/err', 'rb').read()
        san = rc in (99, 98) or b'AddressSanitizer' in err
        ev.append({'e': 'end', 'op': 'end', 'exit': rc, 'hung': hung, 'san': san, 'out': open(d + '/out').read().splitlines(), 'ran': ran, 'kid': last, 'left': len(left),
                   'printed': ['text ' + s[0].split('=', 1)[1] for s in sc['steps'] if s[0].startswith('print=')]})
        return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': [w.replace(d, '@D') for w in words] + ['exit %s ran %d left %d' % (rc, ran, len(left))], 'hang': hung, 'stderr': err[-1000:].decode('latin1')}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def sig(tr, info):
    if not info.get('l'):
        return 'no explanation'
    e = tr['ev'][info['l'] - 1]
    if e['e'] == 'call':
        return '%s ok=%s: %s' % (e['op'], e['ok'], json.dumps(info.get('expected')))
    return 'end: exit %s hung %s ran %s kid %s left %s out %s' % (e['exit'], e['hung'], e['ran'], e['kid'], e['left'], e['out'] == e['printed'])

def corrupt(tr, rng):
    c = [e for e in tr['ev'] if e['op'] not in ('begin', 'kid')]
    e = rng.choice(c)
    if e['e'] == 'end':
        k = rng.choice(['exit', 'ran', 'left', 'out'])
        if k == 'out':
            e['out'] = e['out'] + ['text 0']
        else:
            e[k] += 1
    else:
        k = rng.choice(['sigs', 'mask', 'umask', 'cwd', 'fds', 'kid', 'timer', 'env'])
        if k == 'sigs':
            e['sigs'][2] = 'own:1:1'
        elif k == 'umask':
            e[k] += 1
        elif k == 'fds':
            e[k] = e[k][1:]
        elif k == 'timer':
            e[k] = not e[k]
        else:
            e[k] += 'x'
    return tr

def c24(check):
    v = {'asan': dict(asan=True), 'plain': {}}
    build.scratch(); build.keydir()
    t = (build.LVE, 'vf_host', 'encrypt_file')
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        b = dict(ex.map(lambda nv: (nv[0], build.build(nv[0], t, **nv[1])), v.items()))
    check.log('built', *b)
    check.model('Host', 'HostDeep.cfg' if check.thorough else None)
    for m in ('Exits', 'Collects', 'Handles', 'Stays'):
        r = tlc.run('Host', 'Host%s.cfg' % m)
        if r['rc'] not in (12, 13):
            raise tlc.TlcError('Host%s: the mistake was not found by TLC\n%s' % (m, r['out'][-1500:]))
        check.cover('mistakes found by Host')
    from .session import Lib
    libs = {n: Lib(x, {'package.moc': b'package L end L;', 'a.moc': b'model a end a;' * 2000, 'r.txt': b'plain' * 20000}, os.path.join(build.scratch(), 'H-' + n), ()) for n, x in b.items()}
    rng, scs = check.rng, []
    for i in range(check.n(250, 5000)):
        n = rng.choice(sorted(b))
        real = os.path.join(b[n], build.LVE)
        exes = {'lost': '#!/bin/sh\nexec timeout -s KILL 0.15 %s\n' % real, 'false': '#!/bin/sh\nexit 1\n', 'text': 'no program\n', 'noise': '#!/bin/sh\necho noise\nexec cat\n',
                'nointerp': '#!/no/such/interpreter\n', 'closed': '#!/bin/sh\nexec <&- >&-\nsleep 0.2\n'}
        st = []
        if rng.random() < .6:
            st.append((rng.choice(['pipe-own', 'pipe-info', 'pipe-ignored']), None))
        if rng.random() < .4:
            st.append((rng.choice(['chld-own', 'chld-nowait']), None))
        for w in ('others', 'mask', 'timer', 'umask=037', 'locale=C.UTF-8', 'open=@D/own file', 'read'):
            if rng.random() < .5:
                st.append((w, None))
        if rng.random() < .3:
            st = [x for x in st if x[0] != 'timer'] + [('ticks=%d' % rng.choice([500, 2000, 5000]), None)]
        st.append(('begin', 'may'))
        texts = 0
        kid = False
        for _ in range(rng.choice([1, 2, 3, 4])):
            def aside():
                nonlocal texts, kid
                if rng.random() < .5:
                    st.append(('print=%d' % texts, None))
                    texts += 1
                if not kid and rng.random() < .3:
                    kid = True
                    st.append(('kid=%d' % rng.choice([0, 5, 100, 300]), 'may'))
            aside()
            slot = rng.choice([0, 0, 1, 2])
            st.append(('use=%d' % slot, None))
            st.append(('free', 'may'))
            how = rng.choice(['real', 'real', 'real', 'lost', 'false', 'text', 'noise', 'none', 'dir', 'nointerp', 'closed'])
            exe = {'real': real, 'none': '@D/none', 'dir': '@D'}.get(how, '@D/' + how)
            st.append(('start=' + exe, 'must' if how == 'real' else 'may' if how == 'lost' else 'never'))
            must = 'must' if how == 'real' else 'may'
            aside()
            st += [('version', must), ('lib=' + libs[n].path, must)]
            for _ in range(rng.choice([0, 2, 5])):
                if how == 'lost' and rng.random() < .5:
                    st.append(('sleep=120', None))
                w, ok = rng.choice([('feature=g', must), ('return=g', must), ('file=a.moc', must), ('file=r.txt', must), ('file=none', 'may'), ('file=../x', 'may'), ('version', 'may'), ('lib=/', 'may')])
                st.append((w, ok))
                aside()
            if rng.random() < .7:
                st.append(('free', 'may'))
        scs.append(dict(id=i + 1, host=b[n] + '/vf_host', steps=st, exes=exes, name='%s program %d' % (n, i)))
    check.conform('TraceHost', scs, run, sig, corrupt, chunk=100)

ALL = {'C24': c24}
