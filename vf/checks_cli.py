"""C15: the executable started from the command line."""
import os, re, subprocess, itertools, shutil
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc
from .session import q, hexlist
CF, LP, VER, HELP = '--checkout-feature', '--libpath', '--version', '--help'
GLOB = 'vf_global_feature'

def lmlog(f):
    out = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'(\w+) (-?\d+) (\d+) (\d) \[([0-9a-f]*)\]$', ln.strip())
            op = m.group(1)
            if op != 'free' and m.group(4) != '1':
                op += '-unterminated'
            out.append({'op': op, 'arg': q(bytes.fromhex(m.group(5)))})
    return out

def run(sc):
    """sc: exe, runs [(args (list of bytes), grant, newfail, cwd)] -> trace"""
    ev, log = [], []
    d = os.path.join(build.scratch(), 'c%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    hang = False
    try:
        for i, (args, grant, newfail) in enumerate(sc['runs']):
            lf = os.path.join(d, 'lm%d' % i)
            e = {k: v for k, v in os.environ.items() if not k.startswith(('VF_LM', 'SEMLA'))}
            e.update(VF_LM_LOG=lf, VF_LM_GRANT=hexlist(grant), VF_LM_NEW_FAIL='1000' if newfail else '0', VF_LM_SUFFIX=sc.get('sfx', ''),
                     ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
            p = subprocess.Popen([sc['exe'].encode()] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=sc['cwd'])
            hung = False
            try:
                out, err = p.communicate(b'', timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                hung = hang = True
            def trim(a):
                while len(a) > 1 and a[-1:] in b'/\\':
                    a = a[:-1]
                return a
            dirs = [a for a in args if a and os.path.isdir(os.path.join(sc['cwd'].encode(), trim(a)))]
            san = b'AddressSanitizer' in err
            ev.append({'e': 'run', 'args': [q(a) for a in args], 'dirs': [q(a) for a in dirs], 'trim': [{'p': q(a), 't': q(trim(a))} for a in args] or [{'p': '', 't': ''}],
                       'grant': [q(f) for f in grant], 'newfail': bool(newfail), 'exit': p.returncode, 'out': len(out), 'san': san, 'hung': hung, 'lm': lmlog(lf)})
            log.append('%s grant=%s -> exit %s lm=%s' % ([q(a)[:40] for a in args], [q(g)[:20] for g in grant], p.returncode, [c['op'] for c in ev[-1]['lm']]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': log, 'hang': hang, 'stderr': ''}

def sig(tr, info):
    e = tr['ev'][info['l'] - 1] if info.get('l') else None
    return e and '%s -> exit=%s san=%s lm=%s' % (' '.join(a[:60] or "''" for a in e['args']), e['exit'], e['san'], [c['op'] + ' ' + c['arg'][:40] for c in e['lm']])

def corrupt(tr, rng):
    from . import checks_cli
    c = [e for e in tr['ev'] if e['args'] and not (len(e['args']) == 2 and e['args'][0] == LP)]
    if not c:
        return None
    e = rng.choice(c)
    if rng.random() < .7:
        e['exit'] = 1 if e['exit'] == 0 else 0
    else:
        e['lm'] = e['lm'] + [{'op': 'out', 'arg': 'zz'}]
    return tr

def c15(check):
    t = (build.LVE,)
    build.scratch(); build.keydir()
    v = {'asan': dict(asan=True), 'plain': {}, 'gasan': dict(asan=True, global_feature=GLOB)}
    with ThreadPoolExecutor(3) as ex:
        b = dict(ex.map(lambda nv: (nv[0], build.build(nv[0], t, **nv[1])), v.items()))
    check.log('built', *b)
    check.model('MCLveCli', 'MCLveCliDeep.cfg' if check.thorough else None)
    rng = check.rng
    cwd = os.path.join(build.scratch(), 'cli')
    names = ['dir', 'sp ace', 'Größe', '-dash', '--libpath', '%s%n', 'new\nline', 'a' * 200, 'q"uote', 'back\\slash', '--version', 'dir/sub', 'junk']
    for n in names:
        os.makedirs(os.path.join(cwd, n), exist_ok=True)
    open(os.path.join(cwd, 'file'), 'w').close()
    os.symlink('dir', os.path.join(cwd, 'lnk'))
    os.symlink('nowhere', os.path.join(cwd, 'dangling'))
    os.symlink('file', os.path.join(cwd, 'flnk'))
    deep = os.path.join(cwd, *['D' * 200] * 6)
    os.makedirs(deep)
    good = [n.encode() for n in names] + [b'lnk', b'.', b'..', b'/', cwd.encode(), os.path.join(cwd, 'dir').encode(), b'dir/', b'dir///', b'./dir', b'dir/../dir', b'dir/.', b'dir\\', deep.encode(), b'lnk//']
    bad = [b'', b'nodir', b'file', b'dangling', b'flnk', b'file/', b'dir/nosub', b'x' * 5000, b'd' * 300, b' ', b'dir ', b'Dir', b'~', b'*', b'../nodir', b'\xff\xfe']
    feats = [b'g', b'a feature', b'Gr\xc3\xb6\xc3\x9fe', b'', b' ', b'%s%n%d', b'f' * 3000, b'f' * 40000, b'--libpath', b'--checkout-feature', b'--version', b'new\nline', b'\n', b'g\n', b'-', b'FEATURE 3\nabc', b'\xff\xfe', b'g=1', b'"']
    opts = [s.encode() for s in (CF, LP, VER, HELP)]
    odd = [b'--version=1', b'-version', b'--Version', b'--help ', b'-h', b'-v', b'--libpath=dir', b'--checkout-feature=g', b'--checkout', b'--lib', b'--', b'', b'junk', b'-', b'--versio', b'--versions', b'version']
    runs = {k: [] for k in b}
    # every argument list of the model's vocabulary
    r = tlc.must_hold('MCLveCli', 'MCLveCliGraph.cfg', workers=1)
    lists = [v['args'] for v in tlc.prints(r['out']) if v.get('cli')]
    if len(lists) < 1000:
        raise tlc.TlcError('no argument lists:\n' + r['out'][-1500:])
    check.cover('argument lists of the model', len(lists))
    words = [CF, LP, VER, HELP, 'junk', '', 'g', 'r', 'dir', 'nodir']
    lists += [[CF, f, LP, p] for f in words for p in words] + [[LP, p, CF, f] for f in words for p in words]
    lists += [[rng.choice(words[:4]) if rng.random() < .5 else rng.choice(words) for _ in range(rng.choice([4, 5, 6]))] for _ in range(check.n(400, 6000))]
    for a in lists:
        runs[rng.choice(list(b))].append(([w.encode() for w in a], [b'g', VER.encode()] + ([GLOB.encode()] if rng.random() < .5 else []), rng.random() < .1))
    runs['plain'].append(([], [], False))
    for k in b:
        for f in feats:
            for gr in ([f], [x for x in feats if x != f], [b'g']):
                for p in rng.sample(good, check.n(4, len(good))) + rng.sample(bad, check.n(1, len(bad))):
                    a = [CF.encode(), f], [LP.encode(), p]
                    a = a if rng.random() < .5 else a[::-1]
                    runs[k].append((a[0] + a[1], gr, rng.random() < .1))
        for p in good + bad:
            for o in (0, 1):
                a = [CF.encode(), b'g'], [LP.encode(), p]
                runs[k].append(((a[0] + a[1]) if o else (a[1] + a[0]), [b'g'], False))
        for _ in range(check.n(150, 2000)):
            f, p = rng.choice(feats), rng.choice(good + good + bad)
            a = [CF.encode(), f, LP.encode(), p] if rng.random() < .5 else [LP.encode(), p, CF.encode(), f]
            kind = rng.randrange(6)
            if kind == 0:
                a.insert(rng.choice([0, 2, 4]), rng.choice(odd + opts))
            elif kind == 1:
                a = a[:rng.choice([1, 2, 3])]
            elif kind == 2:
                i = rng.choice([0, 2])
                a = a + a[i:i + 2]
            elif kind == 3:
                a[rng.choice([0, 2])] = rng.choice(odd)
            elif kind == 4:
                a += [rng.choice(opts + odd)]
            runs[k].append((a, feats if rng.random() < .6 else rng.sample(feats, 5), rng.random() < .15))
    scs, n = [], 0
    for k in runs:
        rng.shuffle(runs[k])
        for i in range(0, len(runs[k]), 25):
            n += 1
            scs.append(dict(id=n, exe=os.path.join(b[k], build.LVE), cwd=cwd, runs=runs[k][i:i + 25], name='%s %d' % (k, i), sfx=rng.choice(['', ' %s%n', 'm' * 5000])))
    check.cover('command lines', sum(map(len, runs.values())))
    check.conform('TraceCli', scs, run, sig, corrupt)

ALL = {'C15': c15}
