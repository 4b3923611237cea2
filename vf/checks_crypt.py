"""C18: the stand-alone programs encrypt_file and decrypt_file."""
import os, json, subprocess, shutil, resource, signal
from concurrent.futures import ThreadPoolExecutor
from . import build, gen, tlc

def snap(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[tuple(os.path.relpath(p, root).split('/'))] = f.read()
    return out

def leaks(src, enc):
    """a copy of some part of the source in the encrypted form; short windows occur by chance"""
    w = 12
    have = {src[i:i + w] for i in range(0, len(src) - w + 1, w if len(src) > 100 else 1)}
    return bool(have) and any(enc[i:i + w] in have for i in range(len(enc) - w + 1))

def blocks(enc):
    """the pieces of an encrypted form that no other one has"""
    return {enc[i:i + 16] for i in range(0, len(enc) - 15, 16)}

class World:
    def __init__(self, sc):
        self.sc, self.root = sc, os.path.join(build.scratch(), 'k%d-%d' % (os.getpid(), sc['id']))
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.ids, self.ev, self.log, self.n = {}, [], [], 0
        self.hang, self.used = False, set()
    def ident(self, b):
        return self.ids.setdefault(b, 'b%d' % (len(self.ids) + 1))
    def at(self, p):
        return os.path.join(self.root, *p)
    def mkdir(self, p):
        for i in range(1, len(p) + 1):
            if not os.path.isdir(self.at(p[:i])):
                os.mkdir(self.at(p[:i]))
                self.ev.append({'e': 'put', 'p': list(p[:i]), 'k': 'dir', 'raw': ''})
    def put(self, p, b):
        self.mkdir(p[:-1])
        with open(self.at(p), 'wb') as f:
            f.write(b)
        self.ev.append({'e': 'put', 'p': list(p), 'k': 'file', 'raw': self.ident(b)})
        self.log.append('put %s (%d bytes)' % ('/'.join(p), len(b)))
    def isfile(self, p):
        return os.path.isfile(self.at(p))
    def remove(self, p):
        if self.isfile(p):
            os.unlink(self.at(p))
            self.ev.append({'e': 'remove', 'p': list(p)})
            self.log.append('remove ' + '/'.join(p))
    def damage(self, p, how):
        if not self.isfile(p):
            return
        b = open(self.at(p), 'rb').read()
        kind, where = how
        if kind == 'flip' and b:
            i = int(where * len(b))
            c = b[:i] + bytes([b[i] ^ (1 << int(where * 1000) % 8)]) + b[i + 1:]
        elif kind == 'cut' and b:
            c = b[:int(where * len(b))]
        elif kind == 'swap' and len(b) > 40 and b[16:32] != b[-16:]:
            c = b[:16] + b[-16:] + b[32:-16] + b[16:32]
        else:
            c = b + bytes([int(where * 256) % 256]) * (1 + int(where * 100) % 40)
        while c in self.ids:      # never back to something intact
            c += b'!'
        with open(self.at(p), 'wb') as f:
            f.write(c)
        self.ev.append({'e': 'damage', 'p': list(p), 'raw': self.ident(c)})
        self.log.append('damage %s %s %.3f' % ('/'.join(p), kind, where))
    def copy(self, a, p):
        if not self.isfile(a) or a == p:
            return
        self.mkdir(p[:-1])
        shutil.copyfile(self.at(a), self.at(p))
        self.ev.append({'e': 'copy', 'from': list(a), 'p': list(p)})
        self.log.append('copy %s %s' % ('/'.join(a), '/'.join(p)))
    def program(self, exe, args, cwd, limit=None, more=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith('SEMLA')}
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
        env.update(more or {})
        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        before = snap(self.root)
        p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre, restore_signals=False)
        hung = False
        try:
            out, err = p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            hung = self.hang = True
        after = snap(self.root)
        chg = [{'p': list(q), 'raw': self.ident(after[q]) if q in after else ''} for q in sorted(set(before) | set(after)) if before.get(q) != after.get(q)]
        return dict(exit=p.returncode, hung=hung, san=b'AddressSanitizer' in err, chg=chg), before, after
    def names(self, base, how):
        """-> (cwd, base as given to the program)"""
        b = self.at(base)
        if how == 'abs':
            return self.root, b
        if how == 'slash':
            return self.root, b + '/'
        if how == 'dot':
            return b, '.'
        if how == 'dots':
            return self.root, os.path.join(*base, '.') if base else '.'
        return self.root, os.path.join(*base) if base else '.'
    def step(self, s):
        op = s['op']
        if op in ('put', 'mkdir', 'remove', 'damage', 'copy'):
            return getattr(self, op)(*s['a'])
        self.n += 1
        bld = s.get('by', '1')
        exe = os.path.join(self.sc['exe'][bld], 'encrypt_file' if op == 'enc' else 'decrypt_file')
        e = {'e': op, 'usage': False, 'lim': False, 'io': False, 'inlib': False, 'src': [], 'base': [], 'rel': [], 'out': ['-'], 'fresh': 'm%d' % self.n, 'by': bld, 'leak': False, 'shared': False}
        limit = None
        if op == 'enc':
            src, base, rel = s['src'], s.get('base'), s.get('rel')
            out = base + rel if base is not None else s['out']
            if src == out:
                return
            if s.get('lim') is not None and self.isfile(src) and os.path.getsize(self.at(src)):
                limit = int(s['lim'] * os.path.getsize(self.at(src)))
                e['lim'] = True
            if base is not None:
                cwd, b = self.names(base, s.get('how', 'abs'))
                args = [self.at(src), '/'.join(rel), b]
            else:
                cwd, o = self.names(out[:-1], s.get('how', 'abs'))
                args = [self.at(src), os.path.join(o, out[-1])]
            e.update(src=list(src), inlib=base is not None, base=list(base or []), rel=list(rel or []), out=list(out))
        else:
            base, rel, out = s['base'], s['rel'], s['out']
            if out == base + rel:
                return
            cwd, b = self.names(base, s.get('how', 'abs'))
            args = [b, '/'.join(rel), self.at(out)]
            if s.get('lim') is not None and self.isfile(base + rel) and os.path.getsize(self.at(base + rel)) > 200:
                limit = int(s['lim'] * (os.path.getsize(self.at(base + rel)) - 120))
                e['lim'] = True
            e.update(base=list(base), rel=list(rel), out=list(out))
        if 'args' in s:
            args = s['args'](args)
            e['usage'] = True
        more, asked = None, self.root + '.rand'
        if 'rand' in s and 'asan' not in os.path.basename(os.path.dirname(exe)):
            more = {'LD_PRELOAD': self.sc['shim'], 'VF_RAND_RET': s['rand'], 'VF_RAND_LOG': asked}
        failed = self.root + '.fault'
        if 'fault' in s and 'asan' not in os.path.basename(os.path.dirname(exe)):
            more = {'LD_PRELOAD': build.shim('fault'), 'VF_FAULT': s['fault'], 'VF_FAULT_IN': self.root + s.get('at', ''), 'VF_FAULT_LOG': failed}
        r, before, after = self.program(exe, args, cwd, limit, more)
        e.update(r)
        what = ''
        if os.path.exists(failed):       # a file operation failed
            what = ' fault ' + open(failed).read().replace(self.root, '').strip()
            os.unlink(failed)
            e['io'] = True
        if os.path.exists(asked):        # the random source was asked, and failed
            os.unlink(asked)
            e['lim'] = True
        if op == 'enc' and tuple(e['out']) in after and tuple(e['src']) in before:
            e['leak'] = leaks(before[tuple(e['src'])], after[tuple(e['out'])])
            if e['exit'] == 0:
                now = blocks(after[tuple(e['out'])])
                e['shared'] = bool(now & self.used)
                self.used |= now
        self.ev.append(e)
        self.log.append('%s %s%s%s -> exit %s changed %s' % (op, [a[-60:] for a in args], ' limit %s' % limit if limit is not None else '', what + (' build ' + bld if bld != '1' else ''), e['exit'], ['/'.join(c['p']) + ('=' + c['raw'] if c['raw'] else ' gone') for c in e['chg']]))

def run(sc):
    w = World(sc)
    try:
        for s in sc['steps']:
            w.step(s)
        return {'id': sc['id'], 'name': sc['name'], 'ev': w.ev, 'log': w.log, 'hang': w.hang, 'stderr': ''}
    finally:
        shutil.rmtree(w.root, ignore_errors=True)

def sig(tr, info):
    if not info.get('l'):
        return ''
    e = tr['ev'][info['l'] - 1]
    return '%s %s usage=%s lim=%s io=%s exit=%s san=%s leak=%s shared=%s changed=%s' % (e['e'], '/'.join(e.get('out', [])), e.get('usage'), e.get('lim'), e.get('io'), e.get('exit'), e.get('san'), e.get('leak'), e.get('shared'), e.get('chg'))

def corrupt(tr, rng):
    c = [e for e in tr['ev'] if e['e'] in ('enc', 'dec')]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(4)
    if k == 3 and e['e'] == 'enc' and e['exit'] == 0:
        e['shared'] = True
    elif k == 0:
        e['exit'] = 1 if e['exit'] == 0 else 0
    elif k == 1 and e['exit'] == 0 and e['e'] == 'dec' and e['chg']:
        e['chg'][0]['raw'] = 'other'
    else:
        e['chg'] = e['chg'] + [{'p': ['src', 'zz'], 'raw': 'new'}]
    return tr

SIZES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 239, 240, 255, 256, 257, 271, 272, 287, 288, 511, 512, 513, 1000, 4095, 4096, 4097]
def content(rng, n=None):
    n = rng.choice(SIZES) if n is None else n
    k = rng.randrange(6)
    if k == 0:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if k == 1:
        return b'\0' * n
    if k == 2:
        return (b'model M "text"\n  Real x;\r\nequation\n x = time; \xc3\xa5\n' * (n // 40 + 1))[:n]
    if k == 3:
        return bytes([rng.getrandbits(8)]) * n
    return bytes(rng.choice(b'abcdefghij \n') for _ in range(n))

DIRS = ['sub', 'Package', 'package', 'a.moc', 'sp ace', 'Gr\xf6\xdfe', 'sub2', 'subsub', 's', 'package.mo c', '.hid', 'sub.sub']
NAMES = ['a.moc', 'x.moc', 'mypackage.moc', 'package.moc.moc', 'apackage.moc', 'packag.moc', 'sp ace.moc', 'Gr\xf6\xdfe.moc', '.moc', 'package.order.moc', 'packagexmoc.moc', 'subpackage.moc', 'b.c.moc']

def c18(check):
    t = ('encrypt_file', 'decrypt_file')
    build.scratch(); build.keydir()
    with ThreadPoolExecutor(3) as ex:
        b = dict(zip('123', ex.map(lambda nv: build.build(nv[0], t, **nv[1]), [('asan', dict(asan=True)), ('plain', {}), ('other', {})])))
    check.log('built', *b)
    check.model('MCCrypt', 'MCCryptDeep.cfg' if check.thorough else None, workers=8 if check.thorough else 1)
    shim = os.path.join(build.scratch(), 'rand.so')
    subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-o', shim, os.path.join(build.VERIF, 'harness', 'shim', 'rand.c')], check=True)
    rng = check.rng
    scs = []
    def add(name, steps):
        e = dict(b) if rng.random() < check.n(.2, .35) else {'1': b['2'], '2': b['3'], '3': b['1']}      # the instrumented build is slow
        scs.append(dict(id=len(scs) + 1, name=name, steps=steps, exe=e, shim=shim))
    hows = ['abs', 'slash', 'dot', 'rel', 'dots']
    how = lambda: rng.choice(hows)
    dmg = lambda: (rng.choice(['flip', 'flip', 'cut', 'swap', 'ext']), rng.random())
    # walks of the model's graph
    r = check.model('MCCrypt', 'MCCryptGraph.cfg', workers=1)
    g = {}
    for v in tlc.prints(r['out']):
        if v.get('edge'):
            nx = g.setdefault(v['from'], {}).setdefault(json.dumps(v['id']), [])
            if v['to'] not in nx:
                nx.append(v['to'])
    init = next(s for s in g if s.count('absent') == 4)
    check.cover('abstract edges of the model', sum(len(x) for x in g.values()))
    ws = gen.walks(g, rng, maxlen=14, init=init)
    rng.shuffle(ws)
    src = {'package.moc': 'P', 'a.moc': 'A', 'sub/package.moc': 'S', 'sub/x.moc': 'X'}
    for w in ws[:check.n(90, 2000)]:
        steps = [dict(op='put', a=(('src', s), content(rng))) for s in 'PASX'] + [dict(op='mkdir', a=(d,)) for d in (('L', 'sub'), ('out',))]
        for i in w:
            kind, p = json.loads(i)
            p = tuple(p)
            if kind == 'enc':
                steps.append(dict(op='enc', src=('src', src['/'.join(p)]), base=('L',), rel=p, how=how()))
            elif kind == 'damage':
                steps.append(dict(op='damage', a=(('L',) + p, dmg())))
            else:
                steps.append(dict(op='remove', a=(('L',) + p,)))
            for q in rng.sample(sorted(src), 1):
                steps.append(dict(op='dec', base=('L',), rel=tuple(q.split('/')), out=('out', rng.choice('oq')), how=how()))
        for q in sorted(src):
            steps.append(dict(op='dec', base=('L',), rel=tuple(q.split('/')), out=('out', 'f'), how=how()))
        add('walk', steps)
    # libraries of any shape, package files first, every content
    for k in range(check.n(120, 1500)):
        steps, places, depth = [], [], rng.choice([0, 1, 2, 2, 3, 5])
        dirs = [()]
        for _ in range(depth * 2):
            dirs.append(rng.choice(dirs) + (rng.choice(DIRS),))
        dirs = sorted(set(dirs), key=lambda d: (len(d), d))
        steps += [dict(op='mkdir', a=(('L',) + d,)) for d in dirs] + [dict(op='mkdir', a=(('out',),))]
        haspkg = {d: rng.random() < .6 for d in dirs}
        for d in dirs:
            if haspkg[d]:
                places.append(d + ('package.moc',))
        rest = [d + (n,) for d in dirs for n in rng.sample(NAMES, rng.choice([1, 2]))]
        rng.shuffle(rest)
        places = [p for p in places + rest if p not in dirs]
        for i, p in enumerate(places):
            steps.append(dict(op='put', a=(('src', 's%d' % i), content(rng))))
        mixed = rng.random() < .2
        order = list(enumerate(places))
        if mixed:
            rng.shuffle(order)
        by = '2' if rng.random() < .3 else '1'
        for i, p in order:
            steps.append(dict(op='enc', src=('src', 's%d' % i), base=('L',), rel=p, how=how(), by=by))
        for i, p in enumerate(places):
            steps.append(dict(op='dec', base=('L',), rel=p, out=('out', 'o%d' % (i % 4)), how=how(), by=by))
        # some trouble, then look again
        for _ in range(rng.choice([0, 1, 2])):
            p = rng.choice(places)
            kind = rng.randrange(5)
            if kind == 0:
                steps.append(dict(op='damage', a=(('L',) + p, dmg())))
            elif kind == 1:
                steps.append(dict(op='remove', a=(('L',) + p,)))
            elif kind == 2:
                steps.append(dict(op='copy', a=(('L',) + rng.choice(places), ('L',) + p)))
            elif kind == 3:
                steps.append(dict(op='enc', src=('src', 's%d' % places.index(p)), base=('L',), rel=p, how=how(), by=rng.choice('123')))
            else:
                steps.append(dict(op='put', a=(('L',) + p, content(rng))))
            for q in rng.sample(places, min(3, len(places))) + [p]:
                steps.append(dict(op='dec', base=('L',), rel=q, out=('out', 'o%d' % rng.randrange(4)), how=how(), by=rng.choice([by, by, by, '3'])))
        add('tree %d' % k, steps)
    # one file alone, every length
    lens = SIZES + ([5000, 65536, 70001, 1 << 20] if not check.thorough else list(range(0, 700)) + [5000, 65535, 65536, 65537, 1 << 20, 5000000])
    for n in lens:
        for nm in ('package.moc', 'x.moc'):
            c = content(rng, n)
            steps = [dict(op='put', a=(('src', 'a'), c)), dict(op='mkdir', a=(('o',),)),
                     dict(op='enc', src=('src', 'a'), out=('o', nm), how=how(), by=rng.choice('12')), ]
            by = steps[-1]['by']
            steps += [dict(op='dec', base=('o',), rel=(nm,), out=('res',), how=how(), by=by),
                      dict(op='enc', src=('src', 'a'), base=('o',), rel=('again.moc',), how=how(), by=by),
                      dict(op='dec', base=('o',), rel=('again.moc',), out=('res2',), how=how(), by=by),
                      dict(op='dec', base=('o',), rel=(nm,), out=('res3',), by='3'),
                      dict(op='enc', src=('src', 'a'), out=('o', nm), lim=rng.random(), by=by),
                      dict(op='dec', base=('o',), rel=(nm,), out=('res4',), lim=rng.random(), by=by),
                      dict(op='dec', base=('o',), rel=('again.moc',), out=('res4',), lim=rng.random(), by=by),
                      dict(op='dec', base=('o',), rel=('again.moc',), out=('res2',), by=by)]
            for _ in range(2 if n < 4000 else 6):
                steps += [dict(op='damage', a=(('o', 'again.moc'), dmg())), dict(op='dec', base=('o',), rel=('again.moc',), out=('res5',), how=how(), by=by),
                          dict(op='enc', src=('src', 'a'), base=('o',), rel=('again.moc',), how=how(), by=by)]
            add('length %d %s' % (n, nm), steps)
    # a full disk at every point
    for n in [1, 20, 300, 4096, 5000, 9000, 20000]:
        c = content(rng, n)
        steps = [dict(op='put', a=(('src', 'a'), c)), dict(op='put', a=(('src', 'p'), b'package')), dict(op='mkdir', a=(('L', 's'),)),
                 dict(op='enc', src=('src', 'p'), base=('L',), rel=('package.moc',)),
                 dict(op='enc', src=('src', 'a'), base=('L',), rel=('s', 'x.moc'))]
        for f in sorted({0, .3, .5, .9, .999} | {rng.random() for _ in range(check.n(3, 40))}):
            steps += [dict(op='enc', src=('src', 'a'), base=('L',), rel=('n.moc',), lim=f, by=rng.choice('12')),
                      dict(op='dec', base=('L',), rel=('s', 'x.moc'), out=('new%d' % rng.randrange(3),), lim=f, by='1'),
                      dict(op='dec', base=('L',), rel=('s', 'x.moc'), out=('old',), by='1')]
        add('full disk %d' % n, steps)
    # every file operation failing once, with the package files at every distance
    build.shim('fault')
    for k in range(check.n(40, 400)):
        pk = [d for d in ((), ('s',), ('s', 't')) if rng.random() < .7]
        steps = [dict(op='mkdir', a=(('L', 's', 't'),)), dict(op='mkdir', a=(('out',),)), dict(op='put', a=(('src', 'p'), content(rng, 100)))]
        by = rng.choice('12')
        for d in pk:
            steps.append(dict(op='enc', src=('src', 'p'), base=('L',), rel=d + ('package.moc',), how=how(), by=by))
        steps.append(dict(op='put', a=(('src', 'a'), content(rng))))
        for i in range(check.n(10, 20)):
            d = rng.choice([(), ('s',), ('s', 't'), ('s', 't')])
            rel = d + (rng.choice(['a.moc', 'b.moc', 'package.moc']) if rng.random() < .8 else 'n%d.moc' % i,)
            op = rng.choice(['fopenr', 'fopenr', 'fread', 'fread', 'fread', 'stat', 'fwrite', 'fclose', 'fopenw'])
            f = dict(fault='%s:%d%s' % (op, rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 7]), rng.choice(['', '', '+'])), at=rng.choice(['', '', '/L/', '/L/package', '/L/s/package', '/src']))
            if i % 3 == 0:
                steps.append(dict(op='enc', src=('src', 'a'), base=('L',), rel=rel, how='abs', by=by))
            steps.append(dict(op='enc', src=('src', 'a'), base=('L',), rel=rel, how='abs', by=by, **f))
            steps.append(dict(op='dec', base=('L',), rel=rel, out=('out', 'o%d' % (i % 3)), how='abs', by=by, **(f if i % 2 else {})))
            steps.append(dict(op='dec', base=('L',), rel=rel, out=('out', 'c'), how='abs', by=by))
        add('faults', steps)
    # no random numbers
    for ret in ('0', '-1'):
        for nm in ('package.moc', 'x.moc', 'sub/package.moc', 'sub/y.moc'):
            p = tuple(nm.split('/'))
            steps = [dict(op='put', a=(('src', 'a'), content(rng, 300))), dict(op='mkdir', a=(('L', 'sub'),)), dict(op='mkdir', a=(('o',),))]
            for k in range(2):
                by = rng.choice('12')
                steps += [dict(op='enc', src=('src', 'a'), base=('L',), rel=p, rand=ret, how=how(), by=by),
                          dict(op='dec', base=('L',), rel=p, out=('res',), by=by),
                          dict(op='enc', src=('src', 'a'), out=('o', p[-1]), rand=ret, by=by),
                          dict(op='enc', src=('src', 'a'), base=('L',), rel=p, how=how(), by=by),
                          dict(op='dec', base=('L',), rel=p, out=('res',), by=by)]
            add('no random numbers %s' % nm, steps)
    # wrong use
    args = [lambda a: [], lambda a: a[:1], lambda a: a + ['x'], lambda a: a + ['x', 'y'], lambda a: a + [''], lambda a: a + a]
    for op in ('enc', 'dec'):
        for f in args:
            for by in '12':
                steps = [dict(op='put', a=(('src', 'a'), b'content')), dict(op='mkdir', a=(('L',),)), dict(op='put', a=(('old',), b'old')),
                         dict(op='enc', src=('src', 'a'), base=('L',), rel=('a.moc',), by=by),
                         dict(op=op, src=('src', 'a'), base=('L',), rel=('a.moc',) if op == 'dec' else ('b.moc',), out=('old',), args=f, by=by),
                         dict(op=op, src=('src', 'a'), base=('L',), rel=('a.moc',) if op == 'dec' else ('b.moc',), out=('new',), args=f, by=by)]
                if op == 'dec':
                    steps.append(dict(op='dec', base=('L',), rel=('a.moc',), out=('new',), args=lambda a: a[:2], by=by))
                add('arguments', steps)
    names = [('nofile.moc',), ('nodir', 'a.moc'), ('sub',), ('plain.mo',), ('plain.moc',), ('sub', 'nofile.moc'), ('empty.moc',), ('a.moc', 'b.moc')]
    for p in names:
        for by in '12':
            steps = [dict(op='put', a=(('src', 'a'), b'content')), dict(op='mkdir', a=(('L', 'sub'),)), dict(op='put', a=(('old',), b'old')),
                     dict(op='enc', src=('src', 'a'), base=('L',), rel=('a.moc',), by=by), dict(op='put', a=(('L', 'plain.mo'), b'model text, long enough to be something')),
                     dict(op='put', a=(('L', 'plain.moc'), content(rng, 200))), dict(op='put', a=(('L', 'empty.moc'), b''))]
            for o in (('old',), ('new',), ('nodir', 'new'), ('L',)):
                steps.append(dict(op='dec', base=('L',), rel=p, out=o, how=how(), by=by))
            for s in (('nosrc',), ('src',), ('nodir', 'a'), ('src', 'a')):
                steps.append(dict(op='enc', src=s, base=('L',), rel=p, how=how(), by=by))
                steps.append(dict(op='enc', src=s, base=('nobase',), rel=('a.moc',), how='abs', by=by))
                steps.append(dict(op='enc', src=s, out=('L',) + p, how='abs', by=by))
            steps.append(dict(op='dec', base=('L',), rel=('a.moc',), out=('fin',), by=by))
            add('names %s' % '/'.join(p)[:20], steps)
    # names that are no file names
    for by in '12':
        for bad in ('', 'x' * 4095, 'x' * 5000, 'x' * 70000 + '.moc', '/' * 4200 + 'x.moc'):
            steps = [dict(op='put', a=(('src', 'a'), b'content')), dict(op='mkdir', a=(('L',),))]
            f3 = lambda i, bad=bad: (lambda a: a[:i] + [bad] + a[i + 1:])
            for i in range(3):
                if not (bad == '' and i == 2) and not (bad.startswith('/') and i == 2):
                    steps.append(dict(op='enc', src=('src', 'a'), base=('L',), rel=('b.moc',), args=f3(i), by=by))
                if not (i == 0 and bad == ''):
                    steps.append(dict(op='dec', base=('L',), rel=('a.moc',), out=('new',), args=f3(i), by=by))
            for i in range(2):
                steps.append(dict(op='enc', src=('src', 'a'), out=('L', 'c.moc'), args=f3(i), by=by))
            add('no names', steps)
    check.cover('histories', len(scs))
    check.cover('program runs', sum(1 for s in scs for x in s['steps'] if x['op'] in ('enc', 'dec')))
    check.conform('TraceCrypt', scs, run, sig, corrupt)

ALL = {'C18': c18}
