"""C01-C08, C11 and the executable's side of C20: sessions of the licensing executable."""
import os, json, itertools
from concurrent.futures import ThreadPoolExecutor
from . import build, session, gen, tlc
from .lve import msg
from .session import Lib, LibError

GLOB = 'vf_library_wide'
FEATS = {'g': [b'g', b'a feature', b'G' * 300, b'\xc3\xa5\xff', b'with\nnewline', b'nul\0inside'],
         'r': [b'r', b'', b'gg', b'G', b'nul', b'a featur', b'a feature ', b'G' * 299, b'with', b'x' * 9000]}
BASE = {'package.moc': b'package L "SECRETMARK1" end L;', 'a.moc': b'within L; model a "SECRETMARK2" end a;' * 3,
        'sub/package.moc': b'within L; package sub "SECRETMARK3" end sub;', 'sub/x.moc': b'within L.sub; model x "SECRETMARK4" end x;' * 40,
        'r.txt': b'plain resource SECRETMARK5\n' * 3}
SECRETS = [b'SECRETMARK', b'OUTSIDESECRET']

class Env:
    """executables and libraries of one check"""
    def __init__(self, check, variants):
        self.check = check
        self.b = {}
        def one(v):
            name, kw = v
            return name, build.build(name, **kw)
        build.scratch()
        for kw in variants.values():
            if 'keys' in kw:
                kw['keys'] = build.keydir(kw['keys'])
        build.keydir()
        build.shim('fault')
        with ThreadPoolExecutor(4) as ex:
            for name, b in ex.map(one, variants.items()):
                self.b[name] = b
        check.log('built', ' '.join(self.b))
        self.nlib = 0
        self.n = 0
        # what must not be reachable: next to the libraries
        for d in (build.scratch(), ):
            with open(os.path.join(d, 'outside.txt'), 'wb') as f:
                f.write(b'OUTSIDESECRET 1')
            os.makedirs(os.path.join(d, 'OUT'), exist_ok=True)
            with open(os.path.join(d, 'OUT', 'secret.txt'), 'wb') as f:
                f.write(b'OUTSIDESECRET 2')
    def lib(self, src, b, dirs=()):
        self.nlib += 1
        return Lib(self.b[b], src, os.path.join(build.scratch(), 'L%d-%s' % (self.nlib, b)), dirs, masks=b != 'flat')
    def sc(self, b, key, lib, steps, **kw):
        self.n += 1
        d = dict(id=self.n, exe=os.path.join(self.b[b], build.LVE), key=key, keys=['tool1', 'tool0', 'big', 'tool2'],
                 peer={None: 'none', 'ec': 'unsupported'}.get(key, key.split('+')[0] if key else 'none'), grant=FEATS['g'], infail=[b'r', b'gg'],
                 newfail=0, lib=lib, steps=steps, secrets=SECRETS)
        d['global'] = GLOB if b.startswith('g') else ''
        d.update(kw)
        if 'name' not in d:
            d['name'] = '%s/%s' % (b, key)
        return d

NORMAL = {'asan': dict(targets=(build.LVE, 'encrypt_file'), asan=True), 'plain': dict(targets=(build.LVE, 'encrypt_file'))}
GLOBAL = {'gasan': dict(targets=(build.LVE, 'encrypt_file'), asan=True, global_feature=GLOB), 'gplain': dict(targets=(build.LVE, 'encrypt_file'), global_feature=GLOB)}

# one key for all files
FLAT = {'flat': dict(targets=(build.LVE, 'encrypt_file'), defs=('-DDISABLE_DEMASK_KEY=ON',))}

V = ('raw', msg('VERSION', n=1))
L = ('raw', lambda p: msg('LIB', p.encode()))
def F(p):
    return ('raw', msg('FILE', p.encode() if isinstance(p, str) else p))
def FEAT(f):
    return ('raw', msg('FEATURE', f))
def RET(f):
    return ('raw', msg('RETURNFEATURE', f))

TRUSTED = ['tool0', 'tool1', 'tool2', 'big']
UNTRUSTED = ['other', 'nearpre', 'nearsuf', 'nearexp', 'lve', None, 'other+tool0']

def sig(tr, info):
    if not info.get('l'):
        return 'no explanation'
    ev = tr['ev'][info['l'] - 1]
    if ev['e'] == 'req':
        return '%s %s -> %s %s %s lm=%s' % (ev['m']['w'], '/'.join(ev['m']['npath']) or ev['m']['arg'][:60], ev['r']['c'], ev['r']['n'], ev['r']['d'][:60], [c['op'] for c in ev['lm']])
    return json.dumps(ev)[:300]

def corrupt(tr, rng):
    """damage one recorded reply"""
    c = [e for e in tr['ev'] if e['e'] == 'req' and e['r']['c'] in ('YES', 'NO', 'FILECONT', 'ERROR', 'VERSION') and tr['x']['peer'] != 'unsupported']
    if not c:
        return None
    e = rng.choice(c)
    if e['r']['c'] == 'FILECONT':
        e['r']['d'] = 'c1:0'
    elif e['r']['c'] == 'ERROR':
        e['r'] = {'c': 'YES', 'n': 0, 'd': '', 'leak': False}
        if rng.random() < .5:
            e['r'] = {'c': 'FILECONT', 'n': 0, 'd': 'c2:0', 'leak': False}
    else:
        e['r'] = {'c': 'ERROR', 'n': 3, 'd': 'x', 'leak': False}
    return tr

def graph_scenarios(env, check, keep=None, xs=None, builds=('asan', 'plain'), gbuilds=('gasan', 'gplain'), maxlen=60, limit=None):
    """Walks covering the (state, message) pairs of MCLve's graph."""
    rng = check.rng
    g = gen.graph(check)
    libs = {b: env.lib(BASE, b) for b in builds + gbuilds if b in env.b}
    out = []
    for k, states in g.items():
        x = json.loads(k)
        if xs and not xs(x):
            continue
        bs = gbuilds if x['global'] else builds
        if not all(b in env.b for b in bs):
            continue
        for w in gen.walks(states, rng, maxlen, keep):
            b = rng.choice(bs)
            key = {'tool0': rng.choice(TRUSTED), 'other': rng.choice([u for u in UNTRUSTED if u]), 'none': None}[x['peer']]
            grant = list(FEATS['g']) + ([GLOB.encode()] if 'G' in x['grant'] else [])
            tamper = set()
            steps = []
            for i in w:
                steps += gen.concrete(i, rng, FEATS, tamper)
            out.append(env.sc(b, key, libs[b], steps, grant=grant, infail=FEATS['r'], newfail=x['newfail'], tls12=rng.random() < .25,
                              end=rng.choice(['notify', 'notify', 'eof', 'cut']), sfx=rng.choice(['', ' 100%', ' %s%n ' + 'y' * 3000]),
                              name='walk %s %s nf=%d' % (b, key, x['newfail'])))
    if limit and len(out) > limit:
        rng.shuffle(out)
        out = out[:limit]
    check.cover('walks over the model graph', len(out))
    return out

def random_steps(rng, n, files, feats=FEATS, lib=L):
    """Mostly sensible random session."""
    st = []
    pool = [V, lib, ('raw', b'TOOLS\n')]
    if rng.random() < .9:
        st.append(V)
        if rng.random() < .3:
            st.append(('raw', b'TOOLS\n'))
        if rng.random() < .9:
            st.append(lib)
    for _ in range(n):
        k = rng.random()
        if k < .45:
            st.append(F(rng.choice(files)))
        elif k < .6:
            st.append(FEAT(rng.choice(feats['g'] + feats['r'])))
        elif k < .7:
            st.append(RET(rng.choice(feats['g'] + feats['r'])))
        elif k < .8:
            st.append(rng.choice(pool))
        elif k < .85:
            st.append(('raw', msg(rng.choice(['LICENSE', 'RETURNLICENSE', 'NO', 'FILECONT']), b'abc')))
        else:
            st += gen.concrete(rng.choice(['unknown', 'lower', 'empty', 'fshort', 'featneg', 'featlong', 'ver', 'verx', 'fN', 'fD', 'fU', 'yes', 'error', 'libshort']), rng, feats, set())
    return st

def trust_sessions(env, check, builds):
    """every key against every build: what each peer gets"""
    rng, out = check.rng, []
    for b in builds:
        lib = env.lib(BASE, b)
        keys = env.trusted[b]
        for key in TRUSTED + UNTRUSTED + ['ec', 'tool0+other']:
            for rep in range(check.n(2, 8)):
                files = list(BASE)
                rng.shuffle(files)
                pre = [[], [('raw', b'TOOLS\n')]][rep % 2]
                steps = [V] + pre + [L] + [FEAT(b'g')] * (rep % 2) + [F(f) for f in files] + [FEAT(b'r'), ('raw', msg('LICENSE', b'x'))] + [F(f) for f in files[:2]]
                if rep % 4 == 3:
                    steps = [F('a.moc')] + steps[:1] + [F('a.moc')] + steps[1:]
                out.append(env.sc(b, key, lib, steps, keys=keys, tls12=rep % 2 == 1, name='trust %s %s tls12=%s' % (b, key, rep % 2 == 1)))
                if rep % 4 == 2:
                    out.append(env.sc(b, key, lib, [V, ('raw', msg('LIB', b'/nonexistent'))] + [F(f) for f in files] + [L] + [F(f) for f in files], keys=keys,
                                      name='trust nolib %s %s' % (b, key)))
    return out

def c01(check):
    variants = dict(NORMAL)
    trusted = {'asan': ['tool1', 'tool0', 'big', 'tool2'], 'plain': ['tool1', 'tool0', 'big', 'tool2']}
    orders = {'k1': ('tool0',), 'k2': ('big', 'tool2'), 'k3': ('tool2', 'tool1', 'other'), 'k5': ('nearexp', 'tool2', 'nearpre', 'nearsuf', 'tool1')}
    if check.thorough:
        orders.update({'p%d' % i: p for i, p in enumerate(itertools.permutations(('tool0', 'tool1', 'big')))})
    for n, o in orders.items():
        variants[n] = dict(targets=(build.LVE, 'encrypt_file'), asan=n in ('k1', 'k3'), keys=o)
        trusted[n] = list(o)
    variants.update(GLOBAL)
    env = Env(check, variants)
    env.trusted = trusted
    check.model('MCLve')
    scs = trust_sessions(env, check, list(trusted))
    scs += graph_scenarios(env, check, xs=lambda x: x['peer'] != 'tool0', keep=lambda s, i: i.startswith('f') or i in ('lib', 'libmiss', 'featg', 'ver1', 'tools'))
    for i in range(check.n(60, 600)):
        b = check.rng.choice(list(trusted))
        lib = [s['lib'] for s in scs if s['exe'].startswith(env.b[b] + '/')][0]
        scs.append(env.sc(b, check.rng.choice(UNTRUSTED), lib, random_steps(check.rng, 25, list(BASE) + ['sub', 'nope']), keys=trusted[b], name='random untrusted'))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

def c02(check):
    env = Env(check, {**NORMAL, **GLOBAL})
    check.model('MCLve')
    scs = graph_scenarios(env, check)
    lib = env.lib(BASE, 'asan')
    for i in range(check.n(200, 3000)):
        steps = []
        ids = ['ver1', 'ver0', 'ver9', 'tools', 'lib', 'libmiss', 'lib0', 'libshort', 'featg', 'featr', 'retg', 'retr', 'lic', 'retlic', 'fP', 'fA', 'fX', 'fR', 'fN', 'yes', 'no', 'fcont',
               'tlist', 'error', 'notsimple', 'unknown', 'empty', 'tools1']
        for _ in range(check.rng.choice([10, 25, 60])):
            steps += gen.concrete(check.rng.choice(ids), check.rng, FEATS, set())
        scs.append(env.sc('asan', check.rng.choice(TRUSTED + ['other']), lib, steps, name='random order %d' % i))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

LONG = ['n' * 200 + '.txt', 'd' * 250 + '/' + 'e' * 250 + '.moc', 'p/' * 700 + 'x.txt', 'q' * 4000, 'u' * 15000, 'å' * 100, '%d%s%n%x', 'a.moc.', '.moc', 'moc', 'sub/', 'r.txt/x', 'sub/x.moc/y']
def c03(check):
    env = Env(check, {**NORMAL, **GLOBAL})
    check.model('MCLve')
    rng = check.rng
    scs = graph_scenarios(env, check, xs=lambda x: x['newfail'] or x['peer'] == 'tool0')
    sizes = {('s%d.%s' % (n, e)): gen.content(rng, n) for n in gen.SIZES + [16379, 16380, 16381, 100000, 1000000] for e in ('txt', 'moc')}
    for b in ('asan', 'plain'):
        # files below paths of every length around the limits of messages and of the file system
        deep = {}
        for n in (90, 240, 250, 260, 500, 1000, 1010, 1022, 1023, 1024, 2040, 2050, 3000, 3700):
            d = ('D' * 100 + '/') * (n // 101)
            for e in ('.moc', '.txt'):
                deep[d + 'e' * max(1, n - len(d) - 4) + e] = gen.content(rng, rng.choice([0, 5, 300]))
        src = dict(BASE, **sizes, **deep)
        lib = env.lib(src, b)
        files = list(src)
        for i in range(check.n(15, 150)):
            # every file of the long ones intact, damaged, missing, intact again; others in between
            st = [V, L]
            for f in rng.sample(list(deep) + ['a.moc', 'sub/x.moc'], 12):
                p = tuple(f.split('/'))
                k = rng.choice([('flip', (rng.random(), 1)), ('trunc', rng.choice([0, 1, 47, 48, -1])), ('delete',), ('write', rng.randbytes(rng.choice([0, 10, 100])))])
                st += [F(f)] * rng.randint(0, 1) + [('mut', p) + k, F(f), F(rng.choice(list(BASE))), F(f)] + ([('mut', p, 'restore'), F(f)] if rng.random() < .7 else [])
            scs.append(env.sc(b, rng.choice(TRUSTED), lib, st, name='long and damaged %s %d' % (b, i)))
        for i in range(check.n(20, 200)):
            st = [V, L]
            for f in rng.sample(files, 30):
                st.append(F(f))
                k = rng.random()
                if k < .3:
                    st.append(F(rng.choice(LONG)))
                elif k < .5:
                    st.append(FEAT(rng.choice(FEATS['g'] + FEATS['r'])))
                elif k < .7:
                    st += gen.concrete(rng.choice(['unknown', 'empty', 'fshort', 'fN', 'fD', 'fU', 'lib', 'ver1', 'featneg']), rng, FEATS, set())
            scs.append(env.sc(b, rng.choice(TRUSTED), lib, st, sfx=rng.choice(['', ' %s', 'z' * 4000]), newfail=rng.choice([0, 0, 1, 3]), tls12=rng.random() < .3,
                              name='sizes %s %d' % (b, i)))
        for i in range(check.n(60, 600)):
            scs.append(env.sc(b, rng.choice(TRUSTED + UNTRUSTED), lib, random_steps(rng, 30, list(BASE) + LONG), newfail=rng.choice([0, 0, 1, 2]), name='random %d' % i))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

OWNF = b'test_licensed_feature'
OWN = {k: dict(targets=(build.LVE, 'encrypt_file'), defs=('-DLICENSE_MANAGER=testingdummy',), **kw)
       for k, kw in {'own': {}, 'ownasan': dict(asan=True), 'owng': dict(global_feature=OWNF.decode()), 'ownr': dict(global_feature='another_feature')}.items()}

def own_manager(env, check, n):
    # the license manager that comes with the repository: grants one feature, refuses every other
    rng, scs = check.rng, []
    libs = {b: env.lib({'r.txt': b'x', 'package.moc': b'p'}, b) for b in OWN}
    names = [OWNF, OWNF, OWNF[:-1], OWNF + b's', OWNF.upper(), OWNF.replace(b'_', b'-'), b' ' + OWNF, OWNF + b' ', OWNF + b'\n', OWNF * 2, b'test', b'licensed_feature', b'', b'x', b'test_licensed_',
             OWNF + b'/', b'T' + OWNF[1:], OWNF[1:], b'n' * 4000, b'another_feature', b'test_licensed_featurf', b'test_license']
    for i in range(n):
        b = rng.choice(sorted(libs))
        st = [V, L]
        for _ in range(rng.choice([2, 8, 20])):
            st.append(rng.choice([FEAT, FEAT, FEAT, RET])(rng.choice(names)))
            if rng.random() < .2:
                st.append(F('r.txt'))
        scs.append(env.sc(b, rng.choice(TRUSTED + TRUSTED + UNTRUSTED), libs[b], st, grant=[OWNF], infail=[], own=True, name='own manager %d' % i,
                          **{'global': OWN[b].get('global_feature', '')}))
    return scs

def c04(check):
    env = Env(check, {**NORMAL, **GLOBAL, **OWN})
    check.model('MCLve')
    rng = check.rng
    scs = graph_scenarios(env, check, keep=lambda s, i: i.startswith('feat') or i.startswith('ret') or i.startswith('lib') or i in ('ver1', 'tools', 'fA', 'lic'))
    libs = {b: env.lib({'r.txt': b'x', 'package.moc': b'p'}, b) for b in ('asan', 'gasan', 'plain', 'gplain')}
    names = FEATS['g'] + FEATS['r'] + [b' ', b'\0', b'\n', b'%s', b'*', b'g\0', b'\0g', b'FEATURE', b'g\n', b'G' * 301, bytes(range(256)), b'n' * 1023, b'n' * 1024, b'n' * 16000]
    for i in range(check.n(250, 4000)):
        b = rng.choice(list(libs))
        grant = rng.sample(names, rng.randint(0, len(names))) + ([GLOB.encode()] if rng.random() < .7 else [])
        infail = rng.sample(names, rng.randint(0, 8))
        st = [V]
        if rng.random() < .2:
            st.append(('raw', b'TOOLS\n'))
        trail = rng.choice(['', '', '/', '///'])
        st.append(('raw', lambda p, trail=trail: msg('LIB', (p + trail).encode())))
        for _ in range(rng.choice([1, 5, 20])):
            st.append(rng.choice([FEAT, FEAT, RET])(rng.choice(names)))
            if rng.random() < .1:
                st.append(F('r.txt'))
            if rng.random() < .1:
                st += gen.concrete(rng.choice(['featlong', 'featneg', 'lib', 'unknown', 'lic', 'retlic', 'libshort']), rng, FEATS, set())
        scs.append(env.sc(b, rng.choice(TRUSTED + TRUSTED + UNTRUSTED), libs[b], st, grant=grant, infail=infail, newfail=rng.choice([0, 0, 0, 1, 2, 1000]),
                          sfx=rng.choice(['', ' 50%', ' line\nbreak', 'm' * 2500, ' \xc3\xa5']), end=rng.choice(['notify', 'eof', 'cut']), name='license %d' % i))
    scs += own_manager(env, check, check.n(60, 1500))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

def c05(check):
    env = Env(check, {**NORMAL, **GLOBAL})
    check.model('MCLve')
    rng = check.rng
    scs = graph_scenarios(env, check, xs=lambda x: x['global'])
    scs += graph_scenarios(env, check, xs=lambda x: not x['global'] and x['newfail'], keep=lambda s, i: i.startswith('f') or i == 'lib')
    libs = {b: env.lib(BASE, b) for b in ('asan', 'gasan', 'plain', 'gplain')}
    G = GLOB.encode()
    for i in range(check.n(200, 3000)):
        b = rng.choice(list(libs))
        grant = rng.choice([[], [G], [b'*'], FEATS['g'], [G[:-1]], [G + b'x'], [G.upper()], [b'g', G]])
        st = [V, rng.choice([L, ('raw', lambda p: msg('LIB', p.encode() + b'/'))])]
        if rng.random() < .15:
            st.insert(1, ('raw', b'LIB 0\n'))
        if rng.random() < .1:
            st.insert(1, ('raw', msg('LIB', b'/nonexistent')))
        for _ in range(12):
            st.append(rng.choice([F(rng.choice(list(BASE))), F(rng.choice(list(BASE))), FEAT(rng.choice([G, b'g', b'r'])), RET(rng.choice([G, b'g'])), L, V]))
        scs.append(env.sc(b, rng.choice(TRUSTED + TRUSTED + UNTRUSTED), libs[b], st, grant=grant, newfail=rng.choice([0, 0, 0, 1, 2]), name='gate %s %s %d' % (b, grant, i)))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

def tree_lib(env, check, rng, b, big=False):
    src = {}
    for p in gen.shape(rng, depth=rng.choice([0, 1, 2, 3, 5]), width=rng.choice([1, 2, 3])):
        src[p] = gen.content(rng, rng.choice(gen.SIZES))
    for d in sorted({os.path.dirname(p) for p in src}):
        if rng.random() < .4:
            src[os.path.join(d, rng.choice(['r.txt', 'x.mo', 'image.png', 'package.mo', 'noext', 'b.mocx', 'moc']))] = gen.content(rng, rng.choice(gen.SIZES + [100000, 400000]), 'bin')
    if big:
        src['huge.moc'] = gen.content(rng, 3 * 1000 * 1000 + 1)
        src['huge.bin'] = gen.content(rng, 5 * 1000 * 1000 + 3, 'bin')
    return env.lib(src, b)

def libs_or_violation(check, env, rng, n, builds=('asan', 'plain'), big=1):
    out = []
    for i in range(n):
        try:
            out.append((builds[i % len(builds)], tree_lib(env, check, rng, builds[i % len(builds)], big=i < big)))
        except LibError as e:
            check.violation('a library could not be encrypted: %s' % e, {'error': str(e)})
            break
    return out

def IO(rng):
    return ('io', '%s:%s' % (rng.choice(['fopenr', 'fopenr', 'fread', 'fread', 'fread', 'stat']), rng.choice(['1', '1', '2', '2', '3', '4', '5', '1+', '2+', '3+'])))

def c06(check):
    env = Env(check, {**NORMAL, **FLAT})
    rng = check.rng
    check.model('MCLve')
    check.model('MaskCache')
    scs = []
    for b, lib in libs_or_violation(check, env, rng, check.n(66, 440), ('asan', 'plain', 'flat', 'asan', 'plain'), big=2):
        files = [p for p in lib.src]
        for rep in range(check.n(4, 8)):
            order = list(files)
            if rep == 0:
                order.sort(key=lambda p: -p.count('/'))       # deepest first
            elif rep == 1:
                order.sort(key=lambda p: (os.path.basename(p) != 'package.moc', p))
            else:
                rng.shuffle(order)
                if rep == 3:
                    order = [rng.choice(files) for _ in range(2 * len(files))]
            order = [p for p in order if not p.startswith('huge') or rep < 2]
            st = [V, L]
            for p in order[:80]:
                st.append(F(p))
                if rng.random() < .05:
                    st.append(F(os.path.join(os.path.dirname(p), 'missing.moc')))
            scs.append(env.sc(b, rng.choice(TRUSTED), lib, st, tls12=rng.random() < .3, name='tree %s order %d' % (lib.path, rep)))
        # every file as the first request of a session
        for p in rng.sample(files, min(len(files), 6)):
            scs.append(env.sc(b, 'tool0', lib, [V, L, F(p), F(p)], name='first request %s' % p))
        # reading fails on the way, and works again afterwards
        if b != 'asan':
            for rep in range(check.n(2, 6)):
                st = [V, L]
                for p in rng.sample(files, min(len(files), 12)):
                    st += [IO(rng), F(p)]
                    if rng.random() < .4:
                        st.append(F(rng.choice(files)))
                scs.append(env.sc(b, 'tool0', lib, st + [F(p) for p in files[:60]], name='reading fails'))
        check.cover('library trees')
        check.cover('library files', len(files))
    if scs:
        check.conform('TraceLve', scs, session.run, sig, corrupt)

def c07(check):
    env = Env(check, NORMAL)
    rng = check.rng
    check.model('MCLve')
    check.model('MaskCache')
    scs = graph_scenarios(env, check, xs=lambda x: x['peer'] == 'tool0' and not x['newfail'] and not x['global'],
                          keep=lambda s, i: i.startswith('f') or i.startswith('swap') or i in ('delA', 'restore'))
    src = {'package.moc': b'package L end L;', 'a.moc': b'model a "SECRETMARK" end a;', 'e.moc': b'', 'b.moc': b'B' * 40, 'sub/package.moc': b'', 'sub/x.moc': b'x' * 33, 'sub/y.moc': b'within L.sub; model y end y;',
           'sub/deep/package.moc': b'package deep end deep;', 'sub/deep/z.moc': b'z' * 16, 'nop/q.moc': b'q', 'other/package.moc': b'package other end other;', 'other/x.moc': b'o' * 33, 'r.txt': b'text'}
    enc = [tuple(p.split('/')) for p in src if p.endswith('.moc')]
    for b in ('asan', 'plain'):
        lib = env.lib(src, b)
        # every byte of small files, every truncation
        for p in enc:
            n = len(lib.bytes[p])
            jobs = [('flip', (i, rng.randrange(8))) for i in range(n)]
            jobs += [('trunc', i) for i in range(0, n)]
            jobs += [('extend', bytes([rng.randrange(256)]) * k) for k in (1, 15, 16, 17, 32, 48, 100)] + [('extend', lib.bytes[p])]
            jobs += [('prepend', bytes([rng.randrange(256)]) * k) for k in (1, 16)] + [('write', rng.randbytes(k)) for k in (1, 16, 48, 64, 80, 96, 200)]
            jobs += [('write', lib.src['/'.join(p)])] if lib.src['/'.join(p)] else []
            jobs += [('write', lib.bytes[p][:16] + lib.bytes[p][-32:]), ('write', lib.bytes[p][:-32] + bytes(32)), ('write', lib.bytes[p][16:])]
            if not check.thorough and b == 'plain':
                jobs = rng.sample(jobs, 60)
            rng.shuffle(jobs)
            below = ['/'.join(o) for o in enc if o[:len(p) - 1] == p[:-1] and o != p] or ['r.txt']
            for k in range(0, len(jobs), 40):
                # with the masks known before, and not
                for warm in ((True, False) if p[-1] == 'package.moc' else (rng.random() < .5,)):
                    st = [V, L] + [F('/'.join(o)) for o in enc if warm]
                    for kind, arg in jobs[k:k + 40]:
                        st += [('mut', p, kind, arg), F('/'.join(p))]
                        if rng.random() < .3:
                            st.append(F(rng.choice(below)))
                        if rng.random() < .2:
                            st.append(F(rng.choice(['r.txt', 'other/x.moc' if p[0] != 'other' else 'a.moc'])))
                        st += [('mut', p, 'restore')]
                        if rng.random() < .3:
                            st += [F('/'.join(p)), F(rng.choice(below))]
                    st += [F('/'.join(o)) for o in enc]
                    scs.append(env.sc(b, rng.choice(TRUSTED), lib, st, name='tamper %s %s warm=%s' % (b, '/'.join(p), warm)))
            check.cover('tamperings', len(jobs))
        # every file in every other file's place, and deletions
        for p in enc:
            st = [V, L] + [F('/'.join(o)) for o in rng.sample(enc, rng.choice([0, 3, len(enc)]))]
            for o in enc:
                if o != p and not (p[-1] == 'package.moc' and o[-1] == 'package.moc'):
                    st += [('mut', p, 'copy', o), F('/'.join(p)), F(rng.choice(['/'.join(w) for w in enc])), ('mut', p, 'restore'), F('/'.join(p))]
            st += [('mut', p, 'delete'), F('/'.join(p)), F(rng.choice(['/'.join(w) for w in enc])), ('mut', p, 'restore')] + [F('/'.join(o)) for o in enc]
            scs.append(env.sc(b, 'tool1', lib, st, name='misplace %s %s' % (b, '/'.join(p))))
        pk = [p for p in enc if p[-1] == 'package.moc']
        for p in pk:
            for o in pk:
                if p != o:
                    st = [V, L, ('mut', p, 'copy', o)] + [F('/'.join(w)) for w in rng.sample(enc, len(enc))] + [('mut', p, 'restore')] + [F('/'.join(w)) for w in enc]
                    scs.append(env.sc(b, 'tool1', lib, st, name='misplace package %s %s' % ('/'.join(o), '/'.join(p))))
        # every file in every other file's place while reading fails
        for p in enc if b == 'plain' else []:
            for o in enc:
                if o != p and o[-1] != 'package.moc' and p[-1] != 'package.moc':
                    for op in ('fopenr:2+', 'fread:2+', 'fread:%d' % rng.randint(1, 6), 'fopenr:%d' % rng.randint(1, 4)):
                        if check.thorough or rng.random() < .5:
                            st = [V, L, ('mut', p, 'copy', o), ('io', op), F('/'.join(p)), ('mut', p, 'restore'), F('/'.join(p)), F(rng.choice(['/'.join(w) for w in enc]))]
                            scs.append(env.sc(b, 'tool0', lib, st, name='misplace, reading fails'))
        # random tampering with several files at once
        for i in range(check.n(40, 600)):
            st = [V, L]
            for _ in range(25):
                k = rng.random()
                p = rng.choice(enc)
                if k < .3:
                    st.append(('mut', p, 'flip', (rng.random(), rng.randrange(8))))
                elif k < .4:
                    st.append(('mut', p, 'trunc', rng.choice([-1, -16, -32, 0, 16, 47, 48])))
                elif k < .55:
                    st.append(('mut', p, 'restore'))
                elif k < .6:
                    st.append(('mut', p, 'delete'))
                else:
                    st.append(F('/'.join(p)))
            scs.append(env.sc(b, 'tool0', lib, st, name='random tampering %d' % i))
    # large files, also package files, damaged far from their ends
    for b in ('plain', 'asan'):
        lens = [4096, 16384, 32768, 65536, 70001, 300000] + ([1000003, 5000000] if check.thorough else [1000003])
        src2 = {'package.moc': gen.content(rng, 140000, 'bin'), 'x.moc': b'x', 'sub/package.moc': b'package sub', 'sub/x.moc': b'y'}
        src2.update({'f%d.moc' % n: gen.content(rng, n, 'bin') for n in lens})
        lib = env.lib(src2, b)
        for name in [n for n in src2 if len(src2[n]) > 4000]:
            p, n = (name,), len(lib.bytes[(name,)])
            at = sorted({n // 2, n - 33, n - 32, n - 1, n // 4, n * 3 // 4, 65536 % n, 16384 % n, 4096 % n, 32768 % n} | {rng.randrange(n) for _ in range(check.n(6, 60))})
            jobs = [('flip', (i, rng.randrange(8))) for i in at] + [('trunc', i) for i in rng.sample(at, min(5, len(at)))] + [('extend', b'e' * k) for k in (1, 16, 4096)]
            for s in (16, 32, 1024, 4096, 16384, 65536):
                if 3 * s + 48 <= n:      # two pieces exchanged
                    i = 16 + s * rng.randrange((n - 48) // s - 1)
                    c = bytearray(lib.bytes[p])
                    c[i:i + s], c[i + s:i + 2 * s] = c[i + s:i + 2 * s], c[i:i + s]
                    jobs.append(('write', bytes(c)))
            rng.shuffle(jobs)
            for k in range(0, len(jobs), 12):
                st = [V, L] + ([F(name)] if rng.random() < .5 else [])
                for kind, arg in jobs[k:k + 12]:
                    st += [('mut', p, kind, arg), F(name), F('sub/x.moc'), ('mut', p, 'restore')]
                scs.append(env.sc(b, 'tool0', lib, st + [F(name), F('x.moc')], name='tamper large %s' % name))
    # a library encrypted for an executable with another key
    lib2 = env.lib(src, 'plain')
    foreign = {p: lib2.bytes[p] for p in enc}
    lib = env.lib(src, 'asan')
    st = [V, L]
    for p in enc:
        st += [('mut', p, 'write', foreign[p]), F('/'.join(p)), ('mut', p, 'restore'), F('/'.join(p))]
    scs.append(env.sc('asan', 'tool0', lib, st, name='files of another build'))
    check.conform('TraceLve', scs, session.run, sig, corrupt, chunk=100)

def c08(check):
    env = Env(check, {k: v for k, v in NORMAL.items()})
    rng = check.rng
    check.model('MCLve')
    scs = graph_scenarios(env, check, xs=lambda x: not x['global'] and not x['newfail'], keep=lambda s, i: i in ('verx', 'ver', 'tools1', 'lib0', 'libshort', 'liblong', 'featneg', 'featlong', 'fshort', 'unknown', 'lower', 'empty'))
    lib = env.lib(BASE, 'asan')
    files = list(BASE) + ['sub', 'nope']
    for i in range(check.n(900, 12000)):
        st = [V] if rng.random() < .9 else []
        if st and rng.random() < .85:
            st.append(L)
        for _ in range(rng.choice([3, 10, 25])):
            st.append(('raw', gen.fuzz(rng, files, lib.path)[:16384]))
            if rng.random() < .3:
                st.append(rng.choice([F(rng.choice(files)), FEAT(b'g'), RET(b'g'), V, L]))
        scs.append(env.sc('asan' if rng.random() < .9 else 'plain', rng.choice(TRUSTED + TRUSTED + ['other', None]), lib, st, newfail=rng.choice([0, 0, 1]),
                          end=rng.choice(['notify', 'eof', 'cut']), name='fuzz %d' % i))
        check.cover('fuzzed messages', len(st))
    lib_p = env.lib(BASE, 'plain')
    for s in scs:
        if s['exe'].startswith(env.b['plain'] + '/') and s['lib'] is lib:
            s['lib'] = lib_p
    check.conform('TraceLve', scs, session.run, sig, corrupt, chunk=200)

def c11(check):
    env = Env(check, NORMAL)
    rng = check.rng
    check.model('MCLve')
    scs = graph_scenarios(env, check, xs=lambda x: x['peer'] == 'tool0' and not x['newfail'] and not x['global'], keep=lambda s, i: i.startswith('f') or i == 'lib')
    src = dict(BASE, **{'..a': b'dots1', 'a..': b'dots2', '...': b'dots3', 'a..b/c..d.txt': b'dots4', '..d/..e.moc': b'dots5 enc', 'sub/..hidden': b'dots6', '.hid': b'dots7', '.dir/x.txt': b'dots8',
                        'sub/....txt': b'dots9', 'x.y.moc': b'dots10', 'sub/deep/z.txt': b'z', 'a...moc': b'dots11'})
    for b in ('asan', 'plain'):
        src.update({'%2e%2e/p.txt': b'percent', '%41.txt': b'percent2', 'a+b.txt': b'plus', '%s%n.moc': b'percent3'})
        lib = env.lib(src, b)
        up = ['%2e%2e', '%2E%2e', '.%2e', '%2e.', '..%2f', '..%2F..', '%252e%252e', '\uff0e\uff0e', '\\u002e\\u002e', '&#46;&#46;', '..;', ' ..', '.. ', '..\t', '%5c..', '..%5c', '$PWD/..', '..%00', 'sub/%2e%2e/%2e%2e',
              '..', '../', '../..', 'sub/..', 'sub/../..', './..', './../', 'sub/./../..', '..//', '//..', 'sub//..//..', 'nodir/../..', 'sub\\..', '..\\', '..\\..', 'sub/..\\..', '/..', 'sub/deep/../../..', '.hid/..', '.../..',
              'sub/deep/..\\../..', '..a/..', 'a../..']
        tails = ['', '/a.moc', '/r.txt', '/outside.txt', '/OUT/secret.txt', '\\outside.txt', '/../outside.txt', os.path.basename(lib.path), '/%s/a.moc' % os.path.basename(lib.path), '/%s/r.txt' % os.path.basename(lib.path)]
        esc = [u + t for u in up for t in tails]
        depth = lib.path.count('/')
        absolute = [os.path.join(build.scratch(), 'outside.txt'), '/' + os.path.join(build.scratch(), 'outside.txt'), '../' * depth + build.scratch()[1:] + '/outside.txt', os.path.join(lib.path, 'a.moc'), 'file://' + build.scratch() + '/outside.txt',
                    './' + build.scratch() + '/outside.txt', '~/outside.txt', '\\outside.txt', 'OUT/secret.txt', 'outside.txt']
        nul = [b'\xc0\xae\xc0\xae/outside.txt', b'..\xc0\xafoutside.txt', b'../outside.txt\0.moc', b'a.moc\0/../../outside.txt', b'sub\0/..', b'..\0', b'r.txt\0', b'\0', b'../outside.txt\0']
        ok = list(src)
        odd = ['./r.txt', './/r.txt', 'sub//x.moc', './sub/./x.moc', 'sub\\x.moc', '/r.txt', '//r.txt', 'r.txt/', 'sub/', 'sub/.', '.', './', '/', '', 'r.txt/.', './package.moc', 'sub/./package.moc', 'sub//package.moc']
        everything = esc + absolute + odd
        rng.shuffle(everything)
        for trail in ['', '/', '//', '////', '\\', '/\\/', '/.', '/./', '/sub/..', '/../' + os.path.basename(lib.path)]:
            st = [V, ('raw', lambda p, t=trail: msg('LIB', (p + t).encode()))] + [F(p) for p in ok]
            for p in rng.sample(everything, 40):
                st += [F(p)] + ([F(rng.choice(ok))] if rng.random() < .4 else [])
            scs.append(env.sc(b, rng.choice(TRUSTED), lib, st, name='paths, library path ends in %r' % trail))
        for k in range(0, len(everything), 40):
            scs.append(env.sc(b, 'tool0', lib, [V, L] + [F(p) for p in everything[k:k + 40]] + [F(p) for p in ok], name='escapes %d' % k))
        scs.append(env.sc(b, 'tool0', lib, [V, L] + [F(p) for p in nul] + [F(p) for p in ok], name='zero bytes'))
        # a relative library path
        for i in range(check.n(60, 1500)):
            st = [V, L]
            for _ in range(25):
                comps = [rng.choice(['..', '..', '.', '', 'sub', 'deep', '..a', 'a..', '...', 'a.moc', 'r.txt', 'outside.txt', 'OUT', 'secret.txt', os.path.basename(lib.path), 'nodir', '.hid', '..\\', '\\..']) for _ in range(rng.randint(1, 6))]
                st.append(F(''.join(c + rng.choice(['/', '/', '/', '//', '\\', '/./']) for c in comps[:-1]) + comps[-1]))
            scs.append(env.sc(b, 'tool0', lib, st + [F(rng.choice(ok))], name='random paths %d' % i))
        check.cover('escaping paths', len(esc) + len(absolute) + len(nul))
    check.conform('TraceLve', scs, session.run, sig, corrupt)

ALL = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C11': c11}
