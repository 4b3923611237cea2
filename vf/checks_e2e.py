"""C17, C20: tool library and executable together."""
import os, json
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc, gen, tooldrv, session, e2e
from . import checks_tool as ct, checks_lve as cl
from .lve import msg
from .session import q

GLOB = cl.GLOB
BASE = {'package.moc': b'package L "SECRETMARK1" end L;', 'a.moc': b'within L; model a "SECRETMARK2" end a;' * 3,
        'sub/x.moc': b'', 'r.txt': b'plain resource\n' * 3000, 'sub/package.moc': b'within L; package sub end sub;', 'sub/y.moc': b'within L.sub; model y end y;' * 2500,
        'sub/sub2/z.moc': bytes(range(256)) * 77, 'sub/data.bin': bytes(range(256)) * 300, 'empty.txt': b''}
GRAPHLIB = {k: BASE[k] for k in ('package.moc', 'a.moc', 'sub/x.moc', 'r.txt')}
FEATS = {'g': [b'g', b'a feature', b'\xc3\xa5\xff', b'with\nnewline', b'F' * 3000], 'r': [b'r', b'', b'gg', b'G', b'a featur']}

class Env:
    def __init__(self, check, globals_=True, untrusted=True, more={}):
        v = {'asan': dict(asan=True), 'plain': {}, **more}
        if globals_:
            v['gplain'] = dict(global_feature=GLOB)
        t = (build.LVE, 'vf_tool', 'encrypt_file', 'vf_relay')
        build.scratch()
        build.keydir()
        if untrusted:
            v['oplain'] = dict(keys=build.keydir(tool='other'))
            if globals_:
                v['oasan'] = dict(keys=build.keydir(tool='other'), asan=True, global_feature=GLOB)
        with ThreadPoolExecutor(4) as ex:
            self.b = dict(ex.map(lambda nv: (nv[0], build.build(nv[0], t, **nv[1])), v.items()))
        check.log('built', *self.b)
        self.v, self.n, self.nlib, self.check = v, 0, 0, check
    def lib(self, src, b, dirs=()):
        self.nlib += 1
        return session.Lib(self.b[b], src, os.path.join(build.scratch(), 'E%d-%s' % (self.nlib, b)), dirs)
    def sc(self, b, lib, steps, **kw):
        self.n += 1
        d = dict(id=self.n, tool=self.b[b] + '/vf_tool', exe=os.path.join(self.b[b], build.LVE), keys=['tool1', 'tool0', 'big', 'tool2'],
                 peer='other' if b.startswith('o') else 'tool0', grant=FEATS['g'], infail=FEATS['r'], newfail=0, lib=lib, steps=steps, name=b)
        d['global'] = GLOB if 'global_feature' in self.v[b] else ''
        d.update(kw)
        return d

def sig(tr, info):
    if not info.get('l'):
        return 'no explanation'
    ev = tr['ev'][info['l'] - 1]
    if ev['e'] == 'call':
        return '%s %s -> ok=%s err=%s %s.%s says=%s lm=%s late=%s alive=%s' % (ev['c']['op'], '/'.join(ev['m']['npath']) or ev['m']['arg'][:60], ev['r']['ok'], ev['r']['err'], ev['r']['dom'], ev['r']['code'], ev['r']['says'], [c['op'] for c in ev['lm']], ev['late'], ev['alive'])
    return json.dumps(ev)[:300]

def corrupt(tr, rng):
    c = [e for e in tr['ev'] if e['e'] == 'call' or e['e'] == 'read' and e['got'] > 0 or e['e'] == 'close']
    if not c:
        return None
    e = rng.choice(c)
    if e['e'] == 'close':
        e['ended'] = False
    elif e['e'] == 'read':
        e['at'] = []
    elif rng.random() < .5:
        e['r']['ok'] = not e['r']['ok']
    else:
        e['lm'].append({'op': 'out', 'h': 1, 'arg': 'zzz', 't': True})
    return tr

def graph_scenarios(env, check, keep=None, xs=None, maxlen=60):
    r = check.model('MCE2E', 'MCE2EGraph.cfg', workers=1)
    g, edges = {}, 0
    for v in tlc.prints(r['out']):
        if v.get('edge'):
            d = g.setdefault(json.dumps(v['x'], sort_keys=True), {}).setdefault(v['from'], {}).setdefault(v['id'], [])
            if v['to'] not in d:
                d.append(v['to'])
                edges += 1
    if edges < 1000:
        raise tlc.TlcError('no state graph')
    check.cover('model edges', edges)
    rng, out = check.rng, []
    libs = {b: env.lib(GRAPHLIB, b) for b in env.b}
    one = rng.choice
    size = {'fP': 'package.moc', 'fA': 'a.moc', 'fX': 'sub/x.moc', 'fR': 'r.txt'}
    for k, states in g.items():
        x = json.loads(k)
        if xs and not xs(x):
            continue
        bs = [b for b in env.b if b.startswith('o') == (x['peer'] == 'other') and ('global_feature' in env.v[b]) == bool(x['global'])]
        if not bs:
            continue
        init = next(s for s in states if 'phase |-> "VERSION"' in s and 'open |-> FALSE' in s and 'news |-> 0' in s)
        for w in gen.walks(states, rng, maxlen, keep, init=init):
            b = one(bs)
            steps = [('start',)]
            cur = 0
            for i in w:
                t = {'ver': ('version', 1, 1), 'verwide': ('version', one([0, 1, -5]), one([2, 7, 1000])), 'verlow': ('version', one([-3, 0]), one([0, 0, -1])), 'verhigh': ('version', 2, one([2, 5, 100000])),
                     'lib': ('lib', lambda p: p.encode()), 'libmiss': ('lib', b'/nonexistent/zz'), 'libempty': ('lib', b''),
                     'featg': ('feature', one(FEATS['g'])), 'featr': ('feature', one(FEATS['r'])), 'retg': ('retfeature', one(FEATS['g'])), 'retr': ('retfeature', one(FEATS['r'])),
                     'lic': ('license', one([b'pkg', b'', b'x' * 100])), 'retlic': ('retlicense', b'pkg'), 'fP': ('file', 0, b'package.moc'), 'fA': ('file', 0, b'a.moc'), 'fX': ('file', 0, b'sub/x.moc'),
                     'fR': ('file', 0, b'r.txt'), 'fN': ('file', 0, one([b'nope.moc', b'a.mo', b'sub/none.txt', b'a.moc/b'])), 'fU': ('file', 0, one([b'../a.moc', b'sub/../../x', b'..'])), 'fD': ('file', 0, b'sub'),
                     'read1': ('read', 0, 1), 'read5': ('read', 0, 10**6)}.get(i)
                if i == 'again':
                    steps += [('free',), ('start',)]
                    continue
                if i == 'read1':
                    # the model's files have 0..3 units
                    t = ('read', 0, {0: 1, 1: cur, 2: -(-cur // 2), 3: -(-cur // 3)}[units])
                if i in size:
                    cur = len(GRAPHLIB[size[i]])
                    units = {'fP': 1, 'fA': 2, 'fX': 0, 'fR': 3}[i]
                steps.append(t)
                if i in size and rng.random() < .3:
                    steps.append(('size', 0))
            steps.append(('free',))
            out.append(env.sc(b, libs[b], steps, grant=FEATS['g'] + ([GLOB.encode()] if 'G' in x['grant'] else []), newfail=x['newfail'], sfx=one(['', ' 100% %s', ' ' + 'y' * 1500]), name='walk ' + b))
    check.cover('walks over the model graph', len(out))
    return out

def longcall(rng):
    """a call with a long argument: its request just fits in a record, or does not"""
    op = rng.choice(list(e2e.WORD))
    fit = next(n for n in range(16384, 0, -1) if len(e2e.WORD[op]) + 2 + len(str(n)) + n <= 16384)
    n = rng.choice([fit, fit, fit + 1, fit + 1, fit - 1, fit + 2, fit + 20, 16383, 16384, 16385, 9999, 10000, 20000, 32768, 40000, 100000])
    body = rng.choice([b'x', b'FEATURE 1\ng', b'LIB 1\n/', b'a.moc\0'.replace(b'\0', b'/'), b'VERSION 1\n', b'../'])
    a = (body * (n // len(body) + 1))[-n:]
    return (op, 3, a) if op == 'file' else (op, a)

def random_sessions(env, check, n):
    rng, out = check.rng, []
    libs = {b: env.lib(BASE, b, ['emptydir']) for b in env.b}
    one = rng.choice
    for i in range(n):
        b = one(list(env.b))
        steps = [('start',)]
        if rng.random() < .9:
            steps += [('version', 1, one([1, 3])), ('lib', lambda p: (p + one(['', '/', '//'])).encode())]
        pend = []
        for j in range(rng.randint(5, 40)):
            k = rng.random()
            if k < .4:
                f = one(list(BASE) + ['nope', 'sub', '../x', 'sub/./y.moc'][:3])
                slot = rng.randrange(4)
                pend = [p for p in pend if p[1] != slot]
                steps.append(('file', slot, f.encode()))
                pend += ct.reads(rng, len(BASE.get(f, b'')), slot)
            elif k < .8 and pend:
                for _ in range(rng.randint(1, 8)):
                    if pend:
                        s = one([p[1] for p in pend])
                        x = next(x for x, p in enumerate(pend) if p[1] == s)
                        steps.append(pend.pop(x))
            else:
                steps.append(one([('feature', one(FEATS['g'] + FEATS['r'])), ('retfeature', one(FEATS['g'] + FEATS['r'])), ('license', b'p'), ('retlicense', b'p'), ('version', 1, 1), ('version', 2, 3), ('version', 0, 0),
                                  ('lib', b'/other'), ('lib', lambda p: p.encode()), ('lib', b''), ('ffree', 3)]))
                if steps[-1][0] == 'ffree':
                    pend = [p for p in pend if p[1] != 3]
            if rng.random() < .06:
                steps.append(longcall(rng))
                pend = [p for p in pend if p[1] != 3]
            if rng.random() < .02:
                steps += [('free',)] + pend[:5] + [('start',), ('version', 1, 1), ('lib', lambda p: p.encode())]
                pend = pend[5:]
        steps += pend + [('free',)]
        out.append(env.sc(b, libs[b], steps, grant=FEATS['g'] + ([GLOB.encode()] if rng.random() < .7 else []), newfail=one([0, 0, 0, 1, 3]), sfx=one(['', ' %n%s', ' text']), name='random ' + b))
    return out

def c17(check):
    env = Env(check)
    check.model('MCE2E')
    scs = graph_scenarios(env, check)
    for b in env.b:
        lib = env.lib(BASE, b)
        for i in range(check.n(12, 120)):
            st = [('start',), ('version', 1, 1), ('lib', lambda p: p.encode())]
            for _ in range(6):
                st += [longcall(check.rng), ('feature', b'g'), ('file', 0, b'a.moc'), ('size', 0)]
            scs.append(env.sc(b, lib, st + [('free',)], grant=FEATS['g'] + [GLOB.encode()], name='long arguments ' + b))
    # programs without some or all of the standard descriptors
    for b in env.b:
        lib = env.lib(BASE, b)
        for shut in ('0', '1', '2', '01', '12', '02', '012'):
            st = [('start',), ('version', 1, 1), ('lib', lambda p: p.encode()), ('feature', b'g'), ('file', 0, b'a.moc'), ('file', 1, b'big.txt' if 'big.txt' in BASE else b'r.txt'), ('read', 0, 10), ('free',)]
            scs.append(env.sc(b, lib, st + st, grant=FEATS['g'] + [GLOB.encode()], env={'VF_NOSTD': shut}, name='no standard descriptors %s %s' % (shut, b)))
    scs += random_sessions(env, check, check.n(250, 4000))
    check.conform('TraceE2E', scs, e2e.run, sig, corrupt, chunk=150)

RANGES = [(1, 1), (0, 0), (1, 2), (0, 5), (2, 2), (2, 9), (3, 2), (5, 1), (-1, 1), (-5, -1), (0, 1000000000), (1, 1000000000), (-1000000000, 1000000000), (1000, 2000), (1, 0)]
ANSWERS = [0, 1, 2, 3, 5, 9, -1, -5, 999, 1000, 1001, 2000, 2001, 999999999, 1000000000, 1000000001, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 4294967297, 4294967298, 8589934593,
           18446744073709551617, 9223372036854775807, 9223372036854775808, -9223372036854775808, -4294967295, 65537, 257]
def c20(check):
    env = Env(check, untrusted=False)
    check.model('MCTool')
    check.model('MCLve')
    check.model('MCE2E')
    rng = check.rng
    # the tool's side
    scs = []
    tenv = ct.Env.__new__(ct.Env)
    tenv.b, tenv.n, tenv.check = {k: env.b[k] for k in ('asan', 'plain')}, 0, check
    texts = [b'VERSION x\n', b'VERSION\n', b'VERSION 1 1\n', b'VERSION 1x\n', b'VERSION  1\n', b' VERSION 1\n', b'VERSION 1', b'VERSION 12', b'VERSION 01\n', b'VERSION +1\n', b'VERSION 1.5\n', b'VERSION 1\r\n', b'VERSION -\n', b'VERSION 0x1\n', b'VERSION 1e0\n', b'version 1\n',
             b'YES\n', msg('NO', b'no'), msg('ERROR', b'unsupported version', n=2), msg('ERROR', b'', n=2), msg('ERROR', b'too low', n=2), msg('ERROR', b'too high', n=1), b'NOTSIMPLE\n', msg('FILECONT', b'1'), msg('TOOLLIST', b'1'), msg('LIB', b'1'),
             b'VERSION 1\nVERSION 9\n', b'VERSION 1\n1', b'\n', b'\0', b'VERSION \0 1\n', b'1\n', b'VERSION1\n', b'VERSION\t1\n']
    for lo, hi in RANGES:
        cases = [b'VERSION %d\n' % a for a in ANSWERS] + texts
        rng.shuffle(cases)
        for i in range(0, len(cases), 12):
            scs.append(tenv.sc([('start', 0, 'ok')] + [('call', 0, 'version', (lo, hi), 0, dict(parts=[a])) for a in cases[i:i + 12]] + [('free', 0)], 'version %d..%d' % (lo, hi)))
    for i in range(check.n(100, 3000)):
        a, b = rng.choice([(rng.randint(-3, 12), rng.randint(-3, 12)), (rng.randint(-10**9, 10**9), rng.randint(-10**9, 10**9))])
        vals = [x + dx for x in (a, b) for dx in (-1, 0, 1)] + [rng.randint(-5, 15), rng.choice([1, -1]) * 2**32 + a, 2**32 + b, 2**64 + a]
        scs.append(tenv.sc([('start', 0, 'ok')] + [('call', 0, 'version', (a, b), 0, dict(parts=[b'VERSION %d\n' % v])) for v in vals] + [('free', 0)], 'version random'))
    for a in ('cuthead', 'gone'):
        for i in range(10):
            scs.append(tenv.sc([('start', 0, 'ok'), ('call', 0, 'version', (1, 2), 0, ct.answer(rng, a)), ('call', 0, 'version', (1, 2), 0, dict(parts=[], complete=False)), ('free', 0)], 'version lost'))
    check.conform('TraceTool', scs, tooldrv.run, ct.sig, ct.corrupt, label='tool side')
    # the executable's side
    lve = cl.Env.__new__(cl.Env)
    lve.check, lve.b, lve.n, lve.nlib = check, {k: env.b[k] for k in ('asan', 'plain', 'gplain')}, 0, 0
    libs = {b: lve.lib(cl.BASE, b) for b in lve.b}
    scs = []
    rest = [cl.L, cl.F('a.moc'), cl.FEAT(b'g'), cl.F('r.txt'), ('raw', b'TOOLS\n'), ('raw', msg('LICENSE', b'x'))]
    good = [b'VERSION 1\n', b'VERSION 2\n', b'VERSION 9\n', b'VERSION 2147483647\n', b'VERSION 99999999999\n']
    badv = [b'VERSION %d\n' % v for v in ANSWERS if v < 1 or v > 2**31] + [t for t in texts if t.split(b'\n')[0] not in (b'VERSION 1', b'VERSION 12')]
    for v in ANSWERS + [-2, 4, 10, 100, 255, 256]:
        for b in lve.b:
            scs.append(lve.sc(b, rng.choice(cl.TRUSTED), libs[b], [('raw', b'VERSION %d\n' % v)] + rng.sample(rest, 2) + [('raw', b'VERSION 1\n'), cl.L, cl.F('a.moc'), cl.FEAT(b'g'), cl.V], name='executable VERSION %d' % v,
                              grant=cl.FEATS['g'] + [GLOB.encode()]))
    for t in texts:
        b = rng.choice(list(lve.b))
        scs.append(lve.sc(b, rng.choice(cl.TRUSTED), libs[b], [('raw', t)] + rng.sample(rest, 3) + [cl.V, cl.L, cl.F('a.moc')], name='executable %r' % t, grant=cl.FEATS['g'] + [GLOB.encode()]))
    for i in range(check.n(120, 2000)):
        b = rng.choice(list(lve.b))
        steps = []
        for _ in range(rng.randint(1, 6)):
            steps += [('raw', rng.choice(badv))] + rng.sample(rest, rng.randint(0, 3))
        steps += [('raw', rng.choice(good))] + rng.sample(rest, 3) + [('raw', rng.choice(badv + good))] + [cl.L, cl.F('a.moc'), cl.F('sub/x.moc')]
        scs.append(lve.sc(b, rng.choice(cl.TRUSTED), libs[b], steps, tls12=i % 4 == 0, name='negotiation retried', grant=cl.FEATS['g'] + [GLOB.encode()]))
    check.conform('TraceLve', scs, session.run, cl.sig, cl.corrupt, label='executable side')
    # both
    lib = {b: env.lib(GRAPHLIB, b) for b in env.b}
    scs = []
    for lo, hi in RANGES:
        for b in env.b:
            pre = [('version',) + r for r in rng.sample(RANGES, rng.randint(0, 3))]
            scs.append(env.sc(b, lib[b], [('start',)] + [('file', 0, b'a.moc'), ('feature', b'g'), ('lib', lambda p: p.encode())][:rng.randint(0, 3)] + pre + [('version', lo, hi), ('lib', lambda p: p.encode()), ('file', 0, b'a.moc'), ('read', 0, 1000),
                              ('version', 1, 1), ('feature', b'g'), ('free',)], grant=FEATS['g'] + [GLOB.encode()], name='both %d..%d' % (lo, hi)))
    for i in range(check.n(60, 800)):
        b = rng.choice(list(env.b))
        steps = [('start',)]
        for _ in range(rng.randint(2, 9)):
            steps.append(rng.choice([('version',) + rng.choice(RANGES), ('version', rng.randint(-2, 3), rng.randint(-2, 4)), ('lib', lambda p: p.encode()), ('file', 0, b'a.moc'), ('feature', b'g')]))
        scs.append(env.sc(b, lib[b], steps + [('version', 1, 1), ('lib', lambda p: p.encode()), ('file', 1, b'r.txt'), ('read', 1, 10**5), ('free',)], grant=FEATS['g'] + [GLOB.encode()], name='both random'))
    check.conform('TraceE2E', scs, e2e.run, sig, corrupt, chunk=150, label='together')

ALL = {'C17': c17, 'C20': c20}
