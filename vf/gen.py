"""Sessions to run: walks over the state graph of MCLve and focused or random sessions."""
import random, collections, json
from . import tlc
from .lve import msg, WORDS, FORM

def graph(check):
    """{x(json): {state: {msg id: [next states]}}} from TLC's exploration of MCLve."""
    r = check.model('MCLve', 'MCLveGraph.cfg', workers=1)
    g, edges = {}, 0
    for v in tlc.prints(r['out']):
        if v.get('edge'):
            k = json.dumps(v['x'], sort_keys=True)
            d = g.setdefault(k, {}).setdefault(v['from'], {}).setdefault(v['id'], [])
            if v['to'] not in d:
                d.append(v['to'])
                edges += 1
    if edges < 1000:
        raise tlc.TlcError('no state graph:\n' + r['out'][-2000:])
    check.cover('model edges', edges)
    return g

def walks(states, rng, maxlen=60, keep=None, init=None):
    """Walks from the initial state covering every (state, message) pair accepted by keep."""
    init = init or next(iter(states))
    for s in states:
        if 'phase |-> "VERSION"' in s:
            init = s
    todo = {s: [i for i in states[s] if keep is None or keep(s, i)] for s in states}
    for s in todo:
        rng.shuffle(todo[s])
    left = sum(map(len, todo.values()))
    out = []
    while left:
        cur, w = init, []
        while len(w) < maxlen:
            if todo.get(cur):
                i = todo[cur].pop()
                left -= 1
                w.append(i)
                nx = states[cur][i]
                cur = nx[0] if len(nx) == 1 else rng.choice(nx)
                continue
            # shortest way to a state with something left
            prev, dq, goal = {cur: None}, collections.deque([cur]), None
            while dq and goal is None:
                a = dq.popleft()
                for i, nx in states.get(a, {}).items():
                    for b in nx:
                        if b not in prev:
                            prev[b] = (a, i)
                            if todo.get(b):
                                goal = b
                                break
                            dq.append(b)
                    if goal:
                        break
            if goal is None:
                break
            path = []
            b = goal
            while prev[b]:
                path.append(prev[b][1])
                b = prev[b][0]
            if w and len(w) + len(path) > maxlen:
                break
            w += reversed(path)
            cur = goal
        if not w:
            break
        out.append(w)
    return out

JUNK = [b'FOO\n', b'FILES 3\nabc', b'VERSIO 1\n', b'FIL\n', b'[unknown_command]\n', b'LIBX 1\na', b'PUBKEY 1\na', b'FEATUR 1\na', b'FILECONT\n']

def concrete(i, rng, feats, tamper):
    """Steps for a message id of MCLve. feats: {'g': granted names, 'r': others}."""
    F = lambda *p: ('raw', msg('FILE', '/'.join(p).encode()))
    R = lambda b: ('raw', b)
    one = lambda l: rng.choice(l)
    table = {
        'ver1': lambda: R(msg('VERSION', n=1)), 'ver0': lambda: R(msg('VERSION', n=one([0, 0, -1, -5, -2147483647]))),
        'ver9': lambda: R(msg('VERSION', n=one([2, 9, 1000, 2147483647]))), 'verx': lambda: R(b'VERSION %s\n' % one([b'x', b'one', b'-', b'.5', b'v1'])),
        'ver': lambda: R(b'VERSION\n'), 'tools': lambda: R(b'TOOLS\n'), 'tools1': lambda: R(b'TOOLS 1\n'),
        'lib': lambda: ('raw', lambda p: msg('LIB', (p + one(['', '', '/', '//'])).encode())),
        'libmiss': lambda: R(msg('LIB', b'/nonexistent/lib%d' % rng.randrange(9))), 'lib0': lambda: R(b'LIB 0\n'),
        'libshort': lambda: ('raw', lambda p: b'LIB %d\n%s' % (len(p) + one([1, 2, 100, 5000]), p.encode())),
        'liblong': lambda: ('raw', lambda p: b'LIB %d\n%s' % (max(0, len(p) - one([1, 2, 5])), p.encode())),
        'featg': lambda: R(msg('FEATURE', one(feats['g']))), 'featr': lambda: R(msg('FEATURE', one(feats['r']))),
        'featneg': lambda: R(b'FEATURE -1\ng'), 'featlong': lambda: R(b'FEATURE 1\nggg'),
        'retg': lambda: R(msg('RETURNFEATURE', one(feats['g']))), 'retr': lambda: R(msg('RETURNFEATURE', one(feats['r']))),
        'lic': lambda: R(msg('LICENSE', b'pkg')), 'retlic': lambda: R(msg('RETURNLICENSE', b'pkg')),
        'fP': lambda: F('package.moc'), 'fA': lambda: F('a.moc'), 'fS': lambda: F('sub', 'package.moc'), 'fX': lambda: F('sub', 'x.moc'),
        'fR': lambda: F('r.txt'), 'fD': lambda: F('sub'), 'fN': lambda: F(one(['nope.moc', 'sub/nope.mo', 'nodir/a.moc', 'a.mo', '%s%n%s.txt'])),
        'fU': lambda: F(one(['..', 'sub/..', 'sub/../..', './..', 'nodir/..']), one(['a.moc', 'outside.txt', 'OUT/secret.txt'])),
        'fshort': lambda: R(b'FILE %d\na.moc' % one([6, 7, 20, 3000])),
        'yes': lambda: R(b'YES\n'), 'no': lambda: R(msg('NO', b'no')), 'fcont': lambda: R(msg('FILECONT', b'abc')), 'tlist': lambda: R(msg('TOOLLIST', b'abc')),
        'error': lambda: R(msg('ERROR', b'msg', n=rng.randrange(9))), 'notsimple': lambda: R(b'NOTSIMPLE\n'),
        'unknown': lambda: R(one(JUNK)), 'lower': lambda: R(one([b'version 1\n', b'Version 1\n', b'file 5\na.moc', b'lib 2\n/x'])),
        'empty': lambda: R(one([b'\n', b' \n', b'\0', b'   '])),
    }
    if i[-2:] == 'io':
        # the same request with some operation on the files failing
        return [('io', '%s:%s' % (one(['fopenr', 'fread', 'stat']), one(['1', '1', '2', '3', '1+', '2+'])))] + [table[i[:-2]]()]
    if i in table:
        return [table[i]()]
    X, S, P, A = ('sub', 'x.moc'), ('sub', 'package.moc'), ('package.moc',), ('a.moc',)
    pos = lambda: (rng.random(), rng.randrange(8))
    res = [('mut', p, 'restore') for p in sorted(tamper)]
    tamper.clear()
    new = {'flipX': (X, 'flip', pos()), 'flipS': (S, 'flip', pos()), 'flipP': (P, 'flip', pos()), 'swapXA': (X, 'copy', A), 'delA': (A, 'delete')}.get(i)
    if new:
        tamper.add(new[0])
        res.append(('mut',) + new)
    return res

def shape(rng, depth=3, width=3, nfiles=(0, 4), pkg=0.65):
    """A random library shape: list of .moc paths (each directory with or without a package file)."""
    out = []
    names = ['a', 'B', 'c1', 'Ports', 'x', 'package2', 'mypackage', 'z_z', 'Sub Dir', 'a.b', 'Größe']
    def fill(d, lvl):
        if rng.random() < pkg:
            out.append(d + 'package.moc')
        for n in rng.sample(names, rng.randint(*nfiles)):
            out.append(d + n + rng.choice(['.moc'] * 9 + ['.MOC']))
        if lvl:
            for n in rng.sample(names, rng.randint(0, width)):
                fill(d + n + '_d/', lvl - 1)
    while not out:
        fill('', depth)
    return out

SIZES = [0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 47, 48, 63, 64, 65, 191, 192, 207, 208, 209, 222, 223, 224, 225, 239, 240, 241, 254, 255, 256, 257,
         271, 272, 287, 288, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16000, 16383, 16384, 16385, 32767, 32768, 65535, 65536]
def content(rng, n, kind=None):
    kind = kind or rng.choice(['text', 'text', 'bin', 'zero', 'crlf', 'pad'])
    if kind == 'bin':
        return rng.randbytes(n)
    if kind == 'zero':
        return bytes(n)
    if kind == 'pad':
        return bytes([rng.choice([1, 16, n % 16 or 16])]) * n
    t = b'within L; model M%d "SECRETMARK%d"\r\n Real x;\n end M;\n' % (rng.randrange(10**6), rng.randrange(10**6))
    if kind == 'crlf':
        t = t.replace(b'\n', b'\r\n\x1a')
    return (t * (n // len(t) + 1))[:n]

def fuzz(rng, files, libpath):
    """A message, well formed or not."""
    f = rng.choice(files)
    words = list(WORDS) + ['FOO', 'file', '', 'FILE\0', 'ERROR', 'VERSION', 'FILE', 'FEATURE', 'LIB']
    def num():
        return rng.choice([b'0', b'1', b'5', b'-1', b'2147483647', b'2147483648', b'-2147483648', b'4294967296', b'4294967301', b'9223372036854775807',
                           b'9223372036854775808', b'18446744073709551615', b'18446744073709551621', b'99999999999999999999999999', b'1e3', b'0x10', b'+5', b'007', b'5abc', b'abc', b'%s', b'%n', b'',
                           b'-0', b'1023', b'1024', b'16384', b'1 ', b'\t5', b'-9223372036854775808'])
    kind = rng.randrange(14)
    data = rng.choice([f.encode(), libpath.encode(), b'g', b'', b'%s%n', rng.randbytes(rng.choice([1, 5, 100, 2000, 16000]))])
    w = rng.choice(words).encode()
    if kind == 0:
        return rng.randbytes(rng.choice([1, 2, 7, 16, 100, 1022, 1023, 1024, 1025, 8000, 16383, 16384]))
    if kind == 1:
        return bytes(rng.choice(b' \n\0FILE19') for _ in range(rng.choice([1, 3, 10, 50, 500])))
    if kind == 2:
        return w * rng.choice([1, 50, 1000]) + b'\n'
    if kind == 3:
        return w + b' ' + b' '.join(num() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 40, 3000]))) + rng.choice([b'\n', b'', b'\r\n', b'\0\n', b'\n\n']) + data[:3000]
    if kind == 4:
        return w + b' %d\n' % (len(data) + rng.choice([-1, 1, -len(data), 7, 1000, 16384, 10**6, 2**31, 2**32, 2**32 - len(data), 2**63 - 1])) + data
    if kind == 5:
        return w + b' %d\n' % len(data) + data
    if kind == 6:
        return w + b' %d %d\n' % (rng.randrange(-3, 12), len(data)) + data
    if kind == 7:
        m = bytearray(msg(rng.choice(['FILE', 'FEATURE', 'LIB', 'RETURNFEATURE']), data[:200]))
        for _ in range(rng.randint(1, 3)):
            m[rng.randrange(len(m))] = rng.randrange(256)
        return bytes(m)
    if kind == 8:
        m = msg(rng.choice(['FILE', 'FEATURE', 'LIB', 'LICENSE']), data)
        return m[:rng.randrange(1, len(m) + 1)]
    if kind == 9:
        return rng.choice([b' ', b'\n', b'\0', b'\t', b'\r\n']) + msg('FILE', f.encode())
    if kind == 10:
        return b'A' * rng.choice([255, 256, 1000, 1023, 1024, 2047, 2048, 4096, 9999, 16384])
    if kind == 11:
        return msg('FILE', f.encode()) + msg('FILE', f.encode())
    if kind == 12:
        return b'FILE %d\n' % len(f.encode()) + f.encode() + b'\0' * rng.choice([1, 7])
    return w + b' ' * rng.choice([1, 2, 100]) + num() + b'\n' + data[:100]
