"""C21: what the programs write about their work tells no secret and changes nothing."""
import os, re, base64, subprocess, shutil, random, stat
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc, pack, checks_key
from .lve import Lve, msg
from .session import Lib

# -- finding secrets, in whatever notation

def streams(d):
    """the bytes written, and the bytes written as numbers"""
    out = [d]
    s = re.sub(rb'0[xX]|\\x', b'', d)
    h = re.sub(rb'[^0-9a-zA-Z]', b'', s)
    out.append(('hex', h.lower()))
    runs = []
    for conv, rx in ((16, rb'[0-9a-fA-F]+'), (10, rb'-?[0-9]+')):
        b, last = bytearray(), 0
        for m in re.finditer(rx, s):
            t = m.group(0)
            if len(t) > 4:
                b += b'\0\xff\0'
                continue
            v = int(t, conv)
            b += bytes([v & 255]) if -128 <= v < 256 else b'\0\xff\0'
        out.append(bytes(b))
    t = re.sub(rb'[\s]', b'', d)
    out.append(('b64', t))
    out.append(d[::-1])
    return out

def b64forms(w):
    for k in range(3):
        e = base64.b64encode(b'\0' * k + w)
        yield e[(0, 2, 3)[k]:len(e) // 4 * 4 - 4]

class Finder:
    def __init__(self, secrets):
        """{term (tuple): bytes}; a piece of w bytes counts"""
        self.s = {}
        for term, b in secrets.items():
            w = 8 if term[0] in ('base', 'mask', 'key') else 14
            if len(b) < w:
                continue
            step = 1 if len(b) < 200 else w
            ps = {b[i:i + w] for i in range(0, len(b) - w + 1, step)}
            self.s[term] = (ps, {p.hex().encode() for p in ps}, {e for p in (ps if w == 8 else set()) for e in b64forms(p) if len(e) >= 8})
    def __call__(self, *data):
        found = set()
        for d in data:
            if not d:
                continue
            st = streams(d) if len(d) < 1 << 18 else [d]
            for term, (ps, hx, b6) in self.s.items():
                if term in found:
                    continue
                for x in st:
                    if isinstance(x, tuple):
                        c = hx if x[0] == 'hex' else b6
                        x = x[1]
                    else:
                        c = ps
                    if any(p in x for p in c):
                        found.add(term)
                        break
        return [list(t) for t in sorted(found)]

# -- the secrets of a build and of a library

def basekey(b):
    """the key in the programs of a build, or None when it cannot be told"""
    for d, ds, fs in os.walk(b):
        if 'random_key_file.h' in fs:
            t = os.path.join(build.scratch(), 'ev-' + os.path.basename(b))
            os.makedirs(t, exist_ok=True)
            r = checks_key.evaluate([(os.path.join(d, 'random_key_file.h'), 'MLLE_CR_KEY')], t)
            if r:
                return bytes(r[0][2])[:32]
    return None

def aes(key, blob):
    """the payload of an encrypted file (text and what follows it), or None"""
    p = subprocess.run(['openssl', 'enc', '-d', '-aes-256-cbc', '-K', key.hex(), '-iv', blob[:16].hex()], input=blob[16:-32], capture_output=True)
    return p.stdout if p.returncode == 0 else None

def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))

def masks(base, blobs):
    """terms of the masks and keys of a library {path: encrypted bytes}"""
    out = {}
    if base is None:
        return out
    out[('base',)] = base
    eff = {}
    for p in sorted((p for p in blobs if p[-1] == 'package.moc'), key=len):
        d = p[:-1]
        k = base
        for n in range(len(d) - 1, -1, -1):
            if d[:n] in eff:
                k = eff[d[:n]]
                break
        t = aes(k, blobs[p]) if len(blobs[p]) > 80 else None
        if t is None or len(t) < 32:
            return out
        name = '/'.join(d) or '.'
        out[('mask', name)] = t[-32:]
        eff[d] = xor(base, t[-32:])
        out[('key', name)] = eff[d]
    return out

def pems():
    """texts of private keys"""
    out = {}
    for f in sorted(os.listdir(build.KEYS)):
        if f.endswith('.pem') and not f.endswith('.pub.pem'):
            t = open(os.path.join(build.KEYS, f), 'rb').read()
            body = b''.join(l for l in t.splitlines() if not l.startswith(b'-'))
            if len(body) > 100:
                out[f] = body[40:]       # after what all keys begin with
    return out

def word(rng, n):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(n))

def model(rng, n):
    """-> (text of a model file, the part of it that is secret)"""
    s = word(rng, n)
    return ('within L;\nmodel m\n  "%s"\nend m;\n' % s).encode(), s.encode()

def filerec(p, pkgs):
    d = p[:-2] if p[-1] == 'package.moc' else p[:-1]
    if p[-1] == 'package.moc' and len(p) == 1:
        own = ''
    else:
        own = ''
        for n in range(len(d), -1, -1):
            if d[:n] in pkgs:
                own = '/'.join(d[:n]) or '.'
                break
    return {'f': '/'.join(p), 'd': own, 'pkg': ('/'.join(p[:-1]) or '.') if p[-1] == 'package.moc' else ''}

class World:
    """a library and its secrets"""
    def __init__(self, b, base, rng, paths, i):
        self.b, self.path = b, os.path.join(build.scratch(), 'D%d' % i)
        src, self.secrets = {}, {}
        for p in paths:
            if p.endswith('.moc'):
                src[p], s = model(rng, rng.choice([20, 60, 300, 3000]))
                self.secrets[('text', p)] = s
            else:
                src[p] = b'a plain resource\n' * 5
        self.lib = Lib(b, src, self.path)
        self.src = src
        self.secrets.update(masks(base, {p: x for p, x in self.lib.bytes.items() if p[-1].endswith('.moc')}))
        for f, t in pems().items():
            self.secrets[('private', f)] = t
        pkgs = {tuple(p.split('/')[:-1]) for p in paths if p.split('/')[-1] == 'package.moc'}
        self.files = [filerec(tuple(p.split('/')), pkgs) for p in paths if p.endswith('.moc')]
        self.find = Finder(self.secrets)
        self.known = sum(1 for t in self.secrets if t[0] in ('base', 'mask', 'key'))

# -- runs

# a device that is always full, where there is one; named only to programs of a user who cannot replace it
FULL = '/dev/full'
HAVE = os.path.exists(FULL) and stat.S_ISCHR(os.stat(FULL).st_mode)
LOGS = ['file', 'file', 'file', 'new', 'dir', 'missing', 'empty', 'null', 'closed'] + (['full', 'errfull'] if HAVE else [])
UID = 64999

def talk(w, sc, d, how):
    """one session -> (replies, license manager calls, exit, what was written)"""
    env = {'VF_LM_GRANT': '_' + b'g'.hex(), 'VF_LM_IN_FAIL': '_' + b'r'.hex()}
    log = os.path.join(d, 'log')
    to = {None: None, 'file': log, 'new': log, 'dir': d, 'missing': os.path.join(d, 'no', 'log'), 'full': FULL, 'empty': '', 'null': '/dev/null', 'closed': log, 'errfull': log}[how]
    if to is not None:
        env['SEMLA_LVE_LOG_FILE'] = to
    if how == 'file':
        with open(log, 'w') as f:
            f.write('what was there before')
    lm = os.path.join(d, 'lm')
    exe = os.path.join(sc['bin'], build.LVE)
    if how in ('closed', 'errfull'):
        sh = os.path.join(d, 'start')
        with open(sh, 'w') as f:
            f.write('#!/bin/sh\nexec %s %s\n' % (exe, '2>&-' if how == 'closed' else '2>' + FULL))
        os.chmod(sh, 0o755)
        exe = sh
    open(lm, 'w').close()
    os.chmod(lm, 0o666)
    l = Lve(exe, sc['key'], env=env, lmlog=lm, cwd=d, tls12=sc.get('tls12', False), uid=UID if how == 'full' else None)
    out, said, calls = [], [], []
    path = sc['path'](d) if sc.get('path') else w.path
    if l.handshake():
        for m in sc['steps']:
            r = l.call(m(path) if callable(m) else m)
            out.append((r.c, r.n, r.data, r.raw))
            if r.c != 'FILECONT' or sc['key'] != 'tool0':
                said += [r.data, r.raw]
            if r.c in ('EOF', 'NONE', 'BAD'):
                break
    calls = l.lm()
    r = l.close(sc.get('end', 'notify'))
    said.append(r['stderr'].encode('latin1'))
    if os.path.isfile(log):
        with open(log, 'rb') as f:
            said.append(f.read())
        os.unlink(log)
    return out, calls, (r['exit'], r['hung'], r['san'], r['extra']), said

def session(sc):
    w = sc['w']
    d = os.path.join(build.scratch(), 'd%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        if sc.get('damage'):
            shutil.copytree(w.path, os.path.join(d, 'L'))
            for p, f in sc['damage']:
                x = os.path.join(d, 'L', *p)
                b = open(x, 'rb').read()
                i = int(f * len(b))
                with open(x, 'wb') as h:
                    h.write(b[:i] + bytes([b[i] ^ 4]) + b[i + 1:])
            sc = dict(sc, path=lambda d: os.path.join(d, 'L'))
        plain = talk(w, sc, d, None)
        ev, log = [], []
        found = w.find(*plain[3])
        ev.append({'found': found, 'same': True})
        for how in sc['logs']:
            x = talk(w, sc, d, how)
            same = x[:3] == plain[:3]
            ev.append({'found': w.find(*x[3]), 'same': same})
            log.append('session of %d requests, log to %s: %d bytes written, found %s, same %s' % (len(sc['steps']), how, sum(map(len, x[3])), ev[-1]['found'], same))
            if not same:
                log.append('%s / %s' % ([(r[:2], r[2][:80]) for r in x[0]] + [x[2]], [(r[:2], r[2][:80]) for r in plain[0]] + [plain[2]]))
        return {'id': sc['id'], 'name': sc['name'], 'files': w.files, 'ev': ev, 'log': log, 'hang': plain[2][1], 'stderr': ''}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def programs(sc):
    """encrypt and decrypt a library with the stand-alone programs"""
    w, rng = sc['w'], random.Random(sc['seed'])
    d = os.path.join(build.scratch(), 'd%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(os.path.join(d, 'L'))
    ev, log, blobs = [], [], {}
    try:
        def go(exe, args, how):
            kw = dict(stdin=subprocess.DEVNULL, cwd=d)
            cmd = [os.path.join(sc['bin'], exe)] + args
            if how == 'seen':
                p = subprocess.run(cmd, capture_output=True, timeout=60, **kw)
                return p.returncode, p.stdout + p.stderr
            red = {'full': '>%s 2>%s' % (FULL, FULL), 'closed': '2>&-'}[how if HAVE else 'closed']
            p = subprocess.run(['sh', '-c', 'exec "$@" ' + red, 'sh'] + cmd, timeout=60, **kw)
            return p.returncode, b''
        ps = sorted((p for p in w.src if p.endswith('.moc')), key=lambda p: (not p.endswith('package.moc'), p.count('/'), p))
        for p in ps:
            os.makedirs(os.path.join(d, 'L', os.path.dirname(p)), exist_ok=True)
            s = os.path.join(d, 's.mo')
            with open(s, 'wb') as f:
                f.write(w.src[p])
            how = rng.choice(['seen', 'seen', 'full', 'closed'])
            rc, said = go("encrypt_file", [s, p, os.path.join(d, 'L')], how)
            o = os.path.join(d, 'L', p)
            b = open(o, 'rb').read() if os.path.isfile(o) else b''
            blobs[p] = b
            rc2, said2 = go('decrypt_file', [os.path.join(d, 'L'), p, os.path.join(d, 'o')], rng.choice(['seen', 'seen', 'full', 'closed']))
            same = rc == 0 and rc2 == 0 and open(os.path.join(d, 'o'), 'rb').read() == w.src[p]
            ev.append(dict(same=same, said=[said, said2]))
            log.append('encrypt and decrypt %s (%s): %d and %d bytes said' % (p, how, len(said), len(said2)))
        # what does not work
        for p in rng.sample(ps, min(2, len(ps))):
            o = os.path.join(d, 'L', p)
            b = open(o, 'rb').read()
            with open(o, 'wb') as f:
                f.write(b[:-1] + bytes([b[-1] ^ 1]))
            rc, said = go('decrypt_file', [os.path.join(d, 'L'), p, os.path.join(d, 'o')], 'seen')
            rc2, said2 = go('encrypt_file', [os.path.join(d, 's.mo'), os.path.join(os.path.dirname(p), 'q.moc'), os.path.join(d, 'L')], 'seen')
            rc3, said3 = go('decrypt_file', [os.path.join(d, 'L'), p + 'x', os.path.join(d, 'o')], 'seen')
            rc4, said4 = go('encrypt_file', [os.path.join(d, 's.mo'), p, os.path.join(d, 'nowhere')], 'seen')
            with open(o, 'wb') as f:
                f.write(b)
            ev.append(dict(same=rc != 0, said=[said, said2, said3, said4]))
        sec = {t: x for t, x in w.secrets.items() if t[0] in ('text', 'private')}
        sec.update(masks(w.secrets.get(('base',)), {tuple(p.split('/')): b for p, b in blobs.items()}))
        find = Finder(sec)
        for e in ev:
            e['found'] = find(*e.pop('said'))
        ev.append({'found': find(*blobs.values()), 'same': True})
        return {'id': sc['id'], 'name': sc['name'], 'files': w.files, 'ev': ev, 'log': log, 'stderr': ''}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def packed(sc):
    """package a library: what the program says, and the container"""
    res = {}
    def scan(said, names, got):
        blobs = {p: b for p, b in got if p[-1] == 'package.moc' or p[-1].endswith('.moc')}
        sec = dict(sc['secrets'])
        sec.update(masks(sc['base'], blobs))
        find = Finder(sec)
        res['found'] = find(*said)
        res['inside'] = find(*[b for p, b in got if p[0] != '.library' or p[-1] == 'manifest.xml'])
    t = pack.run(dict(sc, scan=scan, files={}))
    e = t['ev'][0]
    ev = [{'found': res.get('found', []), 'same': (e['exit'] == 0) == sc['works']}, {'found': res.get('inside', []), 'same': True}]
    return {'id': sc['id'], 'name': sc['name'], 'files': sc['files'], 'ev': ev, 'log': t['log'], 'stderr': t['stderr']}

def made(sc):
    """keys through obfuscate and randomize_key: nothing of them on the output"""
    d = os.path.join(build.scratch(), 'd%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        ev, log = [], []
        for f, body in pems().items():
            find = Finder({('private', f): body})
            for out in (os.path.join(d, 'h.h'), os.path.join(d, 'no', 'h.h'), d):
                for kind in ('LVE_PRIVATE', 'TOOL_PRIVATE', 'NOSUCH'):
                    p = subprocess.run([os.path.join(sc['bin'], 'obfuscate'), out, os.path.join(build.KEYS, f), 'K', kind], capture_output=True, stdin=subprocess.DEVNULL, timeout=60)
                    ev.append({'found': find(p.stdout, p.stderr), 'same': True})
        for n in range(6):
            h = os.path.join(d, 'r%d.h' % n)
            p = subprocess.run([os.path.join(sc['bin'], 'randomize_key'), h, 'R%d' % n], capture_output=True, stdin=subprocess.DEVNULL, timeout=60)
            r = checks_key.evaluate([(h, 'R%d' % n)], d) if os.path.exists(h) else {}
            find = Finder({('base',): bytes(r[0][2])[:32]} if r else {})
            ev.append({'found': find(p.stdout, p.stderr), 'same': True})
        log.append('%d keys made' % len(ev))
        return {'id': sc['id'], 'name': sc['name'], 'files': [], 'ev': ev, 'log': log, 'stderr': ''}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tool(sc):
    """the tool library with the real executable and with what is none: its messages"""
    w = sc['w']
    d = os.path.join(build.scratch(), 'd%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        log = os.path.join(d, 'log')
        env = {k: v for k, v in os.environ.items() if not k.startswith('SEMLA')}
        env.update(SEMLA_LVE_LOG_FILE=log, VF_LM_GRANT='_67')
        p = subprocess.run([os.path.join(sc['bin'], 'vf_tool')], input=''.join(x + '\n' for x in sc['cmds']).encode(), capture_output=True, env=env, cwd=d, timeout=120)
        said = []
        for ln in p.stdout.splitlines():
            m = re.search(rb'\[([0-9a-f]*)\]', ln)
            if m:
                said.append(bytes.fromhex(m.group(1).decode()))
        said.append(p.stderr)
        if os.path.isfile(log):
            said.append(open(log, 'rb').read())
        return {'id': sc['id'], 'name': sc['name'], 'files': w.files, 'ev': [{'found': w.find(*said), 'same': p.returncode == 0}], 'log': ['tool session, %d messages' % len(said)], 'stderr': ''}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def anyrun(sc):
    return sc['run'](sc)

def sig(tr, info):
    return '%s found=%s same=%s' % (tr.get('name'), tr['ev'][info['l'] - 1]['found'], tr['ev'][info['l'] - 1]['same']) if info.get('l') else ''

def corrupt(tr, rng):
    e = rng.choice(tr['ev'])
    if rng.random() < .3:
        e['same'] = False
    elif tr['files'] and rng.random() < .5:
        e['found'] = [['key', tr['files'][0]['d']]] if tr['files'][0]['d'] else [['base']]
    else:
        e['found'] = [['private', 'x']]
    return tr

SHAPES = [['package.moc', 'a.moc', 'sub/package.moc', 'sub/x.moc', 'r.txt'],
          ['a.moc', 'sub/package.moc', 'sub/deep/package.moc', 'sub/deep/y.moc'],
          ['package.moc', 's/t/u/v.moc', 's/t/w.moc'],
          ['a.moc', 'b.moc', 'd/c.moc']]

def c21(check):
    rng = check.rng
    os.chmod(build.scratch(), 0o711); build.keydir()
    T = (build.LVE, 'encrypt_file', 'decrypt_file', 'packagetool', 'vf_tool', 'obfuscate', 'randomize_key')
    rel = ('-DCMAKE_BUILD_TYPE=RelWithDebInfo',)
    bs = {'plain': {}, 'release': dict(defs=rel)}
    if check.thorough:
        bs['asan'] = dict(asan=True)
        bs['global'] = dict(global_feature='vf_library_wide')
    with ThreadPoolExecutor(4) as ex:
        b = dict(ex.map(lambda nv: (nv[0], build.build('d' + nv[0], T, **nv[1])), bs.items()))
    check.log('built', *b)
    check.model('MCDisclosure')
    r = tlc.run('MCDisclosure', 'MCDisclosureTalk.cfg')
    if 'NothingRevealed' not in r['violated']:
        raise tlc.TlcError('a talkative build reveals nothing?\n' + r['out'][-2000:])
    keys = {n: basekey(x) for n, x in b.items()}
    check.cover('builds whose key is known', sum(1 for k in keys.values() if k))
    scs = []
    def add(**kw):
        scs.append(dict(kw, id=len(scs) + 1))
    V, bad = msg('VERSION', n=1), [b'FILE\n', b'NOSUCH 3\nabc', b'FILE 9999999\nx', b'\0\0\0', b'FILE -1\n', b'VERSION 1\n', b'LIB 1\n/', b'A' * 5000, b'FEATURE 3\n%s%n', b'FILE 8\n%s%s%n%x']
    i = 0
    for n in b:
        for shape in SHAPES:
            i += 1
            w = World(b[n], keys[n], rng, shape, i)
            check.cover('secrets looked for', len(w.secrets))
            LIB = lambda p: msg('LIB', p.encode())
            files = [p for p in shape]
            odd = ['nofile.moc', 'sub', 'sub/nofile.moc', '../x.moc', '/etc/passwd', 'x' * 3000 + '.moc', 'package.moc/x.moc', '%s%n.moc', 'sub/../a.moc', '']
            for k in range(check.n(24, 150)):
                st = [V, LIB]
                if rng.random() < .2:
                    st = [V] if rng.random() < .5 else [LIB]
                for _ in range(rng.choice([4, 8, 16])):
                    z = rng.random()
                    if z < .55:
                        st.append(msg('FILE', rng.choice(files).encode()))
                    elif z < .7:
                        st.append(msg('FILE', rng.choice(odd).encode()))
                    elif z < .8:
                        st.append(rng.choice(bad))
                    else:
                        st.append(msg(rng.choice(['FEATURE', 'RETURNFEATURE', 'LICENSE', 'RETURNLICENSE']), rng.choice([b'g', b'r', b'other'])))
                key = rng.choice(['tool0', 'tool0', 'tool0', 'other', None]) if k else 'tool0'
                dm = []
                if rng.random() < .4:
                    dm = [(tuple(p.split('/')), rng.random()) for p in rng.sample([p for p in shape if p.endswith('.moc')], rng.choice([1, 2]))]
                add(run=session, w=w, bin=b[n], key=key, steps=st, logs=rng.sample(LOGS, check.n(3, 5)) if k else ['file', 'closed'], damage=dm, name='session %s %d' % (n, k),
                    end=rng.choice(['notify', 'eof']), tls12=rng.random() < .3)
            for k in range(check.n(6, 40)):
                add(run=programs, w=w, bin=b[n], seed=rng.random(), name='programs %s' % n)
            hx = lambda s: s.encode().hex() or '-'
            for lve in (os.path.join(b[n], build.LVE), '/bin/true', '/bin/cat', os.path.join(build.scratch(), 'nothing')):
                c = ['start ' + hx(lve), 'version 1 1', 'lib ' + hx(w.path)] + ['file 0 ' + hx(p) for p in files + odd[:4]] + ['feature 67', 'feature 68', 'quit']
                add(run=tool, w=w, bin=b[n], cmds=c, name='tool %s' % n)
        for k in range(check.n(12, 100)):
            src, sec, pk = {}, {}, []
            for p in rng.choice(SHAPES):
                q = tuple(p.split('/'))
                if p.endswith('.moc'):
                    t, s = model(rng, rng.choice([20, 60, 300, 3000]))
                    src[q[:-1] + (q[-1][:-1],)] = (t, 0o644)
                    sec[('text', p)] = s
                    pk.append(p)
                else:
                    src[q] = (b'a plain resource\n' * 5, 0o644)
            for f, t in pems().items():
                sec[('private', f)] = t
            pkgs = {tuple(p.split('/')[:-1]) for p in pk if p.split('/')[-1] == 'package.moc'}
            works = rng.random() < .7
            args = ['-librarypath', '@R/src/Lib', '-encrypt', 'true', '-language', '3.2', '-version', '1.0']
            if not works:
                args = rng.choice([args + ['-icon', 'none.png'], args + ['-tools', '@R/f/none'], args[:2] + ['-nosuch', '1'] + args[2:]])
            add(run=packed, bin=b[n], base=keys[n], secrets=sec, files=[filerec(tuple(p.split('/')), pkgs) for p in pk], lib='Lib', src=src, works=works,
                lves={'lve_linux64': (b'#!/bin/sh\n', 0o755)}, args=args, name='package %s' % n)
        add(run=made, bin=b[n], name='keys %s' % n)
    check.cover('runs', len(scs))
    check.conform('TraceDisclosure', scs, anyrun, sig, corrupt)

ALL = {'C21': c21}
