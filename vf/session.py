"""Sessions with a real licensing executable: libraries, messages, scenarios -> traces for TraceLve."""
import os, re, shutil, subprocess, hashlib, random, traceback
from urllib.parse import quote
from . import build
from .lve import Lve, Reply, msg, WORDS, FORM

SAFE = "/ ._-:+,=()[]{}~!@$&'*"
def q(b):
    if isinstance(b, str):
        b = b.encode()
    return quote(b, safe=SAFE)

def cid(b):
    """content id"""
    return 'c%d:%s' % (len(b), hashlib.sha1(b).hexdigest()[:16])

NOENTRY = {'k': 'none', 'v': '', 'key': '', 'mask': '', 'ok': False, 'home': []}

class Lib:
    """A library made from sources {relpath: bytes} with the real encryption program."""
    def __init__(self, bindir, sources, path, dirs=(), masks=True):
        self.bin, self.src, self.path, self.masks = bindir, dict(sources), path, masks       # masks: package files carry key masks
        self.entries, self.bytes = {}, {}
        os.makedirs(path)
        alldirs = set(dirs)
        for r in sources:
            d = os.path.dirname(r)
            while d:
                alldirs.add(d)
                d = os.path.dirname(d)
        for d in sorted(alldirs):
            os.makedirs(os.path.join(path, d), exist_ok=True)
            self.entries[tuple(d.split('/'))] = dict(NOENTRY, k='dir')
        srcdir = path + '.src'
        os.makedirs(srcdir)
        enc = [r for r in sources if self.is_enc(r)]
        self.pkgdirs = {tuple(os.path.dirname(r).split('/')) if os.path.dirname(r) else ()
                        for r in enc if os.path.basename(r) == 'package.moc'}
        enc.sort(key=lambda r: (os.path.basename(r) != 'package.moc', r.count('/'), r))
        n = 0
        for r in sources:
            if r not in enc:
                with open(os.path.join(path, r), 'wb') as f:
                    f.write(sources[r])
                self.entries[tuple(r.split('/'))] = dict(NOENTRY, k='plain', v=cid(sources[r]), ok=True, home=r.split('/'))
        for r in enc:
            n += 1
            tmp = os.path.join(srcdir, 's%d.mo' % n)
            with open(tmp, 'wb') as f:
                f.write(sources[r])
            p = subprocess.run([os.path.join(bindir, 'encrypt_file'), tmp, r, path], capture_output=True,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            if p.returncode:
                raise LibError('encrypt_file failed for %s (%d): %s' % (r, p.returncode, p.stderr[-400:].decode('latin1')))
            comps = tuple(r.split('/'))
            self.entries[comps] = dict(NOENTRY, k='enc', v=cid(sources[r]), key=self.key(comps),
                                       mask=('m:' + '/'.join(comps[:-1]) if masks else 'base') if comps[-1] == 'package.moc' else '',
                                       ok=True, home=list(comps))
        shutil.rmtree(srcdir)
        for r in sources:
            with open(os.path.join(path, r), 'rb') as f:
                self.bytes[tuple(r.split('/'))] = f.read()

    @staticmethod
    def is_enc(r):
        return r.lower().endswith('.moc')
    def mask(self, d):
        while True:
            if d in self.pkgdirs:
                return 'm:' + '/'.join(d)
            if not d:
                return 'base'
            d = d[:-1]
    def key(self, comps):
        if not self.masks:
            return 'base'
        if comps[-1] == 'package.moc':
            return 'base' if len(comps) == 1 else self.mask(comps[:-2])
        return self.mask(comps[:-1])
    def fs(self):
        return [dict(e, p=list(map(q, p)), home=list(map(q, e['home']))) for p, e in self.entries.items()]

class LibError(Exception):
    pass

INT = re.compile(rb'-?(0|[1-9][0-9]*)\Z')
STARTINT = re.compile(rb'[ \t\v\f\r]*[+-]?[0-9]+')
def classify(raw, exists=lambda p: False):
    """The description of a received message (see Grammar.tla)."""
    head, nl, data = raw.partition(b'\n')
    canon = bool(nl)
    h, dt = head, data
    if not head.strip(b'\n') and nl:      # leading newlines
        stripped = raw.lstrip(b'\n')
        h2, nl2, d2 = stripped.partition(b'\n')
        # a reader may skip empty lines; the data part is still what follows the first newline
        h, canon = h2, False
    if b'\0' in h:
        h, canon = h.split(b'\0')[0], False
    toks = [t for t in h.split(b' ') if t]
    if canon and b' '.join(toks) != h:
        canon = False
    w = toks[0] if toks else b''
    a = []
    for t in toks[1:8]:
        m = STARTINT.match(t)
        if not m:
            a.append({'t': 'x', 'v': 0})
            continue
        v = int(m.group(0))
        big = not -2**31 < v < 2**31
        if big:
            a.append({'t': 'h', 'v': 1 if v > 0 else -1})
        else:
            a.append({'t': 'i' if INT.match(t) else 'l', 'v': v})
    m = {'w': q(w[:60]), 'a': a, 'dl': len(dt), 'canon': canon, 'arg': q(dt)}
    z = dt.split(b'\0')[0]
    t = z
    while len(t) > 1 and t[-1:] in b'/\\':
        t = t[:-1]
    m['trim'] = q(t)
    if b'\0' in dt:
        m['arg' if w == b'LIB' else 'argz'] = q(z) if w == b'LIB' else 1
        m.pop('argz', None)
    m['libok'] = exists(t)
    comps = z.split(b'/')
    m['seps'] = [q(c) for c in re.split(rb'[/\\]', z)]
    m['npath'] = [q(c) for c in comps if c not in (b'', b'.')]
    m['io'] = False
    m['odd'] = b'' in comps or b'.' in comps or b'\\' in dt or b'\0' in dt
    # keep the trace small where the fields are not used
    if w != b'FILE':
        m['seps'], m['npath'], m['odd'] = [], [], False
    if w not in (b'LIB', b'FEATURE', b'RETURNFEATURE'):
        m['arg'] = m['trim'] = ''
    return m

def run(sc):
    """Run scenario -> trace. sc: dict(exe, key, tls12, keys, peer, global, grant, infail, newfail, lib (Lib),
    copy (bool), steps, end). Steps: ('raw', bytes | callable(libpath)->bytes), ('mut', path, kind, arg)."""
    d = os.path.join(build.scratch(), 's', '%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        return _run(sc, d)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', d])
        shutil.rmtree(d, ignore_errors=True)

def hexlist(l):
    return ','.join('*' if f == b'*' else '_' + f.hex() for f in l)

def _run(sc, d):
    lib = sc['lib']
    path = lib.path
    if any(s[0] == 'mut' for s in sc['steps']):
        path = os.path.join(d, 'L')
        shutil.copytree(lib.path, path)
    secrets = sc.get('secrets', [])
    env = {'VF_LM_GRANT': '*' if b'*' in sc['grant'] else hexlist(sc['grant']),
           'VF_LM_IN_FAIL': '*' if b'*' in sc['infail'] else hexlist(sc['infail']),
           'VF_LM_NEW_FAIL': str(sc['newfail']), 'VF_LM_SUFFIX': sc.get('sfx', '')}
    x = {'keys': sc['keys'], 'peer': sc['peer'], 'global': sc['global'], 'grant': [q(f) for f in sc['grant']],
         'infail': [q(f) for f in sc['infail']], 'newfail': sc['newfail'], 'sfx': q(sc.get('sfx', '')), 'own': sc.get('own', False)}
    ev, log = [], []
    cur = {p: dict(e) for p, e in lib.entries.items()}
    # failing operations on the files of the library
    ctl, flog, serial = os.path.join(d, 'ctl'), os.path.join(d, 'faults'), 0
    if any(s[0] == 'io' for s in sc['steps']):
        env.update({'LD_PRELOAD': build.shim('fault'), 'VF_FAULT_CTL': ctl, 'VF_FAULT_LOG': flog, 'VF_FAULT_IN': path + '/'})
    faults = lambda: os.path.getsize(flog) if os.path.exists(flog) else 0
    l = Lve(sc['exe'], sc['key'], env=env, tls12=sc.get('tls12', False), lmlog=os.path.join(d, 'lm'), cwd=d)
    def lm():
        return [{'op': op, 'h': h, 'arg': q(b), 't': t} for op, h, t, b in l.lm()]
    ok = l.handshake()
    ev.append({'e': 'hs', 'ok': ok})
    dead = not ok
    # a mutated message may happen to name another directory than the library: what it holds is not known here
    other = False
    exists = lambda t: os.path.isdir(os.path.join(d.encode(), t)) if t else False
    def elsewhere(raw):
        t = raw.partition(b'\n')[2].split(b'\0')[0].rstrip(b'/\\')
        return raw[:20].lstrip().startswith(b'LIB') and exists(t) and not os.path.samefile(os.path.join(d.encode(), t), path)
    for st in sc['steps']:
        if st[0] == 'raw':
            raw = st[1](path) if callable(st[1]) else st[1]
            m = classify(raw, exists)
            before = faults()
            r = l.call(raw)
            other = other or elsewhere(raw)
            m['io'] = faults() > before or other
            if serial:
                with open(ctl, 'w') as f:
                    f.write('none')
            if r.c == 'FILECONT':
                dd = cid(r.data)
            else:
                dd = q(r.data) if r.c not in ('BAD',) else q(r.raw[:100])
            leak = any(sx in r.data or sx in r.raw for sx in secrets) if r.c != 'FILECONT' else False
            ev.append({'e': 'req', 'm': m, 'r': {'c': r.c, 'n': r.n, 'd': dd, 'leak': leak}, 'lm': lm()})
            log.append('%s -> %s %s %s' % (q(raw[:80]), r.c, r.n, dd[:80]))
            if r.c in ('EOF', 'NONE', 'BAD'):
                if ok or len(log) > 3:
                    break
        elif st[0] == 'io':
            serial += 1
            with open(ctl, 'w') as f:
                f.write('%s #%d' % (st[1], serial))
            log.append('failing: ' + st[1])
        elif st[0] == 'mut':
            e = mutate(lib, cur, path, st)
            ev.append(e)
            log.append('mut %s %s' % ('/'.join(st[1]), st[2:]))
    how = sc.get('end', 'notify')
    if how == 'cut':
        # the peer dies in the middle of a record
        l.send_raw(sc.get('cut', b'\x17\x03\x03\x01\x00abc'))
        how = 'eof'
    r = l.close(how)
    ev.append({'e': 'end', 'exit': r['exit'], 'san': r['san'], 'hung': r['hung'], 'extra': r['extra'], 'lm': lm()})
    log.append('end %s exit=%s san=%s hung=%s extra=%s' % (sc.get('end', 'notify'), r['exit'], r['san'], r['hung'], r['extra']))
    return {'id': sc['id'], 'name': sc.get('name', ''), 'x': x, 'fs': lib.fs(), 'ev': ev, 'log': log,
            'hang': r['hung'] or any(e['e'] == 'req' and e['r']['c'] == 'NONE' for e in ev),
            'stderr': r['stderr'][-1500:] if (r['san'] or r['exit']) else ''}

def mutate(lib, cur, path, st):
    p, kind = tuple(st[1]), st[2]
    arg = st[3] if len(st) > 3 else None
    f = os.path.join(path, *p)
    encname = p[-1].lower().endswith('.moc')
    orig = lib.entries.get(p, NOENTRY)
    cb = b''
    if os.path.isfile(f):
        with open(f, 'rb') as h:
            cb = h.read()
    if kind == 'restore':
        new, e = lib.bytes[p], dict(orig)
    elif kind == 'delete':
        if os.path.isfile(f):
            os.remove(f)
        new, e = None, dict(NOENTRY)
    elif kind == 'copy':       # another file of the library in its place
        new, e = lib.bytes[tuple(arg)], dict(lib.entries[tuple(arg)])
    else:
        if kind == 'flip':     # arg = (fraction position, bit)
            b = bytearray(cb)
            if b:
                i = min(len(b) - 1, arg[0] if isinstance(arg[0], int) else int(arg[0] * len(b)))
                b[i] ^= 1 << arg[1]
            new = bytes(b)
        elif kind == 'trunc':
            new = cb[:arg] if arg >= 0 else cb[:max(0, len(cb) + arg)]
        elif kind == 'extend':
            new = cb + arg
        elif kind == 'prepend':
            new = arg + cb
        elif kind == 'write':
            new = arg
        else:
            raise ValueError(kind)
        if encname:
            same = [pp for pp in lib.bytes if lib.bytes[pp] == new]
            if new == lib.bytes.get(p):
                e = dict(orig)
            else:
                e = dict(NOENTRY, k='enc', ok=False)
        else:
            e = dict(NOENTRY, k='plain', v=cid(new), ok=True, home=list(p))
    if new is not None:
        with open(f, 'wb') as h:
            h.write(new)
    e.pop('p', None)
    e['home'] = list(map(q, e['home']))
    cur[p] = e
    return {'e': 'mut', 'p': list(map(q, p)), 'b': e}
