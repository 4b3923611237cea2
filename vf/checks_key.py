"""C16: keys made part of the programs."""
import os, re, json, subprocess, shutil, resource, signal, base64
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc
from .lve import Lve, msg
KINDS = ('TOOL_PUBLIC', 'TOOL_PRIVATE', 'LVE_PRIVATE')
SAN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1')

PROG = '''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
%s
%s
int main(void) { %s return 0; }
'''
FUN = '''static void f%(i)d(void) {
  DECLARE_%(n)s(); size_t i, z = 1, len = (size_t)(%(n)s_LEN); unsigned char* p = (unsigned char*)%(n)s;
  memset(p, 170, len + 1);
  INITIALIZE_%(n)s();
  printf("%(i)d %%zu %%u ", len, (unsigned)p[len]);
  for (i = 0; i < len; i++) printf("%%02x", (unsigned)p[i]);
  CLEAR_%(n)s();
  for (i = 0; i < len; i++) if (p[i]) z = 0;
  printf(" %%zu\\n", z);
}
'''
def evaluate(headers, d, flags=('-O0',)):
    """[(path, name)] -> {i: (len, term, bytes, cleared)}; headers that do not compile or run are left out"""
    out = {}
    def go(idx):
        src = os.path.join(d, 'p%d_%d.c' % (idx[0], len(idx)))
        with open(src, 'w') as f:
            f.write(PROG % ('\n'.join('#include "%s"' % headers[i][0] for i in idx), '\n'.join(FUN % {'i': i, 'n': headers[i][1]} for i in idx),
                            ' '.join('f%d();' % i for i in idx)))
        exe = src[:-2]
        ok = subprocess.run(['gcc', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', *flags, '-o', exe, src], capture_output=True).returncode == 0
        if ok:
            p = subprocess.run([exe], capture_output=True, text=True, env=SAN)
            ok = p.returncode == 0
        if not ok:
            if len(idx) > 1:
                for i in idx:
                    go([i])
            return
        for ln in p.stdout.splitlines():
            i, n, term, h, z = ln.split(' ')
            out[int(i)] = (int(n), int(term), list(bytes.fromhex(h)), z == '1')
    idx = list(range(len(headers)))
    if idx:
        go(idx)
    return out

def shown(secret, text, w=12):
    return len(secret) >= w and any(secret[i:i + w] in text for i in range(len(secret) - w + 1))

def limited(limit):
    def pre():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return pre

def run(sc):
    """sc: bin, shim, items. An item: kind, given (bytes), secret, and what is wrong with it: args (list), infile, out, limit, ret"""
    d = os.path.join(build.scratch(), 'key%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    ev, log, heads = [], [], []
    try:
        for i, it in enumerate(sc['items']):
            name = it.get('name') or 'K%d_%s' % (i, it['kind'])
            inf, out = os.path.join(d, 'i%d.pem' % i), os.path.join(d, 'o%d.h' % i)
            readable, writable, args_ok, rnd = True, True, True, True
            with open(inf, 'wb') as f:
                f.write(it['given'])
            bad = it.get('bad')
            if bad == 'missing':
                os.unlink(inf)
                readable = False
            elif bad == 'dir':
                os.unlink(inf)
                os.mkdir(inf)
                readable = False
            elif bad == 'empty' or not it['given']:
                open(inf, 'wb').close()
                readable = False
            elif bad == 'nodir':
                out = os.path.join(d, 'no', 'o.h')
                writable = False
            elif bad == 'outdir':
                out = os.path.join(d, 'od%d' % i)
                os.mkdir(out)
                writable = False
            elif bad == 'full':
                writable = False
            env = dict(os.environ, LC_ALL=sc.get('loc', 'C.UTF-8'))
            if it['kind'] == 'random':
                a = [out, name]
                exe = 'randomize_key'
                rl = os.path.join(d, 'r%d' % i)
                env.update(LD_PRELOAD=sc['shim'], VF_RAND=inf, VF_RAND_LOG=rl)
                if bad == 'fail':
                    env['VF_RAND_RET'] = str(it['ret'])
                    rnd = False
                readable = True
            else:
                a = [out, inf, name, it['kind']]
                exe = 'obfuscate'
            if bad == 'args':
                a = it['args'](a)
                args_ok = False
            limit = None
            if bad == 'full':        # a part of what the header takes
                subprocess.run([os.path.join(sc['bin'], exe)] + a, stdin=subprocess.DEVNULL, capture_output=True, env=env, cwd=d, timeout=60)
                if os.path.isfile(out):
                    limit = int(it['limit'] * os.path.getsize(out))
                    os.unlink(out)
                else:
                    limit = 0
            p = subprocess.run([os.path.join(sc['bin'], exe)] + a, stdin=subprocess.DEVNULL, capture_output=True, env=env, cwd=d,
                               preexec_fn=limited(limit), restore_signals=False, timeout=60)
            if limit is not None and it['kind'] == 'random' and os.path.exists(rl):
                os.unlink(rl)
            known, given = True, it['given']
            if it['kind'] == 'random':
                if os.path.exists(rl):
                    given = given[:sum(map(int, open(rl).read().split()))]
                else:                         # the random source is another one: its bytes are not known
                    known, rnd = False, True
            made = os.path.isfile(out)
            e = {'e': 'embed', 'kind': it['kind'], 'args': args_ok, 'readable': readable, 'writable': writable, 'random': rnd, 'known': known,
                 'exit': p.returncode if p.returncode >= 0 else -1, 'made': made, 'given': list(given), 'len': 0, 'term': 0, 'rec': [], 'cleared': False, 'shown': False}
            if bad == 'fail' and not known:   # nothing failed then
                e['random'] = True
            if made and args_ok and readable and writable and e['random']:
                heads.append((out, name, e))
                if it.get('secret'):
                    e['shown'] = shown(bytes(given), open(out, 'rb').read(), 8 if it['kind'] == 'random' else 12)
            ev.append(e)
            log.append('%s %s %s %d bytes -> %d made=%s' % (exe, it['kind'], bad, len(it['given']), p.returncode, made))
        res = evaluate([(o, n) for o, n, _ in heads], d, sc.get('flags', ('-O0',)))
        for j, (o, n, e) in enumerate(heads):
            if j in res:
                e['len'], e['term'], e['rec'], e['cleared'] = res[j]
            else:
                e['made'] = False
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': log, 'stderr': ''}

def sig(tr, info):
    e = tr['ev'][info['l'] - 1] if info.get('l') else None
    if not e:
        return ''
    if e['e'] == 'embed':
        return '%s of %d bytes args=%s readable=%s writable=%s random=%s -> exit %s made=%s len=%s term=%s cleared=%s shown=%s %s' % (
            e['kind'], len(e['given']), e['args'], e['readable'], e['writable'], e['random'], e['exit'], e['made'], e['len'], e['term'], e['cleared'], e['shown'],
            [(i, a, b) for i, (a, b) in enumerate(zip(e['given'], e['rec'])) if a != b][:5])
    return json.dumps(e)[:300]

def corrupt(tr, rng):
    c = [e for e in tr['ev'] if e['e'] != 'embed' or e['rec']]
    if not c:
        return None
    e = rng.choice(c)
    if e['e'] == 'embed':
        i = rng.randrange(len(e['rec']))
        if not e['known']:
            return None
        e['rec'][i] ^= 1 << rng.randrange(8)
    elif e['e'] == 'build':
        if not e['from']:
            return None
        e['key'][rng.randrange(32)] ^= 1
    elif e['e'] == 'fresh':
        e['keys'][0] = e['keys'][-1]
    elif e['e'] == 'read':
        e['ok'] = not e['ok']
        e['got'] = e['ok']
    elif e['e'] == 'login':
        e['accepted'] = not e['accepted']
    return tr

def pem(rng, n, crlf=False, label='PRIVATE KEY'):
    b = base64.b64encode(bytes(rng.randrange(256) for _ in range(n)))
    nl = b'\r\n' if crlf else b'\n'
    return b'-----BEGIN %s-----' % label.encode() + nl + b''.join(b[i:i + 64] + nl for i in range(0, len(b), 64)) + b'-----END %s-----' % label.encode() + nl

def read_lve(bld, lib, rel, key='tool0'):
    """-> bytes or None"""
    s = Lve(os.path.join(bld, build.LVE), key)
    try:
        if not s.handshake():
            return None
        s.call(msg('VERSION', n=1))
        s.call(msg('LIB', lib.encode()))
        r = s.call(msg('FILE', rel.encode()))
        return r.data if r.c == 'FILECONT' else None
    finally:
        s.close()

def builds(sc):
    """Files between builds. sc: builds [(name, dir, from)], pairs, content, how"""
    d = os.path.join(build.scratch(), 'kb%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    ev, log = [], []
    try:
        heads = [(os.path.join(b, 'random_key_file.h'), 'MLLE_CR_KEY', n) for n, b, f in sc['builds']]
        for (n, b, f), (h, v, _) in zip(sc['builds'], heads):
            r = evaluate([(h, v)], d).get(0)
            ev.append({'e': 'build', 'b': n, 'from': f, 'key': r[2] if r else []})
        bd = {n: b for n, b, f in sc['builds']}
        for a in {x for x, y in sc['pairs']}:
            for r, c in sc['content'].items():
                os.makedirs(os.path.join(d, a, os.path.dirname(r)), exist_ok=True)
                src = os.path.join(d, 'src.mo')
                with open(src, 'wb') as f:
                    f.write(c)
                p = subprocess.run([os.path.join(bd[a], 'encrypt_file'), src, r, os.path.join(d, a)], capture_output=True, env=SAN)
                if p.returncode:
                    ev.append({'e': 'read', 'b': a, 'to': a, 'ok': False, 'got': False})     # does not even encrypt for itself
                    log.append('%s cannot encrypt %s: %r' % (a, r, p.stderr[-200:]))
        for a, c in sc['pairs']:
            for r, want in sc['content'].items():
                out = os.path.join(d, 'out')
                p = subprocess.run([os.path.join(bd[c], 'decrypt_file'), os.path.join(d, a), r, out], capture_output=True, timeout=60, env=SAN)
                got = p.returncode == 0 and os.path.exists(out) and open(out, 'rb').read() == want
                ev.append({'e': 'read', 'b': a, 'to': c, 'ok': p.returncode == 0, 'got': got})
                if os.path.exists(out):
                    os.unlink(out)
                if os.path.exists(os.path.join(bd[c], build.LVE)):
                    x = read_lve(bd[c], os.path.join(d, a), r)
                    ev.append({'e': 'read', 'b': a, 'to': c, 'ok': x is not None, 'got': x == want})
                log.append('%s of %s read by %s -> %s' % (r, a, c, p.returncode))
        for n, k, trusted in sc.get('logins', ()):
            a = sc['pairs'][0][0]
            r, want = next(iter(sc['content'].items()))
            x = read_lve(bd[n], os.path.join(d, n), r, k)
            ev.append({'e': 'login', 'b': n, 'tool': k, 'trusted': list(trusted), 'accepted': x == want})
            log.append('%s logs in at %s -> %s' % (k, n, x == want))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': log, 'stderr': ''}

def fresh(sc):
    d = os.path.join(build.scratch(), 'kf%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        hs = []
        for i in range(sc['count']):
            h = os.path.join(d, 'h%d.h' % i)
            subprocess.run([os.path.join(sc['bin'], 'randomize_key'), h, 'R%d' % i], capture_output=True, timeout=60)
            if os.path.exists(h):
                hs.append((h, 'R%d' % i))
        r = evaluate(hs, d)
        keys = [r[i][2] for i in sorted(r)]
        if len(keys) != sc['count']:
            keys = keys + [[0] * 32] * 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'id': sc['id'], 'name': 'fresh keys', 'ev': [{'e': 'fresh', 'keys': [k if len(k) == 32 else [0] * 32 for k in keys]}], 'log': ['%d keys' % sc['count']], 'stderr': ''}

def anyrun(sc):
    return sc['run'](sc)

def crlf_keys(d):
    n = d + '-crlf'
    shutil.copytree(d, n)
    for f in os.listdir(n):
        if f.endswith('.pem'):
            p = os.path.join(n, f)
            b = open(p, 'rb').read()
            with open(p, 'wb') as h:
                h.write(b.replace(b'\n', b'\r\n'))
    return n

def c16(check):
    rng = check.rng
    build.scratch()
    kd = build.keydir()
    crlf = crlf_keys(kd)
    T = (build.LVE, 'encrypt_file', 'decrypt_file', 'obfuscate', 'randomize_key')
    first = {'a': {}, 'asan': dict(asan=True), 'crlf': dict(keys=crlf)}
    with ThreadPoolExecutor(3) as ex:
        b = dict(ex.map(lambda nv: (nv[0], build.build('k' + nv[0], T, **nv[1])), first.items()))
    check.log('built', *b)
    shim = os.path.join(build.scratch(), 'rand.so')
    subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-o', shim, os.path.join(build.VERIF, 'harness', 'shim', 'rand.c')], check=True)
    check.model('MCKeyEmbed', 'MCKeyEmbedDeep.cfg' if check.thorough else None)
    r = tlc.must_hold('MCKeyEmbed', 'MCKeyEmbedGraph.cfg', workers=1)
    small = [(v['kind'], bytes(v['given'])) for v in tlc.prints(r['out']) if v.get('key')]
    if len(small) < 300:
        raise tlc.TlcError('no keys:\n' + r['out'][-1500:])
    items = []
    def add(kind, given, **kw):
        items.append(dict(kind=kind, given=given, **kw))
    for kind, g in small:      # the model's keys
        if kind == 'random':
            off = rng.randrange(32)
            add(kind, (g * 64)[off:off + 32] if rng.random() < .5 else bytes(rng.randrange(256) for _ in range(16)) + (g * 16)[:16])
        else:
            add(rng.choice(KINDS), g)
    for v in range(256):       # every byte value, alone, in a row, at the ends, before a hexadecimal digit
        for kind in KINDS:
            add(kind, bytes([v]) if kind == KINDS[v % 3] else bytes([65, v, 66]) if kind == KINDS[(v + 1) % 3] else b'x' + bytes([v]) * (1 + v % 7) + b'1')
        add('random', bytes([v] * 32))
        k = bytearray(rng.randrange(256) for _ in range(32))
        k[v % 32] = v
        k[31 - v // 8] = v
        add('random', bytes(k))
    add('random', bytes(range(32)))
    for o in range(0, 256, 16):
        add('random', bytes((o + i) % 256 for i in range(32)))
    for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, 1000, 4095, 4096, 4097] + [rng.randrange(1, 3000) for _ in range(check.n(30, 400))]:
        add(rng.choice(KINDS), bytes(rng.randrange(256) for _ in range(n)))
        add(rng.choice(KINDS), bytes(rng.choice(b'\r\n\0a\xff') for _ in range(n)))
    for n in (1, 10, 48, 100, 400, 1200, 2400):
        for c in (False, True):
            for kind in KINDS:
                add(kind, pem(rng, n, c, 'PUBLIC KEY' if kind == 'TOOL_PUBLIC' else 'PRIVATE KEY'), secret=True)
    for f in sorted(os.listdir(build.KEYS)):
        if f.endswith('.pem'):
            k = open(os.path.join(build.KEYS, f), 'rb').read()
            for g in (k, k.replace(b'\n', b'\r\n'), k.rstrip(b'\n'), k.replace(b'\n', b'\r\n', 3), k + b'\n\n'):
                add('TOOL_PUBLIC' if '.pub.' in f else rng.choice(KINDS[1:]), g, secret=True)
    for _ in range(check.n(120, 3000)):
        add('random', bytes(rng.randrange(256) for _ in range(32)), secret=True)
        k = bytearray(rng.randrange(256) for _ in range(32))
        for _ in range(rng.randrange(1, 8)):
            k[rng.randrange(32)] = rng.choice(b'\0\r\n\x0b\x1a\x7f\x80\xff\\\'"%0fF')
        add('random', bytes(k))
    good = b'-----BEGIN X-----\nAAAA\n-----END X-----\n'
    for kind in KINDS + ('random',):
        g = good if kind != 'random' else bytes(range(100, 132))
        for bad in ('missing', 'dir', 'empty') if kind != 'random' else ():
            add(kind, g, bad=bad)
        for bad in ('nodir', 'outdir'):
            add(kind, g, bad=bad)
        for lim in (0, .01, .1, .3, .5, .9, .999):
            add(kind, g, bad='full', limit=lim)
        long = pem(rng, 2000) if kind != 'random' else g
        for lim in (0, .1, .5, .9, .999):
            if kind != 'random':
                add(kind, long, bad='full', limit=lim)
        for fn in (lambda a: [], lambda a: a[:-1], lambda a: a + ['x'], lambda a: a[:1]):
            add(kind, g, bad='args', args=fn)
        if kind != 'random':
            for w in ('', 'tool_public', 'TOOL_PUBLICX', 'TOOL', 'LVE_PUBLIC', 'ENCRYPT', ' LVE_PRIVATE', 'LVE_PRIVATE '):
                add(kind, g, bad='args', args=lambda a, w=w: a[:-1] + [w])
    for ret in (0, -1):
        add('random', bytes(32), bad='fail', ret=ret)
    check.cover('keys made into headers', len(items))
    rng.shuffle(items)
    scs = []
    for i in range(0, len(items), 40):
        scs.append(dict(id=len(scs) + 1, name='keys %d' % i, run=run, bin=b[rng.choice(['a', 'a', 'crlf'])], shim=shim, items=items[i:i + 40],
                        flags=rng.choice([('-O0',), ('-O0',), ('-O0', '-funsigned-char')])))
    for i in range(2):
        scs.append(dict(id=len(scs) + 1, name='fresh', run=fresh, bin=b['a'], count=check.n(40, 200)))
    # builds: copies of a key, keys that differ in one bit of one byte, special keys
    kdir = os.path.join(build.scratch(), 'rk')
    os.makedirs(kdir)
    def header(n, key):
        d = os.path.join(kdir, n)
        os.makedirs(d)
        f = os.path.join(d, 'bytes')
        with open(f, 'wb') as h:
            h.write(key)
        p = subprocess.run([os.path.join(b['a'], 'randomize_key'), os.path.join(d, 'random_key_file.h'), 'MLLE_CR_KEY'], env=dict(os.environ, LD_PRELOAD=shim, VF_RAND=f), capture_output=True)
        return d if p.returncode == 0 and os.path.exists(os.path.join(d, 'random_key_file.h')) else None
    k0 = bytes(rng.randrange(256) for _ in range(32))
    plan = {'base': k0, 'nul': b'\0' + k0[1:], 'nul2': b'\0' + bytes(c ^ 0x55 for c in k0[1:]), 'cr': b'\r' * 16 + k0[16:], 'cr2': b'\r' * 15 + k0[16:] + b'\r'}
    for i in rng.sample(range(32), 6) if not check.thorough else range(32):
        plan['flip%d' % i] = k0[:i] + bytes([k0[i] ^ (1 << rng.randrange(8))]) + k0[i + 1:]
    dirs = {n: header(n, k) for n, k in plan.items()}
    same = os.path.join(kdir, 'same')
    os.makedirs(same)
    shutil.copy(os.path.join(b['a'], 'random_key_file.h'), same)
    todo = {n: dict(random=d, targets=('encrypt_file', 'decrypt_file')) for n, d in dirs.items() if d}
    todo['same'] = dict(random=same, targets=T[:3])
    if dirs['base']:
        todo['base']['targets'] = todo['nul']['targets'] = T[:3]
    with ThreadPoolExecutor(6) as ex:
        b.update(ex.map(lambda nv: (nv[0], build.build('k' + nv[0], jobs=2, **nv[1])), todo.items()))
    check.log('built', len(todo), 'more')
    cont = {'package.moc': b'package P end P;', 'a.moc': b'within P; model a end a;' * 9, 'sub/package.moc': b'within P; package sub end sub;', 'sub/x.moc': b'x' * 5000}
    def bsc(name, bl, pairs, **kw):
        scs.append(dict(id=len(scs) + 1, name=name, run=builds, builds=bl, pairs=pairs, content=cont, **kw))
    bl = [('a', b['a'], ''), ('same', b['same'], 'a'), ('crlf', b['crlf'], ''), ('asan', b['asan'], '')]
    n = [x[0] for x in bl]
    bsc('builds', bl, [(x, y) for x in n for y in n])
    tr = ('tool1', 'tool0', 'big', 'tool2')
    for x in ('a', 'crlf', 'asan'):
        bsc('logins ' + x, [(x, b[x], '')], [(x, x)], logins=[(x, k, tr) for k in tr + ('other', 'nearpre', 'nearsuf', 'nearexp', 'lve')])
    given = [m for m in todo if m != 'same']
    for m in given:
        o = rng.sample([g for g in given if g != m], min(2, len(given) - 1)) + (['base'] if m != 'base' else [])
        o = [m] + sorted(set(o))
        bsc('given keys %s' % m, [(x, b[x], '') for x in o], [(x, y) for x in o for y in o if m in (x, y)])
    check.conform('TraceKey', scs, anyrun, sig, corrupt)

ALL = {'C16': c16}
