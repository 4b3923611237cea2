"""Programs using the real tool library with a real executable; traces for TraceE2E."""
import os, re, time, shutil
from . import build, session, tooldrv
from .lve import msg
from .session import classify, cid, q
from .checks_tool import family, reap, subreaper

WORD = {'lib': 'LIB', 'feature': 'FEATURE', 'retfeature': 'RETURNFEATURE', 'license': 'LICENSE', 'retlicense': 'RETURNLICENSE', 'file': 'FILE'}
LM = re.compile(r'(\w+) (-?\d+) (\d+) (\d) \[([0-9a-f]*)\]$')

def run(sc):
    """sc: id, tool, exe, keys, peer, global, grant, infail, newfail, sfx, lib (Lib), steps:
    ('start',) ('version', min, max) ('lib', bytes|callable(path)) ('feature', b) .. ('file', slot, bytes) ('read', slot, n) ('size', slot) ('ffree', slot) ('free',)"""
    subreaper()
    d = os.path.join(build.scratch(), 's', 'e%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        return _run(sc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def _run(sc, d, slot=None):
    lib = sc['lib']
    path = lib.path
    lm = os.path.join(d, 'lm')
    env = {'VF_RUN': d, 'VF_LM_LOG': lm, 'VF_LM_GRANT': '*' if b'*' in sc['grant'] else session.hexlist(sc['grant']),
           'VF_LM_IN_FAIL': '*' if b'*' in sc['infail'] else session.hexlist(sc['infail']),
           'VF_LM_NEW_FAIL': str(sc['newfail']), 'VF_LM_SUFFIX': sc.get('sfx', ''), 'ASAN_OPTIONS': tooldrv.ASAN + ':log_path=' + os.path.join(d, 'asan')}
    env.update(sc.get('env', {}))
    sfx = sc.get('sfx', '').encode()
    texts = [b'vf: manager unavailable' + sfx, b'vf: feature refused' + sfx, b'vf: return failed' + sfx]
    x = {'keys': sc['keys'], 'peer': sc['peer'], 'global': sc['global'], 'grant': [q(f) for f in sc['grant']],
         'infail': [q(f) for f in sc['infail']], 'newfail': sc['newfail'], 'sfx': q(sfx)}
    if slot:
        sc = dict(sc, exe=tooldrv.wrapper(d, sc['exe'], env))
    t = slot or tooldrv.Tool(sc['tool'], env, cwd=d)
    ev, log = [], []
    pos, lve, lmpos, hang = {}, None, 0, False
    cont = {}
    def calls():
        nonlocal lmpos
        if not os.path.exists(lm):
            return []
        with open(lm, 'rb') as f:
            f.seek(lmpos)
            b = f.read()
        lmpos += len(b)
        out = []
        for ln in b.decode().splitlines():
            m = LM.match(ln)
            out.append({'op': m.group(1), 'h': int(m.group(2)), 'arg': q(bytes.fromhex(m.group(5))), 't': m.group(4) == '1'})
        return out
    def ask(line):
        nonlocal hang
        t.send(line)
        l = t.line(time.time() + tooldrv.TIMEOUT)
        hang = hang or l is None
        return l
    def base(e, l):
        return {'e': e, 'alive': l != '', 'late': l is None, 'san': False}
    exists = lambda p: os.path.isdir(os.path.join(d.encode(), p)) if p else False
    secrets = sc.get('secrets', [])
    for st in sc['steps']:
        if hang or not t.alive():
            break
        op = st[0]
        if op == 'start':
            l = ask('start ' + os.fsencode(sc['exe']).hex())
            k = family(d, [t.p.pid])
            lve = k[-1] if k else None
            m = tooldrv.RES.match(l or '')
            ev.append(dict(base('start', l), r={'ok': bool(m and m.group(2) == 'ok'), 'err': bool(m and m.group(3))}))
            log.append('start -> %s' % l)
            if not ev[-1]['r']['ok']:
                break
        elif op == 'version' or op in WORD:
            c = {'op': op, 'arg': '', 'len': 0, 'min': 0, 'max': 0, 'slot': 0}
            if op == 'version':
                c['min'], c['max'] = st[1], st[2]
                line, raw, arg = 'version %d %d' % st[1:], msg('VERSION', n=st[2]), b''
            else:
                arg = st[-1]
                if callable(arg):
                    arg = arg(path)
                raw, c['len'] = msg(WORD[op], arg), len(arg)
                if op == 'file':
                    c['slot'] = st[1]
                    line = 'file %d %s' % (st[1], arg.hex())
                else:
                    line = '%s %s' % (op, arg.hex())
            l = ask(line)
            m = tooldrv.RES.match(l or '')
            r = {'ok': False, 'err': False, 'dom': 0, 'code': 0, 'has': False, 'low': False, 'high': False, 'says': []}
            text = b''
            if m:
                r['ok'] = m.group(2) == 'ok'
                if m.group(3):
                    text = bytes.fromhex(m.group(5))
                    r.update(err=True, dom=int(m.group(3)), code=int(m.group(4)), low=b'too low' in text, high=b'too high' in text)
                    r['says'] = [q(y) for y in texts if y[:1900] in text]
            ev.append(dict(base('call', l), c=c, m=classify(raw, exists), r=r, lm=calls()))
            if op == 'file':
                key = '/'.join(y for y in arg.decode('utf-8', 'replace').split('/') if y not in ('', '.'))
                cont[st[1]], pos[st[1]] = lib.src.get(key, b''), 0
            log.append('%s %s -> %s %s' % (op, q(arg[:50]) or st[1:], (l or 'late').split()[1:2], q(text[:70])))
        elif op == 'read':
            slot, n = st[1:]
            l = ask('read %d %d' % (slot, n))
            e = dict(base('read', l), slot=slot, n=n, open=l != 'read none', eof=l == 'read eof', got=-1, d='', at=[])
            m = re.match(r'read ok (\d+) \[([0-9a-f]*)\]$', l or '')
            if m:
                b = bytes.fromhex(m.group(2))
                e['got'] = int(m.group(1))
                cc, o = cont.get(slot, b''), pos.get(slot, 0)
                if b and cc[o:o + len(b)] == b:
                    e['at'], e['d'] = [o], cid(cc)
                pos[slot] = o + e['got']
            ev.append(e)
            log.append('read %d %d -> %s' % (slot, n, (l or 'late')[:40]))
        elif op == 'size':
            l = ask('size %d' % st[1])
            m = re.match(r'size ok (\d+)$', l or '')
            ev.append(dict(base('size', l), slot=st[1], open=bool(m), n=int(m.group(1)) if m else 0))
            log.append('size -> %s' % l)
        elif op == 'ffree':
            l = ask('ffree %d' % st[1])
            ev.append(dict(base('ffree', l), slot=st[1], ok=(l or '').startswith('ffree ok')))
        elif op == 'free':
            l = ask('free')
            ended, end = True, time.time() + tooldrv.TIMEOUT
            while lve:
                try:
                    s = open('/proc/%d/stat' % lve).read().rsplit(')', 1)[1].split()[0]
                except OSError:
                    break
                if s in 'ZX':
                    reap(lve, 1)
                    break
                if time.time() > end:
                    ended = False
                    hang = True
                    break
                time.sleep(.002)
            exesan = bool(lve) and os.path.exists(os.path.join(d, 'asan.%d' % lve)) and 'ERROR: Addr' in open(os.path.join(d, 'asan.%d' % lve), errors='replace').read()
            ev.append(dict(base('close', l), ok=(l or '').startswith('free ok'), ended=ended, exesan=exesan, lm=calls()))
            log.append('free -> %s ended=%s' % (l, ended))
            lve = None
    rc = t.close()
    af = os.path.join(d, 'asan.%d' % t.p.pid)
    if rc != 0 or (os.path.exists(af) and 'ERROR: Addr' in open(af, errors='replace').read()):
        ev[-1]['san'] = True
    if lve:
        reap(lve, tooldrv.TIMEOUT)
    t.err.seek(0)
    err = t.err.read().decode('latin1')
    t.err.close()
    logs = ''.join(open(os.path.join(d, f), errors='replace').read()[:1500] for f in os.listdir(d) if f.startswith('asan'))
    return {'id': sc['id'], 'name': sc.get('name', ''), 'x': x, 'fs': lib.fs(), 'sizes': [{'v': cid(b), 'n': len(b)} for b in {cid(y): y for y in lib.src.values()}.values()],
            'ev': ev, 'log': log, 'hang': hang, 'stderr': err[-800:] + logs}
