"""Programs using the real tool library (vf_tool) against a scripted executable; traces for TraceTool."""
import os, ssl, socket, array, select, time, re, subprocess, tempfile, shutil, struct, signal
from . import build
from .session import classify, cid, q
from .lve import FORM

TIMEOUT = float(os.environ.get('VF_TIMEOUT', '10'))
ASAN = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99'

class Tool:
    """the program: one command per line"""
    def __init__(self, exe, env=None, cwd=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('VF_LM_', 'SEMLA'))}
        e['ASAN_OPTIONS'] = ASAN
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=cwd)
        self.fd = self.p.stdout.fileno()
        self.buf = b''
    def send(self, line):
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
        except OSError:
            pass
    def has_line(self, timeout=0):
        while b'\n' not in self.buf:
            r, _, _ = select.select([self.fd], [], [], timeout)
            if not r:
                return False
            d = os.read(self.fd, 1 << 20)
            if not d:
                return True
            self.buf += d
        return True
    def line(self, deadline):
        """a result line, None when it is late, '' when the program has ended"""
        while b'\n' not in self.buf:
            r, _, _ = select.select([self.fd], [], [], max(0, deadline - time.time()))
            if not r:
                return None
            d = os.read(self.fd, 1 << 20)
            if not d:
                return ''
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()
    def alive(self):
        return self.p.poll() is None
    def san(self):
        self.err.seek(0)
        return b'ERROR: AddressSanitizer' in self.err.read()
    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            rc = None
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        return rc

class Host:
    """a program with several threads, each taking commands of its own"""
    def __init__(self, exe, n, env=None, cwd=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('VF_LM_', 'SEMLA'))}
        e['ASAN_OPTIONS'] = ASAN
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        pairs, ends = [], []
        for _ in range(n):
            (a, b), (c, d) = os.pipe(), os.pipe()
            pairs.append((a, d))
            ends.append((b, c))
        e['VF_THREADS'] = ','.join('%d:%d' % x for x in pairs)
        self.p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, env=e, cwd=cwd, pass_fds=[x for y in pairs for x in y])
        for y in pairs:
            for x in y:
                os.close(x)
        self.slots = [Slot(self, *x) for x in ends]
    def close(self):
        for s in self.slots:
            s.close()
        try:
            rc = self.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            rc = None
            self.p.kill()
            self.p.wait()
        self.err.seek(0)
        b = self.err.read()
        self.err.close()
        return rc, b

class Slot(Tool):
    """one of its threads"""
    def __init__(self, host, wr, rd):
        self.p, self.fd, self.w, self.buf = host.p, rd, wr, b''
        self.err = tempfile.TemporaryFile()
    def send(self, line):
        d = line.encode() + b'\n'
        try:
            while d:
                d = d[os.write(self.w, d):]
        except OSError:
            pass
    def close(self):
        if self.w >= 0:
            os.close(self.w)
            end = time.time() + TIMEOUT
            while self.line(end):
                pass
            os.close(self.fd)
            self.w = -1
        return 0

def wrapper(d, exe, env):
    """a program that is exe with these environment variables"""
    f = os.path.join(d, 'with-env')
    with open(f, 'w') as o:
        o.write('#!/bin/sh\n' + ''.join("export %s='%s'\n" % (k, v.replace("'", "'\\''")) for k, v in env.items()) + "exec '%s'\n" % exe)
    os.chmod(f, 0o755)
    return f

_ctx = {}
def server_ctx(tls12):
    if tls12 not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.verify_mode = ssl.CERT_NONE
        if tls12:
            c.maximum_version = ssl.TLSVersion.TLSv1_2
        c.load_cert_chain(os.path.join(build.KEYS, 'lve.crt'), os.path.join(build.KEYS, 'lve.pem'))
        _ctx[tls12] = c
    return _ctx[tls12]

class Peer:
    """the scripted executable behind one relay"""
    def __init__(self, sock, tool, tls12):
        self.tool = tool
        sock.settimeout(TIMEOUT)
        self.c, _ = sock.accept()
        fds = array.array('i')
        m, anc, _, _ = self.c.recvmsg(64, socket.CMSG_SPACE(8))
        fds.frombytes(anc[0][2][:8])
        self.rd, self.wr = fds
        os.set_blocking(self.wr, False)
        self.pid = struct.unpack('i', m[:4])[0]
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = server_ctx(tls12).wrap_bio(self.inb, self.outb, server_side=True)
        self.buf, self.open, self.eof = b'', True, False
    def raw(self, d):
        """write bytes to the tool; stops when the tool has returned from its call"""
        deadline = time.time() + TIMEOUT
        while d:
            _, w, _ = select.select([], [self.wr], [], .02)
            if w:
                try:
                    d = d[os.write(self.wr, d[:65536]):]
                except BlockingIOError:
                    pass
                except OSError:
                    return False
            elif self.tool.has_line() or time.time() > deadline:
                return False
        return True
    def flush(self):
        return self.raw(self.outb.read())
    def pull(self, deadline):
        r, _, _ = select.select([self.rd], [], [], max(0, deadline - time.time()))
        if not r:
            return False
        d = os.read(self.rd, 1 << 16)
        if d:
            self.inb.write(d)
        else:
            if not self.eof:
                self.inb.write_eof()
            self.eof = True
        return bool(d)
    def handshake(self, stop=None):
        """stop: number of flights of the server after which to stop"""
        deadline = time.time() + TIMEOUT
        n = 0
        while True:
            try:
                self.o.do_handshake()
                if stop is not None and stop[0] > n:
                    d = self.outb.read()
                    self.raw(d[:int(len(d) * stop[1])])
                    return False
                self.flush()
                return True
            except ssl.SSLWantReadError:
                d = self.outb.read()
                if d:
                    n += 1
                    if stop is not None and stop[0] <= n:
                        self.raw(d[:int(len(d) * stop[1])])
                        return False
                    self.raw(d)
                if not self.pull(deadline):
                    return False
            except ssl.SSLError:
                return False
    def more(self, deadline):
        """decrypt what is there; False when nothing more came before the deadline"""
        while True:
            try:
                d = self.o.read(1 << 20)
                if not d:
                    self.eof = True
                    return False
                self.buf += d
                return True
            except ssl.SSLWantReadError:
                if self.eof or not self.pull(deadline):
                    return False
            except ssl.SSLError:
                self.eof = True
                return False
    def request(self, wait=TIMEOUT):
        """one request (all bytes of it and what came with it), b'' if none"""
        deadline = time.time() + wait
        while True:
            head, nl, data = self.buf.partition(b'\n')
            if nl:
                t = head.split(b' ')
                ln = 0
                if t[0] in (b'VERSION',):
                    break
                if len(t) > 1 and re.match(rb'[0-9]{1,9}\Z', t[-1]):
                    ln = int(t[-1])
                if len(data) >= ln:
                    break
                deadline = min(deadline, time.time() + 3)
            elif self.buf:
                deadline = min(deadline, time.time() + 1)
            # nothing can come any more once the call has returned
            if not self.buf and self.tool.has_line():
                if not self.more(time.time() + .05):
                    break
            elif not self.more(min(deadline, time.time() + .05)) and (self.eof or time.time() > deadline):
                break
        # anything that came at the same time
        while self.more(0):
            pass
        r, self.buf = self.buf, b''
        return r
    def reply(self, parts):
        for p in parts:
            if p:
                self.o.write(p)
            if not self.flush():
                return False
        return True
    def end(self, how='eof', status=0):
        """go away: 'eof' pipes closed, 'notify' after a TLS close, 'crash', 'exit', 'half' only the answering side"""
        if not self.open:
            return
        if how == 'notify':
            try:
                self.o.unwrap()
            except ssl.SSLError:
                pass
            self.flush()
        if how == 'half':
            os.close(self.wr)
            self.wr = -1
            return
        self.open = False
        os.close(self.rd)
        if self.wr >= 0:
            os.close(self.wr)
        try:
            self.c.send(bytes([255 if how == 'crash' else 3 if how == 'exit' else 0]))
        except OSError:
            pass
        self.c.close()
    def seen_end(self, deadline):
        """has the tool given up the connection?"""
        while not self.eof:
            if not self.more(deadline) and not self.eof:
                return False
        return True

RES = re.compile(r'(\w+) (ok|fail|noconn) (?:none|(-?\d+) (-?\d+) \[([0-9a-f]*)\])$')

def run(sc):
    """sc: dict(id, tool, relay, tls12, steps). Steps (k = connection):
    ('start', k, how)          how: 'ok' | ('exe', path) | ('die', when)
    ('call', k, op, arg, slot, plan)  arg: bytes or (min, max); plan: dict(parts=[bytes..], end=None|how, trail=bytes)
    ('read', slot, n) ('size', slot) ('ffree', slot) ('drop', k, how) ('free', k)"""
    d = os.path.join(build.scratch(), 't', '%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        return _run(sc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def _run(sc, d, slot=None):
    sockname = os.path.join(d, 's')
    sock = socket.socket(socket.AF_UNIX)
    sock.bind(sockname)
    sock.listen(4)
    if slot:
        sc = dict(sc, relay=wrapper(d, sc['relay'], {'VF_RELAY_SOCK': sockname}))
    t = slot or Tool(sc['tool'], dict({'VF_RELAY_SOCK': sockname}, **({'VF_NOERR': '1'} if sc.get('noerr') else {})), cwd=d)
    peers, pids = {}, []
    ev, log = [], []
    cont, pos = {}, {}      # slot -> content delivered, how much of it was read
    sel, started = [0], {}
    late = [False]
    def ask(line, act=None):
        """-> result line; act(peer side) runs while the call is pending"""
        t.send(line)
        if act:
            act()
        l = t.line(time.time() + TIMEOUT)
        if l is None:
            late[0] = True
        return l
    def base(e, k, l):
        return {'e': e, 'k': k, 'alive': l != '', 'late': l is None, 'san': False}
    def choose(k):
        if sel[0] != k:
            ask('sel %d' % k)
            sel[0] = k
    def result(l):
        m = RES.match(l or '')
        r = {'ok': False, 'err': False, 'dom': 0, 'code': 0, 'has': False, 'low': False, 'high': False}
        text = b''
        if m:
            r['ok'] = m.group(2) == 'ok'
            if m.group(3):
                text = bytes.fromhex(m.group(5))
                r.update(err=True, dom=int(m.group(3)), code=int(m.group(4)), low=b'too low' in text, high=b'too high' in text)
        return r, text
    NOREQ = {'w': '', 'a': [], 'dl': 0, 'canon': False, 'arg': ''}
    for st in sc['steps']:
        if late[0] or not t.alive():
            break
        if st[0] == 'start':
            k, how = st[1], st[2]
            choose(k)
            able = 'yes' if how == 'ok' else 'may' if how[0] == 'may' else 'no'
            def act():
                if isinstance(how, tuple) and how[0] == 'exe':
                    return
                if how == ('die', 'noread'):
                    # ends without having read anything
                    p = Peer(sock, t, sc.get('tls12', False))
                    pids.append(p.pid)
                    p.end('eof')
                    return
                p = Peer(sock, t, sc.get('tls12', False))
                pids.append(p.pid)
                if how == 'ok':
                    p.handshake()
                    peers[k] = p
                    return
                when = how[1]
                if when == 'junk':
                    p.pull(time.time() + TIMEOUT)
                    p.raw(how[2])
                elif when == 'hello':
                    p.pull(time.time() + TIMEOUT)
                elif when == 'flight':
                    p.handshake(stop=how[2])
                elif when == 'alert':
                    p.pull(time.time() + TIMEOUT)
                    p.raw(b'\x15\x03\x01\x00\x02\x02\x28')
                p.end(how[3] if len(how) > 3 else 'eof')
            def tried():
                try:
                    act()
                except TimeoutError:      # nothing was started
                    pass
            exe = sc['relay'] if not (isinstance(how, tuple) and how[0] == 'exe') else how[1]
            l = ask('start ' + os.fsencode(exe).hex(), tried)
            r, text = result(l)
            ev.append(dict(base('start', k, l), able=able, r={'ok': r['ok'], 'err': r['err']}))
            log.append('start %s -> %s %s' % (how, 'ok' if r['ok'] else 'fail', q(text[:80])))
            started[k] = r['ok']
            if not r['ok'] and able == 'yes':
                break
        elif st[0] == 'call':
            _, k, op, arg, slot, plan = st
            if not started.get(k):
                continue
            choose(k)
            p = peers.get(k)
            up = p is not None and p.open
            c = {'op': op, 'arg': '', 'len': 0, 'min': 0, 'max': 0, 'slot': slot}
            if op == 'version':
                c['min'], c['max'] = arg
                line = 'version %d %d' % arg
            else:
                c['arg'], c['len'] = cid(arg), len(arg)
                line = '%s %s' % (op, ('%d ' % slot if op == 'file' else '') + arg.hex())
            raw = b''.join(plan['parts'])
            st2 = {'req': b'', 'sent': False}
            def act():
                if not up or p.wr < 0:
                    return
                if plan.get('early'):
                    p.end(plan['end'])
                    return
                st2['req'] = p.request()
                if not st2['req']:
                    return
                st2['sent'] = p.reply(plan['parts'])
                if plan.get('trail'):
                    p.raw(plan['trail'])
                if plan.get('end'):
                    p.end(plan['end'])
            l = ask(line, act)
            r, text = result(l)
            req = st2['req']
            m = dict(NOREQ)
            extra = False
            if req:
                m = classify(req)
                body = req.partition(b'\n')[2]
                m['arg'] = cid(body)
                if m['a'] and m['a'][0]['t'] == 'i' and op != 'version':
                    extra = len(body) > m['a'][0]['v'] >= 0
                m = {x: m[x] for x in ('w', 'a', 'dl', 'canon', 'arg')}
            am = classify(raw)
            head, nl, data = raw.partition(b'\n')
            fate = 'full' if plan.get('complete', True) else ('cut' if raw else 'none')
            if up and p.wr >= 0 and not plan.get('early') and not req and l and not p.eof:
                fate = 'unsent'
            z = data.split(b'\0')[0][:1900]
            r['has'] = z in text
            if op == 'file':
                cont[slot], pos[slot] = data, 0
            ev.append(dict(base('call', k, l), c=c, seen=bool(req), extra=extra, m=m, a={'fate': fate, 'm': {x: am[x] for x in ('w', 'a', 'dl', 'canon')},
                      'first': b'\n' in (plan['parts'] or [b''])[0], 'd': cid(data)}, r=r))
            log.append('%s %s / %s [%s%s] -> %s %s.%s %s' % (op, arg if op == 'version' else q(arg[:40]), q(raw[:60]), '+'.join(str(len(x)) for x in plan['parts'][:12]),
                       ' ' + str(plan.get('end')) if plan.get('end') else '', l and l.split()[1], r['dom'], r['code'], q(text[:60])))
            if fate == 'unsent' and plan.get('end'):
                p.end(plan['end'])
            if plan.get('end') and fate in ('full', 'unsent'):
                ev.append({'e': 'drop', 'k': k})
        elif st[0] == 'read':
            _, slot, n = st
            l = ask('read %d %d' % (slot, n))
            e = dict(base('read', 0, l), slot=slot, n=n, open=l != 'read none', eof=l == 'read eof', got=-1, d='', at=[])
            m = re.match(r'read ok (\d+) \[([0-9a-f]*)\]$', l or '')
            if m:
                b = bytes.fromhex(m.group(2))
                e['got'] = int(m.group(1))
                c = cont.get(slot, b'')
                o = pos.get(slot, 0)
                if b and c[o:o + len(b)] == b:
                    e['at'].append(o)
                i = c.find(b) if b else -1
                while i >= 0 and len(e['at']) < 20:
                    e['at'].append(i)
                    i = c.find(b, i + 1)
                pos[slot] = o + e['got']
                if e['at']:
                    e['d'] = cid(c)
            ev.append(e)
            log.append('read %d %d -> %s' % (slot, n, (l or 'late')[:60]))
        elif st[0] == 'size':
            l = ask('size %d' % st[1])
            m = re.match(r'size ok (\d+)$', l or '')
            ev.append(dict(base('size', 0, l), slot=st[1], open=bool(m), n=int(m.group(1)) if m else 0))
            log.append('size -> %s' % l)
        elif st[0] == 'ffree':
            l = ask('ffree %d' % st[1])
            ev.append(dict(base('ffree', 0, l), slot=st[1], ok=(l or '').startswith('ffree ok')))
        elif st[0] == 'drop':
            p = peers.get(st[1])
            if p and p.open:
                p.end(st[2])
                ev.append({'e': 'drop', 'k': st[1]})
                log.append('peer ends: %s' % st[2])
                time.sleep(.002 if sc['id'] % 2 else 0)
        elif st[0] == 'free':
            k = st[1]
            choose(k)
            p = peers.get(k)
            l = ask('free')
            ended = True
            if p and p.open and p.wr >= 0:
                ended = p.seen_end(time.time() + TIMEOUT)
                p.end()
            ev.append(dict(base('close', k, l), ok=(l or '').startswith('free ok'), ended=ended))
            log.append('free -> %s ended=%s' % (l, ended))
    for p in peers.values():
        if p.open:
            p.end()
    rc = t.close()
    san = t.san() or (rc is not None and rc != 0)
    if ev and san:
        for e in reversed(ev):
            if 'san' in e:
                e['san'] = True
                break
    t.err.seek(0)
    err = t.err.read().decode('latin1')
    t.err.close()
    sock.close()
    for pid in pids:
        pass
    return {'id': sc['id'], 'name': sc.get('name', ''), 'noerr': bool(sc.get('noerr')), 'ev': ev, 'log': log, 'hang': late[0], 'stderr': err[-1500:] if san else ''}
