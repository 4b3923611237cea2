"""Talks to a licensing executable over TLS on its stdin/stdout, one TLS record per message."""
import os, ssl, subprocess, select, time, re, signal, tempfile
from . import build

WORDS = ('NOTSIMPLE', 'TOOLS', 'YES', 'VERSION', 'FEATURE', 'FILE', 'FILECONT', 'LIB', 'LICENSE', 'NO',
         'RETURNFEATURE', 'RETURNLICENSE', 'TOOLLIST', 'ERROR')
FORM = {'NOTSIMPLE': 'S', 'TOOLS': 'S', 'YES': 'S', 'VERSION': 'N', 'ERROR': 'NL'}
for _w in WORDS:
    FORM.setdefault(_w, 'L')
TIMEOUT = float(os.environ.get('VF_TIMEOUT', '10'))

class Timeout(Exception):
    pass

class Eof(Exception):
    pass

class Reply:
    """c = command word or a pseudo word: EOF (connection ended), NONE (no reply in time), BAD (not a reply)."""
    def __init__(self, c, n=0, data=b'', raw=b''):
        self.c, self.n, self.data, self.raw = c, n, data, raw
    def __repr__(self):
        return 'Reply(%s,%s,%r)' % (self.c, self.n, self.data[:60])

_ctx = {}
def client_ctx(key, tls12=False):
    k = (key, tls12)
    if k not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        try:
            c.set_ciphers('DEFAULT@SECLEVEL=0')
        except ssl.SSLError:
            pass
        if tls12:
            c.maximum_version = ssl.TLSVersion.TLSv1_2
        if key:
            first, _, more = key.partition('+')
            crt = os.path.join(build.KEYS, first + '.crt')
            if more:          # a chain: the peer's own certificate followed by another one
                chain = os.path.join(build.scratch(), 'chain-%d-%s.crt' % (os.getpid(), key))
                with open(chain, 'w') as f:
                    f.write(open(crt).read() + open(os.path.join(build.KEYS, more + '.crt')).read())
                crt = chain
            c.load_cert_chain(crt, os.path.join(build.KEYS, first + '.pem'))
        _ctx[k] = c
    return _ctx[k]

class Lve:
    def __init__(self, exe, key='tool0', env=None, tls12=False, lmlog=None, cwd=None, uid=None):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:verify_asan_link_order=0'
        for k in list(e):
            if k.startswith('VF_LM_') or k.startswith('SEMLA'):
                e.pop(k)
        if lmlog:
            e['VF_LM_LOG'] = lmlog
        e.update(env or {})
        self.lmlog, self.lmpos = lmlog, 0
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=cwd,
                                  **({'user': uid, 'group': uid, 'extra_groups': []} if uid else {}))
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = client_ctx(key, tls12).wrap_bio(self.inb, self.outb)
        self.buf = b''
        self.dead = False
        self.fdw, self.fdr = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(self.fdw, False)

    # -- raw transport
    def _flush(self, deadline=None):
        deadline = deadline or time.time() + TIMEOUT
        d = self.outb.read()
        while d:
            r, w, _ = select.select([self.fdr], [self.fdw], [], max(0, deadline - time.time()))
            if not r and not w:
                raise Timeout()
            if r:
                self._pull()
            if w:
                try:
                    n = os.write(self.fdw, d[:65536])
                    d = d[n:]
                except BlockingIOError:
                    pass
                except (BrokenPipeError, OSError):
                    self.dead = True
                    return
    def _pull(self):
        d = os.read(self.fdr, 1 << 16)
        if d:
            self.inb.write(d)
        else:
            if not self.dead:
                self.inb.write_eof()
            self.dead = True
        return d
    def _wait(self, deadline):
        if self.dead:
            raise Eof()
        r, _, _ = select.select([self.fdr], [], [], max(0, deadline - time.time()))
        if not r:
            raise Timeout()
        self._pull()

    def handshake(self):
        """True if the TLS handshake succeeded (as the client sees it)."""
        deadline = time.time() + TIMEOUT
        while True:
            try:
                self.o.do_handshake()
                self._flush(deadline)
                return True
            except ssl.SSLWantReadError:
                self._flush(deadline)
                try:
                    self._wait(deadline)
                except Eof:
                    return False
            except ssl.SSLError:
                try:
                    self._flush(deadline)
                except Exception:
                    pass
                return False

    def send(self, data):
        """one record per call (data up to 16384 bytes)"""
        try:
            if data:
                self.o.write(data)
            self._flush()
        except ssl.SSLError:
            self.dead = True

    def send_raw(self, data):
        try:
            os.set_blocking(self.fdw, True)
            os.write(self.fdw, data)
            os.set_blocking(self.fdw, False)
        except OSError:
            self.dead = True

    def _more(self, deadline):
        while True:
            try:
                d = self.o.read(1 << 20)
                if not d:
                    raise Eof()
                self.buf += d
                return
            except ssl.SSLWantReadError:
                self._flush(deadline)
                self._wait(deadline)
            except ssl.SSLError:
                raise Eof()

    def recv(self, timeout=None):
        deadline = time.time() + (timeout or TIMEOUT)
        try:
            while b'\n' not in self.buf:
                if len(self.buf) > 4096:
                    return Reply('BAD', raw=self.buf[:200])
                self._more(deadline)
            head, rest = self.buf.split(b'\n', 1)
            t = head.decode('latin1').split(' ')
            w = t[0]
            num = re.compile(r'-?[0-9]+\Z')
            if w not in FORM or len(t) != {'S': 1, 'N': 2, 'L': 2, 'NL': 3}[FORM[w]] or not all(num.match(x) for x in t[1:]):
                r = Reply('BAD', raw=self.buf[:200])
                self.buf = b''
                return r
            n, ln = 0, 0
            f = FORM[w]
            if f in ('N', 'NL'):
                n = int(t[1])
            if f in ('L', 'NL'):
                ln = int(t[-1])
            if ln < 0 or ln > 1 << 28:
                return Reply('BAD', raw=head)
            while len(rest) < ln:
                self.buf = head + b'\n' + rest
                self._more(deadline)
                rest = self.buf.split(b'\n', 1)[1]
            self.buf = rest[ln:]
            return Reply(w, n, rest[:ln])
        except Eof:
            if self.buf:
                r = Reply('BAD', raw=self.buf[:200])
                self.buf = b''
                return r
            return Reply('EOF')
        except Timeout:
            if self.buf:
                r = Reply('BAD', raw=self.buf[:200])
                self.buf = b''
                return r
            return Reply('NONE')

    def call(self, data, timeout=None):
        self.send(data)
        return self.recv(timeout)

    def lm(self):
        """license manager calls since the last lm(): list of (op, handle, nulterminated, bytes)"""
        if not self.lmlog or not os.path.exists(self.lmlog):
            return []
        with open(self.lmlog, 'rb') as f:
            f.seek(self.lmpos)
            d = f.read()
        self.lmpos += len(d)
        out = []
        for ln in d.decode().splitlines():
            m = re.match(r'(\w+) (-?\d+) (\d+) (\d) \[([0-9a-f]*)\]$', ln)
            out.append((m.group(1), int(m.group(2)), m.group(4) == '1', bytes.fromhex(m.group(5))))
        return out

    def close(self, how='notify'):
        """End the session: 'notify' (TLS close then EOF), 'eof' (just EOF), 'kill'. -> dict(exit, san, extra)"""
        extra = b''
        if how == 'kill':
            self.p.kill()
        try:
            if how == 'notify' and not self.dead:
                try:
                    self.o.unwrap()
                except ssl.SSLError:
                    pass
                try:
                    self._flush()
                except Timeout:
                    pass
        finally:
            try:
                self.p.stdin.close()
            except OSError:
                pass
        deadline = time.time() + TIMEOUT
        hung = False
        try:
            while not self.dead:
                self._wait(deadline)
            while True:
                d = self.o.read(1 << 20)
                if not d:
                    break
                extra += d
        except Timeout:
            hung = True
        except (ssl.SSLError, Eof):
            pass
        try:
            rc = self.p.wait(max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            rc = None
        if hung:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.seek(0)
        e = self.err.read().decode('latin1')
        self.err.close()
        return {'exit': -1000 if rc is None else rc, 'hung': hung,
                'san': 'ERROR: AddressSanitizer' in e or 'SUMMARY: AddressSanitizer' in e,
                'extra': len(extra) + len(self.buf), 'stderr': e[-30000:]}

def msg(word, data=None, n=None):
    s = word
    if n is not None:
        s += ' %d' % n
    if data is not None:
        s += ' %d' % len(data)
    return s.encode() + b'\n' + (data or b'')
