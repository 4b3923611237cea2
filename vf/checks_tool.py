"""C09, C10, C20: the tool library against a scripted executable, and loss of either side."""
import os, json, re, stat, time, signal, subprocess, shutil, struct
from . import build, tlc, gen, tooldrv, session
from .lve import Lve, msg, WORDS, FORM
from .session import q

OPS = ['version', 'lib', 'feature', 'retfeature', 'license', 'retlicense', 'file']
TEXTS = [b'no license', b'', b'x', b'100% %s%n%d', b'T' * 1899, b'U' * 2047, b'V' * 2048, b'W' * 5000, b'multi\nline\ntext\n', b'\xc3\xa5 \xff\xfe', b'Got ERROR', b'too low', b'nul\0inside', b'Y' * 16000]
ARGS = [b'a', b'', b'package.mo', b'dir/sub dir/x.mo', b'F' * 300, b'line\nbreak', b'FILE 3\nabc', b'%s%n', b'\xc3\xa5\xff', b'B' * 2000, b'/abs/' + b'p' * 4000, b'1', b' ', b'Z' * 16000, b'Q' * 16384, b'R' * 40000, b'S' * 16373]

def sig(tr, info):
    if not info.get('l'):
        return 'no explanation'
    ev = tr['ev'][info['l'] - 1]
    if ev['e'] == 'call':
        return '%s answered %s %s fate=%s -> ok=%s err=%s %s.%s has=%s late=%s alive=%s seen=%s %s' % (ev['c']['op'], ev['a']['m']['w'], ev['a']['m']['a'], ev['a']['fate'], ev['r']['ok'], ev['r']['err'], ev['r']['dom'], ev['r']['code'], ev['r']['has'], ev['late'], ev['alive'], ev['seen'], ev['m'] if ev['seen'] else '')
    return json.dumps(ev)[:300]

def corrupt(tr, rng):
    c = [e for e in tr['ev'] if e['e'] in ('call', 'read') and (e['e'] == 'call' or e['got'] > 0)]
    if not c:
        return None
    e = rng.choice(c)
    if e['e'] == 'read':
        if rng.random() < .5:
            e['at'] = [a + 1 for a in e['at'][:1]]
            e['d'] = 'c0:0'
        else:
            e['got'] += 1
    else:
        x = rng.randrange(4)
        if x == 0:
            e['r']['ok'] = not e['r']['ok']
        elif x == 1:
            e['r']['err'] = not e['r']['err']
        elif x == 2:
            e['late'] = True
        elif e['seen']:
            e['m']['arg'] = 'zz'
            e['m']['w'] = 'TOOLS'
        else:
            e['alive'] = False
    return tr

def split(rng, raw, kind=None):
    """records for a message: the line in the first one"""
    nl = raw.find(b'\n') + 1
    if nl == 0 or len(raw) == nl:
        return [raw]
    kind = kind or rng.choice(['one', 'head', 'two', 'many', 'bytes', 'max'])
    if kind == 'one':
        return [raw[i:i + 16384] for i in range(0, len(raw), 16384)]
    if kind == 'head':
        cuts = [nl]
    elif kind == 'two':
        cuts = [rng.randint(nl, len(raw))]
    elif kind == 'bytes':
        n = min(len(raw), nl + 40)
        cuts = list(range(nl, n)) + [n]
    elif kind == 'max':
        cuts = [rng.randint(nl, min(len(raw), 16384))]
    else:
        cuts = sorted(rng.randint(nl, len(raw)) for _ in range(rng.randint(2, 9)))
    out, p = [], 0
    for c in cuts + [len(raw)]:
        while c - p > 16384:
            out.append(raw[p:p + 16384])
            p += 16384
        if c > p:
            out.append(raw[p:c])
            p = c
    return out

ENDS = ['eof', 'eof', 'notify', 'crash', 'exit', 'half']
def answer(rng, a, op=None):
    """a plan for an answer of MCTool"""
    t = rng.choice(TEXTS)
    one = rng.choice
    full = {'yes': lambda: b'YES\n', 'no': lambda: msg('NO', t), 'no0': lambda: msg('NO', b''), 'notsimple': lambda: b'NOTSIMPLE\n',
            'error': lambda: msg('ERROR', t, n=rng.randrange(1, 9)), 'error0': lambda: msg('ERROR', b'', n=one([0, 1, -1, 99])),
            'v0': lambda: msg('VERSION', n=one([0, -1, -77])), 'v1': lambda: msg('VERSION', n=1), 'v2': lambda: msg('VERSION', n=2), 'v9': lambda: msg('VERSION', n=one([3, 9, 1000000000])),
            'file0': lambda: msg('FILECONT', b''), 'file1': lambda: msg('FILECONT', one([b'Z', b'\n', b'\0'])),
            'file3': lambda: msg('FILECONT', gen.content(rng, one([2, 3, 4, 100, 4097, 16384, 20000, 65536, 70001]), one(['text', 'bin', 'bin']))),
            'tlist': lambda: msg('TOOLLIST', b'ab'), 'request': lambda: one([msg('LIB', b'/x'), msg('FILE', b'a'), msg('FEATURE', b'f'), msg('LICENSE', b'')]), 'tools': lambda: b'TOOLS\n',
            'unknown': lambda: one([b'FOO\n', b'yes\n', b'YESNO\n', b'YE\n', b'FILECON 3\nabc', b'VERSIONS 1\n']), 'empty': lambda: one([b'\n', b' \n', b'\n\n\n', b'   \n']),
            'few': lambda: one([b'FILECONT\n', b'ERROR 3\n', b'VERSION\n', b'NO\n']), 'many': lambda: one([b'YES 1\n', b'NO 3 3\nabc', b'FILECONT 1 1\na', b'NOTSIMPLE x\n', b'YES YES\n', b'VERSION 1 1\n', b'VERSION 1 2 3 4 5\n']),
            'text': lambda: one([b'VERSION one\n', b'VERSION -\n', b'VERSION .1\n', b'VERSION v1\n']), 'negative': lambda: one([b'FILECONT -1\na', b'NO -1\n', b'FILECONT -2147483648\n', b'ERROR 1 -5\nabcde']),
            'over': lambda: one([b'FILECONT 1\nabc', b'NO 0\nabc', b'ERROR 1 1\nabc', b'FILECONT 0\nabc'])}
    if a in full:
        raw = full[a]()
        if a in ('over', 'unknown', 'many', 'negative', 'empty', 'few', 'text'):
            return dict(parts=[raw])
        return dict(parts=split(rng, raw))
    end = one(ENDS)
    if a == 'cuthead':
        raw = one([b'YES\n', b'FILECONT 3\nabc', b'VERSION 1\n', msg('ERROR', t[:200], n=3)])
        n = raw.find(b'\n')
        if raw.startswith(b'VERSION'):
            return dict(parts=[raw[:rng.randrange(1, 8)]], end=end, complete=False)
        return dict(parts=[raw[:rng.randrange(1, n)]], end=end, complete=False)
    if a == 'cutdata':
        raw = msg('FILECONT' if op in (None, 'file') or rng.random() < .3 else one(['NO', 'ERROR 4']), one([b'abc', b'0123456789' * 3000, b'x' * 40000]))
        n = raw.find(b'\n') + 1
        return dict(parts=split(rng, raw[:rng.randrange(n, len(raw))]), end=end, complete=False, trail=one([b'', b'\x17\x03\x03\x00\x40abc', b'\x17']))
    return dict(parts=[], end=end, complete=False, early=rng.random() < .4)

def arg(rng, op):
    return (1, 2) if op == 'version' else rng.choice(ARGS)
CALLOP = {'ver': 'version'}

class Env:
    def __init__(self, check, real=False):
        t = ('vf_tool', 'vf_relay') + ((build.LVE, 'encrypt_file') if real else ())
        self.b = {'asan': build.build('asan', t, asan=True), 'plain': build.build('plain', t)}
        check.log('built')
        self.n, self.check = 0, check
    def sc(self, steps, name, b=None, **kw):
        self.n += 1
        b = b or ('asan' if self.n % 3 else 'plain')
        return dict(id=self.n, tool=self.b[b] + '/vf_tool', relay=self.b[b] + '/vf_relay', tls12=self.n % 4 == 0, noerr=self.n % 11 == 5, steps=steps, name=name, **kw)

def graph_scenarios(env, check, keep=None, maxlen=40):
    r = check.model('MCTool', 'MCToolGraph.cfg', workers=1)
    g = {}
    edges = 0
    for v in tlc.prints(r['out']):
        if v.get('edge'):
            d = g.setdefault(v['from'], {}).setdefault(v['id'], [])
            if v['to'] not in d:
                d.append(v['to'])
                edges += 1
    if edges < 500:
        raise tlc.TlcError('no state graph')
    check.cover('model edges', edges)
    init = '<<TRUE, [open |-> FALSE, size |-> 0, off |-> 0]>>'
    assert init in g, list(g)[:3]
    out, rng = [], check.rng
    for w in gen.walks(g, rng, maxlen, keep, init=init):
        steps = [('start', 0, 'ok')]
        size = None
        for i in w:
            e, c, a = i.split('|')
            if e == 'read':
                n = {'0': 0, '1': 1, '2': 2, '5': 10**6}[a]
                if size and n in (1, 2) and size > 3:
                    # scaled up: a third of the file, or about two thirds
                    n = -(-size // 3) * n
                steps.append(('read', 0, n))
            elif e == 'ffree':
                steps.append(('ffree', 0))
            else:
                op = CALLOP.get(c, c)
                p = answer(rng, a, op)
                if op == 'file':
                    size = None
                    if a.startswith('file'):
                        raw = b''.join(p['parts'])
                        size = len(raw) - raw.find(b'\n') - 1
                steps.append(('call', 0, op, arg(rng, op), 0, p))
                if op == 'file' and rng.random() < .5:
                    steps.append(('size', 0))
        steps.append(('free', 0))
        out.append(env.sc(steps, 'walk'))
    check.cover('walks over the model graph', len(out))
    return out

def reads(rng, size, slot):
    """read to the end and beyond"""
    k = rng.choice(['one', 'all', 'exact', 'blocks', 'mixed', 'zero'])
    out = [('size', slot)]
    if k == 'one' and size <= 60:
        out += [('read', slot, 1)] * (size + 2)
    elif k == 'all':
        out += [('read', slot, size + rng.choice([1, 1000, 10**6])), ('read', slot, 10)]
    elif k == 'exact':
        out += [('read', slot, size), ('read', slot, 1), ('read', slot, 0)]
    elif k == 'blocks':
        n = max(1, rng.choice([7, 16, 512, 4096, 16384, size // 3 + 1, size - 1]))
        out += [('read', slot, n)] * min(60, size // n + 3)
    elif k == 'zero':
        out += [('read', slot, 0), ('read', slot, 5), ('read', slot, 0), ('read', slot, size), ('read', slot, 0), ('read', slot, 7)]
    else:
        got = 0
        while got <= size and len(out) < 50:
            n = rng.choice([0, 1, 2, 3, 100, size // 2, size, 5000])
            out.append(('read', slot, n))
            got += n
        out += [('read', slot, 10**6), ('read', slot, 3)]
    return out

def delivery(env, check, n):
    rng, out = check.rng, []
    for i in range(n):
        steps = [('start', 0, 'ok')]
        pend = []
        for j in range(rng.randint(1, 6)):
            size = rng.choice(gen.SIZES + [100000, 131072, 250000] * check.thorough + [70000])
            c = gen.content(rng, size, rng.choice(['text', 'bin', 'bin', 'bin']))
            slot = rng.randrange(3)
            pend = [p for p in pend if p[1] != slot]
            steps.append(('call', 0, 'file', rng.choice(ARGS), slot, dict(parts=split(rng, msg('FILECONT', c)))))
            pend += reads(rng, size, slot)
            if rng.random() < .5:
                steps.append(('call', 0, 'feature', b'f', 0, answer(rng, rng.choice(['yes', 'no', 'error']), 'feature')))
            # reads of several files interleaved, each in its own order
            while pend and rng.random() < .9:
                s = rng.choice([p[1] for p in pend])
                k = next(x for x, p in enumerate(pend) if p[1] == s)
                steps.append(pend.pop(k))
            if rng.random() < .2:
                steps.append(('ffree', slot))
                pend = [p for p in pend if p[1] != slot]
                steps += [('size', slot), ('read', slot, 3)]
        if rng.random() < .4:
            steps.append(('free', 0))
        steps += pend
        steps.append(('free', 0))
        out.append(env.sc(steps, 'delivery'))
    return out

def two(env, check, n):
    """two executables used by one program"""
    rng, out = check.rng, []
    for i in range(n):
        steps = [('start', 0, 'ok'), ('start', 1, 'ok')]
        up = [True, True]
        for j in range(rng.randint(4, 14)):
            k = rng.randrange(2)
            op = rng.choice(OPS)
            a = rng.choice(['yes', 'no', 'error', 'v1', 'file3', 'file0', 'file1', 'notsimple'] + ['gone'] * (j > 5))
            p = answer(rng, a, op) if up[k] else dict(parts=[], complete=False)
            if a == 'gone':
                up[k] = False
            steps.append(('call', k, op, arg(rng, op), k, p))
            if rng.random() < .3:
                steps += [('read', rng.randrange(2), rng.choice([1, 3, 10000])), ('size', rng.randrange(2))]
        order = [0, 1]
        rng.shuffle(order)
        steps.append(('free', order[0]))
        k = order[1]
        steps.append(('call', k, 'lib', b'/l', 0, answer(rng, 'yes') if up[k] else dict(parts=[], complete=False)))
        steps.append(('free', k))
        out.append(env.sc(steps, 'two executables'))
    return out

def fuzz_replies(env, check, n):
    """arbitrary answers in one record each"""
    rng, out = check.rng, []
    for i in range(n):
        steps = [('start', 0, 'ok')]
        for j in range(25):
            raw = gen.fuzz(rng, ['a.moc', 'sub/x'], '/L')[:16384]
            if rng.random() < .5:
                w = rng.choice(['YES', 'NO', 'FILECONT', 'ERROR', 'NOTSIMPLE', 'VERSION', 'TOOLLIST'])
                data = rng.choice([b'', b'abc', rng.randbytes(50)])
                raw = (w + rng.choice(['', ' ', ' 1', ' 3', ' 50', ' 0', ' 1 3', ' 5 0', ' 2 50', ' 3abc', ' +3', ' 03', ' -3', ' x', ' 3 x', ' 99999999999999999999', ' 4294967299', ' 4294967297', ' 18446744073709551615', ' 9223372036854775807'])
                       + rng.choice(['\n', '\n', '\n', '', '\r\n', ' \n', '\n\n'])).encode() + data
            op = rng.choice(OPS)
            m = session.classify(raw)
            p = dict(parts=[raw])
            # a message that promises more than it has leaves the call waiting: the executable ends there
            last = m['a'][-1] if m['a'] else None
            if not raw:
                continue
            if FORM.get(m['w']) in ('L', 'NL') and last and (last['t'] == 'h' and last['v'] > 0 or last['t'] in 'il' and last['v'] > m['dl']):
                p.update(end='eof', complete=False)
            steps.append(('call', 0, op, arg(rng, op), 0, p))
            if op == 'file' and rng.random() < .3:
                steps += [('size', 0), ('read', 0, rng.choice([1, 10, 10000]))]
            if p.get('end'):
                break
        steps.append(('free', 0))
        out.append(env.sc(steps, 'fuzz'))
    return out

def c09(check):
    env = Env(check)
    check.model('MCTool')
    check.model('Link')
    scs = graph_scenarios(env, check)
    scs += delivery(env, check, check.n(150, 1500))
    scs += two(env, check, check.n(40, 300))
    scs += fuzz_replies(env, check, check.n(120, 2000))
    rng = check.rng
    for a in ARGS:
        for op in OPS[1:]:
            scs.append(env.sc([('start', 0, 'ok'), ('call', 0, op, a, 0, answer(rng, rng.choice(['yes', 'error', 'no', 'file3']), op)),
                               ('call', 0, 'version', (1, 2), 0, answer(rng, 'v1')), ('free', 0)], 'arg %s %d' % (op, len(a))))
    for t in TEXTS:
        for op in OPS:
            for a in (b'NO %d\n' % len(t) + t, b'ERROR 7 %d\n' % len(t) + t):
                scs.append(env.sc([('start', 0, 'ok'), ('call', 0, op, arg(rng, op), 0, dict(parts=split(rng, a))), ('call', 0, 'feature', b'x', 0, answer(rng, 'yes')), ('free', 0)], 'text %s %d' % (op, len(t))))
    check.conform('TraceTool', scs, tooldrv.run, sig, corrupt)

# ---- C10
def start_failures(env, check, d):
    """programs that cannot be a licensing executable"""
    out = []
    def mk(name, data, mode):
        f = os.path.join(d, name)
        with open(f, 'wb') as h:
            h.write(data)
        os.chmod(f, mode)
        return f
    os.makedirs(os.path.join(d, 'adir'), exist_ok=True)
    bad = {'missing': os.path.join(d, 'nothing'), 'empty name': '', 'missing dir': os.path.join(d, 'no', 'lve'), 'directory': os.path.join(d, 'adir'),
           'not executable': mk('noexec', b'#!/bin/sh\nexec cat\n', 0o644), 'no format': mk('text', b'just text\n', 0o755), 'empty file': mk('empty', b'', 0o755),
           'bad interpreter': mk('interp', b'#!/nonexistent/interp\n', 0o755), 'exits at once': mk('true', b'#!/bin/sh\nexit 0\n', 0o755),
           'fails': mk('false', b'#!/bin/sh\nexit 1\n', 0o755), 'talks text': mk('echo', b'#!/bin/sh\necho hello world; echo hello hello hello\n', 0o755),
           'reads and exits': mk('rd', b'#!/bin/sh\nhead -c 10 >/dev/null\n', 0o755), 'echoes': mk('cat', b'#!/bin/sh\nexec head -c 300\n', 0o755),
           'truncated elf': mk('elf', open(env.b['plain'] + '/vf_relay', 'rb').read()[:200], 0o755), 'file as dir': os.path.join(d, 'text', 'x'),
           'closes output': mk('half', b'#!/bin/sh\nexec >&-\nexec head -c 100000\n', 0o755), 'killed': mk('kill', b'#!/bin/sh\nkill -9 $$\n', 0o755)}
    for n, f in bad.items():
        for rep in range(check.n(2, 6)):
            out.append(env.sc([('start', 0, ('exe', f)), ('start', 0, 'ok'), ('call', 0, 'lib', b'/x', 0, dict(parts=[b'YES\n'])), ('free', 0)], 'start: ' + n))
            out.append(env.sc([('start', 0, 'ok'), ('start', 1, ('exe', f)), ('call', 0, 'version', (1, 2), 0, dict(parts=[b'VERSION 1\n'])), ('free', 0)], 'start second: ' + n))
    return out

def handshake_losses(env, check):
    out, rng = [], check.rng
    for tls12 in (False, True):
        hows = [('die', 'hello', None, e) for e in ('eof', 'crash', 'exit', 'half')] + [('die', 'noread'), ('die', 'alert')]
        hows += [('die', 'junk', j) for j in (b'hello world\n', bytes(5), bytes(3000), b'\x16\x03\x01\x00', b'\x16\x03\x03\xff\xff' + b'z' * 2000, b'\x15\x03\x03\x00\x02\x01\x00', b'HTTP/1.0 400\r\n\r\n')]
        for fl in ((1, 2) if tls12 else (1,)):
            for fr in (0, .001, .1, .3, .5, .7, .9, .99) + ((1.0,) if fl == 1 and tls12 else ()):
                hows.append(('die', 'flight', (fl, fr), rng.choice(['eof', 'crash', 'exit'])))
        # the whole of the last flight: the tool may or may not notice
        hows.append(('may', 'flight', (2 if tls12 else 1, 1.0), 'eof'))
        for h in hows:
            for rep in range(check.n(1, 4)):
                s = env.sc([('start', 0, h)] + ([('call', 0, 'version', (1, 1), 0, dict(parts=[], complete=False))] if h[0] == 'may' else [])
                           + [('start', 1, 'ok'), ('call', 1, 'file', b'f', 0, answer(rng, 'file3')), ('read', 0, 5), ('free', 1)], 'handshake %s' % (h[1:3],))
                s['tls12'] = tls12
                out.append(s)
    return out

def crash_points(env, check):
    """every call x every point of the conversation at which the executable goes away"""
    out, rng = [], check.rng
    later = lambda k: [('call', 0, op, arg(rng, op), 1, dict(parts=[], complete=False)) for op in rng.sample(OPS, k)]
    for op in OPS:
        good = {'version': b'VERSION 1\n', 'file': msg('FILECONT', b'0123456789' * 30)}.get(op, b'YES\n')
        answers = [good, msg('ERROR', b'some text', n=6)]
        if op in ('feature', 'license'):
            answers.append(msg('NO', b'refused text'))
        if op == 'file':
            answers += [msg('FILECONT', b'F' * 50000), msg('FILECONT', b'')]
        for raw in answers:
            nl = raw.find(b'\n') + 1
            pts = [('before', None), ('nothing', [])]
            pts += [('cut', [raw[:n]]) for n in sorted({1, nl // 2, nl - 2, nl - 1} - {0}) if not (raw.startswith(b'VERSION') and n > 8)]
            if len(raw) > nl:
                pts += [('cut', [raw[:nl]]), ('cut', [raw[:nl], raw[nl:nl + 1]]), ('cut', [raw[:nl + 1]]), ('cut', [raw[i:i + 16384] for i in range(0, len(raw) - 1, 16384)][:-1] + [raw[(len(raw) - 2) // 16384 * 16384:len(raw) - 1]])]
            pts += [('full', [raw[i:i + 16384] for i in range(0, len(raw), 16384)])]
            for p, parts in pts:
                parts = [x for x in parts or [] if x]
                for end in ('eof', 'notify', 'crash', 'exit', 'half'):
                    if end == 'half' and p == 'full':
                        continue
                    for trail in ((b'', b'\x17\x03\x03\x00\x40ab') if p in ('cut', 'nothing') and end == 'eof' else (b'',)):
                        plan = dict(parts=parts, end=end, complete=p == 'full', early=p == 'before', trail=trail)
                        st = [('start', 0, 'ok')]
                        if rng.random() < .7:
                            st += [('call', 0, 'file', b'first', 0, answer(rng, 'file3'))]
                        st += [('call', 0, op, arg(rng, op), 1 if op == 'file' else 0, plan)] + later(rng.choice([1, 2, 4])) + [('size', 0), ('read', 0, 10), ('read', 1, 10), ('read', 0, 10**6)]
                        if rng.random() < .3:
                            st += [('start', 1, 'ok'), ('call', 1, 'lib', b'/x', 0, answer(rng, 'yes')), ('free', 1)]
                        st += [('free', 0), ('read', 0, 3)]
                        out.append(env.sc(st, 'crash %s at %s (%s) %s' % (op, p, sum(map(len, parts)), end)))
        for end in ('eof', 'notify', 'crash', 'exit'):
            out.append(env.sc([('start', 0, 'ok'), ('drop', 0, end), ('call', 0, op, arg(rng, op), 0, dict(parts=[], complete=False))] + later(3) + [('free', 0)], 'crash between calls %s %s' % (op, end)))
            out.append(env.sc([('start', 0, 'ok'), ('call', 0, 'version', (1, 2), 0, answer(rng, 'v1')), ('drop', 0, end), ('free', 0), ('start', 0, 'ok'), ('call', 0, op, arg(rng, op), 0, answer(rng, 'error')), ('free', 0)],
                              'free after crash %s %s' % (op, end)))
    return out

def family(tag, but=()):
    """the live processes which inherited VF_RUN=tag (whoever their parent is), oldest first"""
    out = []
    for x in os.listdir('/proc'):
        if x.isdigit() and int(x) not in but:
            try:
                if b'\0VF_RUN=%s\0' % tag.encode() not in b'\0' + open('/proc/%s/environ' % x, 'rb').read() + b'\0':
                    continue
                s = open('/proc/%s/stat' % x).read().rsplit(')', 1)[1].split()
                if s[0] not in 'ZX':
                    out.append((int(s[19]), int(x)))
            except OSError:
                pass
    return [p for _, p in sorted(out)]

def subreaper():
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)

def reap(pid, wait):
    """-> (exit status or None, hung)"""
    end = time.time() + wait
    while time.time() < end:
        try:
            p, st = os.waitpid(pid, os.WNOHANG)
        except ChildProcessError:
            try:
                s = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0]
            except OSError:
                return 0, False
            if s in 'ZX':
                return 0, False
            p = 0
        if p:
            return os.waitstatus_to_exitcode(st), False
        time.sleep(.005)
    try:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    except OSError:
        pass
    return -1000, True

def lmcount(f):
    d = open(f).read() if os.path.exists(f) else ''
    return len(re.findall(r'^new 0 |^new ', d, re.M)), len(re.findall(r'^free ', d, re.M))

def run_exe_gone(sc):
    """the Python side is the tool; it disappears at sc['at']"""
    d = os.path.join(build.scratch(), 's', 'g%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        lm = os.path.join(d, 'lm')
        l = Lve(sc['exe'], 'tool0', env={'VF_LM_GRANT': '*', 'VF_LM_IN_FAIL': '', 'VF_LM_NEW_FAIL': '0'}, tls12=sc['tls12'], lmlog=lm, cwd=d)
        at, quiet = sc['at'], False
        if at[0] == 'start':
            time.sleep(at[1])
        elif at[0] == 'raw':
            l.send_raw(at[1])
        elif at[0] == 'hello':
            try:
                l.o.do_handshake()
            except Exception:
                pass
            b = l.outb.read()
            l.send_raw(b[:int(len(b) * at[1])])
            if len(at) > 2:
                l._pull()
        elif at[0] == 'finish':
            # the whole handshake but the tool's last flight
            end = time.time() + 10
            n = 0
            while True:
                try:
                    l.o.do_handshake()
                    b = l.outb.read()
                    l.send_raw(b[:int(len(b) * at[1])])
                    break
                except Exception as e:
                    b = l.outb.read()
                    n += bool(b)
                    if n == 2:
                        l.send_raw(b[:int(len(b) * at[1])])
                        break
                    if b:
                        l.send_raw(b)
                    l._wait(end)
        else:
            l.handshake()
            for r in sc['pre']:
                l.call(r)
            if at[0] == 'idle':
                quiet = True
            elif at[0] == 'part':        # the beginning of a record
                l.o.write(at[1])
                b = l.outb.read()
                l.send_raw(b[:max(1, min(len(b) - 1, int(len(b) * at[2])))])
            elif at[0] == 'short':       # a record with less than was announced
                l.send(at[1])
            elif at[0] == 'asked':       # does not read the answer
                l.send(at[1])
                if at[2] is not None:
                    time.sleep(at[2])
        # gone
        if sc['order'] == 'notify':
            try:
                l.o.unwrap()
            except Exception:
                pass
            try:
                l.send_raw(l.outb.read())
            except Exception:
                pass
        os.close(l.fdr) if sc['order'] != 'in' else None
        try:
            l.p.stdin.close()
        except OSError:
            pass
        try:
            rc, hung = l.p.wait(tooldrv.TIMEOUT), False
        except subprocess.TimeoutExpired:
            rc, hung = -1000, True
            l.p.kill()
            l.p.wait()
        if sc['order'] == 'in':
            l.p.stdout.close()
        else:
            l.p.stdout = None
        l.err.seek(0)
        e = l.err.read().decode('latin1')
        news, frees = lmcount(lm)
        ev = [{'e': 'exe', 'hung': hung, 'san': 'ERROR: AddressSanitizer' in e, 'exit': rc, 'news': news, 'frees': frees, 'quiet': quiet}]
        return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': [sc['name'], 'exit=%s hung=%s news=%d frees=%d' % (rc, hung, news, frees)], 'hang': hung, 'stderr': e[-1500:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_real(sc):
    """the real tool library with a real executable; one of them is killed"""
    subreaper()
    d = os.path.join(build.scratch(), 's', 'r%d-%d' % (os.getpid(), sc['id']))
    os.makedirs(d)
    try:
        lm = os.path.join(d, 'lm')
        t = tooldrv.Tool(sc['tool'], {'VF_RUN': d, 'VF_LM_LOG': lm, 'VF_LM_GRANT': '*', 'ASAN_OPTIONS': tooldrv.ASAN + ':log_path=' + os.path.join(d, 'asan')}, cwd=d)
        ev, log, lve, hang = [], [], None, False
        stopped, first = [], None
        for st in sc['steps']:
            if not t.alive() and st[0] != 'tkill':
                break
            if st[0] == 'call':
                t.send(st[1])
                if len(st) > 2:          # killed during the call
                    time.sleep(st[2])
                    if lve:
                        os.kill(lve, signal.SIGKILL)
                l = t.line(time.time() + tooldrv.TIMEOUT)
                m = tooldrv.RES.match(l or '')
                ev.append({'e': 'call', 'alive': l != '', 'late': l is None, 'ok': bool(m and m.group(2) == 'ok'), 'err': bool(m and m.group(3))})
                log.append('%s -> %s' % (st[1][:40], (l or 'late')[:60]))
                if l is None:
                    hang = True
                    break
                if st[1].startswith('start'):
                    k = family(d, [t.p.pid])
                    lve = k[-1] if k else None
                    first = first or lve
                if len(st) > 2:
                    ev.append({'e': 'kill'})
                    log.append('killed during the call')
                    time.sleep(.02)
            elif st[0] in ('kill', 'kill0'):
                pid = first if st[0] == 'kill0' else lve
                if pid:
                    os.kill(pid, st[1])
                if st[2]:
                    time.sleep(st[2])
                ev.append({'e': 'kill'})
                log.append('executable killed')
            elif st[0] == 'stop':        # this executable stays as it is until the end
                if lve:
                    os.kill(lve, signal.SIGSTOP)
                    stopped.append(lve)
                log.append('executable stopped')
            elif st[0] == 'tkill':
                if st[1] is not None:
                    t.send(st[1])
                    time.sleep(st[2])
                k = family(d, [t.p.pid])
                t.p.send_signal(signal.SIGKILL)
                t.p.wait()
                k += [x for x in family(d, [t.p.pid]) if x not in k]
                log.append('program killed')
                for pid in k:
                    if pid in stopped:
                        continue
                    rc, hung = reap(pid, tooldrv.TIMEOUT)
                    hang = hang or hung
                    news, frees = lmcount(lm)
                    san = any('ERROR: Addr' in open(os.path.join(d, f), errors='replace').read() for f in os.listdir(d) if f.startswith('asan'))
                    ev.append({'e': 'exe', 'hung': hung, 'san': san, 'exit': rc, 'news': news, 'frees': frees, 'quiet': st[1] is None and len(k) == 1})
                    log.append('executable: exit=%s hung=%s news=%d frees=%d' % (rc, hung, news, frees))
        if t.p.returncode is None:
            rc = t.close()
            san = any('ERROR: Addr' in open(os.path.join(d, f), errors='replace').read() for f in os.listdir(d) if f == 'asan.%d' % t.p.pid)
            ev.append({'e': 'tool', 'hung': rc is None, 'san': san, 'exit': -1000 if rc is None else rc})
            log.append('program ends: %s' % rc)
            hang = hang or rc is None
        else:
            t.p.stdout.close()
        for pid in stopped:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            reap(pid, 2)
        if lve and lve not in stopped:
            reap(lve, 2)
        t.err.seek(0)
        e = t.err.read().decode('latin1')
        t.err.close()
        if not ev:
            ev = [{'e': 'kill'}]
        return {'id': sc['id'], 'name': sc['name'], 'ev': ev, 'log': log, 'hang': hang, 'stderr': e[-1500:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def gone_scenarios(env, check):
    rng, out, real = check.rng, [], []
    libs = {}
    for b in env.b:
        libs[b] = session.Lib(env.b[b], {'package.moc': b'package P end P;', 'a.moc': b'model a end a;' * 9, 'big.txt': b'0123456789abcdef' * 120000, 'big.moc': b'model big end big;' * 20000},
                              os.path.join(build.scratch(), 'GL-' + b))
    def add(name, at, pre=(), order=None):
        for b in env.b:
            for o in ([order] if order else ['both', 'in', 'notify']):
                env.n += 1
                out.append(dict(id=env.n, exe=os.path.join(env.b[b], build.LVE), tls12=env.n % 3 == 0, at=at, pre=[x(b) if callable(x) else x for x in pre], order=o, name='%s %s %s' % (name, o, b)))
    V, L = msg('VERSION', n=1), lambda b: msg('LIB', libs[b].path.encode())
    full = [V, L, msg('FEATURE', b'g')]
    for t in (0, .005, .05):
        add('gone at start', ('start', t))
    for raw in (b'', b'x', b'\x16\x03\x01', b'hello\n' * 100, bytes(300), b'\x16\x03\x01\x40\x00' + b'q' * 500):
        add('gone after %r' % raw[:8], ('raw', raw))
    for fr in (.1, .5, .9, 1):
        add('gone in the handshake %s' % fr, ('hello', fr))
        add('gone in the handshake, answered %s' % fr, ('hello', 1, 1))
    for fr in (0, .2, .6, .95):
        add('gone in the last flight %s' % fr, ('finish', fr))
    for pre in ([], [V], [V, L], full, full + [msg('FILE', b'a.moc')], full + [msg('FILE', b'nope')]):
        add('gone after %d requests' % len(pre), ('idle',), pre)
        for fr in (.01, .2, .5, .8, .99):
            add('gone inside record %s after %d' % (fr, len(pre)), ('part', msg('FILE', b'a.moc'), fr), pre)
        for r in (b'FILE 5\na.mo', b'LIB 100\n/x', b'FEATURE 3\nab', b'VERSION', b'FI', b'FILE'):
            add('gone after a short message', ('short', r), pre)
        for r in (msg('FILE', b'big.txt'), msg('FILE', b'big.moc'), msg('FEATURE', b'g'), V):
            for t in (None, .003, .05):
                add('gone without reading the answer', ('asked', r, t), pre, rng.choice(['both', 'notify']))
    # real tool library
    hx = lambda s: (s if isinstance(s, bytes) else s.encode()).hex()
    for b in env.b:
        exe = os.path.join(env.b[b], build.LVE)
        pre = [('call', 'start ' + hx(exe)), ('call', 'version 1 1'), ('call', 'lib ' + hx(libs[b].path)), ('call', 'feature ' + hx('f'))]
        def addr(name, steps):
            env.n += 1
            real.append(dict(id=env.n, tool=env.b[b] + '/vf_tool', steps=steps, name=name + ' ' + b))
        after = [('call', x) for x in ('file 0 ' + hx('a.moc'), 'feature ' + hx('q'), 'version 1 1', 'license ' + hx('p'), 'retfeature ' + hx('f'), 'retlicense ' + hx('f'), 'lib ' + hx('/x'))]
        for n in range(1, 5):
            for sg in (signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV):
                for w in (0, .05):
                    a = list(after)
                    rng.shuffle(a)
                    if sg != signal.SIGKILL and w == 0:
                        w = .05
                    addr('executable killed', pre[:n] + [('kill', sg, w or .02)] + a + [('call', 'free')][:0])
            addr('program killed', pre[:n] + [('tkill', None, 0)])
            for op in ('file 0 ' + hx('big.txt'), 'file 0 ' + hx('big.moc'), 'feature ' + hx('z')):
                for w in (0, .001, .004, .02):
                    if n >= 2:
                        addr('program killed during a call', pre[:n] + [('tkill', op, w)])
                        addr('executable killed during a call', pre[:n] + [('call', op, w)] + after[:3])
        for w in (0, .002, .01, .03):
            addr('program killed while starting', [('tkill', 'start ' + hx(exe), w)])
        # two executables
        addr('program with two executables killed', pre + [('call', 'sel 1')] + pre + [('tkill', None, 0)])
        # each executable notices the end of the program by itself, whatever the others do
        for n in (1, 3, 4):
            addr('program with a stuck executable killed', pre[:n] + [('call', 'sel 1')] + pre[:n] + [('stop',), ('tkill', None, 0)])
            addr('program with two stuck executables killed', pre[:n] + [('call', 'sel 1')] + pre[:n] + [('stop',), ('call', 'sel 2')] + pre[:n] + [('stop',), ('tkill', None, 0)])
            addr('program with a stuck first executable killed', pre[:n] + [('stop',), ('call', 'sel 1')] + pre[:n] + [('tkill', None, 0)])
            addr('first executable killed while a second is stuck', pre[:n] + [('call', 'sel 1')] + pre[:1] + [('stop',), ('call', 'sel 0'), ('kill0', signal.SIGKILL, .02)] + after)
        addr('one of two executables killed', pre + [('call', 'sel 1')] + pre + [('kill', signal.SIGKILL, .02)] + after)
    return out, real

def gone_corrupt(tr, rng):
    e = rng.choice(tr['ev'])
    if e['e'] == 'exe':
        e['hung'] = True
    elif e['e'] == 'call':
        e['late'] = True
    elif e['e'] == 'tool':
        e['exit'] = -11
    else:
        return None
    return tr

def gsig(tr, info):
    return json.dumps(tr['ev'][info['l'] - 1])[:300] if info.get('l') else 'no explanation'

def c10(check):
    env = Env(check, real=True)
    check.model('Link')
    for c in ('LinkKeepsWriteEnd.cfg', 'LinkIgnoresEnd.cfg'):
        r = tlc.run('Link', c)
        if r['rc'] != 13:
            raise tlc.TlcError('%s: the hang was not found by TLC\n%s' % (c, r['out'][-1500:]))
        check.cover('mistakes found by the liveness properties of Link')
    d = os.path.join(build.scratch(), 'progs')
    os.makedirs(d)
    scs = start_failures(env, check, d) + handshake_losses(env, check) + crash_points(env, check)
    check.conform('TraceTool', scs, tooldrv.run, sig, corrupt, label='executable gone')
    out, real = gone_scenarios(env, check)
    check.conform('TraceGone', out, run_exe_gone, gsig, gone_corrupt, label='tool gone')
    check.conform('TraceGone', real * check.n(1, 6), run_real, gsig, gone_corrupt, label='real processes killed')

ALL = {'C09': c09, 'C10': c10}
