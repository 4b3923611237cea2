"""Runs of packagetool -> events for TracePackage.

A scenario is a dict: id, name, bin (directory of the build), lib (name of the source directory), src {path: (bytes, mode)},
dirs (further, possibly empty, directories), lock (directories that cannot be read), lves {name: (bytes, mode)},
links {path: target} (symbolic links in the source; src has what they lead to), fault "op:n" (see harness/shim/fault.c),
notype, extra None | bytes (a file) | {path: (bytes, mode)}, block, files {name: bytes} in the directory "f", args (texts with
@R for the scenario's directory), limit, zipfail, old (a container of that name is there before), tmp (TMPDIR is set)."""
import os, io, re, json, shutil, signal, resource, subprocess, zipfile, stat
import xml.etree.ElementTree as ET
from . import build
from .session import q, cid
from .checks_crypt import leaks
from .lve import Lve, msg

def is_mo(n):
    return n.lower().endswith('.mo')

def tree(root):
    """everything below root: path -> (kind, mode, bytes)"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            b = None
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    b = f.read()
            out[os.path.relpath(p, root)] = (st.st_mode, b)
    return out

def write(root, files, uid):
    for p, (b, m) in files.items():
        f = os.path.join(root, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as h:
            h.write(b)
        os.chmod(f, m)

def canon(el):
    el.tail = None
    return ET.canonicalize(ET.tostring(el, encoding='unicode'), strip_text=True)

def elements(raw):
    """the elements in a tool or dependency file after its first line"""
    rest = raw.split(b'\n', 1)[1] if b'\n' in raw else b''
    return [q(canon(c)) for c in ET.fromstring(b'<r>' + rest + b'</r>')]

KNOWN = {'title', 'description', 'version', 'language', 'copyright', 'license', 'encryption', 'icon'}
def manifest(raw):
    m = dict(wf=False, fields=[], exes=[], encryption=False, icons=[], others=[])
    if raw is None:
        return m
    try:
        a = ET.fromstring(raw)
    except (ET.ParseError, ValueError, LookupError):
        return m
    m['wf'] = a.tag == 'archive'
    def f(k, v):
        m['fields'].append({'k': k, 'v': q(v)})
    for e in a:
        if e.tag == 'manifest':
            for k, v in e.attrib.items():
                f('manifest@' + k, v)
        elif e.tag == 'library':
            for k, v in e.attrib.items():
                f('library@' + k, v)
            for x in e:
                if x.tag in ('title',):
                    f(x.tag, x.text or '')
                elif x.tag in ('description', 'copyright', 'license'):
                    f(x.tag, (x.text or '').strip('\n\t'))
                elif x.tag in ('version', 'language') and not list(x):
                    for k, v in x.attrib.items():
                        f(x.tag + '@' + k, v)
                elif x.tag == 'encryption':
                    m['encryption'] = True
                    for y in x:
                        m['exes'].append({k: q(y.attrib.get(k, '')) for k in ('path', 'platform', 'licensing')})
                        if y.tag != 'executable' or set(y.attrib) != {'path', 'platform', 'licensing'}:
                            m['wf'] = False
                elif x.tag == 'icon':
                    m['icons'].append([q(c) for c in x.attrib.get('file', '').split('/')])
                else:
                    m['others'].append(q(canon(x)))
        else:
            f('archive/' + e.tag, '')
    return m

def run(sc):
    root = os.path.join(build.scratch(), 'p%d-%d' % (os.getpid(), sc['id']))
    uid = 20000 + sc['id'] % 30000
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return _run(sc, root, uid)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', root], stderr=subprocess.DEVNULL)
        shutil.rmtree(root, ignore_errors=True)
        for p in staging(uid):
            shutil.rmtree(p, ignore_errors=True)

def staging(uid):
    """what the run left in /tmp: only it has this user id"""
    out = []
    for e in os.scandir('/tmp'):
        try:
            if e.stat(follow_symlinks=False).st_uid == uid:
                out.append(e.path)
        except OSError:
            pass
    return out

def decrypt(bin_, base, paths):
    """the text the licensing executable of this build delivers for files of an unpacked container"""
    out = {}
    if not paths:
        return out
    l = Lve(os.path.join(bin_, build.LVE), 'tool0', env={'VF_LM_GRANT': '*'})
    try:
        if l.handshake() and l.call(msg('VERSION', n=1)).c == 'VERSION' and l.call(msg('LIB', base.encode())).c == 'YES':
            for p in paths:
                r = l.call(msg('FILE', '/'.join(p).encode()))
                out[p] = r.data if r.c == 'FILECONT' else None
                if r.c in ('EOF', 'NONE', 'BAD'):
                    break
    finally:
        l.close('eof')
    return out

def where(op, p, root, name):
    """the place an operation failed at"""
    for side, top in (('source', root + '/src/' + name), ('tool', root + '/tool'), ('given', root + '/f'), ('cwd', root + '/cwd')):
        if p == top or p.startswith(top + '/'):
            return {'op': op, 'side': side, 'p': [q(x) for x in p[len(top) + 1:].split('/') if x]}
    if p.startswith('/tmp/') and not p.startswith(root):       # /tmp/<staging>/<library>/...
        c = p.split('/')[3:]
        return {'op': op, 'side': 'staging', 'p': [q(x) for x in c[1:]]} if c[:1] == [name] else {'op': op, 'side': 'temp', 'p': []}
    return {'op': op, 'side': 'other', 'p': []}

def _run(sc, root, uid):
    lib = sc['lib']
    j = lambda *p: os.path.join(root, *p)
    for d in ('src', 'tool', 'tool/LVE', 'cwd', 'f', 'tmp'):
        os.makedirs(j(d))
    os.makedirs(j('src', lib))
    write(j('src', lib), sc['src'], uid)
    for p, t in sc.get('links', {}).items():
        at = j('src', lib, *p)
        if os.path.isdir(at) and not os.path.islink(at):
            shutil.rmtree(at)
        elif os.path.lexists(at):
            os.unlink(at)
        os.makedirs(os.path.dirname(at), exist_ok=True)
        os.symlink(t.replace('@R', root), at)
    for d in sc.get('dirs', ()):
        os.makedirs(j('src', lib, *d), exist_ok=True)
    write(j('tool/LVE'), {(n,): x for n, x in sc.get('lves', {}).items()}, uid)
    ex = sc.get('extra')
    if isinstance(ex, bytes):
        write(j('tool'), {('.library',): (ex, 0o644)}, uid)
    elif ex is not None:
        os.makedirs(j('tool/.library'))
        write(j('tool/.library'), ex, uid)
        if sc.get('block'):
            os.makedirs(j('tool/.library/manifest.xml'))
    for n, b in sc.get('files', {}).items():
        with open(j('f', n), 'wb') as f:
            f.write(b)
        if n in sc.get('deny', ()):
            os.chmod(j('f', n), 0)
    if sc.get('old'):
        with open(j('cwd', lib + '.mol'), 'wb') as f:
            f.write(b'something that was there before')
    exe = j('tool/packagetool')
    os.link(os.path.join(sc['bin'], 'packagetool'), exe)
    for d, ds, fs in os.walk(root):
        os.chown(d, uid, uid)
        for n in fs:
            if os.path.join(d, n) != exe:
                os.lchown(os.path.join(d, n), uid, uid)
    os.chmod(build.scratch(), 0o711)
    for d in sc.get('lock', ()):
        os.chmod(j('src', lib, *d), 0)
    args = [a.replace('@R', root) for a in sc['args']]
    cwd = j('cwd')
    env = {k: v for k, v in os.environ.items() if not k.startswith('SEMLA') and not k.startswith('VF_') and k != 'TMPDIR'}
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
    env['HOME'] = cwd
    if sc.get('tmp'):
        env['TMPDIR'] = j('tmp')
    if sc.get('zipfail'):
        env['VF_ZIP_FAIL'] = sc['zipfail']
    if sc.get('fault') or sc.get('notype'):
        env['LD_PRELOAD'] = build.shim('fault')
        env['LANG'] = 'C.UTF-8'
    flog = root + '.log'
    if sc.get('fault'):
        env.update(VF_FAULT=sc['fault'], VF_FAULT_IN=root + '|/tmp/|../', VF_FAULT_NOT='.mol', VF_FAULT_LOG=flog)
        if sc['fault'].endswith(':0'):
            env['VF_FAULT_ALL'] = '1'
        open(flog, 'w').close()
        os.chown(flog, uid, uid)
    if sc.get('notype'):
        env['VF_NOTYPE'] = '1'
    limit = sc.get('limit', -1)
    before = tree(root)
    out, err, hung = b'', b'', False
    def pre():
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)
        os.umask(sc.get('umask', 0o022))
        if sc.get('nofile'):
            resource.setrlimit(resource.RLIMIT_NOFILE, (sc['nofile'], sc['nofile']))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit >= 0:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = subprocess.Popen([os.fsencode(exe)] + [os.fsencode(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd, preexec_fn=pre, restore_signals=False)
    try:
        out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        hung = True
    after = tree(root)
    # what the command line names
    full = [os.path.join(cwd, a) for a in args]
    dirs = [a for a, f in zip(args, full) if a and '\0' not in a and os.path.isdir(f)]
    exist = [a for a, f in zip(args, full) if a and '\0' not in a and os.path.exists(f)]
    opt = dict(zip(args[::2], args[1::2]))
    lp = opt.get('-librarypath', '')
    name = os.path.basename(lp.rstrip('/'))
    name = '' if name in ('.', '..') else name
    arcname = (name or lib) + '.mol'
    arc = 'cwd/' + arcname
    locked = [tuple(d) for d in sc.get('lock', ())]
    def frec(p, b, m, readable=True):
        return {'p': [q(x) for x in p], 'c': cid(b), 'size': len(b), 'read': bool(m & 0o400) and readable, 'mo': is_mo(p[-1])}
    e = {'args': [q(a) for a in args], 'dirs': [q(a) for a in dirs], 'exist': [q(a) for a in exist], 'lib': q(name),
         'src': [frec(p, b, m, not any(p[:len(d)] == d for d in locked)) for p, (b, m) in sorted(sc['src'].items())],
         'lves': [frec((n,), b, m) for n, (b, m) in sorted(sc.get('lves', {}).items())],
         'extra': 'none' if ex is None else 'file' if isinstance(ex, bytes) else 'dir',
         'more': [frec(p, b, m) for p, (b, m) in sorted(ex.items())] if isinstance(ex, dict) else [],
         'block': bool(sc.get('block')), 'icon': q(os.path.basename(opt.get('-icon', ''))), 'limit': limit,
         'zipfail': bool(sc.get('zipfail')) or bool(sc.get('zipfull')),
         'text': 100 + sum(len(os.fsencode(v)) for k, v in opt.items() if k in ('-title', '-description', '-version', '-copyright', '-license')),
         'given': []}
    e['fault'] = []
    if sc.get('fault'):
        with open(flog, 'rb') as f:
            lines = [l.split(' ', 1) for l in f.read().decode('latin1').split('\n') if l]
        os.unlink(flog)
        if sc['fault'].endswith(':0'):
            return lines
        e['fault'] = [where(op, os.path.normpath(os.path.join(cwd, os.fsdecode(pth.encode('latin1')))), root, name) for op, pth in lines]
    if sc.get('long'):          # a path longer than the tool may be able to handle
        e['fault'].append({'op': 'long', 'side': 'source', 'p': []})
    e['mute'] = any(k in opt and (os.path.isdir(os.path.join(cwd, opt[k])) or (os.path.exists(os.path.join(cwd, opt[k])) and not os.stat(os.path.join(cwd, opt[k])).st_mode & 0o400)) for k in ('-tools', '-dependencies'))
    for k in ('-tools', '-dependencies'):
        if k in opt and os.path.isfile(os.path.join(cwd, opt[k])):
            e['given'] += elements(open(os.path.join(cwd, opt[k]), 'rb').read())
    touched = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k != arc and k != 'cwd' and not k.startswith('tmp'))
    e['touched'] = [q(t) for t in touched]
    left = staging(uid) + [j('tmp', n) for n in os.listdir(j('tmp'))]
    e['staging'] = bool(left)
    e['exit'], e['hung'] = p.returncode, hung
    e['san'] = b'AddressSanitizer' in err
    old, new = before.get(arc), after.get(arc)
    e['arch'] = 'none' if new is None and old is not None else 'asbefore' if new == old or (new and old and new[1] == old[1]) else 'new'
    e['top'], e['entries'], mraw, got = True, [], None, []
    if e['arch'] == 'new':
        try:
            z = zipfile.ZipFile(io.BytesIO(new[1]))
            assert z.testzip() is None
            names = z.namelist()
            got = [(n, z.read(n)) for n in names if not n.endswith('/')]
        except Exception as x:
            e['arch'], got = 'bad', []
        top = name + '/'
        e['top'] = all(n.startswith(top) for n, _ in got)
        got = [(tuple(n[len(top):].split('/')), b) for n, b in got if n.startswith(top)]
        un = j(sc.get('place', 'unpacked'), name)
        os.makedirs(un)
        mocs, plain = [], {}
        for pth, b in got:
            if any(c in ('', '.', '..') for c in pth):
                e['top'] = False
                continue
            f = os.path.join(un, *pth)
            try:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'wb') as h:
                    h.write(b)
            except OSError:
                e['top'] = False
            if pth == ('.library', 'manifest.xml'):
                mraw = b
            if pth[-1].lower().endswith('.moc'):
                mocs.append(pth)
        dec = decrypt(sc['bin'], un, mocs) if not sc.get('then') else {}
        texts = dict((p, b) for p, (b, m) in sc['src'].items())
        if isinstance(ex, dict):
            texts.update((('.library',) + p, b) for p, (b, m) in ex.items())
        for pth, b in got:
            s = texts.get(pth[:-1] + (pth[-1][:-1],)) if pth in mocs else None
            e['entries'].append({'p': [q(c) for c in pth], 'c': cid(b), 'dec': cid(dec[pth]) if dec.get(pth) is not None else '',
                                 'leak': s is not None and leaks(s, b)})
    e['man'] = manifest(mraw)
    if sc.get('scan'):
        sc['scan']([out, err], [p for p, _ in got], got)
    if sc.get('then'):
        return sc['then'](sc, e, un if e['arch'] == 'new' else None, mraw or b'', root)
    lg = ['%s %s%s' % (lib[:40], [a.replace(root, '@R')[:80] for a in args], (' limit %d' % limit if limit >= 0 else '') + (' fails: %s' % e['fault'] if sc.get('fault') else '')),
          'exit %s, archive %s, %d entries, touched %s, staging left %s' % (e['exit'], e['arch'], len(e['entries']), touched[:5], e['staging'])]
    return {'id': sc['id'], 'name': sc['name'], 'ev': [e], 'log': lg, 'hang': hung, 'stderr': (out[-700:] + err[-1500:]).decode('latin1')}

def sig(tr, info):
    e = tr['ev'][0]
    x = info.get('expected') or {}
    if not isinstance(x, dict):
        x = {}
    t = 'exit=%s expected=%s arch=%s san=%s touched=%s staging=%s top=%s wf=%s' % (e['exit'], x.get('exit'), e['arch'], e['san'], e['touched'][:3], e['staging'], e['top'], e['man']['wf'])
    return t + ' missing=%s surplus=%s fields=%s' % (json.dumps(x.get('missing')), json.dumps(x.get('surplus')), json.dumps(x.get('fields')))
