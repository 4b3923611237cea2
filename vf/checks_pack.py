"""C12, C13, C14: packagetool."""
import os, json
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc, pack, gen, e2e
from . import checks_e2e as ce
from .session import cid
from .checks_crypt import content

LVES = ['lve_win32.exe', 'lve_win64.exe', 'lve_linux32', 'lve_linux64', 'lve_darwin64']
NAMES = ['package.mo', 'package.mo', 'a.mo', 'B.MO', 'c.Mo', 'package.order', 'readme.txt', '.hidden', 'x.moc', 'y.mos', 'z.mo.bak', 'noext', '.mo', 'mypackage.mo',
         'sp ace.mo', 'Gr\xf6\xdfe.mo', 'icon.png', 'lib.so', "q'uote.mo", 'a&b.mo', 'amo', 'e.', '..x', 'x.mo.mo', 'package.moc.txt', '[b].mo', 'package.mof', 'lve_linux64', 'manifest.xml',
         'n' * 200 + '.mo', '-dash.mo', '%s%n.mo', '.libraryx', 'x.library']
DIRS = ['Sub', 'Resources', 'sub.mo', 'sp ace', 'Gr\xf6\xdfe', '.hid', 'package', 'LVE', 'x.moc', 'd' * 60, 'Images', '.libraries', '%d']
VALUES = ['x', '1.0', '3.4.0', 'true', 'a b', '<tag>', '"quoted"', "it's", 'a & b', '&amp;', ']]>', 'Gr\xf6\xdfe \u20ac', '-title', '%s %n %d', 'a' * 300, 'w ' * 400 + 'e', '<', '>', '&', '"', "'",
          'two\nlines', 'tab\there', '<!-- c -->', '</library>', ' lead', 'trail ', '\\', 'C:\\x', '$HOME', '`x`', ';', '0', '\U0001f600', '<![CDATA[x]]>', 'a="b"', '&lt;', 'a\r\nb', 'x' * 5000,
          '--title', '-hh', 'h', '--helpx', '-help', 'false', '\u00a0', 'a\nb\nc\n d']
TEXTOPT = ['-enabled', '-title', '-description', '-build', '-date', '-copyright', '-license']

def mode(rng):
    return rng.choice([0o644, 0o644, 0o644, 0o600, 0o755, 0o444])

def library(rng, big=False):
    """-> src, further directories"""
    dirs = [()]
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        dirs.append(rng.choice(dirs) + (rng.choice(DIRS),))
    dirs = sorted(set(dirs))
    src = {}
    for d in dirs:
        for n in rng.sample(NAMES, rng.choice([0, 1, 2, 4, 6])):
            if n == 'x.moc' and rng.random() < .7:
                continue
            if d + (n,) not in dirs:
                src[d + (n,)] = (content(rng, rng.choice([70000, 300000]) if big and rng.random() < .1 else None), mode(rng))
    for p in list(src):          # a name and its encrypted form together are not specified
        if pack.is_mo(p[-1]) and (p[:-1] + (p[-1] + 'c',) in src or p[:-1] + (p[-1] + 'c',) in dirs):
            del src[p]
    if rng.random() < .25:
        src[('.library', 'manifest.xml')] = (b'old manifest', 0o644)
        src[('.library', 'old', 'x.mo')] = (b'model old end old;', 0o644)
    if rng.random() < .1:
        src[('.library', 'lve_linux64')] = (b'old executable', 0o755)
    # paths that are both file and directory cannot be
    for p in list(src):
        if any(x[:len(p)] == p and len(x) > len(p) for x in list(src) + dirs):
            del src[p]
    return src, [d for d in dirs if d]

def lves(rng, n=None):
    k = rng.sample(LVES, rng.choice([1, 1, 2, 3, 5]) if n is None else n)
    return {x: (content(rng, rng.choice([10, 300, 5000])) + x.encode(), rng.choice([0o755, 0o755, 0o644, 0o555])) for x in k}

def extra(rng):
    r = rng.random()
    if r < .5:
        return None
    if r < .55:
        return {}
    out = {('vendor', 'x.txt'): (b'vendor text', 0o644)}
    if rng.random() < .5:
        out[('more.mo',)] = (b'model more "in the metadata directory" end more;', 0o644)
    if rng.random() < .4:
        out[('manifest.xml',)] = (b'<archive/>', 0o644)
    if rng.random() < .4:
        out[('deep', 'er', 'n.bin')] = (content(rng), 0o644)
    if rng.random() < .2:
        out[('deep', 'package.mo')] = (b'package p end p;', 0o644)
    return out

def libname(rng, i):
    return rng.choice(['Lib%d', 'My Lib %d', 'L.mo%d', 'Gr\xf6\xdfe%d', 'lib-%d.x', "L'%d", 'L&%d', '.lib%d', '%d', 'L<%d>', 'n' * 190 + '%d', 'm' * 230 + '%d', 'TemporaryFolder%d', 'L"%d']) % i

def xml_file(rng, tag):
    n = rng.choice([0, 1, 2, 3])
    els = []
    for k in range(n):
        r = rng.random()
        if r < .3:
            els.append('<%s name="t%d" version="1.%d"/>' % (tag, k, k))
        elif r < .5:
            els.append('<%s name="t%d">\n   <sub a="1"/>\n   text &amp; text\n  </%s>' % (tag, k, tag))
        elif r < .65:
            els.append('<%s name="%s"/>' % (tag, 'v' * rng.choice([150, 180, 185, 186, 187, 200, 300, 1000])))
        elif r < .8:
            els.append('<%s\n\tname="Gr\xf6\xdfe \xff"\n\tversion="1">%%s %%n %s</%s>' % (tag, 't' * rng.choice([1, 198, 199, 200, 201, 400]), tag))
        else:
            els.append('<%s>%s</%s>' % (tag, '\n'.join('line %d' % i for i in range(rng.choice([2, 40]))), tag))
    sep = rng.choice(['\n', '\n', '\r\n', '\n\n', '\n    '])
    first = rng.choice(['<?xml version="1.0" encoding="utf-8"?>', '', '<?xml version="1.0"?><!-- ' + 'c' * rng.choice([10, 150, 180, 250]) + ' -->'])
    end = rng.choice(['\n', '\n', '', '\n\n'])
    return (first + sep + sep.join(els) + (end if els else '')).encode()

def valid(rng, i, **kw):
    """a request that has to succeed"""
    lib = libname(rng, i)
    src, dirs = library(rng, big=kw.get('big'))
    sc = dict(lib=lib, src=src, dirs=dirs, extra=extra(rng), files={}, tmp=rng.random() < .2, old=rng.random() < .2, umask=rng.choice([0o022, 0o022, 0o077, 0o000]))
    enc = kw.get('enc', rng.random() < .6)
    sc['lves'] = lves(rng) if enc else (lves(rng) if rng.random() < .3 else {})
    lp = rng.choice(['@R/src/' + lib, '@R/src/' + lib + '/', '../src/' + lib, '../src/' + lib + '//', '@R/src/./' + lib, '@R/cwd/../src/' + lib])
    a = [('-librarypath', lp), ('-version', rng.choice(VALUES)), ('-language', rng.choice(VALUES))]
    for o in rng.sample(TEXTOPT, rng.choice([0, 1, 3, 5, 7])):
        v = rng.choice(VALUES)
        if o in ('-description', '-copyright', '-license'):
            v = v.strip('\n\t') or 'x'
        a.append((o, v))
    if enc:
        a.append(('-encrypt', rng.choice(['true', 'true', 'TRUE', 'True', 'tRuE'])))
    elif rng.random() < .4:
        a.append(('-encrypt', rng.choice(['false', 'no', 'truex', 'yes', '1', 't'])))
    icons = [p for p in src if p[0] != '.library' and not pack.is_mo(p[-1])]
    if icons and rng.random() < .4:
        p = rng.choice(icons)
        if rng.random() < .5:
            a.append(('-icon', '@R/src/' + lib + '/' + '/'.join(p)))
        else:
            sc['files'][p[-1]] = b'an icon somewhere else'
            a.append(('-icon', rng.choice(['@R/f/', '../f/']) + p[-1]))
    for o, tag in (('-tools', 'tool'), ('-dependencies', 'dependency')):
        if rng.random() < .35:
            n = tag + '.xml'
            sc['files'][n] = xml_file(rng, tag)
            a.append((o, rng.choice(['@R/f/', '../f/']) + n))
    rng.shuffle(a)
    sc['args'] = [x for o in a for x in o]
    return sc

def broken(rng, i):
    """something is wrong with a request that was right"""
    sc = valid(rng, i, enc=rng.random() < .5)
    a = sc['args']
    k = rng.randrange(21)
    pos = 2 * rng.randrange(len(a) // 2 + 1)
    lib, name = sc['lib'], ''
    if k == 0:          # a mandatory option is missing
        j = a.index(rng.choice(['-librarypath', '-version', '-language']))
        del a[j:j + 2]
    elif k == 1:
        a[pos:pos] = [rng.choice(['-unknown', '-Title', 'title', '', '-', '--', '-libraryPath', '-title ', '--title', '/title', 'version', 'xtitle', '-iconx', '=title', '-titl', '\u00a0title', '-H', '-?']), 'x']
    elif k == 2:          # twice
        j = 2 * rng.randrange(len(a) // 2)
        a[pos:pos] = a[j:j + 2]
    elif k == 3:
        a.append(rng.choice([o for o in TEXTOPT if o not in a] + ['-nothing']))
    elif k == 4:
        j = 2 * rng.randrange(len(a) // 2) + 1
        a[j] = ''
    elif k == 5:
        a[a.index('-librarypath') + 1] = rng.choice(['@R/src/none', '@R/src/' + lib + '/none', '@R/f', '.', '..', '@R/tool/packagetool', '@R/cwd/.', '@R/src/..', './', '../', '../../none', ' '])
        if a[a.index('-librarypath') + 1] == '@R/f':
            sc['files'] = {'plain.txt': b'x'}
            a[a.index('-librarypath') + 1] = '@R/f/plain.txt'
    elif k == 6:
        for o in ('-tools', '-dependencies', '-icon'):
            if o in a:
                a[a.index(o) + 1] = rng.choice(['@R/f/none.xml', 'none.xml', '@R/none/x', '../f/nonex'])
                break
        else:
            a += [rng.choice(['-tools', '-dependencies', '-icon']), '@R/f/none.xml']
    elif k == 7:          # the icon is not part of the library
        while '-icon' in a:
            del a[a.index('-icon'):a.index('-icon') + 2]
        sc['files']['strange.png'] = b'icon'
        a += ['-icon', rng.choice(['@R/f/strange.png', '../f/strange.png', '@R/f', '@R/f/', '@R/src/' + lib])]
        sc['src'].pop(('f',), None)
    elif k == 8:          # encryption without executables
        sc['lves'] = {}
    elif k == 9:
        a[pos:pos] = rng.choice([['-h'], ['--help'], ['-h', 'x'], ['-nonsense', '--help']])
    elif k == 10 and sc['src']:
        for p in rng.sample(sorted(sc['src']), 1):
            sc['src'][p] = (sc['src'][p][0], 0)
    elif k == 11:
        sc['src'][('locked', 'in', 'x.txt')] = (b'cannot be seen', 0o644)
        sc['lock'] = [rng.choice([('locked',), ('locked', 'in')])]
        sc['dirs'] = []
    elif k == 12 and sc['lves']:
        n = rng.choice(sorted(sc['lves']))
        sc['lves'][n] = (sc['lves'][n][0], 0)
    elif k == 13:
        if not isinstance(sc['extra'], dict):
            sc['extra'] = {}
        sc['extra'][rng.choice([('u.txt',), ('d', 'u.txt'), ('d', 'e', 'u.mo')])] = (b'unreadable', 0)
    elif k == 14:
        sc['extra'] = b'not a directory'
    elif k == 15:
        sc['extra'] = {('x.txt',): (b'x', 0o644)}
        sc['block'] = True
    elif k == 16:
        sc['zipfail'] = rng.choice(['open', 'entry', 'fwrite', 'close']) + rng.choice(['', '', ':2', ':3'])
        if ':' in sc['zipfail']:
            sc['src'].update({('more', 'f%d.txt' % n): (b'f', 0o644) for n in range(4)})
            if sc['zipfail'].startswith('open'):
                sc['zipfail'] = 'open'
    elif k == 17:
        sc['old'] = False
        sc['dirs'] = []
        full(rng, sc)
    elif k == 19:
        for o in ('-tools', '-dependencies'):
            if o in a:
                del a[a.index(o):a.index(o) + 2]
        sc['files']['m.xml'], sc['deny'] = xml_file(rng, 'tool'), ['m.xml']
        a += [rng.choice(['-tools', '-dependencies']), rng.choice(['@R/f/m.xml', '@R/f', '../f/m.xml', '../f'])]
    elif k == 18:
        sc['args'] = rng.choice([[], ['-librarypath'], [''], ['-'], ['x'], ['-version', '1'], ['-h'], ['--help'], ['-librarypath', '@R/src/' + lib], ['help'], ['-hx', 'y'], ['', ''], ['-version'],
                                 ['-librarypath', '', '-version', '1', '-language', '1'], ['-', '-', '-', '-']])
    else:
        j = rng.randrange(len(a))
        if rng.random() < .5:
            del a[j]
        else:
            a.insert(j, rng.choice(['x', '', '-title', 'true', '-encrypt']))
    if sc.get('lock') or k in (10, 12, 13):
        sc['old'] = rng.random() < .3
    return sc

def full(rng, sc):
    """the disk has no room for one of the files: 10000 bytes at most"""
    big = content(rng, 30000)
    small = {p: (b[:3000], 0o644) for p, (b, m) in sorted(sc['src'].items())[:2]}
    sc['src'] = small
    a = sc['args']
    while '-icon' in a:
        del a[a.index('-icon'):a.index('-icon') + 2]
    a[:] = [x[:200] if len(x) > 2000 else x for x in a]
    sc['extra'] = None
    sc['lves'] = {n: (b[:300], m) for n, (b, m) in sc['lves'].items()}
    sc['limit'] = 10000
    k = rng.randrange(6)
    if k == 0:
        sc['src'][('d', rng.choice(['big.mo', 'big.txt']))] = (big, 0o644)
    elif k == 1:
        sc['lves']['lve_linux64'] = (big, 0o755)
        if '-encrypt' in a:
            a[a.index('-encrypt') + 1] = 'true'
        else:
            a += ['-encrypt', 'true']
    elif k == 2:
        sc['extra'] = {('big.txt',): (big, 0o644)}
    elif k == 3:
        while '-license' in a:
            del a[a.index('-license'):a.index('-license') + 2]
        a += ['-license', 'l' * 30000]
    elif k == 4:
        sc['src'][('big.mo',)] = (big[:rng.choice([10000, 9990, 9952])], 0o644)
        if '-encrypt' in a:
            a[a.index('-encrypt') + 1] = 'true'
        else:
            a += ['-encrypt', 'true']
        sc['lves'] = sc['lves'] or lves(rng, 1)
        sc['lves'] = {n: (b[:300], m) for n, (b, m) in sc['lves'].items()}
    else:
        if '-encrypt' in a:
            a[a.index('-encrypt') + 1] = 'no'
        sc['src'].update({('m', 'f%d.txt' % n): (content(rng, 6000), 0o644) for n in range(20)})
        sc['zipfull'] = True

def from_world(rng, w, i):
    """a world of the model -> a scenario"""
    lib = 'W%d' % i
    F = lambda f: (content(rng, 20000 if f['size'] == 50 else 200), 0o644 if f['read'] else 0)
    sc = dict(lib=lib, src={tuple(x['p']): F(x['f']) for x in w['src']}, dirs=[], files={'i.png': b'icon'}, lves={x['n']: F(x['f']) for x in w['lves']},
              extra={tuple(x['p']): F(x['f']) for x in w['more']} if w['extra'] == 'dir' else None, block=w['block'] and w['extra'] == 'dir', limit=10000 if w['limit'] >= 0 else -1,
              zipfail='entry' if w['zipfail'] else None, old=rng.random() < .5)
    if sc['block'] and ('manifest.xml',) in sc['extra']:
        sc['block'] = False
    m = {'L': '@R/src/' + lib if 'L' in w['dirs'] else '@R/src/none', 'x/i.png': '@R/f/i.png', 'no.xml': '@R/f/no.xml'}
    if w['lib'] == '':
        m['L'] = '.'
    sc['args'] = [m.get(a, a) for a in w['args']]
    if w['text'] == 30 and '-title' not in sc['args']:
        sc['args'] += ['-title', 't' * 20000]
    if sc['limit'] >= 0 and not sc['zipfail'] and sum(len(b) for b, _ in sc['src'].values()) + 3000 > 10000:
        sc['limit'] = 10000 if any(len(b) > 10000 for p, (b, m) in sc['src'].items() if p[0] != '.library') else -1
    return sc

def worlds(check, n):
    r = check.model('MCPackage', 'MCPackageWorlds.cfg', workers=1, extra=('-seed', str(check.seed), '-fp', '0'))
    ws = [v['w'] for v in tlc.prints(r['out']) if 'w' in v]
    check.cover('worlds of the model', len(ws))
    check.rng.shuffle(ws)
    return ws[:n]

def setup(check, focus):
    os.environ['VF_FOCUS'] = focus
    t = ('packagetool', build.LVE)
    build.scratch(); build.keydir()
    with ThreadPoolExecutor(2) as ex:
        b = dict(zip(('asan', 'plain'), ex.map(lambda nv: build.build(nv[0], t, **nv[1]), [('asan', dict(asan=True)), ('plain', {})])))
    check.log('built', *b)
    check.model('MCPackage', 'MCPackageDeep.cfg' if check.thorough else None, workers=8)
    return b

def corrupt(focus):
    def f(tr, rng):
        e = tr['ev'][0]
        if focus == 'outcome':
            k = rng.randrange(4)
            if k == 0:
                e['exit'] = 9 if e['exit'] == 0 else 0
            elif k == 1:
                e['arch'] = 'new' if e['arch'] != 'new' else 'asbefore'
            elif k == 2:
                e['touched'] = ['src/x']
            else:
                e['san'] = True
            return tr
        if e['arch'] != 'new' or e['exit'] != 0:
            return None
        if focus == 'content':
            k = rng.randrange(3)
            x = [y for y in e['entries'] if y['p'] != ['.library', 'manifest.xml']]
            if k == 0 or not x:
                e['entries'].append({'p': ['new'], 'c': 'c', 'dec': '', 'leak': False})
            elif k == 1:
                e['entries'].remove(rng.choice(x))
            else:
                y = rng.choice(x)
                y['c'] = y['dec'] = 'other'
        else:
            k = rng.randrange(3)
            if k == 0:
                rng.choice(e['man']['fields'])['v'] += 'x'
            elif k == 1:
                e['man']['fields'].pop()
            else:
                e['man']['exes'].append({'path': '.library/lve_win16', 'platform': 'win16', 'licensing': 'true'})
        return tr
    return f

def faults(check, b, some):
    """every file operation of a few runs, and some of many others, failing once"""
    rng, out = check.rng, []
    lv = {'lve_linux64': (b'executable', 0o755), 'lve_win64.exe': (b'for windows' * 500, 0o644)}
    req = ['-librarypath', '@R/src/F', '-version', '1', '-language', '3']
    src = {('package.mo',): (b'package F end F;', 0o644), ('a.mo',): (b'model a "text" end a;' * 300, 0o644), ('S', 'package.mo'): (b'package S end S;', 0o644), ('S', 'b.MO'): (b'model b end b;', 0o644),
           ('S', 'empty.mo'): (b'', 0o644), ('R', 'i.png'): (b'\x89PNG' * 40, 0o600), ('R', 'D', 'x.txt'): (b'text', 0o644), ('.library', 'old.txt'): (b'old', 0o644)}
    tools = b'<?xml version="1.0"?>\n<tool name="a"/>\n<tool name="b"><sub/></tool>\n'
    base = [dict(lib='F', src=src, lves=lv, extra={('v', 'x.txt'): (b'vendor', 0o644), ('more.mo',): (b'model more end more;', 0o644)}, files={'t.xml': tools},
                 args=req + ['-encrypt', 'true', '-icon', '@R/src/F/R/i.png', '-tools', '@R/f/t.xml', '-title', 'T', '-license', 'L']),
            dict(lib='F', src=src, lves=lv, extra=None, files={'t.xml': tools}, args=req + ['-dependencies', '@R/f/t.xml'], old=True)]
    base += [valid(rng, k + 1) for k in range(some)]
    build.shim('fault')
    dry = [dict(s, id=50000 + k, name='dry', bin=b['plain'], fault='x:0') for k, s in enumerate(base)]
    with ThreadPoolExecutor(8) as ex:
        logs = list(ex.map(pack.run, dry))
    for k, (s, l) in enumerate(zip(base, logs)):
        n = {}
        for _, x in l:
            op = x.split(' ', 1)[0]
            n[op] = n.get(op, 0) + 1
        at = [(op, i) for op in sorted(n) for i in range(1, n[op] + 1)]
        if k >= 2:
            at = rng.sample(at, min(len(at), 12))
        elif not check.thorough:
            at = [x for x in at if rng.random() < .75 or x[0] in ('mkdir', 'mkdtemp', 'opendir')]
        for op, i in at:
            out.append(('fault %s:%d' % (op, i), dict(s, fault='%s:%d%s' % (op, i, '+' if rng.random() < .15 else ''), bin=b['plain'])))
        for op in n:
            check.cover('operation fails: ' + op, sum(1 for x in at if x[0] == op))
    return out

def run(check, focus, counts, special=()):
    b = setup(check, focus)
    rng = check.rng
    scs = []
    def add(name, sc):
        sc.update(id=len(scs) + 1, name=name, bin=b['asan' if rng.random() < .35 and not (sc.get('fault') or sc.get('notype')) else 'plain'])
        scs.append(sc)
    for w in worlds(check, counts[2]):
        add('world', from_world(rng, w, len(scs) + 1))
    for k in range(counts[0]):
        add('valid %d' % k, valid(rng, len(scs) + 1, big=k % 10 == 0))
    for k in range(counts[1]):
        add('broken %d' % k, broken(rng, len(scs) + 1))
    if focus == 'outcome':
        special = list(special) + faults(check, b, check.n(12, 200))
    for n, s in special:
        add(n, s)
    check.conform('TracePackage', scs, pack.run, pack.sig, corrupt(focus), chunk=100)
    for sc in scs:
        check.cover(sc['name'].split(' ')[0])
    return b

def linked(rng, i):
    """a library some of whose files and directories are symbolic links"""
    sc = valid(rng, i)
    src, links = sc['src'], {}
    some = [p for p in rng.sample(sorted(src), min(len(src), 3)) if p[0] != '.library']
    for k, p in sorted((rng.randrange(3), p) for p in some):
        if p in links:
            continue
        if k == 0:                    # to a file elsewhere
            n = 'target%d' % len(links)
            sc['files'][n] = src[p][0]
            links[p] = rng.choice(['@R/f/' + n, '../' * (len(p) + 1) + 'f/' + n])
            src[p] = (src[p][0], 0o644)
        elif k == 1:                  # to another file of the library
            t = rng.choice(sorted(src))
            if t not in some and t[0] != '.library':
                links[p] = '../' * (len(p) - 1) + '/'.join(t)
                src[p] = src[t]
        else:                         # a directory that is a link to one of the library
            ds = sorted({x[:-1] for x in src if len(x) > 1 and x[0] != '.library'})
            ds = [d for d in ds if not any(l[:len(d)] == d for l in links)]
            if ds:
                d, n = rng.choice(ds), ('linked%d' % len(links),)
                links[n] = '/'.join(d)
                for x in [x for x in src if x[:len(d)] == d]:
                    src[n + x[len(d):]] = src[x]
    sc['links'] = {p: t for p, t in links.items()}
    return sc

def nowhere(rng, i):
    """links that lead nowhere or in a circle: such a library cannot be packaged"""
    sc = valid(rng, i)
    n = rng.choice(['x.mo', 'l', 'package.order'])
    d = rng.choice([(), ('new',)])
    sc['src'].pop(d + (n,), None)
    for x in [x for x in sc['src'] if x[:len(d) + 1] == d + (n,)]:
        del sc['src'][x]
    sc['links'] = {d + (n,): rng.choice(['none', n, '@R/none/x', '@R/src/' + sc['lib'], '.', '@R/src'] + (['..', '../../src'] if d else ['..']))}
    if rng.random() < .3:
        sc['links'][('again',)] = '.'
    sc['src'][d + (n,)] = (b'', 0)        # a file that cannot be read stands for it
    return sc

def long(rng, n, enc):
    """a library with a path of n characters"""
    sc = valid(rng, 1, enc=enc)
    sc['extra'], sc['dirs'], sc['lib'], total = None, [], 'Long', n
    name = rng.choice(['f.mo', 'package.mo', 'x.txt'])
    n -= len(name) + 1
    d = []
    while n > 0:
        k = min(n - 1 if n - 1 <= 200 else 200, 200) or 1
        d.append('d' * k)
        n -= k + 1
    sc['src'] = {('package.mo',): (b'package Long end Long;', 0o644), ('a.mo',): (b'model a end a;', 0o644), tuple(d) + (name,): (b'deep down in the library', 0o644), tuple(d[:-1]) + ('g.mo',): (b'next to it', 0o644)}
    sc['args'] = ['-librarypath', '../src/Long', '-version', '1', '-language', '3'] + (['-encrypt', 'true'] if enc else [])
    sc['long'] = total > 1900
    return sc

def c12(check):
    req = lambda l, *more: ['-librarypath', '@R/src/' + l, '-version', '1', '-language', '3'] + list(more)
    lv = {'lve_linux64': (b'executable', 0o755)}
    txt = lambda n: (b'model %d "some text"; end;' % n, 0o644)
    special = [('mixed-case package file', dict(lib='Mix', src={('Package.mo',): txt(1), ('a.mo',): txt(2)}, lves=lv, args=req('Mix', '-encrypt', 'true'))),
               ('mixed-case package file, plain', dict(lib='Mix', src={('Package.mo',): txt(1), ('a.mo',): txt(2)}, lves=lv, args=req('Mix'))),
               ('directory package.mo', dict(lib='Dp', src={('package.mo', 'x.txt'): txt(1), ('a.mo',): txt(2), ('s', 'PACKAGE.MO', 'y'): txt(3)}, lves=lv, args=req('Dp', '-encrypt', 'true'))),
               ('empty', dict(lib='Em', src={}, lves=lv, args=req('Em'))), ('empty encrypted', dict(lib='Em', src={}, lves=lv, args=req('Em', '-encrypt', 'TRUE'))),
               ('deep', dict(lib='Dd', src={('d',) * n + ('x%d.mo' % n,): txt(n) for n in range(1, 40, 3)}, lves=lv, args=req('Dd', '-encrypt', 'true'))),
               ('wide', dict(lib='Wi', src={('w', 'f%d.%s' % (n, 'mo' if n % 2 else 'txt')): txt(n) for n in range(300)}, lves=lv, args=req('Wi', '-encrypt', 'true')))]
    # many files and directories for a program that may have few of them open at a time
    many = {('d%d' % (n % 90), n1): txt(n) for n in range(450) for n1 in ('package.mo', 'f%d.%s' % (n, ('mo', 'txt', 'moc')[n % 3]))}
    for k, more in enumerate(([], ['-encrypt', 'true'])):
        special.append(('many', dict(lib='Many', src=many, lves=lv, extra={('e%d' % (n % 70), 'v%d.%s' % (n, ('mo', 'txt')[n % 2])): txt(n) for n in range(140)}, args=req('Many', *more), nofile=60)))
    rng = check.rng
    for k in range(check.n(60, 800)):
        special.append(('links %d' % k, linked(rng, k + 1)))
    for k in range(check.n(40, 400)):
        special.append(('notype %d' % k, dict(linked(rng, k + 1) if rng.random() < .4 else valid(rng, k + 1), notype=True)))
    for n in check.n([1900, 2000, 2015, 2020], list(range(1900, 2022, 4))):
        for enc in (True, False):
            special.append(('long %d' % n, long(rng, n, enc)))
    run(check, 'content', check.n((350, 0, 60), (4000, 0, 1500)), special)
def c13(check):
    run(check, 'manifest', check.n((350, 0, 40), (4000, 0, 500)))
def c14(check):
    rng, special = check.rng, []
    for k in range(check.n(30, 300)):
        special += [('links %d' % k, linked(rng, k + 1)), ('nowhere %d' % k, nowhere(rng, k + 1))]
    for n in check.n([1500, 2000, 2010, 2014, 2015, 2016, 2017, 2018, 2020, 2030, 2040, 2048, 2060, 2500], list(range(1990, 2070)) + list(range(2100, 3600, 100))):
        special.append(('long %d' % n, long(rng, n, rng.random() < .5)))
    run(check, 'outcome', check.n((60, 350, 120), (500, 4000, 3000)), special)
# ---- C19: what was packaged is what a tool gets
GLOB = ce.GLOB
class Unpacked:
    """the library as e2e.run wants it"""
    def __init__(self, path, src):
        self.path, self.src = path, src
    def fs(self):
        return []

def use(sc, e, un, man, root):
    ok = e['exit'] == 0 and un is not None
    first = {'e': 'packaged', 'ok': ok}
    x = {'id': sc['id'], 'name': sc['name'], 'w': e, 'same': sc['same'], 'man': cid(man), 'fs': [], 'sizes': [], 'x': {'keys': [], 'peer': '', 'global': '', 'grant': [], 'infail': [], 'newfail': 0, 'sfx': ''}}
    if not ok:
        return dict(x, ev=[first], log=['packaging: exit %s' % e['exit']], hang=False, stderr='')
    src = {}
    for p, (b, m) in sc['src'].items():
        if p[0] != '.library':
            src['/'.join(p) + ('c' if pack.is_mo(p[-1]) else '')] = b
    for n, (b, m) in sc['lves'].items():
        src['.library/' + n] = b
    for p, (b, m) in (sc['extra'] or {}).items():
        src['/'.join(('.library',) + p) + ('c' if pack.is_mo(p[-1]) else '')] = b
    src['.library/manifest.xml'] = man
    shipped = os.path.join(un, '.library', build.LVE)
    os.chmod(shipped, 0o755)
    t = e2e.run(dict(sc['run'], id=sc['id'], exe=sc['exe'] or shipped, lib=Unpacked(un, src)))
    t.update({k: v for k, v in x.items() if k in ('w', 'same', 'man', 'name')})
    t['ev'] = [first] + t['ev']
    t['log'] = ['packaged %s with %d files' % (sc['lib'][:40], len(sc['src']))] + t['log']
    return t

def e2e_sig(tr, info):
    return ce.sig(tr, info) if info.get('l', 0) > 1 else 'packaging: %s' % tr['log'][:1]

def c19(check):
    t = ('packagetool', build.LVE, 'vf_tool')
    build.scratch(); build.keydir(); build.keydir(tool='other')
    v = {'plain': {}, 'asan': dict(asan=True), 'gplain': dict(global_feature=GLOB), 'oplain': dict(keys=build.keydir(tool='other'))}
    with ThreadPoolExecutor(4) as ex:
        b = dict(zip(v, ex.map(lambda n: build.build(n, t, **v[n]), v)))
    check.log('built', *b)
    check.model('MCPackaged', 'MCPackagedDeep.cfg' if check.thorough else None, workers=8)
    rng, one, scs = check.rng, check.rng.choice, []
    for k in range(check.n(220, 3000)):
        pb = one(['plain', 'plain', 'asan', 'gplain'])
        sc = valid(rng, k + 1, enc=True)
        sc['src'] = {p: x for p, x in sc['src'].items() if not p[-1].lower().endswith('.moc')}
        while '-icon' in sc['args']:
            j = sc['args'].index('-icon')
            del sc['args'][j:j + 2]
        sc['lves'] = dict(sc['lves'], **{build.LVE: (open(os.path.join(b[pb], build.LVE), 'rb').read(), 0o755)})
        kind = rng.random()
        tool = 'oplain' if kind < .2 else one(['plain', 'asan'])
        other = one([n for n in b if n != pb]) if .2 <= kind < .4 else None
        used = other or pb
        names = ['/'.join(p) + ('c' if pack.is_mo(p[-1]) else '') for p in sc['src'] if p[0] != '.library']
        names += ['.library/manifest.xml', '.library/' + build.LVE] + ['/'.join(('.library',) + p) + ('c' if pack.is_mo(p[-1]) else '') for p in (sc['extra'] or {})]
        sizes = {}
        order = names[:]
        rng.shuffle(order)
        order = order[:60]
        order += [one(names) for _ in range(4)]
        wrong = [n[:-1] for n in names if n.endswith('c')][:3] + ['nothing.moc', '../x', '.library/none']
        for n in rng.sample(wrong, 2):
            order.insert(rng.randrange(len(order)), n)
        steps = [('start',), ('version', 1, 1), ('lib', lambda p: p.encode())]
        for i, n in enumerate(order):
            s = i % 3
            steps += [('file', s, n.encode()), ('size', s), ('read', s, 10**7)]
            if rng.random() < .3:
                steps += [('read', s, 10)]
            if rng.random() < .1:
                steps.append(one([('feature', b'g'), ('feature', b'r'), ('retfeature', b'g'), ('license', b'p')]))
            if rng.random() < .03:
                steps += [('free',), ('start',), ('version', 1, 1), ('lib', lambda p: p.encode() + b'/')]
        steps.append(('free',))
        run_ = dict(tool=b[tool] + '/vf_tool', keys=['tool1', 'tool0', 'big', 'tool2'], peer='other' if tool == 'oplain' else 'tool0', grant=[b'g'] + ([GLOB.encode()] if rng.random() < .7 else []),
                    infail=[], newfail=0, steps=steps)
        run_['global'] = GLOB if used == 'gplain' else ''
        sc.update(id=k + 1, name='tool %s, executable %s, container %s' % (tool, used, pb), bin=b[pb], then=use, same=used == pb, exe=os.path.join(b[other], build.LVE) if other else None,
                  run=run_, place=one(['unpacked', 'a place', 'Gr\xf6\xdfe', 'x/y/z']))
        scs.append(sc)
        check.cover(['untrusted tool', 'executable with other keys', 'shipped executable'][0 if tool == 'oplain' else 1 if other else 2])
    check.conform('TraceE2E', scs, pack.run, e2e_sig, ce.corrupt, chunk=60)
ALL = {'C19': c19, 'C12': c12, 'C13': c13, 'C14': c14}
