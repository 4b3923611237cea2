"""Builds the repository's own targets (through its CMake files) in scratch directories."""
import os, shutil, subprocess, hashlib, tempfile, atexit, sys, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
KEYS = os.path.join(VERIF, 'keys')
_scratch = None

class BuildError(Exception):
    pass

def reap(d):
    """ends what was started from programs in d and still runs"""
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                if os.readlink('/proc/%s/exe' % p).startswith(d + '/'):
                    os.kill(int(p), 9)
            except OSError:
                pass

def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VF_SCRATCH')
        _scratch = tempfile.mkdtemp(prefix='vf.', dir=base or '/tmp')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and not os.environ.get('VF_KEEP'):
                reap(_scratch)
                subprocess.run(['chmod', '-R', 'u+rwx', _scratch], stderr=subprocess.DEVNULL)
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

def keydir(trusted=('tool1', 'tool0', 'big', 'tool2'), tool='tool0', lve='lve'):
    d = os.path.join(scratch(), 'keys-%s-%s-%s' % ('_'.join(trusted), tool, lve))
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copy(os.path.join(KEYS, tool + '.pem'), os.path.join(d, 'private_key_tool.pem'))
        shutil.copy(os.path.join(KEYS, lve + '.pem'), os.path.join(d, 'private_key_lve.pem'))
        for t in trusted:
            shutil.copy(os.path.join(KEYS, t + '.pub.pem'), os.path.join(d, t + '.pub.pem'))
        with open(os.path.join(d, 'public_key_tools.txt'), 'w') as f:
            f.write(''.join(t + '.pub.pem\n' for t in trusted))
        with open(os.path.join(d, 'tools.txt'), 'w') as f:
            f.write(''.join('Tool %s\n' % t for t in trusted))
    return d

LVE = 'lve_linux64'
ALL = (LVE, 'vf_tool', 'encrypt_file', 'decrypt_file', 'packagetool', 'obfuscate', 'randomize_key')

def build(name, targets=ALL, global_feature=None, asan=False, keys=None, jobs=8, random=None, defs=(), tsan=False):
    """-> directory with the built targets. Raises BuildError."""
    b = os.path.join(scratch(), 'b-' + name)
    src = os.path.join(REPO, 'src')
    keys = keys or keydir()
    cflags = '-Wno-error -g -O1'
    if asan:
        cflags += ' -O0 -fsanitize=address -fno-omit-frame-pointer'
    if tsan:
        cflags += ' -fsanitize=thread -fno-omit-frame-pointer'
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPATH', 'LD_LIBRARY_PATH'):
        env.pop(k, None)
    if asan:
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
    cmd = ['cmake', '-Wno-dev', '-S', src, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
           '-DCMAKE_C_FLAGS=' + cflags,
           '-DDECRYPTOR=%s/decryptors/default' % src,
           '-DLICENSE_MANAGER=%s/harness/licmgr' % VERIF,
           '-DOBFUSCATOR=%s/obfuscators/dummy' % src,
           '-DTOOL_PRIVATE_KEY_DIRECTORY=' + keys, '-DLVE_KEYS_DIRECTORY=' + keys,
           '-DTOOLS_PUBLIC_KEYS_DIRECTORY=' + keys,
           '-DUSE_CUSTOM_OPENSSL_SUBDIRECTORY=ON',
           '-DCUSTOM_OPENSSL_SUBDIRECTORY=%s/harness/cmake' % VERIF,
           '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
           '-DFETCHCONTENT_SOURCE_DIR_ZIP_FETCHCONTENT=%s/harness/zip' % VERIF,
           '-DSKIP_SEMLA_SRC_TESTS=ON']
    if random:
        cmd.append('-DRANDOM_KEY_DIRECTORY=' + random)
    cmd += list(defs)
    if global_feature:
        cmd.append('-DGLOBAL_LICENSE_FEATURE=' + global_feature)
    p = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('cmake failed:\n' + p.stdout[-3000:] + p.stderr[-5000:])
    p = subprocess.run(['ninja', '-C', b, '-j', str(jobs)] + list(targets), env=env, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('ninja failed:\n' + p.stdout[-8000:] + p.stderr[-2000:])
    return b

def shim(name):
    """a library for LD_PRELOAD"""
    so = os.path.join(scratch(), name + '.so')
    if not os.path.exists(so):
        subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'harness', 'shim', name + '.c'), '-ldl', '-lpthread'], check=True)
    return so
