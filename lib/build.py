#!/usr/bin/env python3
"""Builds instrumented copies of the library (and its tools) from /repo's
current working tree into /verif/build.  Objects are cached by a hash of the
preprocessor-independent inputs (all of /repo's C sources and headers), so a
changed source always rebuilds.  Nothing is written under /repo."""
import hashlib, os, re, threading, subprocess, sys, glob, json, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

SODIUM = {'ref': False, 'sodium': True, 'openssl': False}
OPENSSL = {'ref': False, 'sodium': False, 'openssl': True}
BACKENDS = ['ref', 'sodium', 'openssl']
# The reference crypto has other forms, chosen by word size, CPU or option.
# They are built here by defining what chooses them.
VARIANTS = {
    'ref32': dict(arch='arch_32', word=32, defs=['-U__SSE2__', '-DPOLY1305_32BIT', '-DED25519_FORCE_32BIT']),
    'ref64': dict(arch='arch_ref64', word=64, defs=['-DPOLY1305_16BIT', '-DED25519_SSE2']),
    'ref8': dict(arch='arch_x86_64', word=32, defs=['-U__SSE2__', '-DPOLY1305_8BIT', '-DED25519_FORCE_32BIT', '-DED25519_NO_INLINE_ASM']),
    'refnoasm': dict(arch='arch_ref64', word=64, defs=['-DPOLY1305_64BIT', '-DED25519_NO_INLINE_ASM']),
    # the default form as other compilers and options make it (with the CPU's own instructions, or unoptimised)
    'native': dict(arch='arch_x86_64', word=64, defs=[], cc='gcc', flags=['-O3', '-march=native']),
    'gccO0': dict(arch='arch_x86_64', word=64, defs=[], cc='gcc', flags=['-O0']),
    'ref32O0': dict(arch='arch_32', word=32, defs=['-U__SSE2__', '-DPOLY1305_32BIT', '-DED25519_FORCE_32BIT'], cc='gcc', flags=['-O0']),
    'ref64O0': dict(arch='arch_ref64', word=64, defs=['-DPOLY1305_16BIT', '-DED25519_SSE2'], cc='gcc', flags=['-O0']),
    'clangO3': dict(arch='arch_x86_64', word=64, defs=[], cc='clang', flags=['-O3', '-march=native']),
}
SODIUM.update({v: False for v in VARIANTS})
OPENSSL.update({v: False for v in VARIANTS})

FLAVOURS = {
    # name: (cc, cxx, flags)
    'asan': ('clang', 'clang++', ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer',
             '-fsanitize=address,bounds,object-size,signed-integer-overflow,integer-divide-by-zero,return,unreachable,vla-bound',
             '-fno-sanitize-recover=all']),
    'plain': ('clang', 'clang++', ['-O2', '-gline-tables-only']),
    'ct': ('clang', 'clang++', ['-O1', '-gline-tables-only', '-fno-builtin', '-mllvm', '-phi-node-folding-threshold=0', '-mllvm', '-two-entry-phi-node-folding-threshold=0', '-fsanitize-coverage=trace-pc,trace-loads,trace-stores']),
    'vg': ('gcc', 'g++', ['-O1', '-g', '-fno-omit-frame-pointer']),
    'stk': ('gcc', 'g++', ['-O1', '-g1', '-fno-inline', '-fno-omit-frame-pointer', '-fno-tree-vectorize', '-mno-red-zone']),
    'tsan': ('clang', 'clang++', ['-O1', '-gline-tables-only', '-fsanitize=thread']),
    'fuzz': ('clang', 'clang++', ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer',
             '-fsanitize=address,bounds,object-size,signed-integer-overflow,integer-divide-by-zero,return,unreachable,vla-bound,fuzzer-no-link',
             '-fno-sanitize-recover=all']),
}


def am_sources(path, sodium, openssl):
    """The *_SOURCES of an automake file, with its conditionals evaluated."""
    text = open(path).read().replace('\\\n', ' ')
    stack, out = [], []
    for line in text.split('\n'):
        s = line.split('#')[0].strip()
        m = re.match(r'if\s+(\w+)', s)
        if m:
            stack.append({'USE_OPENSSL': openssl, 'USE_LIBSODIUM': sodium}.get(m.group(1), False))
            continue
        if re.match(r'else\b', s):
            stack[-1] = not stack[-1]
            continue
        if re.match(r'endif\b', s):
            stack.pop()
            continue
        if not all(stack):
            continue
        m = re.match(r'\w+_SOURCES\s*\+?=(.*)', s)
        if m:
            out += m.group(1).split()
    seen = []
    for f in out:
        f = f.replace('@GOLDILOCKS_ARCH@', 'arch_x86_64')
        if f not in seen:
            seen.append(f)
    return seen


def goldi_arch():
    for b in BACKENDS:
        try:
            m = re.search(r'S\["GOLDILOCKS_ARCH"\]="(\w+)"',
                          open(f'{REPO}/_build/{b}/config.status').read())
            if m:
                return m.group(1)
        except OSError:
            pass
    return 'arch_x86_64'


def word32(src):
    """a unit that includes src as a 32-bit machine would see it"""
    os.makedirs(f'{BUILD}/gen', exist_ok=True)
    p = f'{BUILD}/gen/word32-{os.path.basename(src)}'
    text = ('#include <stddef.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <string.h>\n#include <limits.h>\n#include "internal.h"\n'
            f'#undef __WORDSIZE\n#define __WORDSIZE 32\n#include "{src}"\n')
    if not os.path.exists(p) or open(p).read() != text:
        with open(p + f'.{os.getpid()}', 'w') as f:
            f.write(text)
        os.rename(p + f'.{os.getpid()}', p)
    return p


def lib_units(backend):
    so, op = SODIUM[backend], OPENSSL[backend]
    var = VARIANTS.get(backend)
    arch = var['arch'] if var else goldi_arch()
    G = f'{REPO}/src/crypto/goldilocks/src'
    inc = [f'-I{REPO}/include', f'-I{REPO}/src', f'-I{REPO}/src/protocol', f'-I{G}/include',
           f'-I{G}/p448', f'-I{G}/p448/{arch}']
    d = []
    if op:
        d.append('-DUSE_OPENSSL=1')
    if so:
        d.append('-DUSE_LIBSODIUM=1')
    else:
        d += ['-DED25519_CUSTOMHASH', '-DED25519_CUSTOMRANDOM']
    d += ['-DHAVE_POLL=1', '-DHAVE_PTHREAD=1'] + (var['defs'] if var else [])
    units = []
    for f in am_sources(f'{REPO}/src/protocol/Makefile.am', so, op):
        f = f.replace('arch_x86_64', arch)
        if f.endswith('.c'):
            src = os.path.normpath(f'{REPO}/src/protocol/{f}')
            if var and var['word'] == 32 and f.endswith('/dh-curve25519.c'):
                src = word32(src)
            units.append((src, inc + d))
    for f in am_sources(f'{REPO}/src/keys/Makefile.am', so, op):
        if f.endswith('.c'):
            units.append((f'{REPO}/src/keys/{f}', [f'-I{REPO}/include', f'-I{REPO}/include/noise/keys'] + d))
    for f in am_sources(f'{REPO}/src/protobufs/Makefile.am', so, op):
        if f.endswith('.c'):
            units.append((f'{REPO}/src/protobufs/{f}', [f'-I{REPO}/include'] + d))
    return units


_th = None


def tree_hash():
    global _th
    if _th is None:
        _th = _tree_hash()
    return _th


def _tree_hash():
    h = hashlib.sha256()
    for top in ('src', 'include', 'tools', 'examples'):
        for root, dirs, files in sorted(os.walk(f'{REPO}/{top}')):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.c', '.h', '.y', '.l', '.am')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write('BUILD FAILED: ' + ' '.join(cmd) + '\n' + r.stdout[-6000:] + '\n')
        raise SystemExit(3)
    return r.stdout


def libs_for(backend):
    l = ['-lcrypto', '-lpthread']
    if SODIUM[backend]:
        l.append('-lsodium')
    return l


def _quiet(cc='clang'):
    if cc == 'gcc':
        return ['-w']
    return ['-w', '-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int',
            '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types']


_pool = ThreadPoolExecutor(os.cpu_count() or 8)
_objlock = threading.Lock()
_objs = {}       # object path -> future that makes it
SLOW = ('batcher.c', 'ed25519.c', 'dh-curve25519.c')


def _compile(cmd, src, o):
    """-> future; compiles src to o unless it exists"""
    with _objlock:
        if o in _objs:
            return _objs[o]

        def go():
            if not os.path.exists(o):
                t = f'{o}.{os.getpid()}.{threading.get_ident()}'
                run(cmd + ['-c', src, '-o', t])
                os.rename(t, o)
            return o
        f = _objs[o] = _pool.submit(go)
        return f


def lib_objs(backend, flavour, extra=(), tag=''):
    """-> futures of the objects of libnoise.a.  Units whose preprocessed text
    is the same for several backends (the reference crypto, the key objects,
    ...) are compiled once."""
    cc, cxx, flags = FLAVOURS[flavour]
    var = VARIANTS.get(backend, {})
    cc, flags = var.get('cc', cc), var.get('flags', flags)
    cache = os.environ.get('VERIF_OBJCACHE') or f'{BUILD}/{tree_hash()}/obj'   # (the former for trying many variants)
    os.makedirs(cache, exist_ok=True)

    def pre(u):
        src, inc = u
        if flavour == 'ct' and '/crypto/aes/' in src:      # its table lookups depend on the key, as documented
            inc = inc + ['-fno-sanitize-coverage=trace-loads,trace-stores']
        if flavour == 'stk' and '/src/crypto/' not in src:
            inc = inc + ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/crypto/']
        text = run([cc, '-E', '-w'] + flags + list(extra) + inc + [src])
        h = hashlib.sha256((text + repr((cc, flags, list(extra), [x for x in inc if x.startswith('-f')]))).encode('utf-8', 'replace')).hexdigest()[:24]
        return [cc] + _quiet(cc) + flags + list(extra) + inc, src, f'{cache}/{h}.o'

    units = sorted(lib_units(backend), key=lambda u: not u[0].endswith(SLOW))
    pres = [_pool.submit(pre, u) for u in units]
    return [_compile(*f.result()) for f in pres]


def build_lib(backend, flavour, extra=(), tag=''):
    """-> path of libnoise.a for this backend and flavour"""
    d = f'{BUILD}/{tree_hash()}/{backend}-{flavour}{tag}'
    lib = f'{d}/libnoise.a'
    if os.path.exists(lib):
        return lib
    os.makedirs(d, exist_ok=True)
    objs = [f.result() for f in lib_objs(backend, flavour, extra, tag)]
    tmp = lib + '.%d' % os.getpid()
    run(['ar', 'rcsP', tmp] + objs)
    os.rename(tmp, lib)
    return lib


def prune():
    """Keep only the build trees of the current sources."""
    cur = tree_hash()
    for p in glob.glob(f'{BUILD}/????????????????????'):
        if os.path.basename(p) != cur:
            shutil.rmtree(p, ignore_errors=True)


WRAPS = ['-Wl,' + ','.join('--wrap=' + x for x in
                           ['malloc', 'calloc', 'realloc', 'free', 'noise_rand_bytes'])]
COMMON = ['pbt.cpp', 'env.cpp', 'oracle.cpp', 'model.cpp', 'newhope_model.cpp']


def headers_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(f'{VERIF}/harness/*.h')) + [os.path.abspath(__file__)]:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:10]


# parts of the harness that hold no buffer the library writes to
UNINSTRUMENTED = ('pbt.cpp', 'oracle.cpp', 'model.cpp', 'newhope_model.cpp')


def harness_futures(flavour, sources):
    cc, cxx, flags = FLAVOURS[flavour]
    base = f'{BUILD}/{tree_hash()}/hobj'
    os.makedirs(base, exist_ok=True)
    hh = headers_hash()
    out = []
    for s in sorted(sources, key=lambda s: -os.path.getsize(f'{VERIF}/harness/{s}')):
        p = f'{VERIF}/harness/{s}'
        h = hashlib.sha256(open(p, 'rb').read()).hexdigest()[:12]
        fl, name = flags, flavour
        if s in UNINSTRUMENTED and flavour in ('asan', 'fuzz'):
            fl, name = ['-O1', '-gline-tables-only'], 'noasan' if flavour == 'asan' else 'nomain'
        elif flavour == 'ct':
            fl = ['-O1', '-gline-tables-only']
        elif flavour == 'fuzz':       # no coverage of the harness itself
            fl, name = FLAVOURS['asan'][2], 'nocov'
        o = f'{base}/{os.path.basename(s)}-{name}-{hh}-{h}.o'
        extra = ['-DPBT_ASAN'] if flavour == 'asan' else ['-DPBT_NO_MAIN'] if flavour == 'fuzz' else []
        out.append(_compile([cxx, '-std=c++17', '-w'] + fl + extra + [f'-I{REPO}/include', f'-I{VERIF}/harness'], p, o))
    return out


def harness_objs(flavour, sources):
    return [f.result() for f in harness_futures(flavour, sources)]


def prefetch(jobs):
    """Start compiling everything for [(backend, flavour, sources)] at once."""
    for b, fl, src in jobs:
        harness_futures(fl, src)
    for b, fl in dict.fromkeys((b, fl) for b, fl, src in jobs):
        if not os.path.exists(f'{BUILD}/{tree_hash()}/{b}-{fl}/libnoise.a'):
            lib_objs(b, fl)


def build_harness(name, backend, flavour, sources, link=WRAPS, use_lib=True):
    cc, cxx, flags = FLAVOURS[flavour]
    objs = harness_objs(flavour, sources)
    lib = build_lib(backend, flavour) if use_lib else None
    hh = hashlib.sha256((repr(objs) + repr(link)).encode()).hexdigest()[:12]
    exe = f'{BUILD}/{tree_hash()}/bin/{name}-{backend}-{flavour}-{hh}'
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = f'{exe}.{os.getpid()}'
    if flavour == 'ct':
        flags = ['-O1', '-gline-tables-only', '-rdynamic']
    if flavour == 'stk':
        flags = flags + ['-rdynamic']
    run([cxx] + flags + objs + ([lib] if lib else []) + list(link) + libs_for(backend) + ['-o', tmp])
    os.rename(tmp, exe)
    return exe


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f'{BUILD}/.lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == '__main__':
    with Lock():
        prune()
        for b in BACKENDS:
            for fl in (sys.argv[1:] or ['asan']):
                print(build_lib(b, fl))
