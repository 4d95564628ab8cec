"""Builds the IR module (whole library + one harness) and the native replay
binaries from /repo's current sources."""
import os
import subprocess
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
ENG = os.path.join(VERIF, 'engine')
CFLAGS = ['-std=gnu99', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + ENG, '-I' + VERIF + '/harness']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + p.stderr.decode('latin1')[-3000:])
    return p.stdout


def sources():
    out = []
    for d, ds, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return sorted(out)


def objname(s):
    return os.path.relpath(s, REPO + '/src').replace('/', '_')


def lib_bc(work, tag, defs):
    """bitcode of the whole library for one set of -D options -> path"""
    out = os.path.join(work, 'lib-%s.bc' % tag)
    if os.path.exists(out):
        return out
    d = os.path.join(work, 'bc-' + tag)
    os.makedirs(d, exist_ok=True)
    srcs = sources()

    def one(s):
        o = os.path.join(d, objname(s) + '.bc')
        sh(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-fno-discard-value-names', '-w', '-emit-llvm',
            '-fno-stack-protector', '-c'] + CFLAGS + defs + [s, '-o', o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    sh(['llvm-link'] + objs + ['-o', out])
    return out


def module_ll(work, tag, defs, harness, hdefs=()):
    """textual IR of library + harness"""
    key = tag + '-' + os.path.basename(harness) + ('-' + '_'.join(hdefs) if hdefs else '')
    key = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in key)
    out = os.path.join(work, key + '.ll')
    if os.path.exists(out):
        return out
    lib = lib_bc(work, tag, defs)
    h = os.path.join(work, key + '.h.bc')
    sh(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-fno-discard-value-names', '-w', '-emit-llvm',
        '-fno-stack-protector', '-c'] + CFLAGS + defs + list(hdefs) + [harness, '-o', h])
    l = os.path.join(work, key + '.l.bc')
    sh(['llvm-link', h, lib, '-o', l])
    sh(['opt', '-passes=mem2reg,simplifycfg', '-S', l, '-o', out])
    return out


SAN = ['-fsanitize=address,shift-exponent,integer-divide-by-zero', '-fno-sanitize-recover=all']


def native(work, tag, defs, harness, hdefs=(), variant=''):
    """native replay binary; variant: '' | 'pattern' | 'zero' (initial contents of automatic variables)"""
    key = 'nat%s-%s-%s-%s' % (variant, tag, os.path.basename(harness), '_'.join(hdefs))
    key = ''.join(c if c.isalnum() or c in '-_.' else '_' for c in key)
    out = os.path.join(work, key)
    if os.path.exists(out):
        return out
    d = os.path.join(work, 'natobj%s-%s' % (variant, tag))
    os.makedirs(d, exist_ok=True)
    flags = ['-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-DVP_NATIVE'] + SAN
    if variant == 'pattern':
        flags += ['-ftrivial-auto-var-init=pattern']
    elif variant == 'zero':
        flags += ['-ftrivial-auto-var-init=zero']

    def one(s):
        mine = s == harness
        o = os.path.join(d, (key if mine else '') + s.replace('/', '_') + '.o')
        if not os.path.exists(o):
            sh(['clang', '-c'] + flags + CFLAGS + defs + (list(hdefs) if mine else []) + [s, '-o', o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources() + [harness, os.path.join(ENG, 'native.c')]))
    sh(['clang'] + flags + ['-rdynamic'] + objs +
       ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-ldl', '-o', out])
    return out
