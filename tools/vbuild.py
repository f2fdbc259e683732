"""Builds /repo (with a sanitizer) and the drivers of /verif/harness, incrementally, into /verif/build."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))

# What the undefined-behaviour build leaves out, and why (see DESIGN.md):
#  function           the library calls type-erased function pointers by design
#  null, nonnull      forming &v[0] of an empty vector or memcpy(p, NULL, 0): no observable effect (a real null
#                     access is still a crash)
#  float-cast         the library's "nocheck" assignments ask for the unchecked cast; the checked ones are decided
#                     by value
#  alignment          is not left out
ASAN = ('-O0 -g1 -w -Wno-error -fno-omit-frame-pointer -fsanitize=address,undefined '
        '-fno-sanitize=function,null,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,'
        'float-cast-overflow -D_GLIBCXX_SANITIZE_VECTOR=1')
TSAN = '-O1 -g1 -w -Wno-error -fno-omit-frame-pointer -fsanitize=thread'
FLAGS = {'asan': ASAN, 'tsan': TSAN}


class BuildError(Exception):
    pass


def run(cmd, cwd=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def configure(kind):
    d = os.path.join(BUILD, kind)
    if os.path.exists(os.path.join(d, 'build.ninja')):
        return d
    os.makedirs(d, exist_ok=True)
    san = [f for f in FLAGS[kind].split() if f.startswith('-f')]
    link = ' '.join(san) + (' -shared-libsan' if False else '')
    run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=clang', '-DCMAKE_CXX_COMPILER=clang++',
         '-DCMAKE_BUILD_TYPE=', '-DDYND_BUILD_TESTS=OFF', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
         '-DCMAKE_CXX_FLAGS=' + FLAGS[kind],
         '-DCMAKE_C_FLAGS=' + FLAGS[kind],
         '-DCMAKE_SHARED_LINKER_FLAGS=' + link, '-DCMAKE_EXE_LINKER_FLAGS=' + link])
    return d


def write_harness_ninja(kind):
    d = os.path.join(BUILD, kind)
    h = os.path.join(BUILD, 'h-' + kind)
    os.makedirs(h, exist_ok=True)
    src = os.path.join(VERIF, 'harness')
    lines = [
        'cxx = clang++',
        'flags = -std=c++14 %s -I%s/include -I%s/include -I%s -I%s/thirdparty/utf8/source'
        % (FLAGS[kind], REPO, d, src, REPO),
        'rule cc\n command = $cxx $flags $extra -MD -MF $out.d -c $in -o $out\n deps = gcc\n depfile = $out.d',
        'rule link\n command = $cxx $flags $in -o $out -L%s -ldynd -ldyndt -ldynd_abi -Wl,-rpath,%s -lpthread' % (d, d),
        'build vf.o: cc %s/vf.cpp' % src,
    ]
    for f in sorted(os.listdir(src)):
        if f.startswith(('p_', 'probe')) and f.endswith('.cpp'):
            n = f[:-4]
            is_tsan = n.startswith('p_tsan')
            if is_tsan != (kind == 'tsan') and not n.startswith('probe'):
                continue
            lines.append('build %s.o: cc %s/%s' % (n, src, f))
            extra = []
            for std, cc in ((11, 'clang %s' % FLAGS[kind]), (99, 'gcc -g1')):
                cf = '%s_c%d.c' % (n[2:], std)
                if os.path.exists(os.path.join(src, cf)):
                    # a client of the library in C (C99 falls back on gcc's atomics, so it is compiled by gcc)
                    lines.append('rule c%d_%s\n command = %s -std=c%d -I%s/include -I%s/include -I%s -MD -MF $out.d -c $in -o $out'
                                 '\n deps = gcc\n depfile = $out.d' % (std, n, cc, std, REPO, d, src))
                    lines.append('build %s.o: c%d_%s %s/%s' % (cf[:-2], std, n, src, cf))
                    extra.append(cf[:-2] + '.o')
            lines.append('build %s: link %s.o %s vf.o || %s/libdynd.so %s/libdyndt.so' % (n, n, ' '.join(extra), d, d))
    # the libraries are built by the other ninja file
    lines.append('rule none\n command = true')
    lines.append('build %s/libdynd.so: none\nbuild %s/libdyndt.so: none' % (d, d))
    text = '\n'.join(lines) + '\n'
    p = os.path.join(h, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return h


def build(kind, driver=None):
    """Builds the library and, if given, one driver; returns the driver's path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, kind + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = configure(kind)
        run(['ninja', '-C', d, 'libdynd', 'libdyndt', 'dynd_abi'])
        h = write_harness_ninja(kind)
        if driver:
            run(['ninja', '-C', h, driver])
            return os.path.join(h, driver)


def drivers(kind):
    src = os.path.join(VERIF, 'harness')
    return [f[:-4] for f in sorted(os.listdir(src))
            if f.startswith('p_') and f.endswith('.cpp') and f.startswith('p_tsan') == (kind == 'tsan')]


if __name__ == '__main__':
    try:
        for kind in sys.argv[1:] or ['asan', 'tsan']:
            build(kind)
            h = write_harness_ninja(kind)
            ds = drivers(kind)
            if ds:
                run(['ninja', '-C', h] + ds)
    except BuildError as e:
        print('BUILD FAILED:', e)
        sys.exit(2)
