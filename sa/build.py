"""Builds the resolved program (linked LLVM IR of /repo's current working tree) and loads it."""
import os, re, sys, json, hashlib, subprocess, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LLVM = '/usr/lib/llvm-18'

# same language level / defines as the real build (g++ 13 default gnu++17, no build type: asserts active)
CXXFLAGS = ['-std=gnu++17']
CFLAGS = ['-x', 'c', '-std=gnu17']
COMMON = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-fno-delete-null-pointer-checks',
          '-fno-exceptions', '-fPIC', '-Dbinary_xml_EXPORTS', '-DBIN_WRITE_PLUGIN', '-w',
          '-I/usr/include/libxml2', '-I' + REPO + '/include', '-emit-llvm', '-c']
PASSES = ('function(early-cse<memssa>,instsimplify,simplifycfg),cgscc(function-attrs),'
          'function(early-cse<memssa>,jump-threading,early-cse<memssa>,gvn<no-pre;no-load-pre>,simplifycfg)')


class AnalysisBroken(Exception):
    pass


def tool():
    src = os.path.join(VERIF, 'engine', 'bxir.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'bxir-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CLANG, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
                            '-L' + LLVM + '/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('cannot build bxir: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def units():
    us = sorted(glob.glob(REPO + '/src/*.cpp')) + sorted(glob.glob(REPO + '/src/jsmn/*.c'))
    if len(us) < 12:
        raise AnalysisBroken('only %d translation units found under %s/src' % (len(us), REPO))
    return us


def source_hash():
    h = hashlib.sha256()
    fs = units() + sorted(glob.glob(REPO + '/src/**/*.h', recursive=True)) + sorted(glob.glob(REPO + '/include/**/*.h', recursive=True))
    for f in fs:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    for f in (os.path.join(VERIF, 'engine', 'bxir.cpp'), os.path.join(VERIF, 'engine', 'known_functions.txt'), os.path.abspath(__file__)):
        if os.path.exists(f):
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def build_json(ndebug=False, inline=None, probe=None):
    os.makedirs(BUILD, exist_ok=True)
    hh = source_hash() + ('-n' if ndebug else '') + ('-' + hashlib.sha256(inline.encode()).hexdigest()[:8] if inline else '') + ('-p' + hashlib.sha256(probe.encode()).hexdigest()[:8] if probe else '')
    out = os.path.join(BUILD, 'prog-' + hh + '.json')
    if os.path.exists(out):
        return out
    t = tool()
    d = tempfile.mkdtemp(prefix='bx', dir=BUILD)
    try:
        def comp(u):
            o = os.path.join(d, os.path.basename(u) + '.bc')
            fl = (CFLAGS if u.endswith('.c') else CXXFLAGS) + COMMON + (['-DNDEBUG'] if ndebug else [])
            r = subprocess.run([CLANG] + fl + [u, '-o', o], capture_output=True, text=True)
            return u, o, r
        us = units()
        if probe:
            # uses of inline functions of the headers, so that they are emitted; a use that does not compile is left out
            uses = probe.strip().split('\n')
            head = ''.join(l + '\n' for l in uses if l.startswith('#'))
            for i, l in enumerate(l for l in uses if not l.startswith('#')):
                pu = os.path.join(d, 'probe%d.cpp' % i)
                with open(pu, 'w') as f: f.write(head + 'using namespace pklib_xml;\nextern "C" { __attribute__((used)) auto probe_%d = %s; }\n' % (i, l))
                if comp(pu)[2].returncode == 0: us.append(pu)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, us))
        for u, o, r in rs:
            if r.returncode != 0:
                raise AnalysisBroken('clang failed on %s: %s' % (u, r.stderr[-3000:]))
        known = os.path.join(VERIF, 'engine', 'known_functions.txt')
        if not os.path.exists(known):
            known = '/dev/null'
        if inline:
            k2 = os.path.join(d, 'known.txt')
            with open(k2, 'w') as f:
                for l in open(known):
                    if not re.search(inline, l): f.write(l)
            known = k2
        tmp = os.path.join(d, 'prog.json')
        r = subprocess.run([t, tmp, known, PASSES] + [o for _, o, _ in rs], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('bxir failed: ' + r.stderr[-3000:])
        os.rename(tmp, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # keep the cache small
    olds = sorted(glob.glob(BUILD + '/prog-*.json'), key=os.path.getmtime)
    for f in olds[:-24]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return out


def load(ndebug=False, inline=None, probe=None):
    """inline: regular expression of (mangled) known functions that are to be inlined as well"""
    from . import ir
    return ir.Program(json.load(open(build_json(ndebug, inline, probe))))
