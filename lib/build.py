#!/usr/bin/env python3
"""Incremental, content-hashed build of /repo's sources (plus the harnesses of
/verif/harness) with sanitizers, into /verif/build/<san>.  Nothing is decided by
mtimes: an object is reused only if the sha256 over its command line and over the
contents of every file its dependency list names is unchanged."""
import hashlib, json, os, re, subprocess, sys, threading, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
SPEC = json.load(open(os.path.join(VERIF, 'lib', 'spec.json')))
GUARD = '-DPSI_VERIF_HOOKS=1'

SAN = {
    # shift-base off: hash functions shift signed values (defined since C++20, benign in every compiler used);
    # -fno-sanitize=alignment: murmur_hash3 reads unaligned words on purpose (x86);
    # -fno-sanitize=nonnull-attribute: fwrite(&v[0], .., 0) on empty vectors is benign here
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,vptr,shift-base',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-O1'],
    'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer', '-O1'],
}
COMMON = ['-g1', '-w', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-DNO_SHARED_PLUGINS', '-pthread']
CXXONLY = ['-include', 'iostream', '-include', 'algorithm']
LIBS = ['-lboost_filesystem', '-lboost_graph', '-lboost_iostreams', '-lboost_program_options', '-lboost_regex',
        '-lboost_serialization', '-lboost_system', '-lboost_thread', '-lboost_timer', '-lboost_chrono',
        '-llog4cpp', '-l:libperl.so.5.38',  '-lpcre', '-lpcrecpp', '-lcmph', '-lmagic', '-lz',
        '-L/usr/lib/jvm/java-17-openjdk-amd64/lib/server', '-ljvm',
        '-Wl,-rpath,/usr/lib/jvm/java-17-openjdk-amd64/lib/server', '-ldl', '-lpthread', '-lm']
ALLMODS = [m for m in SPEC]

class BuildError(Exception):
    pass

_sha = {}
_sha_lock = threading.Lock()
def fsha(p):
    with _sha_lock:
        if p in _sha:
            return _sha[p]
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    with _sha_lock:
        _sha[p] = h
    return h

def sub(s, san):
    return s.replace('@R', REPO).replace('@B', os.path.join(BUILD, 'gen'))

def parse_d(path):
    try:
        t = open(path).read()
    except OSError:
        return None
    t = t.replace('\\\n', ' ')
    t = t.split(':', 1)[1] if ':' in t else ''
    return sorted(set(x for x in t.split() if not x.startswith('/usr/')))

def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        o = p.stdout
        k = o.find('error')
        raise BuildError('%s failed (%d): %s ... %s\n%s' % (what, p.returncode, cmd[0], ' '.join(cmd[-8:]),
                                                         o[max(0, k - 1500):k + 2500]))

def up_to_date(out, cmd, deps):
    k = out + '.key'
    if not os.path.exists(out) or deps is None:
        return False
    try:
        return open(k).read() == key(cmd, deps)
    except OSError:
        return False

def key(cmd, deps):
    h = hashlib.sha256()
    h.update('\0'.join(cmd).encode())
    for d in deps:
        h.update(('\0%s=%s' % (d, fsha(d))).encode())
    return h.hexdigest()

def write(path, text):
    tmp = path + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
    with open(tmp, 'w') as f:
        f.write(text)
    os.replace(tmp, path)

def compile_one(src, out, flags):
    """returns True if it had to be compiled"""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cc = 'gcc' if src.endswith('.c') else 'g++'
    dfile = out + '.d'
    tmpo = out + '.tmp%d' % os.getpid()
    if cc == 'gcc':
        flags = [f for f in flags if f not in CXXONLY and not f.startswith('-std=gnu++')]
    cmd = [cc] + flags + ['-c', src]
    deps = parse_d(dfile)
    if up_to_date(out, cmd, deps):
        return False
    run(cmd + ['-o', tmpo, '-MMD', '-MF', dfile + '.tmp'], 'compile')
    os.replace(tmpo, out)
    os.replace(dfile + '.tmp', dfile)
    write(out + '.key', key(cmd, parse_d(dfile)))
    return True

def generate():
    g = os.path.join(BUILD, 'gen')
    for d in ('gobio', 'transferer'):
        os.makedirs(os.path.join(g, d), exist_ok=True)
    def gen(out, deps, cmd):
        if up_to_date(out, cmd, deps):
            return
        run(cmd, 'generate')
        write(out + '.key', key(cmd, deps))
    tr = REPO + '/tools/parsers/gobio/translator/'
    gen(g + '/gobio/lex.grlex.cpp', [tr + 'lex.grlex.lpp'],
        ['flex', '-P', 'grlex', '-o', g + '/gobio/lex.grlex.cpp', tr + 'lex.grlex.lpp'])
    gen(g + '/gobio/grparser.bis.cpp', [tr + 'grparser.y'],
        ['bison', '-p', 'grparser', '-o', g + '/gobio/grparser.bis.cpp', tr + 'grparser.y'])
    tf = REPO + '/tools/translators/transferer/'
    gen(g + '/transferer/trparser.tab.cpp', [tf + 'trparser.y'],
        ['bison', '-d', '-p', 'trparser', '-o', g + '/transferer/trparser.tab.cpp', tf + 'trparser.y'])
    gen(g + '/transferer/lex.trlex.cpp', [tf + 'lex.trlex.lpp'],
        ['flex', '-o', g + '/transferer/lex.trlex.cpp', tf + 'lex.trlex.lpp'])
    gi = g + '/git_info.cpp'
    if not os.path.exists(gi):
        write(gi, 'const char* g_GIT_SHA1 = "verif";\nconst char* g_GIT_LAST_DATE = "verif";\n')
    # config.hpp is made by /repo's cmake (git-ignored there); the committed copy is a fallback only
    os.makedirs(g + '/config', exist_ok=True)
    if not os.path.exists(REPO + '/common/config.hpp'):
        write(g + '/config/config.hpp', open(os.path.join(VERIF, 'lib', 'config.hpp')).read())

def mod_flags(mod, san):
    m = SPEC[mod]
    f = list(SAN[san]) + COMMON + ['-std=' + m['std']] + m['flags']
    f += [GUARD]
    f += CXXONLY
    if mod == 'uchardet':
        f += ['-fno-sanitize=enum']      # its state machines keep state numbers above the named enumerators
    f += ['-I' + sub(i, san) for i in m['inc']] + ['-I' + os.path.join(BUILD, 'gen', 'config')]
    return f

def harness_flags(san, extra):
    inc = []
    for mod in SPEC:
        for i in SPEC[mod]['inc']:
            j = '-I' + sub(i, san)
            if j not in inc:
                inc.append(j)
    return list(SAN[san]) + COMMON + ['-std=gnu++14', '-fno-access-control', GUARD] + CXXONLY + \
        ['-I' + os.path.join(VERIF, 'harness')] + inc + ['-I' + os.path.join(BUILD, 'gen', 'config')] + extra

def obj_path(san, mod, src):
    s = src.replace('@R/', 'r/').replace('@B/', 'b/')
    return os.path.join(BUILD, san, mod, s + '.o')

_srcs = {}
def sources(mod):
    """the sources of the committed list, less those that are gone, plus new files beside them"""
    if mod not in _srcs:
        src = [s for s in SPEC[mod]['src'] if s.startswith('@B/') or os.path.exists(sub(s, 'asan'))]
        base = set(open(os.path.join(VERIF, 'lib', 'base_sources.txt')).read().split())
        spec = set(s for m in SPEC for s in SPEC[m]['src'])
        for d in sorted(set(os.path.dirname(s) for s in SPEC[mod]['src'] if s.startswith('@R/'))):
            try:
                names = sorted(os.listdir(sub(d, 'asan')))
            except OSError:
                continue
            owners = set(m for m in SPEC for s in SPEC[m]['src'] if os.path.dirname(s) == d)
            if mod != min(owners):
                continue
            for n in names:
                f = d + '/' + n
                if n.endswith(('.cpp', '.cc')) and f not in spec and f[3:] not in base:
                    src.append(f)
        _srcs[mod] = src
    return _srcs[mod]

def closure_sources(mods):
    return [(m, s) for m in mods for s in sources(m)]

def build(harness, mods, san='asan', jobs=None, log=None, extra_flags=(), extra_objs=()):
    """Builds the objects of `mods`, archives them, compiles harness/<harness>.cpp and
    links the executable.  Returns (path, n_compiled)."""
    os.makedirs(os.path.join(BUILD, san), exist_ok=True)
    lock = open(os.path.join(BUILD, san, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with _sha_lock:
            _sha.clear()
        generate()
        jobs = jobs or os.cpu_count() or 4
        todo = [(sub(s, san), obj_path(san, m, s), mod_flags(m, san)) for m, s in closure_sources(mods)]
        hs = []
        if harness:
            hsrc = os.path.join(VERIF, 'harness', harness + '.cpp')
            hs = [(hsrc, os.path.join(BUILD, san, 'harness', harness + '.o'), harness_flags(san, list(extra_flags)))]
            if sys.stdout is None:
                pass
        compiled = 0
        with ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(lambda a: compile_one(*a), hs + todo):
                compiled += bool(r)
        archives = []
        for m in mods:
            objs = [obj_path(san, m, s) for s in sources(m)]
            a = os.path.join(BUILD, san, 'lib', m + '.a')
            os.makedirs(os.path.dirname(a), exist_ok=True)
            cmd = ['ar', 'rcs', a] + objs
            if not up_to_date(a, cmd, [o + '.key' for o in objs]):
                if os.path.exists(a):
                    os.unlink(a)
                run(cmd, 'archive')
                write(a + '.key', key(cmd, [o + '.key' for o in objs]))
            archives.append(a)
        if not harness:
            return None, compiled
        exe = os.path.join(BUILD, san, 'bin', harness)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        sflags = [f for f in SAN[san] if f.startswith('-fsan')]
        cmd = ['g++', '-rdynamic'] + sflags + ['-o', exe, hs[0][1]] + list(extra_objs) + \
            ['-Wl,--start-group'] + archives + ['-Wl,--end-group'] + LIBS
        deps = [hs[0][1] + '.key'] + [a + '.key' for a in archives]
        _sha_drop(deps)
        if not up_to_date(exe, cmd, deps):
            tmp = exe + '.tmp'
            c2 = list(cmd); c2[c2.index(exe)] = tmp
            run(c2, 'link')
            os.replace(tmp, exe)
            write(exe + '.key', key(cmd, deps))
        return exe, compiled
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def _sha_drop(paths):
    with _sha_lock:
        for p in paths:
            _sha.pop(p, None)

if __name__ == '__main__':
    t = time.time()
    san = sys.argv[1] if len(sys.argv) > 1 else 'asan'
    mods = sys.argv[2:] or ALLMODS
    try:
        _, n = build(None, mods, san)
    except BuildError as e:
        print(e); sys.exit(2)
    print('built', n, 'objects in %.1fs' % (time.time() - t))
