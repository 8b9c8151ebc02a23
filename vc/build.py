"""Builds the replay drivers from /repo's current working tree (objects cached by content hash under /verif/build)."""
import hashlib, os, re, subprocess, sys, glob, concurrent.futures as cf, fcntl
from . import prog as PG

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')


class BuildError(Exception):
    pass


SAN = ['-fsanitize=address']


def lib_sources():
    return sorted(os.path.basename(f) for f in glob.glob(PG.REPO + '/libiqxmlrpc/*.cc'))


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(PG.REPO + '/libiqxmlrpc/*')):
        if f.endswith(('.h', '.inl', '.in')):
            h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()


def flags(san):
    base = ['-std=gnu++14', '-g1', '-O1', '-w', '-DNDEBUG', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-iquote' + PG.REPO + '/libiqxmlrpc'] + PG.cflags(cfgdir())
    return base + (['-fsanitize=thread'] if san == 'thread' else SAN if san else [])


def cfgdir():
    d = os.path.join(BUILD, 'cfg')
    os.makedirs(d, exist_ok=True)
    PG.gen_config(d)
    return d


def literals():
    """string and integer literals of the library's sources: directed inputs for the drivers"""
    import ast
    strs, nums = set(), set()
    for f in sorted(glob.glob(PG.REPO + '/libiqxmlrpc/*')):
        if not f.endswith(('.cc', '.h', '.inl')):
            continue
        t = re.sub(r'//[^\n]*|/\*.*?\*/|^\s*#[^\n]*', '', open(f, errors='replace').read(), flags=re.S | re.M)
        for x in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                b = ast.literal_eval('b"%s"' % x)
            except (SyntaxError, ValueError):
                continue
            if 1 < len(b) < 60:
                strs.add(b)
        for x in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])', re.sub(r'"(?:[^"\\\n]|\\.)*"', '', t)):
            nums.add(int(x, 0) if x[:2].lower() == '0x' or x == '0' or x[0] != '0' else int(x, 8) if re.match(r'^[0-7]+$', x) else 0)
    return sorted(strs), sorted(n for n in nums if n < 1 << 63)


def write_literals(name):
    s, n = literals()
    f = os.path.join(BUILD, 'lit-%s-%d.txt' % (name, os.getpid()))
    os.makedirs(BUILD, exist_ok=True)
    with open(f, 'w') as o:
        o.write(''.join('s %s\n' % x.hex() for x in s) + ''.join('n %d\n' % x for x in n))
    return f


def compile_one(src, key, fl, log):
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++', '-c', src, '-o', tmp] + fl, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s does not compile:\n%s' % (src, r.stderr[-3000:]))
    os.replace(tmp, obj)
    return obj


def build_driver(name, san=True, extra=()):
    """-> path of the executable replay/<name>.cc linked with the library of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    fl = flags(san)
    th = tree_hash()
    fh = hashlib.sha256(' '.join(fl).encode()).hexdigest()
    jobs = []
    for s in lib_sources():
        p = PG.REPO + '/libiqxmlrpc/' + s
        k = hashlib.sha256(open(p, 'rb').read() + th.encode() + fh.encode()).hexdigest()[:24]
        jobs.append((p, s[:-3] + '-' + k, fl))
    rh = hashlib.sha256()
    for f in sorted(glob.glob(ROOT + '/replay/*.h')) + [ROOT + '/replay/%s.cc' % name]:
        rh.update(open(f, 'rb').read())
    k = hashlib.sha256(rh.digest() + th.encode() + fh.encode() + ' '.join(extra).encode()).hexdigest()[:24]
    jobs.append((ROOT + '/replay/%s.cc' % name, 'drv-%s-%s' % (name, k), fl + ['-I' + ROOT + '/replay'] + list(extra)))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], None), jobs))
    exe = os.path.join(BUILD, 'bin', name + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        # objects go into the link directly so that a driver may define (interpose) system calls
        r = subprocess.run(['g++', '-o', tmp] + objs[::-1] + (['-fsanitize=thread'] if san == 'thread' else SAN if san else []) +
                           ['-lboost_date_time', '-lboost_thread', '-lboost_system', '-lxml2', '-lssl', '-lcrypto', '-lpthread', '-rdynamic'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link of %s failed:\n%s' % (name, r.stderr[-3000:]))
        os.replace(tmp, exe)
    prune()
    return exe


def prune(limit=1500 << 20):
    """keep the cache small"""
    fs = []
    for d in ('obj', 'bin'):
        for f in glob.glob(os.path.join(BUILD, d, '*')):
            try:
                s = os.stat(f)
                fs.append((s.st_mtime, s.st_size, f))
            except OSError:
                pass
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s
