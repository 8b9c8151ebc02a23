"""Program: the LLVM IR of /repo's translation units, produced from the current working tree on every run."""
import os, re, subprocess, hashlib, concurrent.futures as cf
import z3
from .irparse import *
from .core import *

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = 'libiqxmlrpc'

STD_EXC = {   # typeinfo of the standard library (bases)
    '_ZTISt9exception': [],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt10bad_typeid': ['_ZTISt9exception'],
    '_ZTISt13bad_exception': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
}


class ExtractError(Exception):
    pass


def gen_config(d):
    """config.h / version.h from the templates of the tree (what CMake would configure on this platform)."""
    os.makedirs(os.path.join(d, SRC), exist_ok=True)
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    vals = dict(re.findall(r'(?i)set\s*\(\s*(\w+)\s+"?([^")\s]+)"?\s*\)', cm))
    pn = re.search(r'(?im)^\s*project\s*\(\s*"?([\w.-]+)', cm)
    vals.setdefault('PROJECT_NAME', pn.group(1) if pn else 'project')
    for n in ('config.h', 'version.h'):
        src = os.path.join(REPO, SRC, n + '.in')
        if not os.path.exists(src):
            continue
        t = open(src).read()

        def cmdef(m):
            return '#define %s' % m.group(1)
        t = re.sub(r'#\s*cmakedefine\s+(\w+).*', cmdef, t)

        def sub_(m):
            k = m.group(1)
            v = vals.get(k)
            while v and re.search(r'\$\{(\w+)\}', v):
                v = re.sub(r'\$\{(\w+)\}', lambda q: vals.get(q.group(1), '0'), v)
            return v if v is not None else '0'
        t = re.sub(r'@(\w+)@', sub_, t)
        t = re.sub(r'\$\{(\w+)\}', sub_, t)
        for dd in (d, os.path.join(d, SRC)):
            open(os.path.join(dd, n), 'w').write(t)


def cflags(d):
    xml = subprocess.run(['xml2-config', '--cflags'], capture_output=True, text=True).stdout.split()
    return ['-std=gnu++14', '-DNDEBUG', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-I' + REPO, '-I' + d] + xml


def norm_dem(s):
    s = s.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    s = s.replace('std::__cxx11::', 'std::')
    s = s.replace('std::__1::', 'std::').replace('[abi:cxx11]', '')
    return s


class Program:
    def __init__(self, tus, outdir, extra=''):
        self.outdir = outdir
        self.mods = []
        self._dem = {}
        self.records = {}
        self.gblocks = {}
        os.makedirs(outdir, exist_ok=True)
        gen_config(outdir)
        paths = []
        jobs = [os.path.join(REPO, SRC, t) for t in tus]
        if extra:
            # no logic here: makes the compiler emit inline members of the tree's headers
            x = os.path.join(outdir, 'emit.cc')
            open(x, 'w').write(extra)
            jobs.append(x)
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(self._compile, jobs))
        self.src_hash = {}
        for src, (ll, lay) in zip(jobs, res):
            m = Module(self, ll, src)
            self.mods.append(m)
            self._layouts(lay)
            self.src_hash[os.path.relpath(src, REPO) if src.startswith(REPO) else src] = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        names = set()
        for m in self.mods:
            names.update(m.fn_lines)
            names.update(m.decls)
            names.update(n for n in m.globals if n.startswith('_Z'))
        names = sorted(names)
        out = subprocess.run(['llvm-cxxfilt-18'] if _has('llvm-cxxfilt-18') else ['llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self._dem[n] = norm_dem(d)
        self.by_dem = {}
        self.table = {}
        for m in self.mods:
            for n in m.globals:
                l = m.globals[n]
                if ' alias ' in l and not n.startswith('_ZTV'):
                    t = re.search(r'@("[^"]+"|[\w.$]+)\s*(?:,|$)', l.split(' alias ')[1])
                    if t and t.group(1).strip('"') in m.fn_lines:
                        m.fn_lines[n] = m.fn_lines[t.group(1).strip('"')]
            for n in m.fn_lines:
                self.table.setdefault(n, m)
                self.by_dem.setdefault(self._dem[n], []).append((m, n))
        self.gtable = {}
        for m in self.mods:
            for n, l in m.globals.items():
                if not self.is_local_global(m, n) and not m.globals_ext(n):
                    self.gtable.setdefault(n, m)
        self._bases = {}
        self._typeinfos()
        self._vtables()

    # ---------------------------------------------------------------- compile
    def _compile(self, src):
        out = os.path.join(self.outdir, os.path.basename(src) + '.ll')
        cmd = ['clang++', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-gline-tables-only', '-Wno-everything',
               '-Xclang', '-fdump-record-layouts'] + cflags(self.outdir) + [src, '-o', out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise ExtractError('clang failed on %s:\n%s' % (src, p.stderr[-3000:]))
        return out, p.stdout

    def _layouts(self, txt):
        for blk in txt.split('*** Dumping AST Record Layout')[1:]:
            lines = blk.split('\n')
            cls = None
            fields = []
            size = None
            for l in lines:
                m = re.match(r'\s*(\d+)(?::\S+)? \| (\s*)(.*)', l)
                if m:
                    off, ind, rest = int(m[1]), len(m[2]), m[3]
                    if cls is None:
                        cls = re.sub(r' \(empty\)$', '', re.sub(r'^(class|struct|union) ', '', rest))
                        continue
                    if ind == 2:
                        fields.append((off, rest))
                else:
                    m = re.match(r'\s*\| \[sizeof=(\d+)', l)
                    if m:
                        size = int(m[1])
            if cls and cls not in self.records:
                fl = []
                for off, rest in fields:
                    mb = re.match(r'(?:class |struct )?(.*) \(((?:virtual |primary )*base)\)(?: \(empty\))?$', rest)
                    if mb:
                        fl.append((off, 'base', mb[1], None))
                    elif rest.startswith('(') and 'vtable pointer' in rest:
                        fl.append((off, 'vptr', None, None))
                    else:
                        r = re.sub(r' \(empty\)$', '', rest)
                        k = r.rfind(' ')
                        ty, nm = r[:k], r[k + 1:]
                        ty = re.sub(r'^(class|struct|union|enum) ', '', ty)
                        fl.append((off, 'field', ty, nm))
                self.records[cls] = (size, fl)

    # ---------------------------------------------------------------- names
    def dem(self, n):
        return self._dem.get(n, n)

    def fn_by_dem(self, dem):
        l = self.by_dem.get(dem)
        if not l:
            return None
        return l[0][0].fn(l[0][1])

    def match(self, rx):
        return [d for d in self.by_dem if re.search(rx, d)]

    def home(self, mod, name):
        if mod.has(name):
            return mod
        return self.table.get(name)

    def is_function(self, mod, name):
        if name in mod.globals:
            l = mod.globals[name]
            return ' alias ' in l and not name.startswith('_ZTV')
        return True

    def is_local_global(self, m, n):
        l = m.globals.get(n, '')
        return bool(re.match(r' = (private|internal) ', l))

    def global_home(self, name):
        return self.gtable.get(name)

    # ---------------------------------------------------------------- records
    def rec(self, cls):
        r = self.records.get(cls)
        if r is None:
            raise Unsupported('no layout for class %s' % cls)
        return r

    def size(self, cls):
        return self.rec(cls)[0]

    def fields(self, cls, base=0):
        """flattened (offset, type, name) including inherited members"""
        out = []
        for off, k, ty, nm in self.rec(cls)[1]:
            if k == 'base':
                if ty in self.records:
                    out += self.fields(ty, base + off)
            elif k == 'field':
                out.append((base + off, ty, nm))
            elif k == 'vptr':
                out.append((base + off, 'vptr', None))
        return out

    def off(self, cls, name):
        """offset of (possibly inherited / nested a.b) member by name"""
        o = 0
        parts = name.split('.')
        for i, p in enumerate(parts):
            for fo, ty, nm in self.fields(cls):
                if nm == p:
                    o += fo
                    cls = ty
                    break
            else:
                raise Unsupported('class %s has no member %s' % (cls, p))
        return o

    def ftype(self, cls, name):
        parts = name.split('.')
        for p in parts:
            for fo, ty, nm in self.fields(cls):
                if nm == p:
                    cls = ty
                    break
            else:
                raise Unsupported('class %s has no member %s' % (cls, p))
        return cls

    def field_type_name(self, cls, off):
        if cls not in self.records:
            return None
        for fo, ty, nm in self.fields(cls):
            if fo == off:
                return ty
        return None

    def field_type(self, cls, off):
        t = self.field_type_name(cls, off)
        if t and t.endswith('*'):
            t = t[:-1].strip()
            return re.sub(r'^(const )?(class |struct )?', '', t).strip()
        return None

    def is_poly(self, cls):
        if cls not in self.records:
            return cls in self.vtabs
        return any(t == 'vptr' and o == 0 for o, t, n in self.fields(cls))

    # ---------------------------------------------------------------- RTTI
    def _typeinfos(self):
        for m in self.mods:
            for n, l in m.globals.items():
                if n.startswith('_ZTI') and n not in self._bases and not m.globals_ext(n):
                    try:
                        t, v, c = m.global_init(n)
                    except IRError:
                        continue
                    if not v or v[0] != 'agg':
                        continue
                    els = v[1]
                    bs = []
                    kind = repr(els[0][1])
                    if '__si_class_type_info' in kind:
                        bs.append((els[2][1][1], 0))
                    elif '__vmi_class_type_info' in kind:
                        k = 4
                        while k + 1 < len(els):
                            flags = els[k + 1][1][1]
                            bs.append((els[k][1][1], flags >> 8 if not flags & 1 else None))
                            k += 2
                    self._bases[n] = bs
        for n, bs in STD_EXC.items():
            self._bases.setdefault(n, [(b, 0) for b in bs])
        self._cls_ti = {}
        for n in self._bases:
            d = self._dem.get(n)
            if d and d.startswith('typeinfo for '):
                self._cls_ti[d[13:]] = n
        for n in STD_EXC:
            d = subprocess.run(['llvm-cxxfilt-18'] if _has('llvm-cxxfilt-18') else ['llvm-cxxfilt'], input=n, capture_output=True, text=True).stdout.strip()
            self._cls_ti[d[13:]] = n
            self._dem[n] = d

    def ti_of(self, cls):
        t = self._cls_ti.get(cls)
        if t is None:
            raise Unsupported('no typeinfo for %s' % cls)
        return t

    def ti_cls(self, ti):
        return self._dem.get(ti, ti).replace('typeinfo for ', '')

    def derives(self, ti, base):
        """offset-bearing derivation test"""
        return self.base_off(ti, base) is not None

    def base_off(self, ti, base):
        if ti == base:
            return 0
        for b, o in self._bases.get(ti, []):
            r = self.base_off(b, base)
            if r is not None:
                return None if o is None else o + r
        return None

    def derived_classes(self, cls):
        t = self._cls_ti.get(cls)
        return [self.ti_cls(x) for x in self._bases if t and self.derives(x, t)]

    # ---------------------------------------------------------------- vtables
    def _vtables(self):
        self.vgroups = {}     # class -> function names of all its vtables
        self.vtabs = {}       # class -> list of function names (primary vtable, from address point)
        for m in self.mods:
            for n, l in m.globals.items():
                if n.startswith('_ZTV') and not m.globals_ext(n):
                    cls = self._dem[n].replace('vtable for ', '')
                    if cls in self.vtabs:
                        continue
                    try:
                        t, v, c = m.global_init(n)
                    except IRError:
                        continue
                    if not v or v[0] != 'agg':
                        continue
                    arr = v[1][0][1]
                    fns = []
                    for et, ev in arr[1][2:]:
                        fns.append(ev[1] if ev[0] == 'glob' else None)
                    self.vtabs[cls] = fns
                    self.vgroups[cls] = [[ev[1] if ev[0] == 'glob' else None for et, ev in g[1][1][2:]] for g in v[1]]

    def vptr_for(self, E, st, cls):
        """pointer stored as vptr in an object of exact class cls"""
        cls = re.sub(r'\b(class|struct) ', '', cls)
        for m in self.mods:
            for n in m.globals:
                if n.startswith('_ZTV') and self._dem[n] == 'vtable for ' + cls and not m.globals_ext(n):
                    return Ptr(E.gptr(st, m, n).base, 16)
        raise Unsupported('no vtable for ' + cls)

    def vtab_in(self, d, cls):
        """the vtable an object of class d shows when seen as cls"""
        o = self.base_off(self._cls_ti.get(d), self._cls_ti.get(cls))
        if not o:
            return self.vtabs.get(d)
        offs = [x for x, ty, nm in self.fields(d) if ty == 'vptr']
        g = self.vgroups.get(d)
        return g[offs.index(o)] if g and o in offs and offs.index(o) < len(g) else None

    def put_vptrs(self, E, st, p, cls):
        """all vptrs (primary and those of further bases) of an object of exact class cls"""
        offs = [o for o, ty, nm in self.fields(cls) if ty == 'vptr']
        cls = re.sub(r'\b(class|struct) ', '', cls)
        for m in self.mods:
            for n in m.globals:
                if n.startswith('_ZTV') and self._dem[n] == 'vtable for ' + cls and not m.globals_ext(n):
                    base = E.gptr(st, m, n).base
                    at = 0
                    t, v, c = m.global_init(n)
                    for off, (et, ev) in zip(offs, v[1]):
                        st.put(p.add(off), 8, Ptr(base, at + 16))
                        at += 8 * len(ev[1])
                    return
        raise Unsupported('no vtable for ' + cls)

    def vimpl(self, cls, slot):
        """mangled names of all implementations a virtual call on cls can reach"""
        out = []
        for d in [cls] + sorted(self.derived_classes(cls)):
            f = self.vtab_in(d, cls)
            if f and slot < len(f) and f[slot] and '__cxa_pure_virtual' not in f[slot] and f[slot] not in out:
                out.append(f[slot])
        return out

    def vslot(self, cls, slot):
        """demangled names of the implementations a virtual call on cls can reach; the static one first"""
        out = []
        if cls in self.vtabs:
            f = self.vtabs[cls]
            if slot < len(f) and f[slot]:
                out.append(self.dem(f[slot]))
        for d in sorted(self.derived_classes(cls)):
            f = self.vtab_in(d, cls)
            if f and slot < len(f) and f[slot]:
                x = re.sub(r'^(non-)?virtual thunk to ', '', self.dem(f[slot]))
                if x not in out:
                    out.append(x)
        # method name on the static class
        pure = [o for o in out if o.split('(')[0] != '__cxa_pure_virtual']
        if pure:
            meth = re.sub(r'^.*::(~?\w+\(.*)$', r'\1', pure[0])
            if meth.startswith('~'):
                meth = '~%s()' % re.sub(r'<.*', '', cls).split('::')[-1]
            out.insert(0, cls + '::' + meth)
        return out

    # ---------------------------------------------------------------- globals
    def read_only(self, mod, name):
        """a variable of this file that is never written: its only uses are loads"""
        if not self.is_local_global(mod, name):
            return False
        key = (mod.path, name)
        c = self.__dict__.setdefault('_ro', {})
        if key not in c:
            at, ref = '@' + name, re.compile('@"?' + re.escape(name) + r'"?(?![\w.$])')
            load = re.compile(r'^\s+%[\w.]+ = load [^,]+, ptr @"?' + re.escape(name) + r'"?,')
            c[key] = all(load.match(l) or l.startswith('@') and ref.match(l) or '!' == l[:1] for l in mod.lines if at in l and ref.search(l))
        return c[key]

    def global_block(self, E, st, key, mod, name):
        p = st.alloc(None, 'global', name)
        b = st.blocks[p.base]
        self.gblocks[p.base] = b
        if name not in mod.globals:
            return p.base
        t, v, const = mod.global_init(name)
        if t == 'alias':
            raise Unsupported('alias ' + name)
        if v is None:
            b.size = None
            return p.base
        b.size = mod.size(t)
        if v[0] == 'zero' and not const:
            pass   # mutable global: contents unknown at function entry unless a contract sets them
        if not const and not self.read_only(mod, name):
            b.kind = 'gvar'
            return p.base
        b.const = True
        if v[0] == 'str':
            b.bytes = v[1]
            b.const = True
            return p.base
        if v[0] == 'zero':
            b.default = 0
            if mod.resolve(t)[0] == 'arr' and mod.resolve(t)[2] == I8:
                b.bytes = bytes(mod.size(t))
            return p.base
        st.globals[key] = p.base
        self._init(E, st, mod, b, 0, t, v)
        b2 = st.blocks[p.base]
        self.gblocks[p.base] = b2
        return p.base

    def _init(self, E, st, mod, b, off, t, v):
        r = mod.resolve(t)
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, _ = mod.field(t, i)
                self._init(E, st, mod, b, off + o, et, ev)
            return
        if v[0] == 'str':
            b.cells[off] = (len(v[1]), BytesV(sbytes(v[1]), len(v[1])))
            return
        if v[0] == 'zero' and r[0] in ('struct', 'arr'):
            n = mod.size(t)
            for k in range(0, n, 8):
                b.cells[off + k] = (8, 0)
            return
        try:
            b.cells[off] = (mod.size(t), E.constval(st, mod, t, v))
        except Unsupported:
            pass


def _has(x):
    import shutil
    return shutil.which(x) is not None
