"""Loads the type-resolved program facts of /repo's current working tree.

Every translation unit listed in Makefile.list is parsed with clang (tool/extract.cpp) and the resulting
JSON is cached under build/cache, keyed by the content of the unit and every /repo file it includes.
"""
import os, re, sys, json, glob, hashlib, subprocess, marshal, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
TOOL = os.path.join(BUILD, 'extract')


class AnalysisError(Exception):
    """the analysis could not be carried out: neither a pass nor a violation"""


def sha(b):
    return hashlib.sha256(b).hexdigest()


def source_list(repo=REPO):
    txt = open(os.path.join(repo, 'Makefile.list')).read().replace('\\\n', ' ')
    res = []
    m = re.search(r'^SOURCES\s*=(.*)$', txt, re.M)
    t = re.search(r'^TORUSSRC\s*=(.*)$', txt, re.M)
    if not m or not t:
        raise AnalysisError('Makefile.list: cannot find the list of sources')
    res += [os.path.join('src', s) for s in m.group(1).split()]
    res += [os.path.join('src/torus', s) for s in t.group(1).split()]
    return res


def flags(repo=REPO):
    import sysconfig
    py = sysconfig.get_paths()['include']
    if not os.path.exists(os.path.join(py, 'Python.h')):
        py = (glob.glob('/usr/include/python3.*') + [''])[0]
    return ['-std=c++11', '-fopenmp', '-DHAVE_PYTHON', '-I' + py,
            '-I/usr/lib/python3/dist-packages/numpy/core/include',
            '-DHAVE_EIGEN', '-I/usr/include/eigen3', '-DHAVE_GLPK', '-I' + os.path.join(repo, 'src'),
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-idirafter', os.path.join(VERIF, 'include'), '-w', '-ferror-limit=5']


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisError('cannot build the extractor:\n' + r.stdout.decode()[-2000:])


_fhash = {}


def file_hash(p):
    if p not in _fhash:
        try:
            _fhash[p] = sha(open(p, 'rb').read())
        except OSError:
            _fhash[p] = None
    return _fhash[p]


def extract_tu(src, repo, toolhash):
    path = os.path.join(repo, src)
    if not os.path.exists(path):
        raise AnalysisError('source file %s does not exist' % path)
    fl = flags(repo)
    base = os.path.join(CACHE, src.replace('/', '_') + '.' + sha((repo + toolhash).encode())[:8])
    meta = base + '.meta'
    srcroot = os.path.join(repo, 'src')
    # a copy of the tree (during development) shares the facts of files that do not differ
    other = os.path.join(CACHE, src.replace('/', '_') + '.' + sha(('/repo' + toolhash).encode())[:8])
    if repo != '/repo' and os.path.exists(other + '.meta') and os.path.exists(other + '.facts'):
        try:
            m = json.load(open(other + '.meta'))
            if m['tool'] == toolhash and m['flags'] == flags('/repo') and all(file_hash(os.path.join(srcroot, f)) == h for f, h in m['deps'].items()):
                return other + '.facts', False
        except Exception:
            pass
    if os.path.exists(meta) and os.path.exists(base + '.facts'):
        try:
            m = json.load(open(meta))
            if m['tool'] == toolhash and m['flags'] == fl and all(file_hash(os.path.join(srcroot, f)) == h for f, h in m['deps'].items()):
                return base + '.facts', False
        except Exception:
            pass
    out = base + '.json.%d' % os.getpid()
    r = subprocess.run([TOOL, srcroot, out, path, '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        if r.returncode:
            raise AnalysisError('clang cannot parse %s:\n%s' % (src, r.stdout.decode(errors='replace')[-3000:]))
        d = json.load(open(out))
    except ValueError as e:
        raise AnalysisError('bad extractor output for %s: %s' % (src, e))
    finally:
        if os.path.exists(out):
            os.unlink(out)
    tmp = base + '.tmp.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        marshal.dump(d, f)
    os.replace(tmp, base + '.facts')
    with open(tmp, 'w') as f:
        json.dump(dict(tool=toolhash, flags=fl, deps={f_: file_hash(os.path.join(srcroot, f_)) for f_ in d['deps']}), f)
    os.replace(tmp, meta)
    return base + '.facts', True


class Type(object):
    __slots__ = ('s', 'k', 'const', 'sub', 'name', 'len')

    def __repr__(self):
        return self.s

    def strip(self):
        """pointee/referred/element record"""
        t = self
        while t.sub is not None and t.k in ('ptr', 'ref', 'rref', 'arr'):
            t = t.sub
        return t

    def deref(self):
        return self.sub if self.k in ('ref', 'rref') else self


class Node(object):
    """AST node: k kind, line, t type (Type or None), a attribute, c children (None for absent)"""
    __slots__ = ('k', 'line', 't', 'a', 'c', 'fn')

    def __repr__(self):
        return '%s(%s)@%d' % (self.k, self.a, self.line)

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            for x in reversed(n.c):
                if x is not None:
                    stack.append(x)


class Function(object):
    def __init__(self, d, tu, prog):
        self.key = d['key']
        self.q = d['q']
        self.n = d['n']
        self.file = tu['files'][d['file']]
        self.line = d['line']
        self.end = d['end']
        self.cls = d.get('cls')
        self.fl = d['fl']
        self._d = d
        self._tu = tu
        self.prog = prog
        self._body = None
        self._inits = None
        T = tu['T']
        self.ret = T[d['ret']]
        self.params = [(p[0], p[1], T[p[2]], p[3]) for p in d['params']]

    def _node(self, x):
        if x is None:
            return None
        n = Node()
        n.k, n.line, ti, n.a, ch = x
        T = self._tu['T']
        n.t = T[ti] if ti >= 0 else None
        k = n.k
        if k in ('Ref', 'Member', 'Call', 'MCall', 'OpCall', 'New0'):
            n.a = resolve_attr(k, n.a, self._tu['strs'])
        n.c = [self._node(y) for y in ch]
        n.fn = self
        return n

    @property
    def body(self):
        if self._body is None and self._d['body'] is not None:
            self._body = self._node(self._d['body'])
        return self._body

    @property
    def inits(self):
        """constructor initialisers: [kind M|B|D, name, written, expr]"""
        if self._inits is None:
            self._inits = [(i[0], i[1], i[2], self._node(i[3])) for i in self._d.get('inits', [])]
        return self._inits

    def roots(self):
        r = [i[3] for i in self.inits if i[3] is not None]
        if self.body is not None:
            r.append(self.body)
        return r

    def walk(self):
        for r in self.roots():
            for n in r.walk():
                yield n

    def loc(self, n=None):
        return '%s:%d' % ('src/' + self.file if not self.file.startswith('/') else self.file, n.line if n is not None else self.line)

    def __repr__(self):
        return '<%s %s>' % (self.key, self.loc())


def resolve_attr(k, a, strs):
    if k == 'Ref':
        if a[0] in 'FG':
            return (a[0], strs[a[1]])
        return tuple(a)
    if k == 'Member':
        return (a[0], strs[a[1]] if a[1] >= 0 else None, a[2], a[3])
    # calls: (callee key or None, virtual, macro[, copy])
    return (strs[a[0]] if a[0] >= 0 else None,) + tuple(a[1:])


class Class(object):
    __slots__ = ('key', 'file', 'line', 'bases', 'abs', 'poly', 'fields', 'methods', 'vdtor', 'udtor', 'ucc', 'dcc', 'uca', 'derived', 'union')

    def loc(self):
        return 'src/%s:%d' % (self.file, self.line)


class Program(object):
    def __init__(self, repo=REPO, only=None, verbose=True):
        t0 = time.time()
        self.repo = repo
        build_tool()
        os.makedirs(CACHE, exist_ok=True)
        toolhash = open(TOOL + '.hash').read().strip()
        srcs = source_list(repo)
        if only:
            srcs = [s for s in srcs if os.path.basename(s) in only]
        # slowest first
        order = sorted(srcs, key=lambda s: (0 if 'linalg' in s else 1, -os.path.getsize(os.path.join(repo, s)) if os.path.exists(os.path.join(repo, s)) else 0))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda s: extract_tu(s, repo, toolhash), order))
        self.units = srcs
        self.extracted = sum(1 for r in res if r[1])
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self.enums = {}
        files = dict(zip(order, res))
        Tcanon = {}
        for s in srcs:
            with open(files[s][0], 'rb') as f:
                d = marshal.load(f)
            self._merge(d, Tcanon)
        for c in list(self.classes.values()):
            for b, _ in c.bases:
                if b in self.classes:
                    self.classes[b].derived.append(c.key)
        self._overriders = None
        self.load_s = time.time() - t0

    def _merge(self, d, Tcanon):
        T = []
        for e in d['types']:
            t = Type()
            t.s, t.k, t.const, _, t.name, t.len = e
            T.append(t)
        for t, e in zip(T, d['types']):
            t.sub = T[e[3]] if e[3] >= 0 else None
        d['T'] = T
        for f in d['functions']:
            if f['key'] not in self.functions:
                self.functions[f['key']] = Function(f, d, self)
        for c in d['classes']:
            if c['key'] in self.classes:
                continue
            k = Class()
            k.key = c['key']
            k.file = d['files'][c['file']]
            k.line = c['line']
            k.bases = c['bases']
            k.abs, k.poly, k.vdtor, k.udtor, k.ucc, k.dcc, k.uca, k.union = c['abs'], c['poly'], c['vdtor'], c['udtor'], c['ucc'], c['dcc'], c['uca'], c['union']
            k.fields = [(f[0], T[f[1]], f[2], f[3], f[4]) for f in c['fields']]
            k.methods = c['methods']   # [key, name, flags, overridden, access]
            k.derived = []
            self.classes[k.key] = k
        for g in d['globals']:
            if g['key'] not in self.globals or (self.globals[g['key']]['_init'] is None and g['init'] is not None):
                self.globals[g['key']] = dict(key=g['key'], n=g['n'], file=d['files'][g['file']], line=g['line'], t=T[g['t']], local=g['local'], tls=g['tls'], _init=g['init'], _tu=d)
        for e in d['enums']:
            self.enums.setdefault(e['key'], dict(key=e['key'], file=d['files'][e['file']], line=e['line'], c=e['c']))

    def threadprivate(self, key):
        g = self.globals.get(key)
        return bool(g and g['tls'])

    def global_init(self, key):
        g = self.globals[key]
        if g['_init'] is None:
            return None
        if 'node' not in g:
            f = Function.__new__(Function)
            f._tu = g['_tu']
            f.prog = self
            f.file = g['file']
            f.line = g['line']
            f.key = key
            g['node'] = f._node(g['_init'])
        return g['node']

    # ---- class hierarchy
    def method_info(self):
        if self._overriders is None:
            self._overriders = {}     # method key -> set of directly/indirectly overriding keys
            self.methods = {}         # key -> (class, name, flags, overridden, access)
            for c in self.classes.values():
                for m in c.methods:
                    self.methods[m[0]] = (c.key,) + tuple(m[1:])
            for mk, m in self.methods.items():
                stack = list(m[3])
                while stack:
                    o = stack.pop()
                    self._overriders.setdefault(o, set()).add(mk)
                    if o in self.methods:
                        stack += self.methods[o][3]
        return self._overriders

    def targets(self, key, virt):
        """possible implementations of a call"""
        if not virt:
            return [key]
        ov = self.method_info()
        return [key] + sorted(ov.get(key, ()))

    def root_methods(self, key):
        """top-most methods that this one overrides (itself if none)"""
        self.method_info()
        if key not in self.methods or not self.methods[key][3]:
            return [key]
        r = []
        for o in self.methods[key][3]:
            r += self.root_methods(o)
        return r

    def subclasses(self, key):
        res = []
        stack = [key]
        seen = set()
        while stack:
            k = stack.pop()
            if k in seen or k not in self.classes:
                continue
            seen.add(k)
            res.append(k)
            stack += self.classes[k].derived
        return res

    def bases_of(self, key):
        res = []
        stack = [key]
        while stack:
            k = stack.pop()
            if k in res:
                continue
            res.append(k)
            if k in self.classes:
                stack += [b[0] for b in self.classes[k].bases]
        return res

    def field(self, cls, name):
        c = self.classes.get(cls)
        if c:
            for f in c.fields:
                if f[0] == name:
                    return f
        return None


if __name__ == '__main__':
    # warms the cache of extracted facts (setup)
    import sys
    sys.setrecursionlimit(100000)
    P = Program()
    print('%d translation units, %d functions, %d classes' % (len(P.units), len(P.functions), len(P.classes)))
