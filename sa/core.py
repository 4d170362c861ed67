"""Shared analysis helpers: call graph, call resolution, may-throw summaries, expression utilities."""
from facts import *
import threading
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def big_stack(fn):
    """runs fn in a thread with a large stack and returns its result"""
    box = []

    def go():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]

CALLS = ('Call', 'MCall', 'OpCall', 'New0')


def callee(n):
    return n.a[0] if n.k in CALLS else None


def call_args(n):
    """argument expressions of a call, excluding the object of a member call and the callee expression"""
    if n.k == 'OpCall' or n.k == 'New0':
        return n.c
    return n.c[1:]


def qual(key):
    """qualified name of a function key without its parameter list"""
    if key is None:
        return None
    # operators may contain '('
    i = key.find('operator()')
    j = key.find('(', i + 10 if i >= 0 else 0)
    depth = 0
    # skip parens that are inside template argument lists
    k = 0
    if i < 0:
        for k, ch in enumerate(key):
            if ch == '<' and not key[:k].endswith('operator') and not key[:k].endswith('operator<'):
                depth += 1
            elif ch == '>' and depth > 0:
                depth -= 1
            elif ch == '(' and depth == 0:
                if key[k:].startswith('(anonymous'):
                    continue
                return key[:k]
        return key
    return key[:j] if j >= 0 else key


def strip_casts(n, kinds=None):
    while n is not None and (n.k == 'Cast' or n.k == 'DefArg'):
        n = n.c[0] if n.c else None
    return n


def is_l2r(n):
    return n.k == 'Cast' and n.a[0] == 'LValueToRValue'


class Calls(object):
    """call graph over the repo's functions"""
    def __init__(self, prog):
        self.p = prog
        self._direct = {}
        prog.method_info()

    def sites(self, f):
        """list of (node, [callee keys], virtual) for all calls in a function (incl. constructors and new/delete)"""
        k = f.key
        if k not in self._direct:
            r = []
            for n in f.walk():
                if n.k in CALLS:
                    key = n.a[0]
                    r.append((n, key, bool(n.a[1])))
            self._direct[k] = r
        return self._direct[k]

    def callees(self, f):
        res = set()
        for n, key, v in self.sites(f):
            if key is None:
                continue
            for t in self.p.targets(key, v):
                if t in self.p.functions:
                    res.add(t)
        return res

    def reach(self, roots, stop=lambda k: False):
        seen = {}
        stack = []
        for r in roots:
            seen[r] = None
            stack.append(r)
        while stack:
            k = stack.pop()
            f = self.p.functions.get(k)
            if f is None or stop(k):
                continue
            for c in self.callees(f):
                if c not in seen:
                    seen[c] = k
                    stack.append(c)
        return seen

    @staticmethod
    def path(seen, k):
        r = []
        while k is not None:
            r.append(k)
            k = seen[k]
        return list(reversed(r))


def catches_all(trynode):
    """does this try statement have a handler for std::exception or (...)"""
    for h in trynode.c[1:]:
        if h.t is None:
            return True
        if 'std::exception' in h.t.s:
            return True
    return False


def walk_guarded(n, guarded=False):
    """yields (node, inside a try with a catch-all handler)"""
    if n is None:
        return
    yield n, guarded
    if n.k == 'Try':
        g = guarded or catches_all(n)
        for x in walk_guarded(n.c[0], g):
            yield x
        for h in n.c[1:]:
            for x in walk_guarded(h, guarded):
                yield x
        return
    if n.k == 'Lambda':
        return
    for c in n.c:
        for x in walk_guarded(c, guarded):
            yield x


# external functions which are known not to throw for reasons other than memory exhaustion
NOTHROW_EXT_PREFIX = ('gsl_', 'cblas_', 'glp_', '__builtin', 'mem', 'str', 'Py', '_Py', 'omp_', 'is')


class Throws(object):
    """may-throw summaries.  A function may throw if an explicit `throw` (or a rethrow), or a call to a
    std:: function that throws by contract (at(), stoi...), or a call to a may-throw function, is not
    enclosed in a try with a handler for std::exception.  Memory exhaustion is not modelled."""
    EXT = ('std::stoi', 'std::stod')   # at() is taken to be used with valid indices

    def __init__(self, calls):
        self.c = calls
        self.p = calls.p
        self.reason = {}
        self._compute()

    def _local(self, f):
        for r in f.roots():
            for n, g in walk_guarded(r):
                yield n, g

    def _compute(self):
        callers = {}
        work = []
        for k, f in self.p.functions.items():
            for n, g in self._local(f):
                if g:
                    continue
                if n.k == 'Throw':
                    if k not in self.reason:
                        self.reason[k] = ('throw', f.loc(n))
                        work.append(k)
                elif n.k in CALLS and n.a[0]:
                    key = n.a[0]
                    if key not in self.p.functions and any(qual(key).endswith(e) for e in self.EXT) and key.startswith('std::'):
                        if k not in self.reason:
                            self.reason[k] = ('std', f.loc(n))
                            work.append(k)
                    for t in self.p.targets(key, bool(n.a[1])):
                        callers.setdefault(t, []).append((k, f.loc(n)))
                # destructors are assumed not to throw
        while work:
            k = work.pop()
            for c, loc in callers.get(k, ()):
                if c not in self.reason:
                    self.reason[c] = (k, loc)
                    work.append(c)

    def may(self, key, virt=False):
        for t in self.p.targets(key, virt):
            if t in self.reason:
                return t
        return None

    def chain(self, key):
        r = []
        while key in self.reason and len(r) < 12:
            nxt, loc = self.reason[key]
            r.append('%s (%s)' % (qual(key), loc))
            if nxt in ('throw', 'std'):
                break
            key = nxt
        return ' -> '.join(r)
