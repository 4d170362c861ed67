"""C19: file input and output never fails silently.

Every path through every function that opens a file is interpreted; the state of a stream is
  'N' not opened   'O' opened, not yet known whether successfully   'G' opened, nothing unverified
  'D' written since it was last flushed   'F' flushed or closed, outcome not yet tested   'B' known to have failed
  'X' exempt: opened for diagnostic output at a raised verbosity level, or reporting errors by exceptions
A failure ('B', or a false status returned by a routine which writes a file) must be reported by the function:
an exception, a false status, a Python error or a message.
"""
from interp import *

STREAM = ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream')
ANY = STREAM + ('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream', 'std::basic_ios')


def tname(t):
    if t is None:
        return ''
    if t.k in ('ref', 'rref', 'ptr'):
        t = t.sub
    return (t.s or '').replace('const ', '').strip() if t is not None else ''


def stream(t, names=ANY):
    n = tname(t)
    return any(n.startswith(x + '<') for x in names)


def lastname(q):
    """name of a function without scope and template arguments"""
    m = re.search(r'\boperator\s*(<<|>>|==|!=|!|bool|\[\]|\(\)|->|=)', q)
    if m:
        return 'operator bool' if m.group(1) == 'bool' else 'operator' + m.group(1)
    r, d = '', 0
    for c in q:
        d += (c == '<') - (c == '>')
        if d == 0 and c != '>':
            r += c
    return r.rsplit('::', 1)[-1]


def own(f):
    return f.body is not None and not f.file.startswith('/') and 'torus/' not in f.file


class IO(object):
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.active = set()
        self.status = set()       # functions returning false if a file could not be written
        self.members = {}         # class -> stream members
        for c, k in prog.classes.items():
            m = [fd[0] for fd in k.fields if stream(fd[1], STREAM) and fd[1].k not in ('ref', 'ptr')]
            if m:
                self.members[c] = m
        self.bad = {}
        self.count = {}
        self.followed = set()

    def summary(self, key, init, args):
        mk = (key, init, args)
        if mk in self.memo:
            return self.memo[mk]
        if key in self.active or len(self.active) > 12:
            return None
        self.active.add(key)
        I = IOInterp(self, self.p.functions[key], False)
        self.followed.add(key)
        st = S(dict(init))
        for (pid, v) in args:
            st = st.set(('v', pid), v)
        I.run(st)
        res = set()
        for kind, node, s, v in I.exits:
            if kind != 'throw':
                res.add((frozenset((k, x) for k, x in s.d.items() if k[0] == 's' and k[1][0] in 'PT'), v if v in (TRUE, FALSE) or isinstance(v, tuple) and v[0] == 'strm' else None))
        self.active.discard(key)
        self.memo[mk] = res
        return res

    def problem(self, rule, f, name, line, text):
        self.bad.setdefault((rule, f.key, name), (f, line, text))


class IOInterp(Interp):
    K = 60

    def __init__(self, io, f, top=True):
        Interp.__init__(self, io.p, f)
        self.io = io
        self.top = top
        self.names = {}
        self.noinit = {x.a[0] for x in f.walk() if x.k == 'Var' and x.t is not None and x.t.k in ('arr', 'int', 'uint', 'float') and not (x.c and x.c[0] is not None)}
        self.params = {q[0]: q[2] for q in f.params}
        self.bools = {x.a[0] for x in f.walk() if x.k == 'Var' and x.t is not None and tname(x.t) == 'bool'} | {q[0] for q in f.params if tname(q[2]) == 'bool' and q[2].k == 'bool'}

    # ---- states
    def pkey(self, st):
        return frozenset((k, v) for k, v in st.d.items() if k[0] in ('s', 'pend', 'par', 'unt', 'buf', 'last', 'raw'))

    def out(self, ident):
        return self.kinds.get(ident, 'out') == 'out'

    kinds = {}

    def ident(self, n):
        """stream denoted by a reference to a variable or a member"""
        if n.k == 'Ref' and n.a[0] == 'L':
            if n.a[1] in self.params:
                return ('P', n.a[1])
            return ('L', n.a[1])
        if n.k == 'Ref' and n.a[0] == 'G':
            return None
        if n.k == 'Member' and n.a[0] == 'M':
            b = strip_casts(n.c[0]) if n.c and n.c[0] is not None else None
            if b is None or b.k == 'This':
                return ('T', n.a[1])
            if b.k == 'Ref' and b.a[0] == 'L' and b.a[1] not in self.params:
                return ('L', b.a[1], n.a[1])
        return None

    def get(self, st, i):
        return st.get(('s', i))

    def put(self, st, i, v):
        return st.set(('s', i), v)

    # ---- values
    def x_Ref(self, n, st):
        if n.a[0] == 'F':
            return [(st, 'flush' if qual(n.a[1]).split('<')[0] in ('std::flush', 'std::endl') else None)]
        if stream(n.t):
            i = self.ident(n)
            al = st.get(('al', n.a[1])) if n.a[0] == 'L' else None
            if al is not None:
                i = al
            return [(st, ('strm', i) if i and ('s', i) in st.d else None)]
        if n.a[0] == 'G' and qual(str(n.a[1])).endswith('utils::verbosityLevel'):
            return [(st, 'dbg')]
        if n.a[0] == 'L':
            i = n.a[1]
            if ('raw', i) in st.d and self.top:
                self.io.problem('raw', self.f, n.a[2], n.line, 'uses %s, into which a file was read, on a path where the file may have been shorter and the rest of the array was never assigned' % n.a[2])
            st = st.drop(('buf', i), ('last', i), ('raw', i))
            return [(st, st.get(('v', i)))]
        return [(st, None)]

    def x_Member(self, n, st):
        if stream(n.t):
            i = self.ident(n)
            return [(st, ('strm', i) if i and ('s', i) in st.d else None)]
        return [(s, None) for c in n.c if c is not None for s, v in self.ev(c, st)] or [(st, None)]

    def x_Cast(self, n, st):
        r = self.ev(n.c[0], st) if n.c and n.c[0] is not None else [(st, None)]
        return r

    def x_Un(self, n, st):
        r = self.ev(n.c[0], st)
        if n.a in ('&', '*'):
            return r
        if n.a in ('++', '--', 'p++', 'p--'):
            x = strip_casts(n.c[0])
            if x is not None and x.k == 'Ref' and x.a[0] == 'L':
                r = [(s.drop(('v', x.a[1])), None) for s, v in r]
        return [(s, 'dbg' if v == 'dbg' else None) for s, v in r]

    def x_Null(self, n, st):
        return [(st, 'null')]

    def status(self, st, v, truth):
        return st.drop(('unt', v[1])) if truth else st.drop(('unt', v[1])).set(('pend', v[1], 'out'), 1)

    def force(self, l):
        """splits states according to the outcome of a status"""
        res = []
        for s, v in l:
            if isinstance(v, tuple) and v[0] == 'st':
                res += [(self.status(s, v, True), TRUE), (self.status(s, v, False), FALSE)]
            else:
                res.append((s, v))
        return res

    def tell(self, st):
        st = st.dropif(lambda k: k[0] == 'pend')
        for k in [k for k in st.d if k[0] == 's' and st.d[k] == 'B']:
            st = st.set(k, 'T')
        return st

    def x_Bin(self, n, st):
        res = []
        for s, a in self.force(self.ev(n.c[0], st)):
            for s2, b in self.force(self.ev(n.c[1], s)):
                v = None
                if a == 'dbg' or b == 'dbg':
                    v = 'dbg'
                elif a in (TRUE, FALSE) and b in (TRUE, FALSE) and n.a in ('&', '|', '==', '!=', '^'):
                    x, y = a[1], b[1]
                    v = ('b', {'&': x and y, '|': x or y, '==': x == y, '!=': x != y, '^': x != y}[n.a])
                elif n.a == ',':
                    v = b
                res.append((s2, v))
        return self.mergev(res)

    def x_Assign(self, n, st):
        res = []
        x = strip_casts(n.c[0])
        for s, v in self.ev(n.c[1], st):
            if x is not None and x.k == 'Ref' and x.a[0] == 'L' and not stream(x.t):
                s = s.set(('v', x.a[1]), v) if (v in (TRUE, FALSE, 'dbg') or isinstance(v, tuple) and v[0] == 'st') and x.a[1] in self.bools else s.drop(('v', x.a[1]))
                res.append((s, v))
            else:
                for s2, w in self.ev(n.c[0], s):
                    res.append((s2, v))
        return self.mergev(res)

    def x_AssignOp(self, n, st):
        res = []
        x = strip_casts(n.c[0])
        for s, v in self.force(self.ev(n.c[1], st)):
            old = None
            if x is not None and x.k == 'Ref' and x.a[0] == 'L':
                old = s.get(('v', x.a[1]))
                new = None
                if n.a == '&=':
                    new = FALSE if FALSE in (old, v) else v if old == TRUE else None
                elif n.a == '|=':
                    new = TRUE if TRUE in (old, v) else v if old == FALSE else None
                s = s.set(('v', x.a[1]), new) if new in (TRUE, FALSE) and x.a[1] in self.bools else s.drop(('v', x.a[1]))
                res.append((s, new))
            else:
                for s2, w in self.ev(n.c[0], s):
                    res.append((s2, None))
        return self.mergev(res)

    def dropped(self, name, n):
        self.io.problem('last', self.f, name if isinstance(name, str) else name.a[2], n.line if n is not None else self.f.line, 'the last line of a file is not used if it does not end with a newline: %s was read, the end of file is taken for a failure' % (name if isinstance(name, str) else name.a[2]))

    # ---- declarations
    def vardecl(self, v, st):
        i, t = v.a[0], v.t
        self.names[i] = v.a[1]
        e = v.c[0] if v.c else None
        if stream(t, STREAM) and t.k not in ('ref', 'ptr'):
            kind = 'in' if tname(t).startswith('std::basic_ifstream') else 'out'
            self.kinds[('L', i)] = kind
            sts = [st]
            n = strip_casts(e) if e is not None else None
            opened = n is not None and n.k == 'New0' and any(c is not None and c.k != 'DefArg' for c in n.c)
            if n is not None:
                for c in n.c:
                    if c is not None:
                        sts = [s for x in sts for s, w in self.ev(c, x)]
            if opened and self.top:
                self.io.count['stream'] = self.io.count.get('stream', 0) + 1
            return [self.put(s.drop(('g', i)), ('L', i), ('X' if s.get(('dbg',)) else 'O') if opened else 'N') for s in self.merge(sts)]
        if stream(t) and t.k in ('ref', 'ptr') and e is not None:
            res = []
            for s, w in self.ev(e, st):
                if isinstance(w, tuple) and w[0] == 'strm':
                    s = s.set(('al', i), w[1])
                res.append(s)
            return res
        if t is not None and t.k == 'rec' and t.name in self.io.members and e is not None:
            n = strip_casts(e)
            m = self.io.members[t.name]
            for x in m:
                self.kinds[('L', i, t.name + '::' + x)] = 'out'
                self.names[(i, t.name + '::' + x)] = v.a[1] + '.' + x
            if n is not None and n.k == 'New0':
                sts = [(st, [])]
                for c in n.c:
                    sts = [(s, l + [w]) for x, l in sts for s, w in (self.ev(c, x) if c is not None else [(x, None)])]
                res = []
                for s, vals in sts:
                    f = self.p.functions.get(n.a[0])
                    for x in m:
                        s = self.put(s, ('L', i, t.name + '::' + x), 'N')
                    if f is not None and f.body is not None:
                        res += [x for x, w in self.inline(n, f, s, vals, ('L', i))]
                    else:
                        res.append(s)
                if self.top:
                    self.io.count['stream'] = self.io.count.get('stream', 0) + 1
                return self.merge(res)
        if e is None:
            return [st.drop(('v', i))]
        res = []
        for s, w in self.full(e, st):
            res.append(s.set(('v', i), w) if (w in (TRUE, FALSE, 'dbg') or isinstance(w, tuple) and w[0] == 'st') and i in self.bools else s.drop(('v', i)))
        return self.merge(res)

    def leave(self, decls, st, n):
        for v in decls:
            if v is not None and v.a:
                for k in [k for k in st.d if k[0] == 's' and k[1][0] == 'L' and k[1][1] == v.a[0]]:
                    st = self.finish(k[1], st, n)
                if ('last', v.a[0]) in st.d and self.top:
                    self.dropped(v.a[1], n)
                st = st.drop(('v', v.a[0]), ('al', v.a[0]), ('buf', v.a[0]), ('last', v.a[0]), ('raw', v.a[0]))
        return st

    def name(self, ident):
        return self.names.get(ident[1:] if len(ident) > 2 else ident[1], 'stream')

    def finish(self, ident, st, n):
        """the stream is destroyed or reopened on a path that continues normally"""
        v = self.get(st, ident)
        st = st.drop(('s', ident))
        if not self.top:
            return st
        nm = self.name(ident)
        if v == 'B':
            return st.set(('pend', nm, 'out' if self.out(ident) else 'in'), 1)
        if 'D' in self.f.fl:
            return st
        if v == 'O' and not self.out(ident):
            self.io.problem('input', self.f, nm, n.line if n is not None else self.f.line, 'may return normally without ever having tested whether the file was opened for reading (%s)' % nm)
        elif v in ('O', 'D', 'F') and self.out(ident):
            self.io.problem('output', self.f, nm, n.line if n is not None else self.f.line, 'may return normally although %s (%s)' % ({'O': 'it was never tested whether the file was opened for writing', 'D': 'the last data written may still be in the buffer: an error in writing them goes unnoticed', 'F': 'the outcome of writing the file was not tested after the last flush'}[v], nm))
        return st

    # ---- conditions
    def s_If(self, n, sts):
        had = all(('dbg',) in s.d for s in sts)
        out = Interp.s_If(self, n, sts)
        return out if had else self.merge([s.drop(('dbg',)) for s in out])

    def assume(self, n, v, st, truth):
        if v == 'dbg':
            st = self.tell(st)      # a message may have been suppressed on request
            return [st.set(('dbg',), 1)] if truth else [st]
        if isinstance(v, tuple) and v[0] == 'strm':
            return [s for s, b in self.read_test(self.test(st, v[1], 'good'), False) if b == ('b', truth)]
        x = strip_casts(n)
        if isinstance(v, tuple) and v[0] == 'st':
            st = self.status(st, v, truth)
        if x is not None and x.k == 'Ref' and x.a[0] == 'L' and x.a[1] in self.bools:
            st = st.set(('v', x.a[1]), ('b', truth))
            if x.a[1] in self.params:
                st = st.set(('par', x.a[1]), truth)
        return [st]

    def test(self, st, i, what):
        """the result of asking for the state of a stream: list of (state, bool value), true meaning success"""
        v = self.get(st, i)
        if v in ('N', 'X', None):
            return [(st, TRUE), (st, FALSE)]
        if v in ('B', 'T'):
            return [(st, FALSE)]
        if not self.out(i):
            if v == 'G' and what != 'open':
                return [(st, TRUE), (st, FALSE)]
            if what == 'open' and v == 'G':
                return [(st, TRUE)]
            return [(self.put(st, i, 'G'), TRUE), (self.put(st, i, 'B'), FALSE)]
        if what == 'open':
            return [(self.put(st, i, 'G' if v == 'O' else v), TRUE), (self.put(st, i, 'B'), FALSE)] if v != 'G' else [(st, TRUE)]
        return [(self.put(st, i, 'G' if v in 'OFG' else v), TRUE), (self.put(st, i, 'B'), FALSE)]

    def read_test(self, l, eof):
        """consequences of testing an input stream; eof: the test also fails if the end of file was reached"""
        res = []
        for s, b in l:
            if b == TRUE:
                s = s.dropif(lambda k: k[0] == 'raw')
            elif eof:
                for k in [k for k in s.d if k[0] == 'buf']:
                    s = s.set(('last', k[1]), s.d[k])
            else:
                s = s.dropif(lambda k: k[0] in ('buf', 'last'))
            res.append((s, b))
        return res

    # ---- calls
    def x_Call(self, n, st):
        key = n.a[0]
        args = list(n.c)
        fill = qual(key or '').startswith('std::') and lastname(qual(key)) in ('getline', 'read', 'get', 'readsome') and any(stream(a.t) for a in args if a is not None)
        target = None
        if fill:
            for a in args[1:]:
                x = strip_casts(a) if a is not None else None
                if x is not None and x.k == 'Un' and x.a == '&':
                    x = strip_casts(x.c[0])
                if x is not None and x.k == 'Idx':
                    x = strip_casts(x.c[0])
                if x is not None and x.k == 'Ref' and x.a[0] == 'L' and not stream(x.t):
                    target = x
                    args[args.index(a)] = None
                    break
        if target is not None:
            if ('last', target.a[1]) in st.d and self.top:
                self.dropped(target, n)
            st = st.drop(('last', target.a[1]), ('buf', target.a[1]))
            if lastname(qual(key)) == 'getline':
                st = st.set(('buf', target.a[1]), target.a[2])
            elif target.a[1] in self.noinit:
                st = st.set(('raw', target.a[1]), 1)
        cur = [(st, ())]
        for j, a in enumerate(args):
            nxt = []
            for s, vs in cur:
                if a is None:
                    nxt.append((s, vs + (None,)))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + (v,)))
            cur = self.mergev(nxt)
        res = []
        for s, vs in cur:
            res += self.call(n, s, key, args, vs)
        return self.mergev(res)

    x_MCall = x_Call
    x_OpCall = x_Call

    def call(self, n, st, key, args, vs):
        if not key:
            c = strip_casts(args[0]) if args and args[0] is not None else None
            g = c
            while g is not None and g.k == 'Un' and g.c:
                g = strip_casts(g.c[0])
            if g is not None and g.k == 'Ref' and g.a[0] == 'G' and qual(str(g.a[1])).endswith('utils::msg'):
                st = self.tell(st)
            return [(st, None)]
        q = qual(key)
        nm = lastname(q)
        if q.startswith('PyErr_') or q.startswith('utils::') and nm in ('msg', 'defaultmsg') or nm == 'raisePythonException':
            return [(self.tell(st), None)]
        strms = [(j, v[1]) for j, v in enumerate(vs) if isinstance(v, tuple) and v[0] == 'strm']
        f = self.p.functions.get(key)
        if key in self.io.status:
            self.io.count['status'] = self.io.count.get('status', 0) + (1 if self.top else 0)
            return [(st.set(('unt', 'the result of ' + q), 1), ('st', 'the result of ' + q))]
        if strms and q.startswith('std::'):
            return self.stdcall(n, st, q, nm, vs, strms)
        obj = None
        if n.k == 'MCall' or n.k == 'OpCall' and key in self.p.methods:
            o = strip_casts(args[0]) if args and args[0] is not None else None
            if o is not None and o.k == 'Un' and o.a in ('&', '*'):
                o = strip_casts(o.c[0])
            if o is not None and o.k == 'This':
                obj = ('T',)
            elif o is not None and o.k == 'Ref' and o.a[0] == 'L':
                obj = ('L', o.a[1])
        if f is not None and own(f) and (strms or obj and any(k[0] == 's' and (k[1][0] == 'T' if obj == ('T',) else k[1][:2] == obj and len(k[1]) > 2) for k in st.d)):
            vals = list(vs[1:]) if n.k == 'MCall' or n.k == 'OpCall' and key in self.p.methods or n.k == 'Call' else list(vs)
            return self.inline(n, f, st, vals, obj)
        for j, i in strms:
            if self.get(st, i) in ('G', 'F', 'O') and self.out(i):
                st = self.put(st, i, 'D')
        return [(st, None)]

    def inline(self, n, f, st, vals, obj):
        init, back = [], {}
        for j, q in enumerate(f.params):
            v = vals[j] if j < len(vals) else None
            if isinstance(v, tuple) and v[0] == 'strm':
                init.append((('s', ('P', q[0])), self.get(st, v[1])))
                back[('P', q[0])] = v[1]
                self.kinds[('P', q[0])] = self.kinds.get(v[1], 'out')
        args = tuple((q[0], vals[j]) for j, q in enumerate(f.params) if j < len(vals) and vals[j] in (TRUE, FALSE))
        if obj is not None:
            for k, v in st.d.items():
                if k[0] == 's' and (k[1][0] == 'T' and obj == ('T',) or k[1][:2] == obj and len(k[1]) > 2):
                    t = ('T', k[1][-1])
                    init.append((('s', t), v))
                    back[t] = k[1]
                    self.kinds[t] = self.kinds.get(k[1], 'out')
        r = self.io.summary(f.key, frozenset(init), args)
        if r is None:
            for t, i in back.items():
                if self.get(st, i) in ('G', 'F', 'O') and self.out(i):
                    st = self.put(st, i, 'D')
            return [(st, None)]
        res = []
        for sts, v in r:
            s = st
            for k, x in sts:
                if k[1] in back:
                    s = self.put(s, back[k[1]], x)
            if isinstance(v, tuple) and v[0] == 'strm':
                v = ('strm', back[v[1]]) if v[1] in back else None
            res.append((s, v))
        return res

    def stdcall(self, n, st, q, nm, vs, strms):
        i = strms[0][1]
        v = self.get(st, i)
        me = ('strm', i)
        if nm == 'open':
            st = self.finish(i, st, n) if v not in ('N', 'X') else st
            if self.top:
                self.io.count['stream'] = self.io.count.get('stream', 0) + 1
            return [(self.put(st, i, 'X' if st.get(('dbg',)) or v == 'X' else 'O'), None)]
        if v in ('X', 'N', None):
            if nm in ('good', 'fail', 'operator!', 'operator bool', 'is_open', 'bad', 'eof'):
                return [(st, TRUE), (st, FALSE)]
            return [(st, me)]
        if nm in ('good', 'operator bool'):
            return self.read_test(self.test(st, i, 'good'), nm == 'good')
        if nm in ('fail', 'operator!'):
            return [(s, ('b', not b[1])) for s, b in self.read_test(self.test(st, i, 'good'), False)]
        if nm == 'eof' and not self.out(i):
            return [(s, ('b', not b[1])) for s, b in self.read_test([(st, TRUE), (st, FALSE)], True)]
        if nm == 'gcount':
            return [(st.dropif(lambda k: k[0] == 'raw'), None)]
        if nm == 'is_open':
            return self.test(st, i, 'open')
        if nm == 'exceptions' and len([x for x in n.c if x is not None]) > 1:
            return [(self.put(st, i, 'X'), None)]
        if nm in ('flush', 'endl') or 'flush' in vs:
            return [(self.put(st, i, {'D': 'F', 'O': 'O'}.get(v, v)), me)]
        if nm == 'close':
            return [(self.put(st, i, {'D': 'F'}.get(v, v)), None)]
        if self.out(i) and (nm in ('operator<<', 'write', 'put') or nm.startswith('operator<<')):
            return [(self.put(st, i, 'D' if v in 'ODGF' and v != 'O' else 'D' if v == 'O' else v), me)]
        return [(st, me)]

    def s_Return(self, n, sts):
        return Interp.s_Return(self, n, sts)


def boolret(f):
    return f.ret is not None and tname(f.ret) == 'bool'


def relevant(io, f):
    for n in f.walk():
        if n.k == 'Var' and n.t is not None:
            if stream(n.t, STREAM) and n.t.k not in ('ref', 'ptr'):
                return True
            if n.t.k == 'rec' and n.t.name in io.members:
                return True
        elif n.k in CALLS and n.a[0] in io.status:
            return True
    return False


def run(io, f):
    I = IOInterp(io, f)
    I.run(S())
    silent, loud = [], []
    status = False
    for kind, node, st, val in I.exits:
        if kind == 'throw':
            loud.append(st)
            continue
        ret = val if val in (TRUE, FALSE) else None
        if isinstance(val, tuple) and val[0] == 'strm' and boolret(f):
            # the state of the stream is returned as the status
            for s, b in I.test(st, val[1], 'good'):
                status |= finish(io, I, f, node, s, b, silent, loud)
            continue
        if isinstance(val, tuple) and val[0] == 'st' and boolret(f):
            st = I.status(st, val, False)
            ret = FALSE
        status |= finish(io, I, f, node, st, val if val == 'null' else ret, silent, loud)
    for st, nm, line in silent:
        # silence may be requested by a parameter of the function
        ok = False
        for k, v in st.d.items():
            if k[0] == 'par' and any(s.get(k) == (not v) for s in loud) and not any(s.get(k) != v for s, n2, l2 in silent):
                ok = True
        if not ok:
            io.problem('failure', f, nm, line, 'may return normally after a failure without reporting it (%s)' % nm)
    return status


def finish(io, I, f, node, st, ret, silent, loud):
    line = node.line if node is not None else f.line
    for k in [k for k in st.d if k[0] == 's' and k[1][0] == 'L']:
        st = I.finish(k[1], st, node)
    for k in [k for k in st.d if k[0] == 'last']:
        I.dropped(st.d[k], node)
    for k in [k for k in st.d if k[0] == 'unt']:
        io.problem('status', f, k[1], line, 'does not look at %s, so that a failure goes unnoticed' % k[1])
    pend = [k[1] for k in st.d if k[0] == 'pend']
    if not pend or 'D' in f.fl:
        return False
    if ret == FALSE and boolret(f) or ret == 'null':
        loud.append(st)
        return ret == FALSE and boolret(f) and any(k[0] == 'pend' and k[2] == 'out' for k in st.d)
    for nm in pend:
        silent.append((st, nm, line))
    return False


RAGA = 'raga_'


def check(rep):
    prog = Program()
    prog.method_info()
    io = IO(prog)
    fs = [prog.functions[k] for k in sorted(prog.functions) if own(prog.functions[k])]
    # routines that report a failure by their result
    while True:
        io.count, io.bad = {}, {}
        io.memo = {}
        new = set()
        n = 0
        for f in fs:
            if relevant(io, f):
                n += 1
                if run(io, f):
                    new.add(f.key)
        if new <= io.status:
            break
        io.status |= new
    for f in fs:
        if relevant(io, f):
            for x in f.walk():
                if x.k == 'Var' and x.t is not None and (stream(x.t, STREAM) and x.t.k not in ('ref', 'ptr') or x.t.k == 'rec' and x.t.name in io.members):
                    if not any(b[1] == f.key for b in io.bad):
                        rep.ok('input' if tname(x.t).startswith('std::basic_ifstream') else 'output', '%s: %s' % (qual(f.key), x.a[1]))
    for k in sorted(io.status):
        calls = [(g, n) for g in fs for n in g.walk() if n.k in CALLS and n.a[0] == k]
        for g, n in calls:
            rep.ok('status', '%s called by %s' % (qual(k), qual(g.key)))
    rep.ok('followed', '%d routines given a stream were followed from their callers' % len(io.followed), len(io.followed))
    raga = []
    for (rule, key, nm), (f, line, text) in sorted(io.bad.items()):
        if f.file.startswith(RAGA):
            raga.append((f, line, text, rule))
            continue
        rep.bad(rule, '%s|%s' % (qual(key), nm), '%s:%d' % (f.file, line), '%s: %s' % (qual(key), text))
    if raga:
        f, line, text, rule = raga[0]
        rep.bad('raga', 'outputs of the Raga program', '%s:%d' % (f.file, line), '%d places, e.g. %s: %s' % (len(raga), qual(f.key), text), ['%s:%d %s: %s' % (g.file, l, qual(g.key), t) for g, l, t, r in raga])
    return prog, io


def check_c19(rep):
    prog, io = check(rep)
    rep.require('output', 10)
    rep.require('input', 5)
    rep.require('status', 2)
    rep.require('followed', 15)
    return prog
