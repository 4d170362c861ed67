"""C09: format strings of the Python C API agree with keyword lists, argument types and method tables."""
import re
from core import *
from facts import AnalysisError
from pyref import apiname, literal_string, pytype, string_value

OBJ = 'object'
# unit -> types of the variables that receive (parsing)
PARSE = {'O': [OBJ], 'O!': ['type', OBJ], 'O&': ['any', 'any'], 'S': [OBJ], 'U': [OBJ], 'Y': [OBJ],
         's': ['const char *'], 'z': ['const char *'], 'y': ['const char *'],
         's#': ['const char *', 'long'], 'z#': ['const char *', 'long'], 'y#': ['const char *', 'long'],
         's*': ['Py_buffer'], 'z*': ['Py_buffer'], 'y*': ['Py_buffer'], 'w*': ['Py_buffer'],
         'b': ['unsigned char'], 'B': ['unsigned char'], 'h': ['short'], 'H': ['unsigned short'], 'i': ['int'], 'I': ['unsigned int'],
         'l': ['long'], 'k': ['unsigned long'], 'L': ['long long'], 'K': ['unsigned long long'], 'n': ['long'],
         'c': ['char'], 'C': ['int'], 'f': ['float'], 'd': ['double'], 'D': ['Py_complex'], 'p': ['int']}
# unit -> types of the values that are passed (building)
BUILD = {'O': [OBJ], 'N': [OBJ], 'S': [OBJ], 'U': ['const char *'], 'O&': ['any', 'any'], 's': ['const char *'], 'z': ['const char *'], 'y': ['const char *'],
         's#': ['const char *', 'long'], 'z#': ['const char *', 'long'], 'y#': ['const char *', 'long'], 'i': ['int'], 'b': ['int'], 'h': ['int'], 'B': ['int'], 'H': ['int'],
         'I': ['unsigned int'], 'l': ['long'], 'k': ['unsigned long'], 'L': ['long long'], 'K': ['unsigned long long'], 'n': ['long'], 'c': ['int'], 'C': ['int'],
         'd': ['double'], 'f': ['double'], 'D': ['Py_complex *']}
SAME = {'long long': 'long', 'unsigned long long': 'unsigned long', 'char *': 'const char *'}


def canon(s):
    return SAME.get(s, s)


def units(fmt, table):
    """[(unit, optional)] of a format string; stops at ':' or ';'"""
    res, opt, kwonly = [], False, False
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        i += 1
        if ch in ':;':
            break
        if ch == '|':
            opt = True
            continue
        if ch in '$()[]{}, \t':
            continue
        u = ch
        if i < len(fmt) and fmt[i] in '!&#*' and ch + fmt[i] in table:
            u = ch + fmt[i]
            i += 1
        if u not in table:
            return None, u
        res.append((u, opt))
    return res, None


def same(want, t, deref):
    """does the type of the argument match"""
    if want == 'any':
        return True
    if t is None:
        return False
    if deref:
        if t.k != 'ptr' or t.sub is None:
            return want == OBJ and t.k == 'ptr'
        x = t.sub
    else:
        x = t
    if want == 'type':
        return t.k == 'ptr' and t.sub is not None and t.sub.s == '_typeobject'
    if want == OBJ:
        return pytype(x)
    s = re.sub(r'^const (?!char)', '', canon(x.s))
    return s == canon(want)


def isnull(n):
    n = strip_casts(n)
    return n.k == 'Null' or n.k == 'Int' and str(n.a) == '0' or n.k == 'Cast' and 'NullToPointer' in str(n.a)


def strings(p, f, e):
    """elements of an array of strings given by expression e (None marks the terminating null)"""
    for x in e.walk():
        if x.k != 'Ref' or x.a[0] not in ('G', 'L'):
            continue
        init = None
        for n in f.walk():
            if n.k == 'Var' and (x.a[0] == 'L' and n.a[0] == x.a[1] or x.a[0] == 'G' and n.a[2] == x.a[1]) and n.c:
                init = n.c[0]
        if init is None and x.a[0] == 'G' and x.a[1] in p.globals:
            init = p.global_init(x.a[1])
        if init is not None and init.k == 'InitList':
            return [None if isnull(c) or c.k == 'Other' else literal_string(c) for c in init.c]
    return None


PRINTF = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|t|j)?([diouxXcsSpeEfFgGaAUVRNT%])')


def printf(fmt, pyformat):
    """[types] of the arguments of a printf-like format; text of an error"""
    res = []
    pos = 0
    for m in re.finditer('%', fmt):
        if m.start() < pos:
            continue
        g = PRINTF.match(fmt, m.start())
        if not g:
            return None, 'unknown conversion "%s"' % fmt[m.start():m.start() + 3]
        pos = g.end()
        for star in (g.group(2), g.group(3)):
            if star == '*':
                res.append(['int'])
        c, l = g.group(5), g.group(4) or ''
        if c == '%':
            continue
        if c in 'di':
            res.append({'': ['int', 'short', 'char', 'bool'], 'l': ['long'], 'll': ['long'], 'z': ['long'], 'h': ['int', 'short'], 'hh': ['int', 'char'], 't': ['long'], 'j': ['long']}[l])
        elif c in 'ouxX':
            res.append({'': ['unsigned int', 'int'], 'l': ['unsigned long'], 'll': ['unsigned long'], 'z': ['unsigned long'], 'h': ['int'], 'hh': ['int'], 't': ['long'], 'j': ['unsigned long']}[l])
        elif c == 'c':
            res.append(['int', 'char'])
        elif c == 's':
            res.append(['const char *'])
        elif c == 'p':
            res.append(['any'])
        elif c in 'eEfFgGaA' and not pyformat:
            res.append(['double'])
        elif c in 'AUSR' and pyformat:
            res.append([OBJ])
        elif c == 'V' and pyformat:
            res += [[OBJ], ['const char *']]
        else:
            return None, 'conversion "%%%s" is not supported here' % c
    return res, None


def common(a, b):
    """length of the longest common substring, if at least three characters"""
    best = 0
    for i in range(len(a)):
        for j in range(i + max(best, 2) + 1, len(a) + 1):
            if a[i:j] in b:
                best = j - i
            else:
                break
    return 1000 if a == b else best


class Formats(object):
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.n = {}

    def text(self, f, e):
        return string_value(self.p, f, e)

    def short(self, f, n):
        return '%s: %s' % (qual(f.key), apiname(n))

    def run(self):
        for k in sorted(self.p.functions):
            f = self.p.functions[k]
            if f.body is None or not f.file.startswith('interface_python'):
                continue
            par = {}
            for r in f.roots():
                for n in r.walk():
                    for c in n.c:
                        if c is not None:
                            par[id(c)] = n
            for n in f.walk():
                name = apiname(n)
                if not name:
                    continue
                a = n.c[1:]
                if name in ('PyArg_ParseTuple', 'PyArg_Parse'):
                    self.parse(f, n, a[1], None, a[2:], par)
                elif name in ('PyArg_ParseTupleAndKeywords',):
                    self.parse(f, n, a[2], a[3], a[4:], par)
                elif name == 'PyArg_UnpackTuple':
                    self.rep.bad('parse', self.short(f, n), f.loc(n), 'PyArg_UnpackTuple is not understood')
                elif name == 'Py_BuildValue':
                    self.build(f, n, a[0], a[1:])
                elif name == 'PyObject_CallMethod':
                    self.build(f, n, a[2], a[3:])
                elif name == 'PyObject_CallFunction':
                    self.build(f, n, a[1], a[2:])
                elif name in ('PyObject_CallFunctionObjArgs', 'PyObject_CallMethodObjArgs'):
                    self.objargs(f, n, a)
                elif name in ('PyErr_Format', 'PyErr_WarnFormat', 'PyUnicode_FromFormat'):
                    i = {'PyErr_Format': 1, 'PyErr_WarnFormat': 2, 'PyUnicode_FromFormat': 0}[name]
                    self.message(f, n, a[i], a[i + 1:], True)
                elif name in ('PySys_WriteStderr', 'PySys_WriteStdout'):
                    self.message(f, n, a[0], a[1:], False)
        self.tables()

    # ---- parsing
    def parse(self, f, n, fmtexpr, kwexpr, args, par):
        key = self.short(f, n)
        fmt = self.text(f, fmtexpr)
        if fmt is None:
            raise AnalysisError('the format string at %s is not a literal' % f.loc(n))
        us, bad = units(fmt, PARSE)
        if us is None:
            return self.rep.bad('parse', key, f.loc(n), 'format "%s": unknown unit %s' % (fmt, bad))
        want = [(t, u, opt) for u, opt in us for t in PARSE[u]]
        ok = True
        if len(want) != len(args):
            ok = False
            self.rep.bad('parse', key, f.loc(n), 'format "%s" stores %d values but %d variables are passed' % (fmt, len(want), len(args)))
        for (t, u, opt), e in zip(want, args):
            if not same(t, e.t, True):
                ok = False
                self.rep.bad('parse', key, f.loc(n), 'unit "%s" of the format "%s" stores a value of type %s, but is given %s of type %s' % (u, fmt, t, self.name(e), e.t.s if e.t else '?'))
            if opt and u != 'O&' and t != 'type' and not self.initialised(f, n, e):
                ok = False
                self.rep.bad('optional', key + ': ' + self.name(e), f.loc(n), 'the optional argument %s is stored into a variable without an initial value' % self.name(e))
            elif opt:
                self.rep.ok('optional', '%s: %s' % (key, self.name(e)))
        if kwexpr is not None:
            kw = strings(self.p, f, kwexpr)
            if kw is None:
                raise AnalysisError('the list of argument names at %s is not understood' % f.loc(n))
            if not kw or kw[-1] is not None:
                ok = False
                self.rep.bad('parse', key, f.loc(n), 'the list of argument names is not terminated by NULL')
            names = kw[:kw.index(None)] if None in kw else kw
            if None in kw and any(x is not None for x in kw[kw.index(None):]):
                ok = False
                self.rep.bad('parse', key, f.loc(n), 'the list of argument names has a NULL before its end')
            if len(names) != len(us):
                ok = False
                self.rep.bad('parse', key, f.loc(n), 'format "%s" describes %d arguments but %d names are listed' % (fmt, len(us), len(names)))
            if len(set(names)) != len(names) or '' in names[1:] and any(names[:names.index('')]):
                ok = False
                self.rep.bad('parse', key, f.loc(n), 'argument names are repeated')
            # variables named after an argument receive that argument
            if len(names) == len(us) and len(want) == len(args):
                i, vs = 0, []
                low = [x.lower() for x in names]
                for j, (u, opt) in enumerate(us):
                    v = self.name(args[i + len(PARSE[u]) - 1]).lower()
                    i += len(PARSE[u])
                    vs.append(re.sub(r'(_?(obj|flag|arr|arg|str|ptr|val|value|object|array))$', '', v))
                    for x in (v, vs[-1]):
                        if x in low and low[j] not in (v, vs[-1]):
                            ok = False
                            self.rep.bad('order', key + ': ' + names[j], f.loc(n), 'the argument "%s" is stored into the variable %s, which is named after the argument "%s"' % (names[j], v, x))
                            break
                for i in range(len(us)):
                    for j in range(i):
                        if us[i][0] == us[j][0] and common(vs[i], low[j]) > common(vs[i], low[i]) and common(vs[j], low[i]) > common(vs[j], low[j]):
                            ok = False
                            self.rep.bad('order', key + ': ' + names[j], f.loc(n), 'the arguments "%s" and "%s" are stored into each other\'s variables (%s and %s)' % (names[j], names[i], vs[j], vs[i]))
        # the outcome must be examined
        x = n
        while id(x) in par and (par[id(x)].k in ('Cast', 'Paren') or par[id(x)].k == 'Un' and par[id(x)].a == '!'):
            x = par[id(x)]
        up = par.get(id(x))
        if up is None or up.k in ('Block', 'Label', 'Case', 'Default') or up.k in ('For', 'While', 'Do') and x is not up.c[0] and x is not up.c[1] or up.k == 'If' and x is not up.c[1]:
            ok = False
            self.rep.bad('parse', key, f.loc(n), 'the outcome of parsing the arguments is ignored')
        if ok:
            self.rep.ok('parse', '%s "%s"%s' % (key, fmt, ' with names' if kwexpr is not None else ''), n=len(want) or 1)

    def name(self, e):
        for x in e.walk():
            if x.k == 'Ref':
                return x.a[2] if x.a[0] == 'L' else qual(str(x.a[1])).rsplit('::', 1)[-1]
            if x.k == 'Member':
                return str(x.a[-1])
        return '?'

    def initialised(self, f, call, e):
        """has the variable whose address is e a value before the call"""
        r = None
        for x in e.walk():
            if x.k == 'Member':
                return True         # part of an object constructed earlier
            if x.k == 'Ref':
                r = x
                break
        if r is None or r.a[0] != 'L':
            return True
        if not any(x.k == 'Un' and x.a == '&' for x in e.walk()):
            return True             # a pointer variable
        for q in f.params:
            if q[0] == r.a[1]:
                return True
        done = False
        for n in f.walk():
            if n is call:
                return done
            if n.k == 'Var' and n.a[0] == r.a[1]:
                done = bool(n.c and n.c[0] is not None) or n.t.k == 'rec'
            if n.k == 'Assign':
                x = strip_casts(n.c[0])
                if x.k == 'Ref' and x.a[:2] == r.a[:2]:
                    done = True
        return done

    # ---- building
    def build(self, f, n, fmtexpr, args):
        key = self.short(f, n)
        if isnull(fmtexpr):
            if args:
                self.rep.bad('build', key, f.loc(n), 'values are passed without a format string')
            else:
                self.rep.ok('build', key + ' (no arguments)')
            return
        fmt = self.text(f, fmtexpr)
        if fmt is None:
            raise AnalysisError('the format string at %s is not a literal' % f.loc(n))
        us, bad = units(fmt, BUILD)
        if us is None:
            return self.rep.bad('build', key, f.loc(n), 'format "%s": unknown unit %s' % (fmt, bad))
        for a, b in ('()', '[]', '{}'):
            if fmt.count(a) != fmt.count(b):
                self.rep.bad('build', key, f.loc(n), 'format "%s": unbalanced brackets' % fmt)
        want = [(t, u) for u, opt in us for t in BUILD[u]]
        ok = True
        if len(want) != len(args):
            ok = False
            self.rep.bad('build', key, f.loc(n), 'format "%s" uses %d values but %d are passed' % (fmt, len(want), len(args)))
        for (t, u), e in zip(want, args):
            if not self.passed([t], e):
                ok = False
                self.rep.bad('build', key, f.loc(n), 'unit "%s" of the format "%s" takes a value of type %s, but is given %s' % (u, fmt, t, e.t.s if e.t else '?'))
        if ok:
            self.rep.ok('build', '%s "%s"' % (key, fmt), n=len(want) or 1)

    def passed(self, want, e):
        if e.t is not None and e.t.k == 'enum':
            return 'int' in want or 'unsigned int' in want
        for t in want:
            if same(t, e.t, False):
                return True
            if t in ('const char *', OBJ) and isnull(e):
                return e.t is not None and e.t.k == 'ptr'
        return False

    def objargs(self, f, n, args):
        key = self.short(f, n)
        if not args or not isnull(args[-1]):
            return self.rep.bad('objargs', key, f.loc(n), 'the list of arguments is not terminated by NULL')
        for e in args[:-1]:
            if not same(OBJ, e.t, False):
                return self.rep.bad('objargs', key, f.loc(n), 'an argument of type %s is passed instead of a Python object' % (e.t.s if e.t else '?'))
            if isnull(e):
                return self.rep.bad('objargs', key, f.loc(n), 'NULL before the end of the list of arguments')
        self.rep.ok('objargs', key, n=len(args))

    def message(self, f, n, fmtexpr, args, pyformat):
        key = self.short(f, n)
        fmt = self.text(f, fmtexpr)
        if fmt is None and args:
            raise AnalysisError('the format string at %s is not a literal' % f.loc(n))
        if fmt is None:
            # a string that is not a literal may contain % characters
            return self.rep.bad('message', key, f.loc(n), 'the format of the message is not a literal string')
        want, err = printf(fmt, pyformat)
        if want is None:
            return self.rep.bad('message', key, f.loc(n), 'format "%s": %s' % (fmt, err))
        if len(want) != len(args):
            return self.rep.bad('message', key, f.loc(n), 'format "%s" uses %d values but %d are passed' % (fmt, len(want), len(args)))
        for t, e in zip(want, args):
            if not self.passed(t, e):
                return self.rep.bad('message', key, f.loc(n), 'format "%s" takes a value of type %s, but is given %s' % (fmt, t[0], e.t.s if e.t else '?'))
        self.rep.ok('message', '%s "%s"' % (key, fmt[:40]), n=len(want) or 1)

    # ---- tables of functions
    def tables(self):
        p = self.p
        for k in sorted(p.globals):
            g = p.globals[k]
            if g['_init'] is None or g['file'] != 'interface_python.cpp':
                continue
            ts = g['t'].s
            init = p.global_init(k)
            if ts.startswith('PyMethodDef'):
                for row in init.c:
                    if row is not None and row.k == 'InitList' and row.c and not isnull(row.c[0]):
                        self.method(k, row)
                last = init.c[-1] if init.c else None
                if last is None or last.k == 'InitList' and last.c and not isnull(last.c[0]):
                    self.rep.bad('table', k, 'src/' + g['file'], 'the table %s is not terminated by an empty entry' % k)
            elif any(x in ts for x in ('PyGetSetDef', '_typeobject', 'PySequenceMethods', 'PyMappingMethods', 'PyNumberMethods', 'PyModuleDef')):
                for n in init.walk():
                    if n.k == 'Cast' and n.c and n.c[0] is not None and n.c[0].k == 'Ref' and n.c[0].a[0] == 'F' and n.c[0].a[1] in p.functions:
                        self.slot(k, n, p.functions[n.c[0].a[1]])
                if ts.startswith('PyGetSetDef') and (not init.c or init.c[-1].k == 'InitList' and init.c[-1].c and not isnull(init.c[-1].c[0])):
                    self.rep.bad('table', k, 'src/' + g['file'], 'the table %s is not terminated by an empty entry' % k)
                names = [literal_string(r.c[0]) for r in init.c if r is not None and r.k == 'InitList' and r.c] if ts.startswith('PyGetSetDef') else []
                names = [x for x in names if x]
                if len(set(names)) != len(names):
                    self.rep.bad('table', k, 'src/' + g['file'], 'two attributes of %s have the same name' % k)

    def flags(self, n):
        if n.k == 'Cast' and n.c:
            return self.flags(n.c[0])
        if n.k == 'Bin' and n.a == '|':
            return self.flags(n.c[0]) | self.flags(n.c[1])
        if n.k == 'Int':
            return int(n.a)
        raise AnalysisError('flags in a method table are not understood')

    def method(self, table, row):
        name = literal_string(row.c[0])
        fn = None
        for n in row.c[1].walk():
            if n.k == 'Ref' and n.a[0] == 'F':
                fn = self.p.functions.get(n.a[1])
        if fn is None:
            return
        fl = self.flags(row.c[2]) & 0xF
        np = len(fn.params)
        t = table.split('@')[0]
        key = '%s: %s' % (t, name)
        want = {1: 2, 3: 3, 4: 2, 8: 2}.get(fl)
        if want is None:
            return self.rep.bad('table', key, fn.loc(), 'calling convention 0x%x of the method %s is not understood' % (fl, name))
        if np > want or np < want and fl != 4 or fn.ret.k != 'ptr':
            return self.rep.bad('table', key, fn.loc(), 'the method %s is called with %d arguments (%s), but is implemented by %s with %d parameters' % (
                name, want, {1: 'positional', 3: 'positional and keyword', 4: 'no', 8: 'one object'}[fl] + ' arguments', fn.q, np))
        for q in fn.params:
            if q[2].k != 'ptr':
                return self.rep.bad('table', key, fn.loc(), 'the parameter %s of %s is not a pointer to an object' % (q[1], fn.q))
        # parsing of keywords requires keyword arguments
        uses = any(apiname(n) == 'PyArg_ParseTupleAndKeywords' for n in fn.walk())
        if uses and fl != 3:
            return self.rep.bad('table', key, fn.loc(), 'the method %s parses keyword arguments but is not registered as accepting them' % name)
        self.rep.ok('table', key)

    def slot(self, table, n, fn):
        key = '%s: %s' % (table.split('@')[0], qual(fn.key))
        s = n.t.s
        m = re.match(r'^(.*)\(\*\)\((.*)\)$', s)
        if not m:
            return
        ret, ps = m.group(1).strip(), [x.strip() for x in m.group(2).split(',')]
        if ps in ([''], ['void']):
            ps = []
        if len(fn.params) > len(ps):
            return self.rep.bad('table', key, fn.loc(), 'the function %s has %d parameters but its slot is called with %d arguments' % (fn.q, len(fn.params), len(ps)))
        if (fn.ret.s == 'void') != (ret == 'void') or (fn.ret.k == 'ptr') != ret.endswith('*') or fn.ret.k != 'ptr' and canon(fn.ret.s) != canon(ret):
            return self.rep.bad('table', key, fn.loc(), 'the function %s returns %s but its slot expects %s' % (fn.q, fn.ret.s, ret))
        for q, x in zip(fn.params, ps):
            if (q[2].k == 'ptr') != x.endswith('*') or q[2].k != 'ptr' and canon(q[2].s) != canon(x):
                return self.rep.bad('table', key, fn.loc(), 'the parameter %s of %s has type %s but its slot passes %s' % (q[1], fn.q, q[2].s, x))
        self.rep.ok('table', key)


def check_c09(rep):
    p = Program()
    Formats(p, rep).run()
    rep.require('parse', 60, 'parsing of Python arguments')
    rep.require('build', 15, 'building of Python values')
    rep.require('table', 80, 'entries of method and slot tables')
    rep.require('optional', 30, 'optional arguments')
    return p
