"""C04: evaluation of models is a pure read (effect analysis of const methods and functions of const models)."""
from omp import *
import omp_checks


def const_method(prog, f):
    return f.cls is not None and f.key.endswith(' const') and 's' not in f.fl and 'K' not in f.fl


def model_param(prog, R, t):
    """a parameter through which a model is handed over for reading"""
    if t.k in ('ref', 'ptr') and t.sub is not None and t.sub.const:
        c = prog.classes.get(t.sub.name or '')
        return c is not None and c.poly and not t.sub.name.startswith('math::IMatrix')   # (input arrays of solvers are not models)
    if t.k == 'rec' or t.k in ('ref', 'rref') and t.sub is not None and t.sub.k == 'rec':
        r = t if t.k == 'rec' else t.sub
        return bool(r.name and 'shared_ptr<const' in r.name.replace('std::tr1::', ''))
    return False


def abstract_arg(t):
    """a concurrent caller may hold the same constant arguments, but has its own outputs"""
    if t.k in ('ref', 'ptr') and t.sub is not None and t.sub.const:
        return AV('S')
    if t.k in ('ref', 'ptr', 'rref', 'arr'):
        return AV('P')
    if t.k == 'rec':
        return AV('P', NOT, 'S')
    return AV('P')


def own(f):
    return f.body is not None and not f.file.startswith('/') and 'torus/' not in f.file


def entries(prog, R):
    for key in sorted(prog.functions):
        f = prog.functions[key]
        if not own(f) or key.startswith(SERIAL):
            continue
        if const_method(prog, f):
            if key in prog.methods and R.inheritable(key) and not omp_checks.serial_functor(f.cls):
                yield f, AV('S'), 'method'
        elif f.cls is None and any(model_param(prog, R, q[2]) for q in f.params) and not f.file.endswith(('interface_python.cpp',)):
            yield f, None, 'function'


def check_c04(rep):
    prog = Program()
    cg = Calls(prog)
    R = Races(cg)
    prog.method_info()
    es = list(entries(prog, R))
    found = {}
    for it in range(12):
        before = dict(R.fieldcont)
        R.memo = {}
        found = {}
        R.nwrites = 0
        for f, th, kind in es:
            R.found = []
            R.call(f.key, [abstract_arg(q[2]) for q in f.params], th, [], True)
            for fn, nd, txt, chain, flag in R.found:
                if not omp_checks.serial_functor(fn.cls):
                    found.setdefault((fn.key, nd.line, txt), (fn, nd, txt, [f.key] + [c for c in chain if c != f.key], f))
            R.found = []
        if R.fieldcont == before:
            break
    else:
        raise AnalysisError('no fixed point')
    for (k, line, txt), (fn, nd, txt, chain, f) in sorted(found.items(), key=lambda x: str(x[0])):
        rep.bad('effect', '%s: %s' % (qual(fn.key), txt), fn.loc(nd), '%s while evaluating %s, which must not modify the object or shared state' % (txt, f.q), ['called through: ' + ' -> '.join(qual(c) for c in chain)])
    bad = {x[4].key for x in found.values()}
    for f, th, kind in es:
        if f.key not in bad:
            rep.ok('effect', '%s %s' % (f.loc(), f.q))
    for name in ('evalDeriv', 'densityCar', 'evalCar', 'evalCyl', 'value', 'eval'):
        if not any(f.q.endswith('::' + name) for f, th, kind in es):
            raise AnalysisError('no evaluation method named %s was found' % name)
    rep.require('effect', 700, 'evaluation methods of models')
    rep.notes.append('%d evaluation methods and functions, %d functions analysed, %d write sites examined' % (len(es), len(R.nfun), R.nwrites))
    return prog
