"""debugging aid: print the structure of a string term under a model"""
import z3
from theory import tob, toi


def show(T, m, t, depth=12):
    tx = T.text(t)
    if tx is not None:
        return repr(tx)
    st = T.st(t)
    if depth == 0 or not st:
        return str(t)[:60]
    k = st[0]
    if k == 'cat':
        return show(T, m, st[1], depth - 1) + ' ++ ' + show(T, m, st[2], depth - 1)
    if k == 'ite':
        for c, v in zip(st[1][:-1], st[2][:-1]):
            if z3.is_true(m.eval(c, model_completion=True)):
                return show(T, m, v, depth)
        return show(T, m, st[2][-1], depth)
    return '%s(%s)' % (k, ', '.join(show(T, m, x, depth - 1) if z3.is_expr(x) and x.sort().name() == 'S' else str(x)[:40] for x in st[1:]))


def model_for(D, path, cond):
    T = D.T
    facts = T.cone([tob(x) for x in path] + [tob(cond)])
    s = z3.Solver()
    s.add(facts)
    s.add([tob(x) for x in path])
    s.add(z3.Not(tob(cond)))
    ids = set()
    for f in facts:
        for i in T.subterms(f):
            k = D.byid.get(i)
            if k is not None:
                ids.add(k)
    for k in ids:
        s.add(D.E.cands[k].lit if D.alive[k] else z3.Not(D.E.cands[k].lit))
    if s.check() == z3.sat:
        return s.model()
    return None
