"""Assumed contracts of the standard library (and of the log facade) used by the code under verification.

Every entry states what the documented std function guarantees, in terms of the observers of theory.py.  Functions that
are not listed return an arbitrary value of their type, may change everything reachable through a mutable reference
argument, call the closures they are given with arbitrary arguments, and are recorded in `engine.unknown`.
"""
import re
import z3
from mirparse import INTS, parse_type, split_top, match_close
from registry import strip_generics, type_last, last, STD_ENUMS
from theory import S, V, toi, tob, ALLC, sym, MAXLEN, OTHER, CHARS, Cls, member
import theory as th
import dfa
import engine as en
from engine import (VVec, VAgg, VEnum, VRef, VChoice, VLazy, VIter, VFn, VOpaque, UNIT, Unsupported, is_s, is_int, is_bool, conc, mknot,
                    mkand, mkor, mkeq, add, sub_, USIZE)

WSP = {9, 10, 11, 12, 13, 32}
UPPER = set(range(65, 91))
LOWER = set(range(97, 123))
DIG = set(range(48, 58))
CTRL = set(range(32)) | {127}
PUNCT = {c for c in range(33, 127)} - UPPER - LOWER - DIG
CHARFN = {
    'is_whitespace': (WSP, WSP | {OTHER}), 'is_control': (CTRL, CTRL | {OTHER}), 'is_ascii': (set(range(128)), set(range(128))),
    'is_alphabetic': (UPPER | LOWER, UPPER | LOWER | {OTHER}), 'is_numeric': (DIG, DIG | {OTHER}),
    'is_alphanumeric': (UPPER | LOWER | DIG, UPPER | LOWER | DIG | {OTHER}),
    'is_ascii_alphabetic': (UPPER | LOWER,) * 2, 'is_ascii_digit': (DIG,) * 2, 'is_ascii_alphanumeric': (UPPER | LOWER | DIG,) * 2,
    'is_ascii_whitespace': (WSP - {11},) * 2, 'is_ascii_control': (CTRL,) * 2, 'is_ascii_punctuation': (PUNCT,) * 2,
    'is_ascii_uppercase': (UPPER,) * 2, 'is_ascii_lowercase': (LOWER,) * 2, 'is_uppercase': (UPPER, UPPER | {OTHER}),
    'is_lowercase': (LOWER, LOWER | {OTHER}), 'is_ascii_graphic': (set(range(33, 127)),) * 2,
    'is_ascii_hexdigit': (DIG | set(map(ord, 'abcdefABCDEF')),) * 2,
}
H_f = z3.Function('H', V, th.I)
IMPURE = ('std::env::', 'std::fs::', 'std::time::', 'std::process::', 'std::net::', 'std::thread::', 'std::io::', 'std::sync::',
          'std::cell::', 'rand', 'std::hash::RandomState', 'RandomState', 'std::ptr::', 'SystemTime', 'Instant', 'thread_local', 'LocalKey',
          'HashMap', 'HashSet')


def tl(txt):
    try:
        return type_last(parse_type(txt))
    except Exception:
        return txt


def norm(c):
    p = strip_generics(c)
    if p.startswith('<'):
        j = match_close(p, 0)
        inner, rest = p[1:j], p[j + 3:]
        parts = split_top(inner, ' as ')
        if len(parts) == 2:
            t = parts[0]
            while t.startswith('&'):
                t = re.sub(r"^&('\w+ )?(mut )?", '', t)
            return '%s as %s::%s' % (tl(t), last(re.sub(r'<.*$', '', parts[1])), rest)
        return p
    m = re.match(r'^(?:core|std|alloc)::(?:\w+::)*<impl (.*?)>::(\w+)$', p)
    if m:
        t = m.group(1)
        k = 'slice' if t.startswith('[') else tl(t)
        if k in INTS:
            k = 'int'
        return '%s::%s' % (k, m.group(2))
    segs = p.split('::')
    return '::'.join(segs[-2:])


def zmax(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return z3.If(toi(a) >= toi(b), toi(a), toi(b))


def opt(c, v):
    c = conc(c)
    if c is True:
        return VEnum('Option', 1, {1: (v,)})
    if c is False:
        return VEnum('Option', 0, {0: ()})
    return VEnum('Option', z3.If(c, z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (v,)})


def isv(e, k):
    """e is variant k"""
    return mkeq(e.discr, k)


class Models:
    def __init__(self, eng):
        self.E, self.th = eng, eng.th
        self.memo = {}
        self.origins = []
        self.relevant = None        # C04: {(variant, field)}
        self.topvar = set()
        self.flow = []
        self.modes = eng.modes
        self.ext = {}               # callee name -> handler (installed by the specification of a unit)
        self.trusted = {}
        self.closure_cls = {}
        self.vp = 'esc' if 'esc' in self.modes else ('tr' if 'tr' in self.modes else None)
        self.reps = []              # (source term, path, where) of every escaping step

    # ================================================================= generic helpers
    def rd(self, st, v):
        v = self.E.force(v)
        while isinstance(v, (VRef, VChoice)):
            if isinstance(v, VRef):
                v = self.E.force(self.E.read_path(st, v.cell, v.path))
            else:
                v = self.E.force(self.E.merge_vals([c for c, _ in v.alts], [self.E.read_path(st, r.cell, r.path) for _, r in v.alts]))
        return v

    def wr(self, st, ref, val):
        if isinstance(ref, VLazy):
            ref = self.E.force(ref)
        if isinstance(ref, VRef):
            self.E.write_path(st, ref.cell, ref.path, val)
        elif isinstance(ref, VChoice):
            for c, r in ref.alts:
                cur = self.E.read_path(st, r.cell, r.path)
                self.E.write_path(st, r.cell, r.path, self.E.merge_vals([c, z3.BoolVal(True)], [val, cur]))
        else:
            raise Unsupported('write through %s' % type(ref).__name__)

    def mem(self, *key):
        return self.memo.get(key)

    def fint(self, hint, lo=None, hi=None):
        t = self.th.fresh(th.I, hint)
        self.th.keep.append(t)
        if lo is not None:
            self.th.fact(t >= lo, t)
        if hi is not None:
            self.th.fact(t <= hi, t)
        return t

    def fbool(self, hint):
        t = self.th.fresh(th.B, hint)
        self.th.keep.append(t)
        return t

    def branch(self, st, path, cond, f, g):
        """run f under cond and g under not cond; f, g: (st, path) -> (st, path, val) or None"""
        cond = conc(cond)
        if cond is True:
            return f(st, path)
        if cond is False:
            return g(st, path)
        ids = {x.get_id() for x in path}
        if cond.get_id() in ids:
            return f(st, path)
        neg = mknot(cond)
        if neg.get_id() in ids:
            return g(st, path)
        self.th.keep += [cond, neg]
        outs = []
        tmp = (('tmp', self.E.nframe), len(self.th.keep))
        for c, h in ((cond, f), (neg, g)):
            r = h(dict(st), path + (c,))
            if r is not None:
                s, p, v = r
                s = dict(s)
                s[tmp] = v
                outs.append((p, s))
        if not outs:
            return None
        p, s = self.E.merge(outs)
        s = dict(s)
        v = s.pop(tmp)
        return s, p, v

    def req(self, path, cond, desc, body):
        return self.E.require('panic', path, cond, desc, body)

    # ================================================================= vectors
    def fresh_vec(self, ety, hint='v'):
        return self.E.mkvec(ety, hint)

    def vpf(self, v):
        """all string leaves of all elements satisfy the summary predicate of this mode"""
        t = z3.Function('vp_' + self.vp, V, th.B)(v)
        self.th.keep.append(t)
        st = self.th.st(v)
        if st and st[0] == 'ite' and self.th.once('vpf', v.get_id()):
            self.th.fact(t == self.th.ite_lift(v, st[1], st[2], self.vpf), t)
        return t

    def install_hooks(self):
        self.th.hooks['H'] = self.H
        if self.vp:
            self.th.hooks['vp_' + self.vp] = self.vpf

    def elem_p(self, val, depth=3):
        val = self.E.force(val) if not isinstance(val, VLazy) or self.E.cheap(val.type) else val
        if is_s(val):
            return z3.Not(self.th.esc(val)) if self.vp == 'esc' else self.th.tr(val, self.th.T) == self.th.T
        if isinstance(val, VVec):
            return self.vpf(val.term)
        if isinstance(val, VAgg) and val.kind[0] in ('tuple', 'array') and depth:
            return mkand(*[self.elem_p(f, depth - 1) for f in val.fields if f is not None])
        return True

    def H(self, v):
        t = H_f(v)
        if self.th.once('H', v.get_id()):
            self.th.keep.append(t)
            self.th.fact(t >= 0, t)
            st = self.th.st(v)
            if st and st[0] == 'ite':
                self.th.fact(t == self.th.ite_lift(v, st[1], st[2], self.H), t)
        return t

    def hval(self, v, depth=4):
        """termination weight of a value"""
        v = self.E.force(v)
        if is_s(v):
            return self.th.slen(v)
        if isinstance(v, VVec):
            return self.H(v.term)
        if isinstance(v, VAgg) and depth and v.kind[0] in ('tuple', 'array', 'adt'):
            r = 0
            for f in v.fields:
                if f is not None and not isinstance(f, (VRef,)):
                    r = zmax(r, self.hval(f, depth - 1))
            return r
        if isinstance(v, VEnum) and depth:
            if v.name == 'Option':
                if 1 not in v.vs or conc(v.discr) == 0:
                    return 0
                x = self.hval(v.vs[1][0], depth - 1)
                return x if conc(v.discr) == 1 else (0 if isinstance(x, int) and x == 0 else z3.If(v.discr == 1, toi(x), z3.IntVal(0)))
            if v.name in self.E.recursive_adts():
                rel = self.relevant or set()
                out = z3.IntVal(0)
                for k in sorted({a for a, _ in rel}):
                    if isinstance(conc(v.discr), int) and conc(v.discr) != k:
                        continue
                    if k not in v.vs and v.ref is None:
                        continue
                    fs = self.E.enum_fields(v, k)
                    w = 0
                    for (a, i) in sorted(rel):
                        if a == k:
                            w = zmax(w, self.hval(fs[i], depth - 1))
                    w = add(w, 1) if k in self.topvar else w
                    if isinstance(conc(v.discr), int):
                        return w
                    out = z3.If(v.discr == k, toi(w), out)
                return out
        return 0

    def vec_elem(self, v, i):
        self.origins.append(v.term)
        lz = VLazy(v.ety if isinstance(v.ety, tuple) else ('other', '?'), 'e%d' % (len(self.origins) - 1))
        inr = z3.And(toi(i) >= 0, toi(i) < self.th.vlen(v.term))
        st = self.th.st(v.term)
        if st and st[0] == 'split':
            _, src, pat = st
            if is_int(i) and not z3.is_expr(i) and i == 0:
                k = self.th.find(src, pat)
                z = self.th.slen(src)
                e = self.E.merge_vals([k < 0, z3.BoolVal(True)], [z, k])
                return self.th.sub(src, 0, e)
            a, b = self.fint('spa', 0), self.fint('spb', 0)
            self.th.fact(z3.And(a <= b, b <= self.th.slen(src), self.th.bd(src, a), self.th.bd(src, b)), a, b)
            return self.th.sub(src, a, b)
        e = lz
        if 'H' in self.modes and self.relevant is not None and self.measurable(lz.type):
            hv = self.hval(e)
            if z3.is_expr(hv):
                ow = [x for x in self.E.leaf_terms([e], 3) if z3.is_expr(x)]
                self.th.fact(z3.Implies(inr, hv <= self.H(v.term)), *(ow or [self.H(v.term)]))
        if self.vp:
            p = self.elem_p(e)
            if p is not True:
                ow = [x for x in self.E.leaf_terms([e], 3) if z3.is_expr(x)]
                self.th.fact(z3.Implies(z3.And(inr, self.vpf(v.term)), tob(p)), *ow)
        if st and st[0] == 'push' and isinstance(v.term, z3.ExprRef):
            pass
        return e

    def measurable(self, ty):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'str':
            return True
        if ty[0] == 'tuple':
            return any(self.measurable(t) for t in ty[1])
        if ty[0] in ('slice', 'array'):
            return self.measurable(ty[1])
        if ty[0] == 'adt':
            nm = last(ty[1])
            return nm in ('String', 'Vec', 'Option', 'Box') or nm in self.E.recursive_adts()
        return False

    def vec_new(self, ety):
        v = self.fresh_vec(ety, 'nv')
        self.th.fact(self.th.vlen(v.term) == 0, v.term)
        self.summ(v, [])
        return v

    def summ(self, v, olds, vals=(), sub=False):
        """summary facts: contents of v = contents of olds plus vals (sub: a subset of them)"""
        if 'H' in self.modes and self.relevant is not None:
            h = 0
            for o in olds:
                h = zmax(h, self.H(o.term))
            for x in vals:
                h = zmax(h, self.hval(x))
            self.th.fact(self.H(v.term) <= h if sub else self.H(v.term) == h, v.term)
        if self.vp:
            p = mkand(*([self.vpf(o.term) for o in olds] + [self.elem_p(x) for x in vals]))
            self.th.fact(z3.Implies(tob(p), self.vpf(v.term)) if sub else self.vpf(v.term) == tob(p), v.term)

    def vec_push(self, v, val):
        n = self.fresh_vec(v.ety, 'pv')
        self.th.fact(self.th.vlen(n.term) == self.th.vlen(v.term) + 1, n.term)
        self.summ(n, [v], [val])
        # the pushed element can be read back
        self.E.memo_at[(n.term.get_id(), ('z', z3.simplify(self.th.vlen(v.term)).get_id()))] = val
        return n

    def vec_sub(self, v, ln, hint='sv', extra=()):
        """some of the elements of v (plus extra), length ln"""
        n = self.fresh_vec(v.ety, hint)
        if ln is not None:
            self.th.fact(self.th.vlen(n.term) == ln, n.term)
        self.summ(n, [v], extra, sub=True)
        return n

    def vec_update_facts(self, new, old, val):
        if val is not None:
            self.summ(new, [old], [val], sub=True)
        else:
            pass

    def subslice(self, v, lo, hi):
        return self.vec_sub(v, sub_(hi, lo), 'ss')

    def as_vec(self, v, ety=None):
        v = self.E.force(v)
        if isinstance(v, VVec):
            return v
        if isinstance(v, VAgg) and v.kind[0] in ('array', 'partial'):
            fs = v.fields
            if len(fs) == 1 and isinstance(fs[0], VAgg) and fs[0].kind[0] == 'array' and v.kind[0] == 'partial':
                fs = fs[0].fields
            r = self.vec_new(ety or ('other', '?'))
            for x in fs:
                r = self.vec_push(r, x)
            return r
        raise Unsupported('vector from %s' % type(v).__name__)

    def vl(self, v):
        v = self.E.force(v)
        if isinstance(v, VVec):
            return self.th.vlen(v.term)
        if isinstance(v, VAgg):
            return len(v.fields)
        if is_s(v):
            return self.th.slen(v)
        raise Unsupported('len of %s' % type(v).__name__)

    def opaque_field(self, v, p):
        key = ('of', id(v), p)
        r = self.memo.get(key)
        if r is None:
            r = VOpaque(('field', v.tag))
            self.memo[key] = r
            self.th.keep.append(v)
        return r

    def opaque_discr(self, v):
        key = ('od', id(v))
        r = self.memo.get(key)
        if r is None:
            r = self.fint('od')
            self.memo[key] = r
            self.th.keep.append(v)
        return r

    def on_construct(self, nm, variant, ops, path, body):
        pass

    def override(self, b):
        return b.pretty in self.ext

    # ================================================================= arithmetic
    def binop(self, op, a, b, ty, body):
        E = self.E
        a, b = conc(E.force(a)), conc(E.force(b))
        if isinstance(a, VOpaque) or isinstance(b, VOpaque) or isinstance(a, VRef) or isinstance(b, VRef):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.fbool('oc')
            if op.endswith('WithOverflow'):
                return VAgg(('tuple',), [VLazy(ty or USIZE), self.fbool('ov')])
            if op == 'BitAnd' and (is_bool(a) or is_bool(b)):
                return self.fbool('ob')
            return VLazy(ty or USIZE)
        if op in ('Eq', 'Ne'):
            r = mkeq(a, b)
            return r if op == 'Eq' else mknot(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if is_bool(a) or is_bool(b):
                return self.fbool('bc')
            return {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if op in ('BitOr', 'BitAnd', 'BitXor') and (is_bool(a) or is_bool(b)):
            if op == 'BitOr':
                return mkor(a, b)
            if op == 'BitAnd':
                return mkand(a, b)
            return mknot(mkeq(a, b))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        rng = None
        if ty and ty[0] == 'int':
            w, sg = INTS[ty[1]]
            rng = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Mul' and z3.is_expr(a) and z3.is_expr(b):
                r = self.fint('mul')
            else:
                r = {'Add': lambda: add(a, b), 'Sub': lambda: sub_(a, b), 'Mul': lambda: a * b}[base]()
            if op.endswith('WithOverflow'):
                lo, hi = rng or (0, 2 ** 64 - 1)
                ov = mkor(conc(r < lo), conc(r > hi)) if z3.is_expr(r) else (r < lo or r > hi)
                return VAgg(('tuple',), [r, ov])
            if z3.is_expr(r) and not op.endswith('Unchecked') and rng and rng[0] == 0:
                return r % (rng[1] + 1)
            return r
        if base in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if base == 'Div' else a - b * q
            if isinstance(b, int) and b > 0 and rng and rng[0] == 0:
                return a / b if base == 'Div' else a % b
            return VLazy(ty or USIZE)
        if isinstance(a, int) and isinstance(b, int) and base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            r = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b}[base]()
            return r % (rng[1] + 1) if rng and rng[0] == 0 else r
        return VLazy(ty or USIZE)

    def eq(self, a, b, depth=4):
        E = self.E
        a, b = E.force(a), E.force(b)
        if is_s(a) and is_s(b):
            if a.get_id() == b.get_id():
                return True
            ta, tb = self.th.text(a), self.th.text(b)
            if ta is not None and tb is not None:
                return ta == tb
            r = a == b
            self.th.keep.append(r)
            for x, y in ((a, tb), (b, ta)):
                if y is not None:
                    # facts about the literal carry over through congruence
                    self.th.slen(x)
            return r
        if (is_int(a) and is_int(b)) or (is_bool(a) and is_bool(b)):
            return mkeq(a, b)
        if isinstance(a, VEnum) and isinstance(b, VEnum) and a.name == b.name and depth:
            c = mkeq(a.discr, b.discr)
            parts = [c]
            for k in sorted(set(a.vs) | set(b.vs)):
                if isinstance(conc(a.discr), int) and conc(a.discr) != k or isinstance(conc(b.discr), int) and conc(b.discr) != k:
                    continue
                fa, fb = E.enum_fields(a, k), E.enum_fields(b, k)
                if not fa:
                    continue
                es = mkand(*[self.eq(x, y, depth - 1) for x, y in zip(fa, fb)])
                g = isv(a, k)
                parts.append(es if g is True else mkor(mknot(g), es))
            return mkand(*parts)
        if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.fields) == len(b.fields) and depth:
            return mkand(*[self.eq(x, y, depth - 1) for x, y in zip(a.fields, b.fields)])
        return self.fbool('eq')

    # ================================================================= character classes
    def char_pred(self, name, x):
        must, may = CHARFN[name]
        x = conc(x)
        if isinstance(x, int):
            s = sym(chr(x))
            if s in must:
                return True
            if s not in may:
                return False
        inm = member(toi(x), set(may) - {OTHER}) if must == may or OTHER in may else None
        asc = member(toi(x), {c for c in must if c < 128})
        if OTHER not in may:
            return asc
        if OTHER in must:
            return z3.Or(asc, toi(x) >= 128)
        u = z3.Function('ch_' + name, th.I, th.B)(toi(x))
        return z3.Or(asc, z3.And(toi(x) >= 128, u))

    def named_cls(self, name):
        must, may = CHARFN[name]
        if name == 'is_whitespace':
            return self.th.WS
        return self.th.reg(Cls('f_' + name, must, may)) if 'f_' + name not in self.th.classes else self.th.classes['f_' + name]

    def compl(self, c):
        if c.must == c.may:
            return self.th.cls_of(ALLC - c.may, ALLC - c.must)
        nm = 'not_' + c.name
        return self.th.classes.get(nm) or self.th.reg(Cls(nm, ALLC - c.may, ALLC - c.must))

    def pred_cls(self, f, st, path, body, as_str=False):
        """class of characters accepted by a closure / fn item; None if it is not a plain predicate"""
        f = self.rd(st, f)
        if isinstance(f, VFn):
            nm = last(strip_generics(f.name))
            if nm in CHARFN:
                return self.named_cls(nm)
        key = None
        if isinstance(f, VAgg) and f.kind[0] == 'closure' and not f.fields:
            key = f.kind[1]
            if key in self.closure_cls:
                return self.closure_cls[key]
        if not isinstance(f, (VAgg, VFn)):
            return None
        E = self.E
        x = self.fint('cx', 0, 0x10FFFF)
        mark = (len(E.obs), len(E.cands))
        try:
            r = E.call_value(f, [x], dict(st), path, body)
        except Unsupported:
            r = None
        if r is None:
            return None
        if any(o.cond is not True for o in E.obs[mark[0]:]):
            return None
        p, val = r[1], E.force(r[2])
        del E.obs[mark[0]:]
        if len(E.cands) != mark[1]:
            return None
        if isinstance(val, bool):
            val = z3.BoolVal(val)
        s = z3.Solver()
        s.set('timeout', 5000)
        facts = self.th.cone([val] + [tob(q) for q in p[len(path):]])
        s.add(facts)
        s.add([tob(q) for q in p[len(path):]])
        must, may = set(), set()
        # facts about character x for all symbols
        for c in CHARS:
            cx = (x == c) if c < 128 else (x >= 128)
            if s.check(cx, val) != z3.unsat:
                may.add(c)
            if s.check(cx, z3.Not(val)) == z3.unsat:
                must.add(c)
        if must == may:
            cl = self.th.cls_of(must, may)
        else:
            nm = 'k_' + (key or str(len(self.closure_cls)))
            cl = Cls(nm, must, may)
            self.th.reg(cl)
        if key:
            self.closure_cls[key] = cl
        return cl

    def pattern(self, v, st, path, body, ty=None):
        """-> ('str', term) | ('cls', Cls) | None"""
        v = conc(self.rd(st, v))
        if is_s(v):
            return ('str', v)
        if is_int(v):
            if isinstance(v, int):
                return ('str', self.th.lit(chr(v)))
            t = self.chr_term(v)
            return ('str', t)
        if isinstance(v, VAgg) and v.kind[0] == 'array':
            xs = [conc(self.E.force(x)) for x in v.fields]
            if all(isinstance(x, int) for x in xs):
                cs = {sym(chr(x)) for x in xs}
                return ('cls', self.th.cls_of(cs - {OTHER}, cs))
            return None
        if isinstance(v, (VFn, VAgg)):
            c = self.pred_cls(v, st, path, body)
            return ('cls', c) if c is not None else None
        return None

    def chr_term(self, c):
        c = conc(c)
        if isinstance(c, int):
            return self.th.lit(chr(c))
        t = th.chr_f(c)
        if self.th.once('chr', t.get_id()):
            self.th.setst(t, ('chr', c))
        return t

    # ================================================================= strings
    def rng(self, r, s, st):
        """(lo, hi, extra condition) of a range argument over a sequence of length n"""
        r = self.rd(st, r)
        n = self.vl(s)
        if isinstance(r, VAgg) and r.kind[0] == 'adt':
            k = r.kind[1]
            f = [conc(self.E.force(x)) for x in r.fields]
            if k == 'Range':
                return f[0], f[1], True
            if k == 'RangeFrom':
                return f[0], n, True
            if k == 'RangeTo':
                return 0, f[0], True
            if k == 'RangeInclusive':
                return f[0], add(f[1], 1), conc(toi(f[1]) < 2 ** 64 - 1) if z3.is_expr(f[1]) else True
            if k == 'RangeToInclusive':
                return 0, add(f[0], 1), True
            if k == 'RangeFull':
                return 0, n, True
        if isinstance(r, VOpaque) and 'RangeFull' in str(r.tag):
            return 0, n, True
        raise Unsupported('range %r' % (r,))

    def slice_ok(self, s, a, b, ex=True):
        n = self.th.slen(s)
        za, zb = toi(a), toi(b)
        parts = [za <= zb, zb <= n]
        if isinstance(conc(a), int) and conc(a) == 0:
            pass
        else:
            parts.append(self.th.bd(s, a))
        if not (z3.is_expr(b) and b.get_id() == n.get_id()):
            parts.append(self.th.bd(s, b))
        return mkand(*([ex] + [conc(p) for p in parts]))

    def find(self, s, pat):
        if pat[0] == 'str':
            return self.th.find(s, pat[1])
        c = pat[1]
        key = ('find', s.get_id(), c.name)
        if key not in self.memo:
            nc = self.compl(c)
            k = self.fint('fk', -1)
            self.th.fact(z3.Implies(k >= 0, z3.And(k < self.th.slen(s), self.th.bd(s, k), self.th.allin(nc, self.th.sub(s, 0, k)))), k)
            self.th.fact((k < 0) == self.th.allin(nc, s), k)
            self.memo[key] = k
            self.th.keep.append(s)
        return self.memo[key]

    def rfind(self, s, pat):
        key = ('rfind', s.get_id(), pat[1].get_id() if pat[0] == 'str' else pat[1].name)
        if key not in self.memo:
            k = self.fint('rk', -1)
            self.th.fact((k < 0) == (self.find(s, pat) < 0), k)
            if pat[0] == 'str':
                pl = self.th.slen(pat[1])
                self.th.fact(z3.Implies(k >= 0, z3.And(k + pl <= self.th.slen(s), self.th.bd(s, k), self.th.bd(s, k + pl))), k)
                self.th.fact(z3.Implies(k >= 0, k >= self.find(s, pat)), k)
            else:
                self.th.fact(z3.Implies(k >= 0, z3.And(k < self.th.slen(s), self.th.bd(s, k))), k)
            self.memo[key] = k
            self.th.keep.append(s)
        return self.memo[key]

    def after(self, s, k, p):
        """the rest of s behind an occurrence of p at k"""
        return self.th.sub(s, add(k, conc(z3.simplify(self.th.slen(p)))), self.th.slen(s))

    def trim(self, s, how, pat, times=None):
        """how: 'S' / 'E'; pat: ('cls', c) or ('str', p)"""
        key = ('trim', how, s.get_id(), pat[1].get_id() if pat[0] == 'str' else pat[1].name)
        if key in self.memo:
            return self.memo[key]
        T = self.th
        tx = T.text(s)
        ptx = T.text(pat[1]) if pat[0] == 'str' else None
        n = T.slen(s)
        cls = None
        if tx is not None and ptx:
            r = tx
            while ptx and (r.startswith(ptx) if how == 'S' else r.endswith(ptx)):
                r = r[len(ptx):] if how == 'S' else r[:-len(ptx)]
            self.memo[key] = T.lit(r)
            return self.memo[key]
        if pat[0] == 'cls':
            cls = pat[1]
        elif ptx:
            cs = {sym(c) for c in ptx}
            cls = T.cls_of(cs - {OTHER}, cs) if len(ptx) > 1 or OTHER in cs else T.cls_of(cs, cs)
        i = self.fint('tr' + how, 0)
        T.fact(z3.And(i <= n, T.bd(s, i)), i)
        r = T.sub(s, i, n) if how == 'S' else T.sub(s, 0, i)
        if cls is not None:
            T.extra.setdefault(r.get_id(), []).append(('trim' + how, s, cls, z3.BoolVal(True)))
            if pat[0] == 'cls' or len(ptx) == 1:
                T.fact(z3.Implies(T.allin(cls, s), r == T.lit('')), r)
                T.fact(z3.Implies(T.slen(r) == 0, T.allin(cls, s)), r)
                T.fact(T.allin(cls, r) == T.allin(cls, s), r)
        if pat[0] == 'str':
            p = pat[1]
            c = T.ends(s, p) if how == 'E' else T.starts(s, p)
            if how == 'E':
                T.fact(z3.Implies(z3.Not(c), i == n), i)
                T.fact(z3.Implies(z3.And(c, T.slen(p) > 0), i + T.slen(p) <= n), i)
            else:
                T.fact(z3.Implies(z3.Not(c), i == 0), i)
                T.fact(z3.Implies(z3.And(c, T.slen(p) > 0), i >= T.slen(p)), i)
        T.keep.append(s)
        self.memo[key] = r
        return r

    def replace(self, s, pat, rep, path, body):
        T = self.th
        rt = T.text(rep)
        if pat[0] == 'str':
            pt = T.text(pat[1])
            if T.text(s) is not None and pt is not None and rt is not None:
                return T.lit(T.text(s).replace(pt, rt) if pt else T.text(s))
            key = ('rep', s.get_id(), pat[1].get_id(), rep.get_id())
            if pt and rt is not None:
                if pt == '&' and rt.startswith('&'):
                    self.reps.append((s, path, self.E.where(body)))
                if key not in self.memo:
                    t = T.fresh_s('rep')
                    T.setst(t, ('rep', s, pt, rt))
                    if len(rt.encode()) == len(pt.encode()):
                        T.fact(T.slen(t) == T.slen(s), t)
                    elif len(rt.encode()) > len(pt.encode()):
                        T.fact(T.slen(t) >= T.slen(s), t)
                    else:
                        T.fact(T.slen(t) <= T.slen(s), t)
                    T.fact(z3.Implies(T.find(s, pat[1]) < 0, t == s), t)
                    self.memo[key] = t
                    T.keep += [s]
                return self.memo[key]
        elif rt is not None:
            key = ('repc', s.get_id(), pat[1].name, rt)
            if key not in self.memo:
                t = T.fresh_s('rep')
                T.setst(t, ('repcls', s, pat[1], rt))
                self.memo[key] = t
                T.keep += [s]
            return self.memo[key]
        return T.fresh_s('rep')

    # ---------------------------------------------------------------- formatting
    def fmt_pieces(self, data):
        """decode the byte template of core::fmt::rt: list of str | (argument index, plain)"""
        out, i, nxt = [], 0, 0
        while i < len(data):
            b = data[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(bytes(data[i:i + b]).decode())
                i += b
            elif b == 0x80:
                n = data[i] | data[i + 1] << 8
                out.append(bytes(data[i + 2:i + 2 + n]).decode())
                i += 2 + n
            elif b >= 0xC0:
                plain = True
                if b & 1:
                    i += 4
                    plain = False
                if b & 2:
                    i += 2
                    plain = False
                if b & 4:
                    i += 2
                    plain = False
                if b & 8:
                    nxt = data[i] | data[i + 1] << 8
                    i += 2
                out.append((nxt, plain))
                nxt += 1
            else:
                raise Unsupported('format template')
        return out

    def fmt_args(self, a, st, path, body):
        """string of a fmt::Arguments value -> (st, path, term) ; None if it cannot return"""
        T = self.th
        a = self.rd(st, a)
        if isinstance(a, VOpaque) and a.tag == 'fmtstr':
            return st, path, a.args[0]
        if not (isinstance(a, VOpaque) and a.tag == 'fmt'):
            return st, path, T.fresh_s('fmt')
        tmpl, av = a.args
        if not (isinstance(tmpl, VOpaque) and tmpl.tag[0] == 'bytes'):
            return st, path, T.fresh_s('fmt')
        data = tmpl.tag[1]
        if isinstance(data, str):
            data = data.encode('latin-1')
        out = T.lit('')
        for p in self.fmt_pieces(data):
            if isinstance(p, str):
                out = T.cat(out, T.lit(p))
                continue
            k, plain = p
            arg = self.E.force(av.fields[k])
            if not plain or not isinstance(arg, VOpaque) or arg.tag != 'fmtarg':
                out = T.cat(out, T.fresh_s('fmtopt'))
                continue
            r = self.display(arg.args[0], arg.args[1], st, path, body)
            if r is None:
                return None
            st, path, s = r
            out = T.cat(out, s)
        return st, path, out

    def display(self, kind, v, st, path, body):
        T = self.th
        if kind != 'display':
            t = T.fresh_s('dbg')
            return st, path, t
        v = conc(self.rd(st, v))
        if is_s(v):
            return st, path, v
        if is_bool(v):
            return st, path, T.merge_s([tob(v), z3.BoolVal(True)], [T.lit('true'), T.lit('false')])
        if isinstance(v, int):
            return st, path, T.lit(str(v))
        if is_int(v):
            t = th.int_f(v)
            if T.once('fmtint', t.get_id()):
                T.setst(t, ('int', v, False))
                T.fact(z3.And(T.slen(t) >= 1, T.slen(t) <= 40), t)
            return st, path, t
        if isinstance(v, VOpaque) and v.tag in ('fmt', 'fmtstr'):
            return self.fmt_args(v, st, path, body)
        nm = v.name if isinstance(v, VEnum) else (v.kind[1] if isinstance(v, VAgg) and v.kind[0] == 'adt' else None)
        if nm:
            for c in self.E.prog.crates.values():
                b = c.by_key.get((nm, 'Display', 'fmt'))
                if b is not None:
                    return self.fmt_local(b, v, st, path, body)
        if isinstance(v, VEnum) and v.name == 'Cow':
            pass
        return st, path, T.fresh_s('disp')

    def fmt_local(self, b, v, st, path, body):
        self.E.nframe += 1
        cell = (('fmt', self.E.nframe), 0)
        st = dict(st)
        st[cell] = self.th.lit('')
        r = self.E.run_body(b, [v, VRef(cell)], st, path)
        if r is None:
            return None
        st, path, res = r
        res = self.E.force(res)
        if isinstance(res, VEnum):
            path = self.req(path, isv(res, 0), 'a Display implementation returned an error', body)
            if path is None:
                return None
        st = dict(st)
        return st, path, st.pop(cell)

    # ================================================================= iterators
    def mkiter(self, v, st):
        v = self.rd(st, v)
        if isinstance(v, VIter):
            return v
        if isinstance(v, VVec) or isinstance(v, VAgg) and v.kind[0] == 'array':
            return VIter('slice', (v, 0))
        if isinstance(v, VAgg) and v.kind == ('adt', 'Range'):
            return v
        if isinstance(v, VAgg) and v.kind == ('adt', 'RangeInclusive'):
            return VIter('rangei', (v.fields[0], add(conc(self.E.force(v.fields[1])), 1)))
        if isinstance(v, VAgg) and v.kind == ('adt', 'RangeFrom'):
            return VIter('rangef', (v.fields[0],))
        if isinstance(v, VEnum) and v.name == 'Option':
            return VIter('option', (v,))
        raise Unsupported('iterator over %s' % (v.kind if isinstance(v, VAgg) else type(v).__name__,))

    def havoc_iter(self, v, hint):
        E = self.E
        k = v.kind
        if k == 'slice':
            p = self.fint(hint + '_pos', 0, MAXLEN)
            return VIter(k, (v.data[0], p), v.aux)
        if k in ('chars', 'split', 'lines', 'ws', 'bytes'):
            p = self.fint(hint + '_pos', 0, MAXLEN)
            return VIter(k, (v.data[0], p) + v.data[2:], v.aux)
        if k in ('rangei', 'rangef'):
            return VIter(k, [self.fint(hint + '_r') for _ in v.data], v.aux)
        return VIter(k, [E.havoc(x, None, hint) if not isinstance(x, VIter) else self.havoc_iter(x, hint) for x in v.data], v.aux)

    def it_next(self, it, st, path, body, back=False):
        """-> (st, path, it', cond, elem) ; None if it cannot return"""
        E, T = self.E, self.th
        it = E.force(it)
        if isinstance(it, VRef):
            inner = self.rd(st, it)
            r = self.it_next(inner, st, path, body)
            if r is None:
                return None
            st, path, n, c, e = r
            self.wr(st, it, n)
            return st, path, it, c, e
        if isinstance(it, VAgg) and it.kind == ('adt', 'Range') or isinstance(it, VIter) and it.kind == 'rangei':
            d = it.fields if isinstance(it, VAgg) else it.data
            a, b = conc(E.force(d[0])), conc(E.force(d[1]))
            c = conc(a < b)
            if back:
                e, na, nb = sub_(b, 1), a, self.ite(c, sub_(b, 1), b)
            else:
                e, na, nb = a, self.ite(c, add(a, 1), a), b
            return st, path, (VAgg(it.kind, (na, nb)) if isinstance(it, VAgg) else VIter('rangei', (na, nb))), c, e
        if not isinstance(it, VIter):
            raise Unsupported('next of %s' % type(it).__name__)
        k = it.kind
        if k == 'rangef':
            a = conc(E.force(it.data[0]))
            return st, path, VIter(k, (add(a, 1),)), True, a
        if k == 'slice':
            v, p = E.force(it.data[0]), conc(it.data[1])
            n = self.vl(v)
            if back:
                raise Unsupported('next_back of slice')
            c = conc(toi(p) < toi(n)) if z3.is_expr(p) or z3.is_expr(n) else p < n
            if isinstance(v, VAgg) and isinstance(p, int):
                if p >= len(v.fields):
                    return st, path, it, False, None
                return st, path, VIter(k, (v, p + 1)), True, v.fields[p]
            return st, path, VIter(k, (v, self.ite(c, add(p, 1), p))), c, E.index(v, p)
        if k == 'rev':
            inner = E.force(it.data[0])
            if isinstance(inner, VIter) and inner.kind == 'slice':
                v, p = E.force(inner.data[0]), conc(inner.data[1])
                n = self.vl(v)
                c = conc(toi(p) < toi(n)) if z3.is_expr(p) or z3.is_expr(n) else p < n
                return st, path, VIter(k, (VIter('slice', (v, self.ite(c, add(p, 1), p))),)), c, E.index(v, sub_(sub_(n, p), 1))
            if isinstance(inner, VIter) and inner.kind == 'chars':
                s, p = inner.data[0], inner.data[1]
                ch = self.fint('rc', 0, 0x10FFFF)
                w = self.fint('rw', 1, 4)
                c = toi(p) < T.slen(s)
                np = self.fint('rp', 0)
                T.fact(z3.And(z3.Implies(c, z3.And(np == toi(p) + w, np <= T.slen(s))), z3.Implies(z3.Not(c), np == toi(p))), np, w)
                return st, path, VIter(k, (VIter('chars', (s, np)),)), c, ch
            r = self.it_next(inner, st, path, body, back=True)
            if r is None:
                return None
            st, path, n, c, e = r
            return st, path, VIter('rev', (n,)), c, e
        if k == 'chars' or k == 'bytes':
            s, p = it.data[0], toi(conc(it.data[1]))
            key = ('chat', k, s.get_id(), z3.simplify(p).get_id())
            if key not in self.memo:
                ch = self.fint('ch', 0, 0x10FFFF if k == 'chars' else 255)
                w = self.fint('cw', 1, 4 if k == 'chars' else 1)
                T.fact(z3.Implies(z3.And(p >= 0, p < T.slen(s), T.bd(s, p)), z3.And(p + w <= T.slen(s), T.bd(s, p + w))), w)
                if k == 'chars':
                    T.fact(z3.Implies(p < T.slen(s), T.sub(s, p, p + w) == self.chr_term(ch)), ch, w)
                    T.fact(z3.Implies(ch < 128, w == 1), w)
                self.memo[key] = (ch, w)
                T.keep += [s, p, z3.simplify(p)]
            ch, w = self.memo[key]
            c = p < T.slen(s)
            return st, path, VIter(k, (s, self.ite(c, p + w, p)), it.aux), c, ch
        if k == 'char_indices':
            r = self.it_next(VIter('chars', it.data), st, path, body)
            st, path, n, c, e = r
            return st, path, VIter(k, n.data), c, VAgg(('tuple',), [it.data[1], e])
        if k in ('split', 'lines', 'ws'):
            s, p = it.data[0], toi(conc(it.data[1]))
            n = T.slen(s)
            c = p <= n
            e, np = self.fint('se', 0), self.fint('sp', 0)
            T.fact(z3.Implies(c, z3.And(p <= e, e <= n, T.bd(s, e), z3.Or(np == n + 1, z3.And(np > e, np <= n, T.bd(s, np))))), e, np)
            T.fact(z3.Implies(z3.Not(c), np == p), np)
            b = p
            if k != 'split':
                b = self.fint('sb', 0)
                T.fact(z3.Implies(c, z3.And(p <= b, b <= e, T.bd(s, b))), b)
            el = T.sub(s, b, e)
            if k == 'split' and it.aux is not None and it.aux[0] == 'str' and T.text(it.aux[1]) and len(T.text(it.aux[1])) == 1 and ord(T.text(it.aux[1])) < 128:
                T.extra.setdefault(el.get_id(), []).append(('allin', T.no(T.text(it.aux[1])), z3.BoolVal(True)))
            cc = c if k == 'split' else z3.And(c, self.fbool('more'))
            return st, path, VIter(k, (s, np), it.aux), cc, el
        if k == 'option':
            v = E.force(it.data[0])
            return st, path, VIter(k, (opt(False, None),)), isv(v, 1), v.vs[1][0] if 1 in v.vs else None
        if k in ('map', 'inspect'):
            r = self.it_next(it.data[0], st, path, body, back)
            if r is None:
                return None
            st, path, n, c, e = r
            if conc(c) is False:
                return st, path, VIter(k, (n,), it.aux), False, None
            q = self.branch(st, path, c, lambda s, p: E.call_value(it.aux, [e], s, p, body), lambda s, p: (s, p, None))
            if q is None:
                return None
            st, path, v = q
            return st, path, VIter(k, (n,), it.aux), c, (v if k == 'map' else e)
        if k == 'enumerate':
            r = self.it_next(it.data[0], st, path, body, back)
            if r is None:
                return None
            st, path, n, c, e = r
            i = it.data[1]
            return st, path, VIter(k, (n, self.ite(c, add(conc(i), 1), i))), c, VAgg(('tuple',), [i, e])
        if k == 'zip':
            r = self.it_next(it.data[0], st, path, body)
            if r is None:
                return None
            st, path, n1, c1, e1 = r
            r = self.it_next(it.data[1], st, path, body)
            if r is None:
                return None
            st, path, n2, c2, e2 = r
            return st, path, VIter(k, (n1, n2)), mkand(c1, c2), VAgg(('tuple',), [e1, e2])
        if k in ('filter', 'skip_while', 'take_while', 'skip', 'take', 'step_by', 'filter_map', 'peekable', 'chain', 'copied'):
            if k == 'copied':
                r = self.it_next(it.data[0], st, path, body)
                if r is None:
                    return None
                return r[0], r[1], VIter(k, (r[2],)), r[3], r[4]
            if k in ('filter', 'filter_map', 'skip_while', 'skip', 'step_by'):
                inner = self.skip_some(it.data[0])
                r = self.it_next(inner, st, path, body)
                if r is None:
                    return None
                st, path, n, c, e = r
                if k in ('filter', 'filter_map', 'skip_while'):
                    holder = []
                    q = self.branch(st, path, c, lambda s, p: E.call_value(it.aux, [e], s, p, body), lambda s, p: (s, p, False if k != 'filter_map' else opt(False, None)))
                    if q is None:
                        return None
                    st, path, v = q
                    v = E.force(v)
                    if k == 'filter':
                        if conc(v) is not True:
                            path = path + (mkor(mknot(tob(conc(c)) if isinstance(c, bool) else c), tob(v)),)
                    elif k == 'filter_map':
                        path = path + (tob(mkor(mknot(c), isv(v, 1))),)
                        e = v.vs[1][0] if 1 in v.vs else None
                return st, path, VIter(k, (n,), it.aux), c, e
            if k in ('take_while', 'take'):
                r = self.it_next(it.data[0], st, path, body)
                if r is None:
                    return None
                st, path, n, c, e = r
                stop = self.fbool('tk')
                if k == 'take_while':
                    q = self.branch(st, path, c, lambda s, p: E.call_value(it.aux, [e], s, p, body), lambda s, p: (s, p, False))
                    if q is None:
                        return None
                    st, path, stop = q
                return st, path, VIter(k, (n,), it.aux), mkand(c, E.force(stop)), e
        raise Unsupported('iterator ' + k)

    def skip_some(self, it):
        """the iterator advanced by an arbitrary number of elements"""
        it = self.E.force(it)
        if isinstance(it, VIter) and it.kind in ('slice', 'chars', 'bytes'):
            v, p = it.data[0], conc(it.data[1])
            n = self.vl(self.E.force(v)) if it.kind == 'slice' else self.th.slen(v)
            q = self.fint('skp', 0)
            self.th.fact(z3.And(q >= toi(p), q <= zmax(n, p)), q)
            if it.kind != 'slice':
                self.th.fact(self.th.bd(v, q), q)
            return VIter(it.kind, (v, q), it.aux)
        if isinstance(it, VIter) and it.kind in ('split', 'lines', 'ws'):
            s, p = it.data[0], toi(conc(it.data[1]))
            q = self.fint('skp', 0)
            n = self.th.slen(s)
            self.th.fact(z3.And(q >= p, z3.Or(q == n + 1, z3.And(q <= n, self.th.bd(s, q)), q == p)), q)
            return VIter(it.kind, (s, q), it.aux)
        if isinstance(it, VAgg) and it.kind == ('adt', 'Range') or isinstance(it, VIter) and it.kind == 'rangei':
            d = it.fields if isinstance(it, VAgg) else it.data
            a, b = conc(self.E.force(d[0])), conc(self.E.force(d[1]))
            q = self.fint('skp')
            self.th.fact(z3.And(q >= toi(a), q <= zmax(a, b)), q)
            return VAgg(it.kind, (q, b)) if isinstance(it, VAgg) else VIter('rangei', (q, b))
        if isinstance(it, VIter) and it.kind in ('map', 'filter', 'filter_map', 'rev', 'copied', 'enumerate', 'peekable', 'take', 'take_while', 'skip'):
            d = (self.skip_some(it.data[0]),) + tuple(self.fint('en', 0) for _ in it.data[1:])
            return VIter(it.kind, d, it.aux)
        if isinstance(it, VIter) and it.kind == 'zip':
            return VIter('zip', tuple(self.skip_some(x) for x in it.data))
        raise Unsupported('skip over ' + (it.kind if isinstance(it, VIter) else type(it).__name__))

    def ite(self, c, a, b):
        c = conc(c)
        if c is True:
            return a
        if c is False:
            return b
        a, b = conc(a), conc(b)
        if not z3.is_expr(a) and not z3.is_expr(b) and a == b:
            return a
        return z3.If(c, toi(a), toi(b))

    def it_len(self, it):
        """(exact length or None, upper bound or None)"""
        it = self.E.force(it)
        if isinstance(it, VAgg) and it.kind == ('adt', 'Range') or isinstance(it, VIter) and it.kind == 'rangei':
            d = it.fields if isinstance(it, VAgg) else it.data
            a, b = conc(self.E.force(d[0])), conc(self.E.force(d[1]))
            if isinstance(a, int) and isinstance(b, int):
                return (max(0, b - a),) * 2
            x = z3.If(toi(b) > toi(a), toi(b) - toi(a), z3.IntVal(0))
            return x, x
        if not isinstance(it, VIter):
            return None, None
        k = it.kind
        if k == 'slice':
            x = sub_(self.vl(self.E.force(it.data[0])), it.data[1])
            return x, x
        if k in ('map', 'enumerate', 'rev', 'inspect', 'copied', 'peekable'):
            return self.it_len(it.data[0])
        if k == 'zip':
            a, b = self.it_len(it.data[0]), self.it_len(it.data[1])
            ex = z3.If(toi(a[0]) <= toi(b[0]), toi(a[0]), toi(b[0])) if a[0] is not None and b[0] is not None else None
            return ex, a[1] if a[1] is not None else b[1]
        if k in ('chars', 'bytes', 'char_indices'):
            x = self.th.slen(it.data[0])
            return None, x
        if k in ('split', 'lines', 'ws'):
            return None, self.th.slen(it.data[0]) + 1
        if k in ('filter', 'skip', 'take', 'skip_while', 'take_while', 'filter_map', 'step_by'):
            return None, self.it_len(it.data[0])[1]
        return None, None

    def captured_refs(self, it, st):
        """mutable references reachable from the closures of an iterator chain"""
        out = []

        def walk(v, d=0):
            v = v.val if isinstance(v, VLazy) else v
            if isinstance(v, VRef):
                out.append(v)
            elif isinstance(v, VChoice):
                out.extend(r for _, r in v.alts)
            elif isinstance(v, VAgg) and d < 4:
                for f in v.fields:
                    walk(f, d + 1)
            elif isinstance(v, VIter):
                for f in v.data:
                    walk(f, d)
                walk(v.aux, d)
        walk(it)
        return out

    def havoc_refs(self, refs, st):
        for r in refs:
            cur = self.E.read_path(st, r.cell, r.path)
            self.E.write_path(st, r.cell, r.path, self.E.havoc(cur, self.E.type_at(r.cell, r.path), 'hv'))

    def generic(self, it, st, path, body, f=None):
        """one arbitrary element of the iterator: (st, path, elem, cond) - closures run with unknown captured state"""
        refs = self.captured_refs(it, st) + (self.captured_refs(f, st) if f is not None else [])
        st = dict(st)
        self.havoc_refs(refs, st)
        r = self.it_next(self.skip_some(it), st, path, body)
        if r is None:
            return None
        st, path, n, c, e = r
        return st, path, e, c, refs

    def consume(self, it, st, path, body, f=None, argsf=None):
        """run f (a closure) on an arbitrary element; -> (st, path, value of f on it, elem, cond)"""
        g = self.generic(it, st, path, body, f)
        if g is None:
            return None
        st2, p2, e, c, refs = g
        if f is None:
            st3, val = st2, e
            r = self.branch(st2, p2, c, lambda s, p: (s, p, e), lambda s, p: (s, p, None))
            st3, p3, _ = r
        else:
            r = self.branch(st2, p2, c, lambda s, p: self.E.call_value(f, argsf(e) if argsf else [e], s, p, body), lambda s, p: (s, p, None))
            if r is None:
                return None
            st3, p3, val = r
        st3 = dict(st3)
        self.havoc_refs(refs, st3)
        return st3, p3, val, e, c

    def collect(self, it, st, path, body, ty):
        """collect into Vec / String / Option..."""
        T = self.th
        it = self.mkiter(it, st)
        nm = type_last(ty) if ty else None
        if nm == 'Vec' and isinstance(it, VIter) and it.kind == 'split' and it.aux and it.aux[0] == 'str' and T.text(it.aux[1]) and conc(it.data[1]) == 0:
            v = self.fresh_vec(ty[2][0], 'spl')
            T.setst(v.term, ('split', it.data[0], it.aux[1]))
            T.fact(z3.And(T.vlen(v.term) >= 1, T.vlen(v.term) <= T.slen(it.data[0]) + 1), v.term)
            if 'H' in self.modes and self.relevant is not None:
                T.fact(self.H(v.term) <= T.slen(it.data[0]), v.term)
            if self.vp == 'esc':
                T.fact(z3.Implies(z3.Not(T.esc(it.data[0])), self.vpf(v.term)), v.term)
            return st, path, v
        p0 = path
        r = self.consume(it, st, path, body)
        if r is None:
            return None
        st, path, val, e, c = r
        ex, ub = self.it_len(it)
        path = p0      # the witness below is constrained only through the summary facts
        if nm == 'Vec':
            v = self.fresh_vec(ty[2][0] if ty[2] else ('other', '?'), 'col')
            if ex is not None:
                T.fact(T.vlen(v.term) == toi(ex), v.term)
            elif ub is not None:
                T.fact(T.vlen(v.term) <= toi(ub), v.term)
            wit = r[1][len(p0):]
            wc = mkand(c, *wit)
            if 'H' in self.modes and self.relevant is not None:
                hv = self.hval(e) if e is not None else 0
                T.fact(z3.Or(self.H(v.term) == 0, z3.And(tob(wc), self.H(v.term) == hv)), v.term)
            if self.vp and e is not None:
                p = self.elem_p(e)
                T.fact(z3.Or(self.vpf(v.term), z3.And(tob(wc), tob(mknot(p)))), v.term)
            return st, path, v
        if nm == 'String':
            s = T.fresh_s('cstr')
            x = conc(self.E.force(e)) if e is not None else None
            if is_s(x) and T.text(x) is not None and ex is not None:
                n = len(T.text(x).encode())
                T.fact(T.slen(s) == toi(ex) * n, s)
                cs = {sym(ch) for ch in T.text(x)}
                cl = T.cls_of(cs, cs) if OTHER not in cs else None
                if cl is not None:
                    T.extra.setdefault(s.get_id(), []).append(('allin', cl, z3.BoolVal(True)))
                T.extra.setdefault(s.get_id(), []).append(('esc', z3.BoolVal(False)))
            elif is_int(x):
                src = it
                while isinstance(src, VIter) and src.kind in ('filter', 'rev', 'skip', 'take', 'skip_while', 'take_while', 'copied', 'inspect', 'peekable'):
                    src = self.E.force(src.data[0])
                if isinstance(src, VIter) and src.kind == 'chars':
                    T.setst(s, ('splitel', src.data[0], None))
                    T.fact(T.slen(s) <= T.slen(src.data[0]), s)
            return st, path, s
        return st, path, VLazy(ty) if ty else VOpaque(('collect',))

    # ================================================================= calls
    def call(self, callee, args, st, path, body, fr, tys, retty):
        st = dict(st)
        nm = norm(callee)
        h = self.ext.get(nm) or self.ext.get(strip_generics(callee))
        if h is not None:
            return h(self, callee, nm, args, st, path, body, tys, retty)
        key = re.sub(r'[^A-Za-z0-9_]', '_', nm)
        m = None
        typ, _, meth = nm.rpartition('::')
        typ = typ.split(' as ')[0] if ' as ' in typ else typ
        trait = nm.split(' as ')[1].split('::')[0] if ' as ' in nm else None
        fam = {'str': 'str', 'String': 'String', 'Vec': 'vec', 'slice': 'vec', '[]': 'vec', 'Option': 'option', 'Result': 'result', 'char': 'char', 'int': 'int',
               'Formatter': 'formatter', 'Arguments': 'arguments', 'Argument': 'argument', 'Box': 'box', 'RangeInclusive': 'rangeinc', 'Range': 'range'}.get(typ)
        if typ in INTS:
            fam = 'int'
        try:
            if trait is not None:
                r = self.call_trait(trait, typ, meth, callee, args, st, path, body, tys, retty)
                if r is not NotImplemented:
                    self.note(nm)
                    return r
            if fam:
                f = getattr(self, 'f_' + fam, None)
                if f is not None:
                    r = f(meth, callee, args, st, path, body, tys, retty)
                    if r is not NotImplemented:
                        self.note(nm)
                        return r
            f = self.misc(nm, callee, args, st, path, body, tys, retty)
            if f is not NotImplemented:
                self.note(nm)
                return f
        except KeyError as e:
            raise Unsupported('state key %s in %s' % (e, nm))
        return self.unknown_call(nm, callee, args, st, path, body, tys, retty)

    def note(self, nm):
        self.trusted[nm] = self.trusted.get(nm, 0) + 1

    def unknown_call(self, nm, callee, args, st, path, body, tys, retty):
        E = self.E
        E.unknown.setdefault(nm, set()).add(E.where(body))
        full = strip_generics(callee)
        if any(x in full for x in IMPURE):
            E.effect('call of ' + full, body)
        if re.search(r'panic|unwrap_failed|expect_failed|begin_unwind|abort|process::exit', full):
            self.req(path, False, 'reachable panic: ' + nm, body)
            return None
        refs, clos = [], []
        for a in args:
            refs += self.captured_refs(a, st)
            x = a.val if isinstance(a, VLazy) else a
            if isinstance(x, VAgg) and x.kind[0] == 'closure':
                clos.append(x)
        self.havoc_refs(refs, st)
        for c in clos:
            cb = E.prog.closure(c.kind[1])
            if cb is None:
                continue
            ps = [VLazy(t) if not (t[0] == 'ref' and t[1]) else self.temp_ref(st, t[2]) for _, t in cb.params[1:]]
            r = E.call_value(c, ps, st, path, body)
            if r is not None:
                st = dict(r[0])
            self.havoc_refs(refs, st)
        return st, path, (VLazy(retty) if retty else VOpaque(('ret', nm)))

    def temp_ref(self, st, ty):
        self.E.nframe += 1
        cell = (('tmp', self.E.nframe), 0)
        st[cell] = VLazy(ty)
        return VRef(cell)

    # ---------------------------------------------------------------- traits
    def call_trait(self, trait, typ, meth, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        if trait in ('Fn', 'FnMut', 'FnOnce') and meth in ('call', 'call_mut', 'call_once'):
            tup = E.force(args[1])
            return E.call_value(args[0], list(tup.fields), st, path, body)
        if trait in ('PartialEq', 'Ord', 'PartialOrd', 'Eq'):
            if typ == 'Level':
                return st, path, self.fbool('lvl')
            a, b = self.rd(st, args[0]), self.rd(st, args[1])
            if meth in ('eq', 'ne'):
                r = self.eq(a, b)
                return st, path, (r if meth == 'eq' else mknot(r))
            if meth in ('lt', 'le', 'gt', 'ge') and is_int(a) and is_int(b):
                return st, path, self.binop(meth.capitalize(), a, b, None, body)
            if meth in ('max', 'min') and is_int(a) and is_int(b):
                return st, path, (zmax(a, b) if meth == 'max' else self.ite(conc(toi(a) <= toi(b)), a, b))
            return NotImplemented
        if trait in ('Sub', 'Add', 'Mul', 'Div', 'Rem') and typ != 'String':
            a, b = conc(self.rd(st, args[0])), conc(self.rd(st, args[1]))
            if not (is_int(a) and is_int(b)) or not retty or retty[0] != 'int':
                return NotImplemented
            if trait in ('Div', 'Rem'):
                path = self.req(path, mknot(mkeq(b, 0)), 'division by zero', body)
                if path is None:
                    return None
                return st, path, self.binop(trait, a, b, retty, body)
            t = self.binop(trait + 'WithOverflow', a, b, retty, body)
            path = self.req(path, mknot(t.fields[1]), 'arithmetic overflow in %s' % trait, body)
            if path is None:
                return None
            return st, path, t.fields[0]
        if trait in ('AddAssign', 'SubAssign') and typ != 'String':
            a, b = conc(self.rd(st, args[0])), conc(self.rd(st, args[1]))
            if not (is_int(a) and is_int(b)):
                return NotImplemented
            t = self.binop(trait[:3] + 'WithOverflow', a, b, ('int', typ) if typ in INTS else None, body)
            path = self.req(path, mknot(t.fields[1]), 'arithmetic overflow in %s' % trait, body)
            if path is None:
                return None
            self.wr(st, args[0], t.fields[0])
            return st, path, UNIT
        if trait in ('Deref', 'AsRef', 'Borrow', 'ToOwned', 'Clone', 'AsMut', 'DerefMut', 'BorrowMut') or \
                (trait in ('From', 'Into') and self.conv_id(args, st, retty)):
            if trait in ('DerefMut', 'AsMut', 'BorrowMut'):
                return st, path, args[0]
            return st, path, self.rd(st, args[0])
        if trait == 'ToString':
            r = self.display('display', args[0], st, path, body)
            return r
        if trait == 'Display' and meth == 'fmt':
            r = self.display('display', args[0], st, path, body)
            if r is None:
                return None
            st, path, s = r
            st = dict(st)
            self.wr(st, args[1], T.cat(self.rd(st, args[1]), s))
            return st, path, VEnum('Result', 0, {0: (UNIT,)})
        if trait == 'Debug' and meth == 'fmt':
            self.wr(st, args[1], T.cat(self.rd(st, args[1]), T.fresh_s('dbg')))
            return st, path, VEnum('Result', 0, {0: (UNIT,)})
        if trait == 'Default' and meth == 'default':
            if retty:
                n = type_last(retty)
                if n in ('String', 'str'):
                    return st, path, T.lit('')
                if n == 'Vec':
                    return st, path, self.vec_new(retty[2][0])
                if n in INTS:
                    return st, path, 0
                if n == 'bool':
                    return st, path, False
                if n == 'Option':
                    return st, path, opt(False, None)
            return NotImplemented
        if trait == 'Add' and typ == 'String':
            return st, path, T.cat(self.rd(st, args[0]), self.rd(st, args[1]))
        if trait == 'AddAssign' and typ == 'String':
            self.wr(st, args[0], T.cat(self.rd(st, args[0]), self.rd(st, args[1])))
            return st, path, UNIT
        if trait == 'Write' and meth == 'write_fmt' and typ == 'String' or trait == 'Write' and meth == 'write_str' and typ == 'String':
            return self.f_formatter(meth, callee, args, st, path, body, tys, retty)
        if trait in ('Index', 'IndexMut'):
            v = self.rd(st, args[0])
            i = conc(self.rd(st, args[1]))
            if is_s(v):
                a, b, ex = self.rng(i, v, st)
                path = self.req(path, self.slice_ok(v, a, b, ex), 'string slice in range and on character boundaries', body)
                if path is None:
                    return None
                r = T.sub(v, a, b)
                return st, path, r
            if is_int(i):
                n = self.vl(v)
                c = conc(mkand(conc(toi(i) >= 0), conc(toi(i) < toi(n)))) if z3.is_expr(i) or z3.is_expr(n) else 0 <= i < n
                path = self.req(path, c, 'index in bounds', body)
                if path is None:
                    return None
                if trait == 'IndexMut':
                    ref = E.force(args[0])
                    if not isinstance(ref, VRef):
                        raise Unsupported('IndexMut')
                    return st, path, VRef(ref.cell, ref.path + (('i', i),))
                return st, path, E.index(v, i)
            a, b, ex = self.rng(i, v, st)
            n = self.vl(v)
            path = self.req(path, mkand(ex, conc(z3.And(toi(a) >= 0, toi(a) <= toi(b), toi(b) <= toi(n)))), 'slice in bounds', body)
            if path is None:
                return None
            return st, path, self.subslice(self.as_vec(v), a, b)
        if trait == 'IntoIterator' and meth == 'into_iter':
            v = E.force(args[0])
            if isinstance(v, VRef) and isinstance(self.rd(st, v), VIter):
                return st, path, v
            return st, path, self.mkiter(args[0], st)
        if trait in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'FromIterator'):
            return self.f_iter(meth, callee, args, st, path, body, tys, retty)
        if trait == 'Extend' and meth == 'extend':
            tgt = self.rd(st, args[0])
            it = self.mkiter(args[1], st)
            r = self.consume(it, st, path, body)
            if r is None:
                return None
            p0 = path
            st, path, val, e, c = r
            path = p0
            if is_s(tgt):
                self.wr(st, args[0], T.cat(tgt, T.fresh_s('ext')))
            else:
                v = self.fresh_vec(tgt.ety, 'ext')
                T.fact(T.vlen(v.term) >= T.vlen(tgt.term), v.term)
                if e is not None:
                    wc = mkand(c, *r[1][len(p0):])
                    if 'H' in self.modes and self.relevant is not None:
                        T.fact(z3.Or(self.H(v.term) == self.H(tgt.term), z3.And(tob(wc), self.H(v.term) == zmax(self.H(tgt.term), self.hval(e)))), v.term)
                    if self.vp:
                        T.fact(z3.Or(self.vpf(v.term) == self.vpf(tgt.term), z3.And(tob(wc), tob(mknot(self.elem_p(e))))), v.term)
                self.wr(st, args[0], v)
            return st, path, UNIT
        if trait == 'Try' and meth == 'branch':
            v = self.rd(st, args[0])
            if v.name == 'Option':
                d = self.flip(v.discr)
                return st, path, VEnum('ControlFlow', d, {0: v.vs.get(1, (None,)), 1: (VEnum('Option', 0, {0: ()}),)})
            errv = v.vs.get(1, (VOpaque('err'),))
            return st, path, VEnum('ControlFlow', v.discr, {0: v.vs.get(0, (None,)), 1: (VEnum('Result', 1, {1: errv}),)})
        if trait == 'Try' and meth == 'from_output':
            return st, path, (VEnum('Option', 1, {1: (args[0],)}) if retty and type_last(retty) == 'Option' else VEnum('Result', 0, {0: (args[0],)}))
        if trait == 'FromResidual' and meth == 'from_residual':
            v = self.rd(st, args[0])
            if isinstance(v, VEnum) and v.name == 'Option':
                return st, path, VEnum('Option', 0, {0: ()})
            e = v.vs.get(1, (VOpaque('err'),))[0] if isinstance(v, VEnum) else VOpaque('err')
            if retty and retty[0] == 'adt' and len(retty[2]) > 1:
                want = type_last(retty[2][1])
                have = E.force(e)
                hn = have.name if isinstance(have, VEnum) else (have.kind[1] if isinstance(have, VAgg) and have.kind[0] == 'adt' else None)
                if want in E.crate.adts and hn != want:
                    # user conversion From<E>
                    return self.convert(e, want, st, path, body, lambda x: VEnum('Result', 1, {1: (x,)}))
            return st, path, VEnum('Result', 1, {1: (e,)})
        if trait == 'Drop':
            return st, path, UNIT
        return NotImplemented

    def convert(self, e, want, st, path, body, wrap):
        return st, path, wrap(VLazy(('adt', want, ())))

    def flip(self, d):
        d = conc(d)
        if isinstance(d, int):
            return 1 - d
        return z3.simplify(1 - d)

    def conv_id(self, args, st, retty):
        v = self.rd(st, args[0])
        n = type_last(retty) if retty else None
        if is_s(v):
            return n in ('String', 'str', 'PathBuf', 'Box', 'Cow', 'OsString', None)
        if is_int(v):
            return n in INTS or n == 'char'
        if isinstance(v, VVec):
            return n == 'Vec'
        return False

    # ---------------------------------------------------------------- Iterator methods
    def f_iter(self, meth, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        if meth == 'next' or meth == 'next_back':
            ref = E.force(args[0])
            it = self.rd(st, ref)
            if isinstance(it, VOpaque):
                return NotImplemented
            r = self.it_next(it, st, path, body, meth == 'next_back')
            if r is None:
                return None
            st, path, n, c, e = r
            st = dict(st)
            self.wr(st, ref, n)
            return st, path, opt(c, e)
        if meth in ('map', 'filter', 'inspect', 'skip_while', 'take_while', 'filter_map'):
            return st, path, VIter(meth, (self.mkiter(args[0], st),), args[1])
        if meth in ('rev', 'copied', 'cloned', 'peekable', 'fuse', 'by_ref'):
            if meth == 'by_ref':
                return st, path, args[0]
            it = self.mkiter(args[0], st)
            if meth in ('peekable', 'fuse'):
                return st, path, it
            return st, path, VIter('copied' if meth == 'cloned' else meth, (it,))
        if meth in ('skip', 'take', 'step_by'):
            return st, path, VIter(meth, (self.mkiter(args[0], st),))
        if meth == 'enumerate':
            return st, path, VIter('enumerate', (self.mkiter(args[0], st), 0))
        if meth == 'zip':
            return st, path, VIter('zip', (self.mkiter(args[0], st), self.mkiter(args[1], st)))
        if meth in ('collect', 'from_iter'):
            return self.collect(args[0], st, path, body, retty)
        it = self.rd(st, args[0])
        isref = isinstance(E.force(args[0]), VRef)
        if not isinstance(it, (VIter, VAgg, VVec)):
            return NotImplemented
        if meth in ('all', 'any') and isinstance(it, VIter) and it.kind == 'chars' and conc(it.data[1]) == 0:
            cl = self.pred_cls(args[1], st, path, body)
            if cl is not None:
                s = it.data[0]
                if isref:
                    p = self.fint('ap', 0)
                    T.fact(z3.And(p <= T.slen(s), T.bd(s, p)), p)
                    self.wr(st, args[0], VIter('chars', (s, p)))
                return st, path, (T.allin(cl, s) if meth == 'all' else z3.Not(T.allin(self.compl(cl), s)))
        if meth in ('all', 'any', 'find', 'position', 'for_each', 'find_map', 'try_for_each', 'max_by_key', 'min_by_key', 'rposition', 'partition'):
            p0 = path
            r = self.consume(it, st, path, body, args[1])
            if r is None:
                if meth == 'for_each':
                    return st, path, UNIT
                return None
            st, path, val, e, c = r
            path = p0
            if isref:
                self.wr(st, args[0], self.skip_some(it))
            if meth in ('all', 'any'):
                return st, path, self.fbool(meth)
            if meth == 'for_each':
                return st, path, UNIT
            if meth == 'position':
                k = self.fint('pos', 0)
                ex, ub = self.it_len(it)
                cnd = self.fbool('found')
                if ub is not None:
                    T.fact(z3.Implies(cnd, k < toi(ub)), k)
                return st, path, opt(cnd, k)
            return st, path, VLazy(retty) if retty else VOpaque(('it', meth))
        if meth == 'count' or meth == 'len':
            ex, ub = self.it_len(it)
            if isinstance(it, VIter) and it.kind == 'matches':
                return st, path, self.matches(it)
            g = self.generic(it, st, path, body) if isinstance(it, VIter) and it.kind not in ('slice', 'chars', 'split', 'lines', 'ws') else None
            if ex is not None:
                return st, path, ex
            k = self.fint('cnt', 0, MAXLEN)
            if ub is not None:
                T.fact(k <= toi(ub), k)
            return st, path, k
        if meth == 'last':
            if isinstance(it, VIter) and it.kind == 'chars':
                s = it.data[0]
                key = ('lastch', s.get_id())
                if key not in self.memo:
                    c = self.fint('lc', 0, 0x10FFFF)
                    w = self.fint('lw', 1, 4)
                    T.fact(z3.Implies(T.slen(s) > 0, z3.And(w <= T.slen(s), T.bd(s, T.slen(s) - w))), w)
                    self.memo[key] = c
                    T.keep.append(s)
                return st, path, opt(T.slen(s) > toi(conc(it.data[1])), self.memo[key])
            p0 = path
            r = self.consume(it, st, path, body)
            if r is None:
                return None
            return r[0], p0, opt(self.fbool('lst'), r[3])
        if meth == 'nth':
            r = self.it_next(self.skip_some(it), st, path, body)
            if r is None:
                return None
            st, path, n, c, e = r
            st = dict(st)
            self.wr(st, args[0], n)
            return st, path, opt(c, e)
        if meth in ('fold', 'try_fold'):
            p0 = path
            cur = E.force(args[1])
            acc = E.havoc(cur, retty if meth == 'fold' else None, 'acc')
            r = self.consume(it, st, path, body, args[2], lambda e: [acc, e])
            if r is None:
                return st, path, args[1]
            return r[0], p0, VLazy(retty) if retty else VOpaque(('fold',))
        if meth in ('max', 'min', 'sum', 'product'):
            g = self.generic(it, st, path, body)
            return st, path, VLazy(retty) if retty else VOpaque(('it', meth))
        return NotImplemented

    def matches(self, it):
        s, p = it.data[0], it.data[1]
        key = ('matches', s.get_id(), p.get_id() if z3.is_expr(p) else id(p))
        if key not in self.memo:
            T = self.th
            t = th.matches_f(s, p) if z3.is_expr(p) else self.fint('mt')
            pat = ('str', p) if z3.is_expr(p) else ('cls', p)
            T.fact(z3.And(t >= 0, t <= T.slen(s) + 1), t)
            T.fact((t > 0) == (self.find(s, pat) >= 0), t)
            self.memo[key] = t
            T.keep += [s, t]
        return self.memo[key]

    # ---------------------------------------------------------------- str
    def f_str(self, meth, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        s = self.rd(st, args[0]) if args else None
        if not is_s(s):
            return NotImplemented
        if meth == 'len':
            return st, path, T.slen(s)
        if meth == 'is_empty':
            return st, path, mkeq(conc(T.slen(s)), 0)
        if meth in ('as_str', 'to_owned', 'to_string', 'as_ref', 'into_string', 'as_bytes', 'into_boxed_str', 'as_bytes_mut', 'into_bytes'):
            return st, path, s
        if meth == 'is_char_boundary':
            return st, path, T.bd(s, conc(self.rd(st, args[1])))
        if meth == 'is_ascii':
            return st, path, T.allin(T.ASCII, s)
        if meth == 'get':
            a, b, ex = self.rng(args[1], s, st)
            return st, path, opt(self.slice_ok(s, a, b, ex), T.sub(s, a, b))
        if meth in ('to_lowercase', 'to_ascii_lowercase'):
            return st, path, T.lower(s)
        if meth in ('to_uppercase', 'to_ascii_uppercase', 'repeat', 'escape_default', 'escape_debug'):
            if meth == 'repeat':
                n = conc(self.rd(st, args[1]))
                if isinstance(n, int) and n <= 8:
                    r = T.lit('')
                    for _ in range(n):
                        r = T.cat(r, s)
                    return st, path, r
                r = T.fresh_s('rpt')
                tx = T.text(s)
                if tx:
                    cs = {sym(x) for x in tx}
                    if OTHER not in cs:
                        T.extra.setdefault(r.get_id(), []).append(('allin', T.cls_of(cs, cs), z3.BoolVal(True)))
                    T.fact(T.slen(r) == toi(n) * len(tx.encode()), r)
                    if q_self_loop(self, tx):
                        T.extra.setdefault(r.get_id(), []).append(('pow', tx, n))
                return st, path, r
            return st, path, T.fresh_s(meth)
        if meth == 'eq_ignore_ascii_case':
            return st, path, self.eq(T.lower(s), T.lower(self.rd(st, args[1])))
        if meth in ('chars', 'bytes', 'char_indices'):
            return st, path, VIter(meth, (s, 0))
        if meth in ('lines', 'split_whitespace', 'split_ascii_whitespace'):
            return st, path, VIter('lines' if meth == 'lines' else 'ws', (s, 0))
        if meth == 'trim':
            return st, path, self.trim(self.trim(s, 'S', ('cls', T.WS)), 'E', ('cls', T.WS))
        if meth in ('trim_start', 'trim_left'):
            return st, path, self.trim(s, 'S', ('cls', T.WS))
        if meth in ('trim_end', 'trim_right'):
            return st, path, self.trim(s, 'E', ('cls', T.WS))
        if meth == 'split_at':
            k = conc(self.rd(st, args[1]))
            path = self.req(path, self.slice_ok(s, 0, k), 'split_at on a character boundary', body)
            if path is None:
                return None
            return st, path, VAgg(('tuple',), [T.sub(s, 0, k), T.sub(s, k, T.slen(s))])
        if meth in ('contains', 'find', 'rfind', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'split', 'rsplit',
                    'splitn', 'rsplitn', 'split_terminator', 'split_inclusive', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches',
                    'trim_right_matches', 'matches', 'match_indices', 'replace', 'replacen'):
            pi = 2 if meth in ('splitn', 'rsplitn') else 1
            pat = self.pattern(args[pi], st, path, body)
            if pat is None:
                return NotImplemented
            n = T.slen(s)
            if meth == 'contains':
                if pat[0] == 'cls':
                    return st, path, z3.Not(T.allin(self.compl(pat[1]), s))
                return st, path, conc(self.find(s, pat) >= 0)
            if meth == 'find':
                k = self.find(s, pat)
                return st, path, opt(conc(k >= 0), k)
            if meth == 'rfind':
                k = self.rfind(s, pat)
                return st, path, opt(conc(k >= 0), k)
            if meth in ('starts_with', 'ends_with'):
                if pat[0] == 'str':
                    return st, path, conc(T.starts(s, pat[1]) if meth == 'starts_with' else T.ends(s, pat[1]))
                key = (meth, s.get_id(), pat[1].name)
                if key not in self.memo:
                    b = self.fbool('sw')
                    T.fact(z3.Implies(b, n > 0), b)
                    T.fact(z3.Implies(z3.And(n > 0, T.allin(pat[1], s)), b), b)
                    self.memo[key] = b
                    T.keep.append(s)
                return st, path, self.memo[key]
            if meth in ('strip_prefix', 'strip_suffix'):
                if pat[0] != 'str':
                    return NotImplemented
                p = pat[1]
                pl = conc(z3.simplify(T.slen(p)))
                if meth == 'strip_prefix':
                    c = conc(T.starts(s, p))
                    r = T.sub(s, pl, n)
                    if T.text(p):
                        T.extra.setdefault(r.get_id(), []).append(('pre', s, T.text(p), tob(c)))
                else:
                    c = conc(T.ends(s, p))
                    r = T.sub(s, 0, sub_(n, pl))
                    if T.text(p):
                        T.extra.setdefault(r.get_id(), []).append(('suf', s, T.text(p), tob(c)))
                return st, path, opt(c, r)
            if meth in ('split_once', 'rsplit_once'):
                if pat[0] == 'cls':
                    k = self.find(s, pat) if meth == 'split_once' else self.rfind(s, pat)
                    w = self.fint('w', 1, 4)
                    T.fact(z3.Implies(k >= 0, z3.And(k + w <= n, T.bd(s, k + w))), w)
                    return st, path, opt(conc(k >= 0), VAgg(('tuple',), [T.sub(s, 0, k), T.sub(s, k + w, n)]))
                k = self.find(s, pat) if meth == 'split_once' else self.rfind(s, pat)
                return st, path, opt(conc(k >= 0), VAgg(('tuple',), [T.sub(s, 0, k), self.after(s, k, pat[1])]))
            if meth in ('split', 'splitn', 'split_terminator', 'rsplit', 'rsplitn', 'split_inclusive'):
                if pat[0] == 'str' and T.text(pat[1]) is None or pat[0] == 'str' and T.text(pat[1]) == '':
                    return NotImplemented
                exact_el = meth in ('split', 'rsplit')
                return st, path, VIter('split', (s, 0), pat if meth == 'split' else None)
            if meth in ('trim_start_matches', 'trim_left_matches'):
                return st, path, self.trim(s, 'S', pat)
            if meth in ('trim_end_matches', 'trim_right_matches'):
                return st, path, self.trim(s, 'E', pat)
            if meth == 'trim_matches':
                return st, path, self.trim(self.trim(s, 'S', pat), 'E', pat)
            if meth == 'matches':
                return st, path, VIter('matches', (s, pat[1]))
            if meth == 'replace':
                return st, path, self.replace(s, pat, self.rd(st, args[2]), path, body)
            return NotImplemented
        if meth == 'push_str' or meth == 'push':
            return self.f_String(meth, callee, args, st, path, body, tys, retty)
        return NotImplemented

    def f_String(self, meth, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        if meth in ('new', 'with_capacity'):
            return st, path, T.lit('')
        if meth in ('from', 'from_str'):
            v = conc(self.rd(st, args[0]))
            if is_s(v):
                return st, path, v
            if is_int(v):
                return st, path, self.chr_term(v)
            return NotImplemented
        s = self.rd(st, args[0]) if args else None
        if not is_s(s):
            return NotImplemented
        if meth == 'push_str':
            self.wr(st, args[0], T.cat(s, self.rd(st, args[1])))
            return st, path, UNIT
        if meth == 'push':
            self.wr(st, args[0], T.cat(s, self.chr_term(conc(self.rd(st, args[1])))))
            return st, path, UNIT
        if meth == 'clear':
            self.wr(st, args[0], T.lit(''))
            return st, path, UNIT
        if meth in ('reserve', 'shrink_to_fit', 'reserve_exact'):
            return st, path, UNIT
        if meth == 'capacity':
            return st, path, VLazy(USIZE)
        if meth in ('as_mut_str', 'as_mut_string'):
            return st, path, args[0]
        if meth == 'truncate':
            k = conc(self.rd(st, args[1]))
            n = T.slen(s)
            path = self.req(path, mkor(conc(toi(k) > n), T.bd(s, k)), 'truncate on a character boundary', body)
            if path is None:
                return None
            self.wr(st, args[0], E.merge_vals([tob(conc(toi(k) > n)), z3.BoolVal(True)], [s, T.sub(s, 0, k)]))
            return st, path, UNIT
        if meth == 'pop':
            n = T.slen(s)
            w = self.fint('pw', 1, 4)
            c = self.fint('pc', 0, 0x10FFFF)
            T.fact(z3.Implies(n > 0, z3.And(w <= n, T.bd(s, n - w))), w)
            self.wr(st, args[0], E.merge_vals([n == 0, z3.BoolVal(True)], [s, T.sub(s, 0, n - w)]))
            return st, path, opt(conc(n > 0), c)
        if meth in ('insert_str', 'insert'):
            k = conc(self.rd(st, args[1]))
            x = conc(self.rd(st, args[2]))
            x = x if is_s(x) else self.chr_term(x)
            path = self.req(path, self.slice_ok(s, 0, k), 'insert on a character boundary', body)
            if path is None:
                return None
            self.wr(st, args[0], T.cat(T.cat(T.sub(s, 0, k), x), T.sub(s, k, T.slen(s))))
            return st, path, UNIT
        if meth == 'remove':
            k = conc(self.rd(st, args[1]))
            path = self.req(path, mkand(self.slice_ok(s, 0, k), conc(toi(k) < T.slen(s))), 'String::remove in range', body)
            if path is None:
                return None
            w = self.fint('rw', 1, 4)
            T.fact(z3.And(toi(k) + w <= T.slen(s), T.bd(s, toi(k) + w)), w)
            self.wr(st, args[0], T.cat(T.sub(s, 0, k), T.sub(s, toi(k) + w, T.slen(s))))
            return st, path, VLazy(('char',))
        return self.f_str(meth, callee, args, st, path, body, tys, retty)

    # ---------------------------------------------------------------- Vec / slices
    def f_vec(self, meth, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        if meth in ('new', 'with_capacity'):
            return st, path, self.vec_new(retty[2][0] if retty and retty[0] == 'adt' and retty[2] else ('other', '?'))
        v = self.rd(st, args[0])
        if not (isinstance(v, VVec) or isinstance(v, VAgg) and v.kind[0] in ('array', 'partial')):
            return NotImplemented
        n = self.vl(v)
        if meth == 'len':
            return st, path, n
        if meth == 'is_empty':
            return st, path, mkeq(n, 0)
        if meth in ('as_slice', 'as_ref', 'to_vec', 'into_vec', 'clone', 'into_boxed_slice', 'as_mut_slice', 'as_mut'):
            if meth in ('as_mut_slice', 'as_mut'):
                return st, path, args[0]
            return st, path, self.as_vec(v) if meth in ('to_vec', 'into_vec') else v
        if meth in ('iter', 'into_iter', 'drain'):
            if meth == 'drain':
                return NotImplemented
            return st, path, VIter('slice', (v, 0))
        if meth == 'push':
            self.wr(st, args[0], self.vec_push(v, args[1]))
            return st, path, UNIT
        if meth == 'pop':
            c = conc(n > 0)
            r = self.vec_sub(v, self.ite(c, sub_(n, 1), 0), 'pop')
            e = E.vec_at(v, sub_(n, 1))
            self.wr(st, args[0], r)
            return st, path, opt(c, e)
        if meth in ('last', 'first'):
            c = n > 0 if isinstance(n, int) else conc(n > 0)
            if c is False:
                return st, path, opt(False, None)
            return st, path, opt(c, E.index(v, sub_(n, 1) if meth == 'last' else 0))
        if meth == 'get':
            i = conc(self.rd(st, args[1]))
            if is_int(i):
                c = conc(z3.And(toi(i) >= 0, toi(i) < toi(n)))
                return st, path, opt(conc(z3.simplify(c)) if z3.is_expr(c) else c, E.index(v, i))
            a, b, ex = self.rng(i, v, st)
            return st, path, opt(mkand(ex, conc(z3.And(toi(a) <= toi(b), toi(b) <= toi(n)))), self.subslice(self.as_vec(v), a, b))
        if meth in ('remove', 'swap_remove'):
            i = conc(self.rd(st, args[1]))
            path = self.req(path, conc(toi(i) < toi(n)), 'Vec::remove in bounds', body)
            if path is None:
                return None
            e = E.index(v, i)
            self.wr(st, args[0], self.vec_sub(v, sub_(n, 1), 'rm'))
            return st, path, e
        if meth == 'insert':
            i = conc(self.rd(st, args[1]))
            path = self.req(path, conc(toi(i) <= toi(n)), 'Vec::insert in bounds', body)
            if path is None:
                return None
            self.wr(st, args[0], self.vec_sub(v, add(n, 1), 'ins', [args[2]]))
            return st, path, UNIT
        if meth == 'append':
            w = self.rd(st, args[1])
            r = self.fresh_vec(v.ety, 'app')
            T.fact(T.vlen(r.term) == T.vlen(v.term) + T.vlen(w.term), r.term)
            self.summ(r, [v, w])
            self.wr(st, args[0], r)
            self.wr(st, args[1], self.vec_new(w.ety))
            return st, path, UNIT
        if meth in ('extend_from_slice',):
            w = self.as_vec(self.rd(st, args[1]), v.ety)
            r = self.fresh_vec(v.ety, 'efs')
            T.fact(T.vlen(r.term) == T.vlen(v.term) + T.vlen(w.term), r.term)
            self.summ(r, [v, w])
            self.wr(st, args[0], r)
            return st, path, UNIT
        if meth == 'clear':
            self.wr(st, args[0], self.vec_new(v.ety))
            return st, path, UNIT
        if meth == 'truncate':
            k = conc(self.rd(st, args[1]))
            self.wr(st, args[0], self.vec_sub(v, self.ite(conc(toi(k) < toi(n)), k, n), 'trn'))
            return st, path, UNIT
        if meth in ('retain', 'retain_mut', 'dedup', 'sort', 'reverse', 'sort_by', 'sort_by_key', 'sort_unstable', 'dedup_by_key'):
            if meth == 'retain':
                p0 = path
                r = self.consume(VIter('slice', (v, 0)), st, path, body, args[1])
                if r is not None:
                    st = r[0]
                path = p0
            elif meth not in ('dedup', 'sort', 'reverse', 'sort_unstable'):
                return NotImplemented
            w = self.vec_sub(v, None if meth in ('retain', 'dedup') else n, 'ret')
            if meth in ('retain', 'dedup'):
                T.fact(T.vlen(w.term) <= n, w.term)
            self.wr(st, args[0], w)
            return st, path, UNIT
        if meth == 'contains':
            x = self.rd(st, args[1])
            if isinstance(v, VAgg):
                return st, path, mkor(*[self.eq(f, x) for f in v.fields])
            sv = self.static_chars(v)
            return st, path, self.fbool('cont')
        if meth in ('reserve', 'shrink_to_fit'):
            return st, path, UNIT
        if meth in ('join', 'concat'):
            s = T.fresh_s('join')
            if self.vp == 'esc':
                T.extra.setdefault(s.get_id(), []).append(('esc_if', z3.Not(self.vpf(v.term) if isinstance(v, VVec) else z3.BoolVal(False))))
            if self.vp == 'tr' and isinstance(v, VVec):
                sep = self.rd(st, args[1]) if meth == 'join' else T.lit('')
                if is_s(sep):
                    T.fact(z3.Implies(z3.And(self.vpf(v.term), T.tr(sep, T.T) == T.T), T.tr(s, T.T) == T.T), s)
            return st, path, s
        if meth in ('chunks', 'windows', 'split_at', 'split_first', 'split_last', 'iter_mut', 'concat', 'first_mut', 'last_mut', 'get_mut', 'starts_with', 'binary_search'):
            return NotImplemented
        return NotImplemented

    def static_chars(self, v):
        return None

    # ---------------------------------------------------------------- Option / Result
    def run_f(self, f, args, st, path, body):
        return self.E.call_value(f, args, st, path, body)

    def f_option(self, meth, callee, args, st, path, body, tys, retty):
        E = self.E
        v = self.rd(st, args[0])
        if not isinstance(v, VEnum):
            return NotImplemented
        some = isv(v, 1)
        x = v.vs[1][0] if 1 in v.vs else None
        none = opt(False, None)
        if meth in ('is_some', 'is_none'):
            return st, path, some if meth == 'is_some' else mknot(some)
        if meth in ('unwrap', 'expect'):
            path = self.req(path, some, 'Option::%s of None' % meth, body)
            if path is None:
                return None
            return st, path, x
        if meth in ('unwrap_or', 'unwrap_or_default'):
            if meth == 'unwrap_or':
                d = args[1]
            else:
                r = self.call_trait('Default', '', 'default', callee, [], st, path, body, tys, retty)
                if r is NotImplemented:
                    return NotImplemented
                d = r[2]
            if conc(some) is True:
                return st, path, x
            if conc(some) is False:
                return st, path, d
            d = self.rd(st, d) if not isinstance(E.force(d), VRef) else d
            return st, path, E.merge_vals([tob(some), z3.BoolVal(True)], [x, d])
        if meth in ('as_ref', 'as_deref', 'cloned', 'copied', 'as_mut', 'as_deref_mut', 'clone', 'as_slice'):
            if meth in ('as_mut', 'as_deref_mut'):
                ref = E.force(args[0])
                if isinstance(ref, VRef):
                    return st, path, VEnum('Option', v.discr, {0: (), 1: (VRef(ref.cell, ref.path + (('f', 'Some', 0),)),)})
                return NotImplemented
            return st, path, v
        if meth == 'take':
            self.wr(st, args[0], none)
            return st, path, v
        if meth in ('replace', 'insert', 'get_or_insert', 'get_or_insert_with'):
            if meth == 'replace':
                self.wr(st, args[0], opt(True, args[1]))
                return st, path, v
            return NotImplemented
        if meth == 'unwrap_or_else':
            return self.branch(st, path, some, lambda s, p: (s, p, x), lambda s, p: self.run_f(args[1], [], s, p, body))
        if meth in ('map', 'and_then', 'is_some_and', 'map_or', 'map_or_else', 'filter', 'inspect', 'is_none_or'):
            if meth == 'map':
                r = self.branch(st, path, some, lambda s, p: self.wrap(self.run_f(args[1], [x], s, p, body), lambda y: opt(True, y)), lambda s, p: (s, p, none))
            elif meth == 'and_then':
                r = self.branch(st, path, some, lambda s, p: self.run_f(args[1], [x], s, p, body), lambda s, p: (s, p, none))
            elif meth == 'is_some_and':
                r = self.branch(st, path, some, lambda s, p: self.run_f(args[1], [x], s, p, body), lambda s, p: (s, p, False))
            elif meth == 'is_none_or':
                r = self.branch(st, path, some, lambda s, p: self.run_f(args[1], [x], s, p, body), lambda s, p: (s, p, True))
            elif meth == 'map_or':
                r = self.branch(st, path, some, lambda s, p: self.run_f(args[2], [x], s, p, body), lambda s, p: (s, p, args[1]))
            elif meth == 'map_or_else':
                r = self.branch(st, path, some, lambda s, p: self.run_f(args[2], [x], s, p, body), lambda s, p: self.run_f(args[1], [], s, p, body))
            elif meth == 'filter':
                r = self.branch(st, path, some, lambda s, p: self.wrap(self.run_f(args[1], [x], s, p, body), lambda y: opt(E.force(y), x)), lambda s, p: (s, p, none))
            else:
                r = self.branch(st, path, some, lambda s, p: self.wrap(self.run_f(args[1], [x], s, p, body), lambda y: v), lambda s, p: (s, p, v))
            return r
        if meth == 'or':
            return st, path, E.merge_vals([tob(some), z3.BoolVal(True)], [v, self.rd(st, args[1])])
        if meth == 'or_else':
            return self.branch(st, path, some, lambda s, p: (s, p, v), lambda s, p: self.run_f(args[1], [], s, p, body))
        if meth == 'ok_or':
            return st, path, VEnum('Result', self.flip(v.discr), {0: (x,), 1: (args[1],)})
        if meth == 'ok_or_else':
            return self.branch(st, path, some, lambda s, p: (s, p, VEnum('Result', 0, {0: (x,)})),
                               lambda s, p: self.wrap(self.run_f(args[1], [], s, p, body), lambda y: VEnum('Result', 1, {1: (y,)})))
        if meth in ('iter', 'into_iter'):
            return st, path, VIter('option', (v,))
        if meth == 'zip':
            w = self.rd(st, args[1])
            return st, path, opt(mkand(some, isv(w, 1)), VAgg(('tuple',), [x, w.vs[1][0] if 1 in w.vs else None]))
        return NotImplemented

    def wrap(self, r, f):
        if r is None:
            return None
        return r[0], r[1], f(r[2])

    def f_result(self, meth, callee, args, st, path, body, tys, retty):
        E = self.E
        v = self.rd(st, args[0])
        if not isinstance(v, VEnum):
            return NotImplemented
        ok = isv(v, 0)
        x = v.vs[0][0] if 0 in v.vs else None
        e = v.vs[1][0] if 1 in v.vs else None
        mko = lambda y: VEnum('Result', 0, {0: (y,)})
        mke = lambda y: VEnum('Result', 1, {1: (y,)})
        if meth in ('is_ok', 'is_err'):
            return st, path, ok if meth == 'is_ok' else mknot(ok)
        if meth in ('unwrap', 'expect'):
            path = self.req(path, ok, 'Result::%s of Err' % meth, body)
            return None if path is None else (st, path, x)
        if meth in ('unwrap_err', 'expect_err'):
            path = self.req(path, mknot(ok), 'Result::%s of Ok' % meth, body)
            return None if path is None else (st, path, e)
        if meth == 'ok':
            return st, path, opt(ok, x)
        if meth == 'err':
            return st, path, opt(mknot(ok), e)
        if meth in ('as_ref', 'as_deref', 'cloned', 'copied'):
            return st, path, v
        if meth == 'unwrap_or':
            return st, path, E.merge_vals([tob(ok), z3.BoolVal(True)], [x, args[1]]) if conc(ok) is not True else x
        if meth == 'unwrap_or_default':
            r = self.call_trait('Default', '', 'default', callee, [], st, path, body, tys, retty)
            d = r[2] if r is not NotImplemented else VLazy(retty)
            return st, path, E.merge_vals([tob(ok), z3.BoolVal(True)], [x, d]) if conc(ok) is not True else x
        if meth == 'unwrap_or_else':
            return self.branch(st, path, ok, lambda s, p: (s, p, x), lambda s, p: self.run_f(args[1], [e], s, p, body))
        if meth == 'map':
            return self.branch(st, path, ok, lambda s, p: self.wrap(self.run_f(args[1], [x], s, p, body), mko), lambda s, p: (s, p, mke(e)))
        if meth == 'map_err':
            return self.branch(st, path, ok, lambda s, p: (s, p, mko(x)), lambda s, p: self.wrap(self.run_f(args[1], [e], s, p, body), mke))
        if meth == 'and_then':
            return self.branch(st, path, ok, lambda s, p: self.run_f(args[1], [x], s, p, body), lambda s, p: (s, p, mke(e)))
        if meth == 'or_else':
            return self.branch(st, path, ok, lambda s, p: (s, p, mko(x)), lambda s, p: self.run_f(args[1], [e], s, p, body))
        if meth == 'map_or':
            return self.branch(st, path, ok, lambda s, p: self.run_f(args[2], [x], s, p, body), lambda s, p: (s, p, args[1]))
        if meth == 'map_or_else':
            return self.branch(st, path, ok, lambda s, p: self.run_f(args[2], [x], s, p, body), lambda s, p: self.run_f(args[1], [e], s, p, body))
        if meth in ('is_ok_and', 'is_err_and'):
            if meth == 'is_ok_and':
                return self.branch(st, path, ok, lambda s, p: self.run_f(args[1], [x], s, p, body), lambda s, p: (s, p, False))
            return self.branch(st, path, ok, lambda s, p: (s, p, False), lambda s, p: self.run_f(args[1], [e], s, p, body))
        if meth in ('inspect_err', 'inspect'):
            return self.branch(st, path, ok if meth == 'inspect' else mknot(ok),
                               lambda s, p: self.wrap(self.run_f(args[1], [x if meth == 'inspect' else e], s, p, body), lambda y: v), lambda s, p: (s, p, v))
        if meth == 'and':
            return st, path, E.merge_vals([tob(ok), z3.BoolVal(True)], [self.rd(st, args[1]), v])
        if meth == 'or':
            return st, path, E.merge_vals([tob(ok), z3.BoolVal(True)], [v, self.rd(st, args[1])])
        return NotImplemented

    # ---------------------------------------------------------------- char, int, fmt, misc
    def f_char(self, meth, callee, args, st, path, body, tys, retty):
        x = conc(self.rd(st, args[0]))
        if meth in CHARFN and is_int(x):
            return st, path, self.char_pred(meth, x)
        if meth == 'len_utf8' and is_int(x):
            if isinstance(x, int):
                return st, path, len(chr(x).encode())
            return st, path, z3.If(x < 128, 1, z3.If(x < 0x800, 2, z3.If(x < 0x10000, 3, 4)))
        if meth in ('to_ascii_lowercase',) and is_int(x):
            if isinstance(x, int):
                return st, path, ord(chr(x).lower()) if x < 128 else x
            return st, path, z3.If(z3.And(x >= 65, x <= 90), x + 32, x)
        if meth == 'eq_ignore_ascii_case':
            y = conc(self.rd(st, args[1]))
            lo = lambda z: z3.If(z3.And(toi(z) >= 65, toi(z) <= 90), toi(z) + 32, toi(z))
            return st, path, lo(x) == lo(y)
        if meth == 'to_string':
            return st, path, self.chr_term(x)
        if meth == 'to_digit':
            c = self.fbool('dg')
            d = self.fint('dg', 0, 35)
            return st, path, opt(c, d)
        return NotImplemented

    def f_int(self, meth, callee, args, st, path, body, tys, retty):
        a = conc(self.rd(st, args[0]))
        b = conc(self.rd(st, args[1])) if len(args) > 1 else None
        ty = tys[0] if tys and tys[0] else retty
        while ty and ty[0] == 'ref':
            ty = ty[2]
        if not is_int(a) or (b is not None and not is_int(b)) or not ty or ty[0] != 'int':
            return NotImplemented
        w, sg = INTS[ty[1]]
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
        if meth in ('saturating_sub', 'saturating_add', 'checked_add', 'checked_sub', 'wrapping_add', 'wrapping_sub', 'checked_mul', 'saturating_mul'):
            op = meth.split('_')[1].capitalize()
            t = self.binop(op + 'WithOverflow', a, b, ty, body)
            r, ov = t.fields
            if meth.startswith('saturating'):
                return st, path, self.ite(conc(toi(r) < lo), lo, self.ite(conc(toi(r) > hi), hi, r)) if z3.is_expr(r) else min(max(r, lo), hi)
            if meth.startswith('checked'):
                return st, path, opt(mknot(ov), r)
            return st, path, (r % (2 ** w) if not sg else VLazy(ty))
        if meth in ('min', 'max'):
            return st, path, zmax(a, b) if meth == 'max' else self.ite(conc(toi(a) <= toi(b)), a, b)
        if meth == 'abs_diff':
            return st, path, self.ite(conc(toi(a) >= toi(b)), sub_(a, b), sub_(b, a))
        if meth in CHARFN:
            return st, path, self.char_pred(meth, a) if meth.startswith('is_ascii') else NotImplemented
        return NotImplemented

    def f_formatter(self, meth, callee, args, st, path, body, tys, retty):
        T = self.th
        okv = VEnum('Result', 0, {0: (UNIT,)})
        tgt = E = self.E.force(args[0])
        cur = self.rd(st, tgt)
        if not is_s(cur):
            return st, path, okv
        if meth == 'write_fmt':
            r = self.fmt_args(args[1], st, path, body)
            if r is None:
                return None
            st, path, s = r
            st = dict(st)
            cur = self.rd(st, tgt)
            self.wr(st, tgt, T.cat(cur, s))
            return st, path, okv
        if meth in ('write_str', 'pad'):
            self.wr(st, tgt, T.cat(cur, self.rd(st, args[1])))
            return st, path, okv
        if meth == 'write_char':
            self.wr(st, tgt, T.cat(cur, self.chr_term(conc(self.rd(st, args[1])))))
            return st, path, okv
        if meth.startswith('debug_') or meth.startswith('pad_'):
            self.wr(st, tgt, T.cat(cur, T.fresh_s('dbg')))
            return st, path, okv
        return NotImplemented

    def f_argument(self, meth, callee, args, st, path, body, tys, retty):
        if meth == 'new_display':
            return st, path, VOpaque('fmtarg', ('display', args[0]))
        if meth.startswith('new_'):
            return st, path, VOpaque('fmtarg', ('debug', args[0]))
        return NotImplemented

    def f_arguments(self, meth, callee, args, st, path, body, tys, retty):
        if meth == 'new':
            return st, path, VOpaque('fmt', (self.rd(st, args[0]), self.rd(st, args[1])))
        if meth in ('from_str', 'from_str_nonconst', 'new_const'):
            v = self.rd(st, args[0])
            if is_s(v):
                return st, path, VOpaque('fmtstr', (v,))
        return NotImplemented

    def f_box(self, meth, callee, args, st, path, body, tys, retty):
        if meth == 'new_uninit':
            self.E.nframe += 1
            cell = (('box', self.E.nframe), 0)
            st[cell] = VOpaque(('uninit',))
            return st, path, VRef(cell)
        if meth == 'new':
            return st, path, args[0]
        return NotImplemented

    def f_rangeinc(self, meth, callee, args, st, path, body, tys, retty):
        if meth == 'new':
            return st, path, VAgg(('adt', 'RangeInclusive'), [args[0], args[1], False])
        if meth == 'contains':
            r = self.rd(st, args[0])
            x = conc(self.rd(st, args[1]))
            a, b = conc(self.E.force(r.fields[0])), conc(self.E.force(r.fields[1]))
            return st, path, mkand(conc(toi(a) <= toi(x)), conc(toi(x) <= toi(b)))
        if meth in ('start', 'end'):
            r = self.rd(st, args[0])
            return st, path, r.fields[0 if meth == 'start' else 1]
        return NotImplemented

    def f_range(self, meth, callee, args, st, path, body, tys, retty):
        r = self.rd(st, args[0])
        if meth == 'contains':
            x = conc(self.rd(st, args[1]))
            a, b = conc(self.E.force(r.fields[0])), conc(self.E.force(r.fields[1]))
            return st, path, mkand(conc(toi(a) <= toi(x)), conc(toi(x) < toi(b)))
        if meth == 'is_empty':
            a, b = conc(self.E.force(r.fields[0])), conc(self.E.force(r.fields[1]))
            return st, path, mknot(conc(toi(a) < toi(b)))
        return NotImplemented

    def misc(self, nm, callee, args, st, path, body, tys, retty):
        E, T = self.E, self.th
        full = strip_generics(callee)
        if full in ('std::fmt::format', 'alloc::fmt::format'):
            return self.fmt_args(args[0], st, path, body)
        if nm in ('hint::must_use', 'convert::identity', 'hint::black_box'):
            return st, path, args[0]
        if nm == 'boxed::box_assume_init_into_vec_unsafe':
            v = self.rd(st, args[0])
            return st, path, self.as_vec(v, retty[2][0] if retty and retty[2] else None)
        if full.startswith('log::'):
            if nm in ('__private_api::log', '__private_api::log_impl'):
                return st, path, UNIT
            return st, path, VOpaque(('log',))
        if nm.endswith('Peekable::peek') or nm.endswith('Peekable::peek_mut'):
            it = self.rd(st, args[0])
            r = self.it_next(it, st, path, body)
            if r is None:
                return None
            if not isinstance(it, (VIter, VAgg)) or isinstance(it, VIter) and it.kind not in ('slice', 'chars', 'rangei', 'char_indices', 'bytes', 'enumerate'):
                raise Unsupported('peek of ' + str(it))
            st2, path, n, c, e = r
            return st, path, opt(c, e)
        if nm == 'Peekable::next_if' or nm == 'Peekable::next_if_eq':
            it = self.rd(st, args[0])
            r = self.it_next(it, st, path, body)
            if r is None:
                return None
            _, path, n, c, e = r
            if nm.endswith('_eq'):
                t = mkand(c, self.eq(e, self.rd(st, args[1])))
            else:
                q = self.branch(st, path, c, lambda s, p: self.run_f(args[1], [e], s, p, body), lambda s, p: (s, p, False))
                if q is None:
                    return None
                st, path, t = q
                t = mkand(c, E.force(t))
                st = dict(st)
            self.wr(st, args[0], E.merge_vals([tob(t), z3.BoolVal(True)], [n, it]))
            return st, path, opt(t, e)
        if nm in ('mem::swap',):
            a, b = self.rd(st, args[0]), self.rd(st, args[1])
            self.wr(st, args[0], b)
            self.wr(st, args[1], a)
            return st, path, UNIT
        if nm in ('mem::take',):
            a = self.rd(st, args[0])
            if is_s(a):
                self.wr(st, args[0], T.lit(''))
            elif isinstance(a, VVec):
                self.wr(st, args[0], self.vec_new(a.ety))
            elif isinstance(a, VEnum) and a.name == 'Option':
                self.wr(st, args[0], opt(False, None))
            elif is_int(a):
                self.wr(st, args[0], 0)
            elif is_bool(a):
                self.wr(st, args[0], False)
            else:
                return NotImplemented
            return st, path, a
        if nm in ('mem::replace',):
            a = self.rd(st, args[0])
            self.wr(st, args[0], args[1])
            return st, path, a
        if nm in ('mem::drop', 'mem::forget'):
            return st, path, UNIT
        if nm in ('cmp::max', 'cmp::min'):
            a, b = conc(self.rd(st, args[0])), conc(self.rd(st, args[1]))
            if is_int(a) and is_int(b):
                return st, path, zmax(a, b) if nm == 'cmp::max' else self.ite(conc(toi(a) <= toi(b)), a, b)
        if nm == 'iter::repeat_n' or nm == 'iter::repeat':
            return NotImplemented
        if nm == 'vec::from_elem':
            v = self.fresh_vec(retty[2][0], 'fe')
            T.fact(T.vlen(v.term) == toi(conc(self.rd(st, args[1]))), v.term)
            if self.vp:
                T.fact(z3.Implies(tob(self.elem_p(args[0])), self.vpf(v.term)), v.term)
            if 'H' in self.modes and self.relevant is not None:
                T.fact(self.H(v.term) <= self.hval(args[0]), v.term)
            return st, path, v
        if nm == 'slice::from_ref':
            return st, path, VAgg(('array',), [args[0]])
        if nm == 'str::from_utf8' or nm == 'String::from_utf8':
            s = self.rd(st, args[0])
            if is_s(s):
                return st, path, VEnum('Result', self.E.fresh_discr(2, 'u8'), {0: (s,), 1: (VOpaque('err'),)})
        if nm == 'slice::into_vec' or nm == 'boxed::into_vec':
            return st, path, self.as_vec(self.rd(st, args[0]))
        return NotImplemented

    # ================================================================= invariant and refinement templates
    def str_preds(self):
        """(description, fn(term) -> bool expr) of the mode's string predicates"""
        T = self.th
        out = []
        if 'tr' in self.modes:
            out += [('scanner T->T', lambda s: T.tr(s, T.T) == T.T),
                    ('scanner Q->Q', lambda s: T.tr(s, T.Q) == T.Q),
                    ('no <', lambda s: T.allin(T.NOLT, s)),
                    ('no "', lambda s: T.allin(T.NOQ, s)),
                    ('white space', lambda s: T.allin(T.WS, s))]
            if T.policy:
                out += [('destination accepted', lambda s: T.u_acc(T.tr(s, T.U0))),
                        ('scheme characters', lambda s: T.allin(T.SCHEME, s)),
                        ('no &', lambda s: T.allin(T.NOAMP, s)),
                        ('no control or space', lambda s: T.allin(T.NOCTL, s))]
        if 'cnt' in self.modes:
            for k in dfa.COUNTED:
                out.append(('balanced ' + k, lambda s, k=k: T.cnt(k, s, T.T) == 0))
        if 'esc' in self.modes:
            out.append(('not escaped', lambda s: z3.Not(T.esc(s))))
        return out

    DOOM = {'scanner Q->Q': '[<"]', 'no <': '<', 'no "': '"', 'white space': r'\S', 'destination accepted': '[<"]',
            'no &': '&', 'no control or space': r'[\0- ]', 'scheme characters': '[<"&/ ]'}

    def doomed(self, ds, v):
        """a literal piece of the string already contradicts the predicate (dropping a candidate is always sound)"""
        rx = self.DOOM.get(ds)
        if rx is None or not is_s(v):
            return False
        T, seen, todo = self.th, set(), [v]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            tx = T.text(t)
            if tx is not None:
                if re.search(rx, tx):
                    return True
                continue
            st = T.st(t)
            if st and st[0] == 'cat':
                todo += [st[1], st[2]]
            elif st and st[0] == 'ite':
                todo += st[2]
        return False

    def flat_leaves(self, vals, depth=3):
        """[(key, kind, getter)] string/int/vec leaves of typed fields; getter(fields) -> value or None"""
        return vals

    def field_leaves(self, fields, key=(), depth=3):
        """{key: value} of the materialised cheap leaves"""
        out = {}

        def walk(v, k, d):
            if isinstance(v, VLazy) and v.val is None and not self.E.cheap(v.type):
                return
            v = self.E.force(v)
            if is_s(v) or is_int(v) or is_bool(v) or isinstance(v, VVec):
                out[k] = v
            elif isinstance(v, VAgg) and d:
                for i, f in enumerate(v.fields):
                    if f is not None:
                        walk(f, k + (i,), d - 1)
            elif isinstance(v, VEnum) and d:
                for kk in range(len(STD_ENUMS[v.name]) if v.name in STD_ENUMS else len(self.E.prog.adt(v.name, self.E.crate).variants)):
                    if isinstance(conc(v.discr), int) and conc(v.discr) != kk:
                        continue
                    if kk not in v.vs and v.ref is None:
                        continue
                    for i, f in enumerate(self.E.enum_fields(v, kk)):
                        if f is not None:
                            walk(f, k + (('v', kk, i),), d - 1)
        for i, f in enumerate(fields):
            if f is not None:
                walk(f, key + (i,), depth)
        return out

    def guard(self, fields, key):
        """condition that the variant path of a leaf key is active"""
        v = fields[key[0]]
        cs = []
        for p in key[1:]:
            v = self.E.force(v)
            if isinstance(p, tuple):
                cs.append(mkeq(v.discr, p[1]))
                v = self.E.enum_fields(v, p[1])[p[2]] if p[1] in v.vs or v.ref is not None else None
            else:
                v = v.fields[p]
            if v is None:
                return False
        return mkand(*cs)

    def leaf_at(self, fields, key):
        v = fields[key[0]]
        for p in key[1:]:
            v = self.E.force(v)
            if isinstance(p, tuple):
                if not isinstance(v, VEnum):
                    return None
                if isinstance(conc(v.discr), int) and conc(v.discr) != p[1]:
                    return None
                if p[1] not in v.vs and v.ref is None:
                    return None
                v = self.E.enum_fields(v, p[1])[p[2]]
            else:
                if not isinstance(v, VAgg) or p >= len(v.fields):
                    return None
                v = v.fields[p]
            if v is None:
                return None
        return self.E.force(v)

    def refine_templates(self, nm, variant, fl):
        """candidate clauses over the fields of a local ADT (each guarded by the variant path of its leaf)"""
        E, T = self.E, self.th
        dummy = [VLazy(t, 'tmpl') for _, t in fl]
        leaves = self.field_leaves(dummy, depth=3)
        out = []

        def mk(key, f):
            def fn(fields):
                v = self.leaf_at(fields, key)
                if v is None:
                    return True
                g = self.guard(fields, key)
                if g is False:
                    return True
                e = f(v)
                return tob(e) if g is True else z3.Implies(tob(g), tob(e))
            return fn
        strs = [k for k, v in leaves.items() if is_s(v)]
        for k, v in leaves.items():
            if is_s(v):
                for d, f in self.str_preds():
                    out.append(('field %s: %s' % (key_txt(k), d), mk(k, f)))
            elif isinstance(v, VVec):
                if 'panic' in self.modes or 'H' in self.modes:
                    out.append(('field %s: not empty' % key_txt(k), mk(k, lambda x: toi(self.vl(x)) >= 1)))
                if self.vp and self.vec_has_str(v):
                    out.append(('field %s: elements ok' % key_txt(k), mk(k, lambda x: tob(self.elem_p(x)))))
            elif is_int(v) and not is_bool(v):
                if 'tr' in self.modes or 'cnt' in self.modes or 'panic' in self.modes or 'level' in self.modes:
                    out.append(('field %s: at least 1' % key_txt(k), mk(k, lambda x: toi(x) >= 1)))
                    out.append(('field %s: at most 6' % key_txt(k), mk(k, lambda x: toi(x) <= 6)))
        if T.policy and 'tr' in self.modes:
            opts = [i for i, (_, t) in enumerate(fl) if t[0] == 'adt' and last(t[1]) == 'Option']
            for i in opts:
                for a in strs:
                    if len(a) != 1 or a[0] == i:
                        continue

                    def absent(fields, a=a, i=i):
                        x, o = self.leaf_at(fields, a), E.force(fields[i])
                        if x is None or not isinstance(o, VEnum):
                            return True
                        return z3.Implies(tob(isv(o, 0)), T.ud_acc(x))
                    out.append(('%s accepted as a destination without %d' % (key_txt(a), i), absent))
        if T.policy and len(strs) >= 2:
            for a in strs:
                for b in strs:
                    if a == b or exclusive(a, b):
                        continue
                    out.append(('%s is not javascript' % key_txt(a), mk(a, lambda x: T.lower(x) != T.lit('javascript'))))
                    def pair(fields, a=a, b=b):
                        x, y = self.leaf_at(fields, a), self.leaf_at(fields, b)
                        if x is None or y is None:
                            return True
                        g = mkand(self.guard(fields, a), self.guard(fields, b))
                        if g is False:
                            return True
                        e = z3.Implies(T.lower(x) == T.lit('data'), T.starts(y, T.lit('image/')))
                        return e if g is True else z3.Implies(tob(g), e)
                    out.append(('%s is data only before %s image/' % (key_txt(a), key_txt(b)), pair))
        seen, res = set(), []
        for d, f in out:
            if d not in seen:
                seen.add(d)
                res.append((d, f))
        return res

    def vec_has_str(self, v):
        ty = v.ety

        def has(t, d=3):
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'str' or t[0] == 'adt' and last(t[1]) == 'String':
                return True
            if t[0] == 'tuple' and d:
                return any(has(x, d - 1) for x in t[1])
            if t[0] in ('slice', 'array') and d:
                return has(t[1], d - 1)
            if t[0] == 'adt' and last(t[1]) in ('Vec', 'Option') and d and t[2]:
                return has(t[2][0], d - 1)
            return False
        return has(ty)

    # leaves of loops and contracts: dict key -> (kind, value)
    def unit_templates(self, leaves, entry, scope_strs, want):
        """templates over a leaf dictionary; entry: leaf values at entry (loop) or pre-state (contract)"""
        T = self.th
        out = []
        ints = [k for k, (kd, v) in leaves.items() if kd == 'int']
        vecs = [k for k, (kd, v) in leaves.items() if kd == 'vec']
        strs = [k for k, (kd, v) in leaves.items() if kd == 'str']
        bools = [k for k, (kd, v) in leaves.items() if kd == 'bool']
        val = lambda d, k: d[k][1]
        return out

    def loop_templates(self, E, body, fr, st, entry, cur, mods, lp):
        T = self.th
        out = []
        keys = [k for k in cur if k in entry and entry[k][0] == cur[k][0]]
        ints = [k for k in keys if cur[k][0] == 'int']
        vecs = [k for k in keys if cur[k][0] == 'vec']
        strs = [k for k in keys if cur[k][0] == 'str']
        bools = [k for k in keys if cur[k][0] == 'bool']
        ev = lambda k: entry[k][1]
        g = lambda d, k: d[k][1]
        nm = lambda k: E.lname(k[0], k[1]) + ''.join('.%s' % (x,) for x in k[2:])
        # strings / vectors in scope that do not change in the loop
        sib = self.siblings(E, st, keys, mods)
        structural = self.modes & {'panic', 'H', 'term', 'struct'}
        for k in ints:
            e = toi(conc(ev(k)))
            out.append(('%s >= entry' % nm(k), lambda d, k=k, e=e: toi(g(d, k)) >= e))
            out.append(('%s <= entry' % nm(k), lambda d, k=k, e=e: toi(g(d, k)) <= e))
            for s in sib.get(k, ()):
                if is_s(s):
                    out.append(('%s <= length' % nm(k), lambda d, k=k, s=s: toi(g(d, k)) <= T.slen(s)))
                    out.append(('%s on a character boundary' % nm(k), lambda d, k=k, s=s: T.bd(s, conc(g(d, k)))))
                    if 'level' in self.modes:
                        out.append(('hashes up to %s' % nm(k), lambda d, k=k, s=s, e=e: T.allin(T.HASH, T.sub(s, e, toi(g(d, k))))))
                elif isinstance(s, VVec):
                    out.append(('%s <= length of vector' % nm(k), lambda d, k=k, s=s: toi(g(d, k)) <= T.vlen(s.term)))
        il = [(nm(k), (lambda d, k=k: toi(conc(g(d, k))))) for k in ints] + [('len ' + nm(k), (lambda d, k=k: T.vlen(g(d, k).term))) for k in vecs]
        il = il[:9] if structural or 'cnt' in self.modes else []
        for i in range(len(il)):
            for j in range(i + 1, len(il)):
                (n1, f1), (n2, f2) = il[i], il[j]
                e1, e2 = f1(entry), f2(entry)
                out.append(('%s - %s constant' % (n1, n2), lambda d, f1=f1, f2=f2, e1=e1, e2=e2: f1(d) - f2(d) == e1 - e2))
                out.append(('%s + %s constant' % (n1, n2), lambda d, f1=f1, f2=f2, e1=e1, e2=e2: f1(d) + f2(d) == e1 + e2))
                if structural:
                    out.append(('%s - %s <= entry' % (n1, n2), lambda d, f1=f1, f2=f2, e1=e1, e2=e2: f1(d) - f2(d) <= e1 - e2))
                    out.append(('%s - %s >= entry' % (n1, n2), lambda d, f1=f1, f2=f2, e1=e1, e2=e2: f1(d) - f2(d) >= e1 - e2))
                out.append(('%s <= %s' % (n1, n2), lambda d, f1=f1, f2=f2: f1(d) <= f2(d)))
                out.append(('%s <= %s' % (n2, n1), lambda d, f1=f1, f2=f2: f2(d) <= f1(d)))
        for k in vecs:
            e = ev(k)
            out.append(('len %s >= entry' % nm(k), lambda d, k=k, e=e: T.vlen(g(d, k).term) >= T.vlen(e.term)))
            if 'H' in self.modes and self.relevant is not None:
                seen = set()
                for s in self.scope_strs(E, st, body, fr):
                    if s.get_id() in seen:
                        continue
                    seen.add(s.get_id())
                    for off in (0, 1):
                        out.append(('weight of %s <= length - %d' % (nm(k), off), lambda d, k=k, s=s, off=off: self.H(g(d, k).term) <= T.slen(s) - off))
            if self.vp and self.vec_has_str(cur[k][1]):
                out.append(('elements of %s ok' % nm(k), lambda d, k=k: self.vpf(g(d, k).term)))
        for k in strs:
            e = ev(k)
            out.append(('%s unchanged' % nm(k), lambda d, k=k, e=e: tob(self.eq(g(d, k), e))))
            for ds, f in self.str_preds():
                fn = lambda d, k=k, f=f: f(g(d, k))
                fn.leaf = (k, ds)
                out.append(('%s: %s' % (nm(k), ds), fn))
            if self.modes & {'panic', 'H'}:
                out.append(('len %s >= entry' % nm(k), lambda d, k=k, e=e: T.slen(g(d, k)) >= T.slen(e)))
        for k in bools:
            e = ev(k)
            out.append(('%s unchanged' % nm(k), lambda d, k=k, e=e: tob(mkeq(g(d, k), e))))
        if 'cnt' in self.modes:
            out += self.cnt_templates(E, entry, keys, strs, ints, bools, nm)
        return out

    def cnt_templates(self, E, entry, keys, strs, ints, bools, nm):
        T = self.th
        out = []
        b2i = lambda b: z3.If(tob(b), z3.IntVal(1), z3.IntVal(0))
        terms = []
        for k in bools:
            terms.append((nm(k), (lambda d, k=k: b2i(d[k][1]))))
        for k in ints[:6]:
            terms.append((nm(k), (lambda d, k=k: toi(conc(d[k][1])))))
            terms.append(('-' + nm(k), (lambda d, k=k: -toi(conc(d[k][1])))))
        unb = self.unbalanced()
        for s in strs:
            if is_s(entry[s][1]) is False:
                continue
            for el in dfa.COUNTED:
                base = T.cnt(el, entry[s][1], T.T)
                out.append(('%s: count of %s unchanged' % (nm(s), el), lambda d, s=s, el=el, base=base: T.cnt(el, d[s][1], T.T) == base))
                if el not in unb:
                    continue
                for i, (n1, f1) in enumerate(terms):
                    e1 = f1(entry)
                    out.append(('%s: count of %s follows %s' % (nm(s), el, n1),
                                lambda d, s=s, el=el, base=base, f1=f1, e1=e1: T.cnt(el, d[s][1], T.T) - base == f1(d) - e1))
                    for j in range(i + 1, len(terms)):
                        n2, f2 = terms[j]
                        if not (nm_bool(n1, bools, nm) and nm_bool(n2, bools, nm)):
                            continue
                        e2 = f2(entry)
                        out.append(('%s: count of %s follows %s + %s' % (nm(s), el, n1, n2),
                                    lambda d, s=s, el=el, base=base, f1=f1, e1=e1, f2=f2, e2=e2: T.cnt(el, d[s][1], T.T) - base == f1(d) - e1 + f2(d) - e2))
        return out

    def unbalanced(self):
        """elements some single literal of the program leaves open or closes"""
        if not hasattr(self, '_unb'):
            u = set()
            for t in self.th.lits:
                q, c = self.th.html.events(self.th.T, t)
                u |= set(c)
            self._unb = u
        return self._unb

    def siblings(self, E, st, keys, mods):
        """unchanged strings/vectors next to an integer leaf (same aggregate or iterator)"""
        out = {}
        for k in keys:
            cell, p = k[0], k[1]
            res = []
            it = k[2:]
            try:
                if it and isinstance(it[-1], tuple) and it[-1][0] == 'it':
                    base = self.nav(E, st, cell, p, it[:-1])
                    if isinstance(base, VIter):
                        x = E.force(base.data[0])
                        if is_s(x) or isinstance(x, VVec):
                            res.append(x)
                elif p or it:
                    full = p
                    if it and all(isinstance(x, int) for x in it):
                        par = self.nav(E, st, cell, p, it[:-1])
                    else:
                        par = E.force(E.read_path(st, cell, p[:-1]))
                    if isinstance(par, VAgg):
                        for f in par.fields:
                            if f is None:
                                continue
                            x = E.force(f) if not isinstance(f, VLazy) or E.cheap(f.type) else None
                            if is_s(x) or isinstance(x, VVec):
                                res.append(x)
                        for f in par.fields:
                            x = f.val if isinstance(f, VLazy) else f
            except (Unsupported, KeyError, IndexError):
                pass
            out[k] = res
        return out

    def nav(self, E, st, cell, p, it):
        v = E.force(E.read_path(st, cell, p))
        for x in it:
            if isinstance(x, tuple) and x[0] == 'it':
                v = E.force(v.data[x[1]])
            elif isinstance(x, int):
                v = E.force(v.fields[x])
            elif x == 'some':
                v = E.force(v.vs[1][0])
        return v

    def scope_strs(self, E, st, body, fr):
        """string values visible to the frame: its locals and what its references point to (one level of aggregates)"""
        out = []

        def walk(v, d):
            v = v.val if isinstance(v, VLazy) else v
            if v is None:
                return
            if is_s(v):
                if T.text(v) is None:
                    out.append(v)
            elif isinstance(v, VAgg) and d:
                for f in v.fields:
                    walk(f, d - 1)
            elif isinstance(v, VRef) and d:
                try:
                    walk(E.read_path(st, v.cell, v.path), d - 1)
                except (Unsupported, KeyError):
                    pass
        T = self.th
        par = {l for l, _ in body.params}
        for (f, l), v in st.items():
            if f == fr and l in par:
                walk(v, 4)
        named = {int(k[1:]) for k in body.debug if k.startswith('_') and k[1:].isdigit()}
        for (f, l), v in st.items():
            if f == fr and l not in par and l in named:
                walk(v, 3)
        seen, res = set(), []
        for s in out:
            if s.get_id() not in seen:
                seen.add(s.get_id())
                res.append(s)
        return res[:6]

    # ---------------------------------------------------------------- termination of loops
    def loop_variant(self, E, body, fr, lp, path, st, hst, entry, cur, end, bpath, bst, mods):
        if 'term' not in self.modes:
            return
        T = self.th
        alts = []
        keys = [k for k in cur if k in end and cur[k][0] == end[k][0]]
        sib = self.siblings(E, st, keys, mods)
        for k in keys:
            if cur[k][0] != 'int':
                if cur[k][0] == 'vec':
                    alts.append(('len', T.vlen(cur[k][1].term), T.vlen(end[k][1].term)))
                elif cur[k][0] == 'str':
                    alts.append(('slen', T.slen(cur[k][1]), T.slen(end[k][1])))
                continue
            a, b = toi(conc(cur[k][1])), toi(conc(end[k][1]))
            for s in sib.get(k, ()):
                n = T.slen(s) if is_s(s) else T.vlen(s.term)
                alts.append(('rest', n + 1 - a, n + 1 - b))
            alts.append(('down', a, b))
            for k2 in keys:
                if k2 != k and cur[k2][0] == 'int' and k2[:-1] == k[:-1]:
                    alts.append(('gap', toi(conc(cur[k2][1])) - a, toi(conc(end[k2][1])) - b))
        E.obs.append(TermOb(bpath, [z3.And(x >= 0, y < x) for _, x, y in alts], 'loop makes progress', E.where(body)))


class TermOb(en.Obligation):
    def __init__(self, path, alts, desc, loc):
        en.Obligation.__init__(self, 'term', path, z3.Or(alts) if alts else False, desc, loc)
        self.alts = alts


def nm_bool(n, bools, nm):
    return any(nm(k) == n for k in bools)


def exclusive(a, b):
    """leaves below different variants of the same value"""
    for x, y in zip(a, b):
        if x != y:
            return isinstance(x, tuple) and isinstance(y, tuple) and x[1] != y[1]
    return False


def key_txt(k):
    return '.'.join('%s' % x if not isinstance(x, tuple) else 'v%s.%s' % (x[1], x[2]) for x in k)


def q_self_loop(m, tx):
    return False
