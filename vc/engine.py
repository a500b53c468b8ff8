"""Verification-condition generator: forward symbolic execution of MIR with state merging.

Non-recursive functions and closures are expanded at their call sites; recursive functions are cut by contracts;
loops are cut by invariants (or unrolled completely when their trip count is a constant).  Contracts, invariants and
type refinements are conjunctions of candidate clauses, each switched by a boolean literal; the clauses that survive
are exactly those that are inductive (see houdini.py), and every one of them is discharged by the solver.
"""
import re
import z3
from mirparse import INTS, parse_type, split_top, match_close
from registry import strip_generics, type_last, last, STD_ENUMS
from theory import Theory, S, V, toi, tob, Cls, ALLC, sym, MAXLEN, OTHER, CHARS
import theory as th

USIZE = ('int', 'usize')
TOK = object()


class Unsupported(Exception):
    pass


class VVec:
    __slots__ = ('term', 'ety', 'elems')

    def __init__(self, term, ety, elems=None):
        self.term, self.ety, self.elems = term, ety, elems


class VAgg:
    __slots__ = ('kind', 'fields')

    def __init__(self, kind, fields):
        self.kind, self.fields = kind, tuple(fields)

    def __repr__(self):
        return 'VAgg(%s,%r)' % (self.kind, self.fields)


class VEnum:
    __slots__ = ('name', 'discr', 'vs', 'ref')

    def __init__(self, name, discr, vs, ref=None):
        self.name, self.discr, self.vs, self.ref = name, discr, vs, ref

    def __repr__(self):
        return 'VEnum(%s,%s,%r)' % (self.name, self.discr, self.vs)


class VRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return '&mut %s%s' % (self.cell, self.path)


class VChoice:
    def __init__(self, alts):
        self.alts = alts      # [(cond, VRef)]


class VLazy:
    __slots__ = ('type', 'val', 'hint')

    def __init__(self, type_, hint=''):
        self.type, self.val, self.hint = type_, None, hint

    def __repr__(self):
        return 'Lazy(%s)' % (self.type,) if self.val is None else repr(self.val)


class VIter:
    """kind + tuple of component values"""
    __slots__ = ('kind', 'data', 'aux')

    def __init__(self, kind, data, aux=None):
        self.kind, self.data, self.aux = kind, tuple(data), aux

    def __repr__(self):
        return 'VIter(%s,%r)' % (self.kind, self.data)


class VFn:
    __slots__ = ('name', 'crate')

    def __init__(self, name, crate):
        self.name, self.crate = name, crate


class VOpaque:
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        self.tag, self.args = tag, args

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


UNIT = VAgg(('tuple',), ())


def is_s(v):
    return z3.is_expr(v) and v.sort() == S


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and v.sort() == th.I)


def is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and v.sort() == th.B)


def conc(v):
    """fold to python scalar when possible"""
    if z3.is_expr(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def mknot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.children()[0]
    return z3.Not(x)


def mkand(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def mkor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def mkeq(a, b):
    a, b = conc(a), conc(b)
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.get_id() == b.get_id():
        return True
    if isinstance(a, bool):
        return b if a else mknot(b)
    if isinstance(b, bool):
        return a if b else mknot(a)
    if isinstance(b, int) and z3.is_app_of(a, z3.Z3_OP_ITE):
        r = ite_eq(a, b)
        if r is not None:
            return r
    return a == b


def ite_eq(a, k):
    """ite tree of constants == k, as a boolean"""
    if z3.is_int_value(a):
        return a.as_long() == k
    if not z3.is_app_of(a, z3.Z3_OP_ITE):
        return None
    c, x, y = a.children()
    x, y = ite_eq(x, k), ite_eq(y, k)
    if x is None or y is None:
        return None
    if x is True and y is False:
        return c
    if x is False and y is True:
        return mknot(c)
    return mkor(mkand(c, x), mkand(mknot(c), y))


def cmp(op, a, b):
    a, b = conc(a), conc(b)
    r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    return r


def add(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return conc(z3.simplify(a + b)) if z3.is_expr(a) or z3.is_expr(b) else a + b


def sub_(a, b):
    a, b = conc(a), conc(b)
    return conc(z3.simplify(a - b)) if z3.is_expr(a) or z3.is_expr(b) else a - b


class Loop:
    def __init__(self, head, items, blocks):
        self.head, self.items, self.blocks = head, items, blocks


def term_succs(t):
    if t is None:
        return []
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []


def build_order(blocks, succ, entry):
    """nested topological order of a reducible region; edges into `entry` are ignored inside"""
    blocks = set(blocks)
    idx, low, onst, stack, comps = {}, {}, set(), [], []
    counter = [0]

    def ss(v):
        return [w for w in succ[v] if w in blocks and w != entry]
    for root in [entry] + sorted(blocks):
        if root in idx:
            continue
        work = [(root, iter(ss(root)))]
        idx[root] = low[root] = counter[0]
        counter[0] += 1
        stack.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = counter[0]
                    counter[0] += 1
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter(ss(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                comps.append(c)
    comps.reverse()
    items = []
    for c in comps:
        if len(c) == 1 and c[0] not in ss(c[0]):
            items.append(c[0])
            continue
        cs = set(c)
        heads = {w for v in blocks if v not in cs for w in succ[v] if w in cs and w != entry}
        if len(heads) != 1:
            raise Unsupported('irreducible control flow')
        h = heads.pop()
        items.append(Loop(h, build_order(cs, succ, h), cs))
    return items


class Obligation:
    def __init__(self, kind, path, cond, desc, loc):
        self.kind, self.path, self.cond, self.desc, self.loc = kind, path, cond, desc, loc

    def goal(self):
        return z3.Implies(z3.And([tob(x) for x in self.path] + [z3.BoolVal(True)]), tob(self.cond))


class Cand:
    """candidate clause: literal A, establishment obligations [(path, cond)]"""
    n = 0

    def __init__(self, desc, owner):
        Cand.n += 1
        self.lit = z3.Bool('A!%d' % Cand.n)
        self.desc, self.owner = desc, owner
        self.need = []
        self.alive = True


class Engine:
    def __init__(self, prog, crate, modes, policy=False):
        self.prog, self.crate, self.modes = prog, crate, set(modes)
        lits = set()
        for b in list(crate.mir.fns.values()) + list(crate.mir.consts.values()):
            for stmts, t in b.blocks.values():
                collect_lits(stmts, lits)
                collect_lits(t, lits)
        self.th = Theory(policy, sorted(lits))
        self.th.light = 'struct' in modes
        self.obs = []
        self.cands = []
        self.nframe = 0
        self.frames = {}
        self.switch_group = {}
        self.ngroup = 0
        self.memo_at = {}
        self.constmemo = {}
        self.writes = None
        self.stackfns = []
        self.stackfrs = []
        self.modcache = {}
        self.stablecache = {}
        self.ev = None
        self.unitfr = None
        self.discarded = 0
        self.effects = {}
        self.unknown = {}
        self.contracts = {}
        self.loops_done = []
        self.inlined = set()
        self.refine = {}
        self.loopstats = []
        self.mutated_adts = self.find_mutated()
        self.dry = 0
        import models
        self.models = models.Models(self)

    # ------------------------------------------------------------------ static scans
    def find_mutated(self):
        """local ADTs some field of which is assigned or mutably borrowed after construction"""
        out = set()
        for b in self.crate.mir.fns.values():
            for stmts, t in b.blocks.values():
                for s in stmts:
                    pl = None
                    if s[0] == 'assign':
                        if s[1][1]:
                            self._mut_place(b, s[1], out)
                        rv = s[2]
                        if rv[0] == 'ref' and rv[1] or rv[0] == 'rawref' and rv[1]:
                            self._mut_place(b, rv[-1], out)
                if t and t[0] == 'call' and t[1][1]:
                    self._mut_place(b, t[1], out)
        return out

    def _mut_place(self, b, place, out):
        ty = b.locals.get(place[0])
        for p in place[1]:
            if p[0] == 'deref':
                ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else None
            elif p[0] == 'field':
                if ty and ty[0] == 'adt':
                    out.add(last(ty[1]))
                ty = p[2]
            elif p[0] == 'as':
                pass
            else:
                ty = None

    # ------------------------------------------------------------------ lazies
    def fresh_of(self, ty, hint=''):
        return VLazy(ty, hint)

    def int_range(self, t, name):
        w, sg = INTS[name]
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
        self.th.fact(z3.And(t >= lo, t <= hi), t)

    def force(self, v):
        while isinstance(v, VLazy):
            if v.val is None:
                v.val = self.expand(v.type, v.hint)
            v = v.val
        return v

    def expand(self, ty, hint):
        k = ty[0]
        if k in ('ref', 'ptr'):
            return self.expand(ty[2], hint)
        if k == 'int':
            t = self.th.fresh(th.I, hint or 'i')
            self.int_range(t, ty[1])
            return t
        if k == 'bool':
            return self.th.fresh(th.B, hint or 'b')
        if k == 'char':
            t = self.th.fresh(th.I, hint or 'c')
            self.th.fact(z3.And(t >= 0, t <= 0x10FFFF), t)
            return t
        if k == 'str':
            return self.th.fresh_s(hint or 's')
        if k == 'tuple':
            return VAgg(('tuple',), [VLazy(x, hint) for x in ty[1]])
        if k in ('slice',):
            return self.mkvec(ty[1], hint)
        if k == 'array':
            try:
                n = int(str(ty[2]).split('_')[0])
            except ValueError:
                n = None
            if n is not None and n <= 8:
                return VAgg(('array',), [VLazy(ty[1], hint) for _ in range(n)])
            return VVec(self.fresh_v(hint), ty[1])
        if k == 'adt':
            nm = last(ty[1])
            if nm in ('String', 'PathBuf', 'Path', 'OsStr', 'OsString'):
                return self.th.fresh_s(hint or 's')
            if nm == 'Box' or nm == 'Rc' or nm == 'Arc':
                return self.expand(ty[2][0], hint)
            if nm in ('Vec', 'VecDeque'):
                return self.mkvec(ty[2][0] if ty[2] else ('other', '?'), hint)
            if nm == 'Cow':
                return self.expand(ty[2][-1], hint)
            if nm in STD_ENUMS and nm != 'Infallible':
                args = [a for a in ty[2] if a[0] != 'lifetime']
                d = self.fresh_discr(len(STD_ENUMS[nm]), hint)
                if nm == 'Option':
                    return VEnum('Option', d, {0: (), 1: (VLazy(args[0], hint),)})
                if nm == 'Result':
                    return VEnum('Result', d, {0: (VLazy(args[0], hint),), 1: (VLazy(args[1], hint),)} if len(args) > 1 else
                                 {0: (VLazy(args[0], hint),), 1: (VOpaque('err'),)})
                return VEnum(nm, d, {})
            a = self.prog.adt(nm, self.crate)
            if a is not None:
                sb = {}
                if a.kind == 'struct':
                    v = VAgg(('adt', nm), [VLazy(t, hint) for _, t in a.fields[0]])
                    self.refine_assume(nm, None, v.fields, hint)
                    return v
                if a.variants:
                    d = self.fresh_discr(len(a.variants), hint)
                    sub = (lambda i, j: '%s.%d.%d' % (hint, i, j)) if hint.startswith('e') else (lambda i, j: hint)
                    v = VEnum(nm, d, {i: tuple(VLazy(t, sub(i, j)) for j, (_, t) in enumerate(fl)) for i, fl in enumerate(a.fields)}, ref=set())
                    return v
            if nm == 'Range':
                return VAgg(('adt', 'Range'), [VLazy(ty[2][0], hint), VLazy(ty[2][0], hint)])
        return VOpaque(('fresh', ty, hint))

    def fresh_v(self, hint):
        t = self.th.fresh(V, hint or 'v')
        self.th.keep.append(t)
        return t

    def mkvec(self, ety, hint):
        """fresh vector; an allocation never exceeds isize::MAX bytes"""
        v = VVec(self.fresh_v(hint), ety)
        n = self.min_size(ety)
        if n > 1:
            self.th.fact(self.th.vlen(v.term) <= MAXLEN // n, th.vlen_f(v.term))
        return v

    def min_size(self, ty, depth=4):
        """lower bound of size_of"""
        if not isinstance(ty, tuple) or depth < 0:
            return 0
        k = ty[0]
        if k == 'int':
            return INTS[ty[1]][0] // 8
        if k == 'char':
            return 4
        if k == 'bool':
            return 1
        if k in ('ref', 'ptr'):
            return 16 if ty[2][0] in ('str', 'slice', 'dyn') else 8
        if k == 'tuple':
            return sum(self.min_size(t, depth - 1) for t in ty[1])
        if k == 'adt':
            nm = last(ty[1])
            if nm in ('String', 'Vec', 'PathBuf'):
                return 24
            if nm == 'Option':
                return self.min_size(ty[2][0], depth - 1) if ty[2] else 0
            a = self.crate.adts.get(nm)
            if a is not None and a.fields:
                return max(sum(self.min_size(t, depth - 1) for _, t in fl) for fl in a.fields)
        return 0

    def fresh_discr(self, n, hint):
        d = self.th.fresh(th.I, (hint or '') + 'd')
        self.th.fact(z3.And(d >= 0, d < n), d)
        return d

    # ------------------------------------------------------------------ type refinements
    def adt_refinable(self, nm):
        a = self.crate.adts.get(nm)
        return a is not None and nm not in self.mutated_adts

    def refine_cands(self, nm, variant):
        """candidate clauses over the fields of a local, never mutated ADT variant"""
        key = (nm, variant)
        if key in self.refine:
            return self.refine[key]
        out = []
        self.refine[key] = out
        if self.adt_refinable(nm):
            a = self.crate.adts[nm]
            fl = a.fields[variant or 0]
            for desc, fn in self.models.refine_templates(nm, variant, fl):
                c = Cand('%s%s: %s' % (nm, '::' + a.variants[variant] if a.kind == 'enum' else '', desc), ('type', nm, variant))
                self.cands.append(c)
                out.append((c, fn))
        return out

    def refine_assume(self, nm, variant, fields, hint, guard=None):
        for c, fn in self.refine_cands(nm, variant):
            e = fn(fields)
            if e is None or e is True:
                continue
            ow = [x for x in (conc(y) for y in self.leaf_terms(fields, 2)) if z3.is_expr(x)]
            self.th.fact(z3.Implies(mkand_z(c.lit, guard), tob(e)), *ow)

    def refine_check(self, nm, variant, fields, path, loc):
        for c, fn in self.refine_cands(nm, variant):
            e = fn(fields)
            if e is None:
                e = False
            c.need.append((path, e, loc))

    def leaf_terms(self, vals, depth):
        """expression leaves below the given values that are already materialised"""
        out = []
        for v in vals:
            v = self.force(v) if isinstance(v, VLazy) and (v.val is not None or depth > 0 and self.cheap(v.type)) else v
            if z3.is_expr(v):
                out.append(v)
            elif isinstance(v, VVec):
                out.append(v.term)
            elif isinstance(v, VAgg) and depth > 0:
                out += self.leaf_terms(v.fields, depth - 1)
            elif isinstance(v, VEnum) and depth > 0:
                if z3.is_expr(v.discr):
                    out.append(v.discr)
                for fs in v.vs.values():
                    out += self.leaf_terms(fs, depth - 1)
        return out

    def cheap(self, ty):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] in ('int', 'bool', 'char', 'str', 'tuple', 'slice'):
            return True
        if ty[0] == 'adt':
            n = last(ty[1])
            if n in ('String', 'Vec', 'Option', 'Result'):
                return True
            return n in self.crate.adts and n not in self.recursive_adts()
        return False

    def recursive_adts(self):
        if not hasattr(self, '_rec'):
            g = {}
            for n, a in self.crate.adts.items():
                s = set()
                for fl in a.fields:
                    for _, t in fl:
                        adts_in(t, s)
                g[n] = s
            rec = set()
            for n in g:
                seen, todo = set(), list(g[n])
                while todo:
                    x = todo.pop()
                    if x in seen or x not in g:
                        continue
                    seen.add(x)
                    todo += g[x]
                if n in seen:
                    rec.add(n)
            self._rec = rec
        return self._rec

    def enum_fields(self, v, variant):
        """fields of an enum value for a variant, with its type refinement assumed"""
        if variant not in v.vs:
            a = self.prog.adt(v.name, self.crate)
            n = len(a.fields[variant]) if a and a.kind == 'enum' else 1
            tys = [t for _, t in a.fields[variant]] if a and a.kind == 'enum' else [('other', '?')]
            v.vs[variant] = tuple(VLazy(t) for t in tys)
        if v.ref is not None and variant not in v.ref:
            v.ref.add(variant)
            if self.adt_refinable(v.name):
                self.refine_assume(v.name, variant, v.vs[variant], '', mkeq(v.discr, variant))
        return v.vs[variant]

    # ------------------------------------------------------------------ merging
    def merge(self, edges):
        if len(edges) == 1:
            return edges[0]
        paths = [p for p, _ in edges]
        n = 0
        while all(len(p) > n for p in paths) and all(p[n].get_id() == paths[0][n].get_id() for p in paths):
            n += 1
        rems = [p[n:] for p in paths]
        prefix = paths[0][:n]
        conds = [z3.And(list(r)) if len(r) > 1 else (r[0] if r else z3.BoolVal(True)) for r in rems]
        red = self.reduce({tuple(x.get_id() for x in r): r for r in rems})
        if any(len(r) == 0 for r in red):
            path = prefix
        else:
            # common prefix may have grown
            if len(red) == 1:
                path = prefix + red[0]
            else:
                r = self.th.fresh(th.B, 'r')
                self.th.fact(r == z3.Or([z3.And(list(x)) if len(x) > 1 else x[0] for x in red]), r)
                path = prefix + (r,)
        sts = [s for _, s in edges]
        st = {}
        T = self.th
        T.nevent += 1
        T.events[T.nevent] = (path, paths)
        for c, v0 in sts[0].items():
            vs = [v0]
            ok = True
            same = True
            for s in sts[1:]:
                x = s.get(c, TOK)
                if x is TOK:
                    ok = False
                    break
                if x is not v0:
                    same = False
                vs.append(x)
            if not ok:
                continue
            if same:
                st[c] = v0
            else:
                self.ev = (T.nevent, conds, list(range(len(conds))))
                st[c] = self.merge_vals(conds, vs)
                self.ev = None
        return path, st

    def reduce(self, d):
        ch = True
        while ch:
            ch = False
            keys = list(d)
            for k in keys:
                if k not in d or not k:
                    continue
                l = d[k][-1]
                neg = mknot(l)
                kk = k[:-1] + (neg.get_id(),)
                if kk in d:
                    r = d[k][:-1]
                    del d[k], d[kk]
                    d[k[:-1]] = r
                    ch = True
                    continue
                g = self.switch_group.get(k[-1])
                if g is not None:
                    grp, total, ids = g
                    ks = [k[:-1] + (i,) for i in ids]
                    if all(x in d for x in ks):
                        r = d[k][:-1]
                        for x in set(ks):
                            del d[x]
                        d[k[:-1]] = r
                        ch = True
            # absorb: a path that extends another
            for k in list(d):
                for k2 in list(d):
                    if k2 != k and k2 in d and k in d and k2[:len(k)] == k:
                        del d[k2]
                        ch = True
        return list(d.values())

    def merge_vals(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if any(isinstance(v, VLazy) for v in vals):
            vals = [self.force(v) for v in vals]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                return v0
        # group equal values
        ev = self.ev if self.ev is not None and self.ev[1] is conds else None
        gv, gc, pos = [], [], []
        for c, v in zip(conds, vals):
            for k, w in enumerate(gv):
                if w is v or self.same(w, v):
                    gc[k] = z3.Or(gc[k], c)
                    pos.append(k)
                    break
            else:
                pos.append(len(gv))
                gv.append(v)
                gc.append(c)
        if len(gv) == 1:
            return gv[0]
        conds, vals = gc, gv
        if ev is not None:
            self.ev = (ev[0], gc, [pos[a] for a in ev[2]])
            r = self.merge_distinct(conds, vals)
            if z3.is_expr(r):
                self.th.merged.setdefault(r.get_id(), (ev[0], r, [vals[pos[a]] for a in ev[2]]))
            elif isinstance(r, VVec):
                self.th.merged.setdefault(r.term.get_id(), (ev[0], r.term, [vals[pos[a]].term for a in ev[2]]))
            self.ev = ev
            return r
        return self.merge_distinct(conds, vals)

    def merge_distinct(self, conds, vals):
        v0 = vals[0]
        if all(is_bool(v) for v in vals):
            return self.merge_scalar(conds, [tob(v) for v in vals], th.B, 'mb')
        if all(is_int(v) for v in vals):
            return self.merge_scalar(conds, [toi(v) for v in vals], th.I, 'mi')
        if all(is_s(v) for v in vals):
            return self.th.merge_s(conds, vals)
        if all(isinstance(v, VVec) for v in vals):
            t = self.merge_scalar(conds, [v.term for v in vals], V, 'mv')
            self.th.setst(t, ('ite', tuple(conds), tuple(v.term for v in vals)))
            n = t
            ln = th.vlen_f(t)
            self.th.vlen(t)
            self.th.fact(ln == self.th.ite_lift(t, conds, [v.term for v in vals], self.th.vlen), ln)
            return VVec(t, v0.ety)
        if all(isinstance(v, VAgg) and v.kind == v0.kind and len(v.fields) == len(v0.fields) for v in vals):
            return VAgg(v0.kind, [self.merge_vals(conds, [v.fields[i] for v in vals]) for i in range(len(v0.fields))])
        if all(isinstance(v, VEnum) and v.name == v0.name for v in vals):
            d = self.merge_vals(conds, [v.discr for v in vals])
            vs = {}
            for k in sorted(set().union(*[v.vs.keys() for v in vals])):
                have = [(c, v) for c, v in zip(conds, vals) if k in v.vs and not (isinstance(v.discr, int) and v.discr != k)]
                if not have:
                    have = [(c, v) for c, v in zip(conds, vals) if k in v.vs][:1]
                fs = [self.enum_fields(v, k) if v.ref is not None else v.vs[k] for _, v in have]
                cs = [c for c, _ in have]
                vs[k] = tuple(self.merge_vals(cs, [f[i] for f in fs]) for i in range(len(fs[0]))) if len(fs) > 1 else fs[0]
            return VEnum(v0.name, d, vs)
        if all(isinstance(v, VIter) and v.kind == v0.kind and v.aux is v0.aux for v in vals):
            return VIter(v0.kind, [self.merge_vals(conds, [v.data[i] for v in vals]) for i in range(len(v0.data))], v0.aux)
        if all(isinstance(v, (VRef, VChoice)) for v in vals):
            alts = []
            for c, v in zip(conds, vals):
                if isinstance(v, VRef):
                    alts.append((c, v))
                else:
                    alts += [(z3.And(c, c2), r) for c2, r in v.alts]
            return VChoice(alts)
        return VOpaque(('merge', id(v0)))

    def merge_scalar(self, conds, vals, sort, hint):
        e = vals[-1]
        for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
            e = z3.If(c, v, e)
        t = self.th.fresh(sort, hint)
        self.th.fact(t == e, t)
        return t

    def same(self, a, b):
        a, b = conc(a), conc(b)
        if a is b:
            return True
        if z3.is_expr(a) and z3.is_expr(b):
            return a.get_id() == b.get_id()
        if type(a) in (int, bool) and type(b) is type(a):
            return a == b
        if isinstance(a, VAgg) and isinstance(b, VAgg):
            return a.kind == b.kind and len(a.fields) == len(b.fields) and all(self.same(x, y) for x, y in zip(a.fields, b.fields))
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.cell == b.cell and a.path == b.path
        if isinstance(a, VVec) and isinstance(b, VVec):
            return a.term.get_id() == b.term.get_id()
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            return a.name == b.name and self.same(a.discr, b.discr) and a.vs.keys() == b.vs.keys() and \
                all(len(a.vs[k]) == len(b.vs[k]) and all(self.same(x, y) for x, y in zip(a.vs[k], b.vs[k])) for k in a.vs)
        if isinstance(a, VIter) and isinstance(b, VIter):
            return a.kind == b.kind and a.aux is b.aux and len(a.data) == len(b.data) and all(self.same(x, y) for x, y in zip(a.data, b.data))
        if isinstance(a, VFn) and isinstance(b, VFn):
            return a.name == b.name
        return False

    # ------------------------------------------------------------------ places
    def deref_path(self, st, place, fr):
        """resolve to (cell, path); deref of a mutable reference switches cell"""
        cell, path = (fr, place[0]), ()
        variant = None
        for p in place[1]:
            k = p[0]
            if k == 'deref':
                v = self.read_path(st, cell, path)
                if isinstance(v, VRef):
                    cell, path = v.cell, v.path
                elif isinstance(v, VChoice):
                    raise ChoicePlace(v, place)
            elif k == 'as':
                variant = p[1]
            elif k == 'field':
                v = None
                if variant is None and self.transparent(st, cell, path, p):
                    continue
                path = path + (('f', variant, p[1]),)
                variant = None
            elif k == 'index':
                path = path + (('i', self.read_path(st, (fr, p[1]), ())),)
            elif k == 'cidx':
                path = path + (('ci', p[1], p[2]),)
            elif k == 'sub':
                path = path + (('sub', p[1], p[2], p[3]),)
            else:
                raise Unsupported('projection %s' % (p,))
        return cell, path

    def transparent(self, st, cell, path, p):
        """field projections into Box/MaybeUninit/ManuallyDrop wrappers"""
        ty = p[2]
        t = str(ty)
        return any(x in t for x in ('BoxRaw', 'MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'NonNull', 'Unique'))

    def read_path(self, st, cell, path):
        if cell not in st:
            raise Unsupported('read of dead cell %s' % (cell,))
        v = st[cell]
        for p in path:
            v = self.proj(v, p)
        return v

    def variant_index(self, v, name):
        if name is None:
            return None
        if v.name in STD_ENUMS:
            return STD_ENUMS[v.name].index(name)
        a = self.prog.adt(v.name, self.crate)
        return a.variants.index(name)

    def proj(self, v, p):
        v = self.force(v)
        if isinstance(v, VRef):
            raise Unsupported('projection through reference')
        if p[0] == 'f':
            if isinstance(v, VAgg):
                if p[2] >= len(v.fields):
                    raise Unsupported('field %s of %s' % (p, v))
                return v.fields[p[2]]
            if isinstance(v, VEnum):
                vi = self.variant_index(v, p[1]) if p[1] is not None else 0
                fs = self.enum_fields(v, vi)
                return fs[p[2]]
            if isinstance(v, VOpaque):
                return self.models.opaque_field(v, p)
            if isinstance(v, VIter):
                return v.data[p[2]]
            raise Unsupported('field of %s' % type(v).__name__)
        if p[0] == 'i':
            return self.index(v, p[1])
        if p[0] == 'ci':
            if isinstance(v, VAgg):
                return v.fields[p[1] if not p[2] else len(v.fields) - p[1]]
            if isinstance(v, VVec):
                return self.index(v, p[1] if not p[2] else sub_(self.th.vlen(v.term), p[1]))
        if p[0] == 'sub' and isinstance(v, VVec):
            # slice pattern v[a..] / v[a..len-b]
            n = self.th.vlen(v.term)
            lo, hi = p[1], (sub_(n, p[2]) if p[3] else p[2])
            return self.models.subslice(v, lo, hi)
        raise Unsupported('projection %s of %s' % (p, type(v).__name__))

    def index(self, v, i):
        v = self.force(v)
        i = conc(i)
        if isinstance(v, VAgg):
            if isinstance(i, int):
                return v.fields[i]
            if v.fields and all(is_int(x) for x in v.fields):
                t = self.th.fresh(th.I, 'ai')
                self.th.fact(z3.Or([t == x for x in v.fields]), t)
                return t
            conds = [i == k for k in range(len(v.fields))]
            return self.merge_vals(conds, list(v.fields))
        if isinstance(v, VVec):
            return self.vec_at(v, i)
        raise Unsupported('index of %s' % type(v).__name__)

    def vec_at(self, v, i):
        i = conc(z3.simplify(i)) if z3.is_expr(i) else i
        key = (v.term.get_id(), i if isinstance(i, int) else ('z', i.get_id()))
        r = self.memo_at.get(key)
        if r is None:
            self.th.keep += [v.term] + ([i] if z3.is_expr(i) else [])
            r = self.models.vec_elem(v, i)
            self.memo_at[key] = r
        return r

    def write_path(self, st, cell, path, val):
        if self.writes is not None:
            self.writes.add((cell, path))
        if not path:
            st[cell] = val
            return
        st[cell] = self.update(st.get(cell), path, val)

    def update(self, v, path, val):
        if not path:
            return val
        v = self.force(v) if v is not None else None
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, VAgg):
                fs = list(v.fields)
                while len(fs) <= p[2]:
                    fs.append(None)
                fs[p[2]] = self.update(fs[p[2]], path[1:], val)
                return VAgg(v.kind, fs)
            if isinstance(v, VEnum):
                vi = self.variant_index(v, p[1]) if p[1] is not None else 0
                fs = list(self.enum_fields(v, vi))
                fs[p[2]] = self.update(fs[p[2]], path[1:], val)
                vs = dict(v.vs)
                vs[vi] = tuple(fs)
                return VEnum(v.name, v.discr, vs)
            if v is None or isinstance(v, VOpaque):
                fs = [None] * (p[2] + 1)
                fs[p[2]] = self.update(None, path[1:], val)
                return VAgg(('partial',), fs)
        if p[0] in ('i', 'ci'):
            if isinstance(v, VAgg) and isinstance(conc(p[1]), int):
                fs = list(v.fields)
                k = conc(p[1])
                fs[k] = self.update(fs[k], path[1:], val)
                return VAgg(v.kind, fs)
            if isinstance(v, VAgg):
                fs = [self.merge_vals([p[1] == k, z3.BoolVal(True)], [self.update(f, path[1:], val), f]) for k, f in enumerate(v.fields)]
                return VAgg(v.kind, fs)
            if isinstance(v, VVec):
                # element update: contents unknown afterwards, length kept
                n = VVec(self.fresh_v('upd'), v.ety)
                self.th.fact(self.th.vlen(n.term) == self.th.vlen(v.term), th.vlen_f(n.term))
                self.models.vec_update_facts(n, v, val if len(path) == 1 else None)
                return n
        raise Unsupported('write through %s of %s' % (p, type(v).__name__))

    def read(self, st, place, fr):
        try:
            cell, path = self.deref_path(st, place, fr)
        except ChoicePlace as c:
            vs = []
            rest = c.place[1]
            k = next(i for i, p in enumerate(rest) if p[0] == 'deref')
            if k != 0:
                raise Unsupported('choice place')
            for cond, r in c.choice.alts:
                st2 = dict(st)
                st2[(fr, place[0])] = r
                vs.append((cond, self.read(st2, place, fr)))
            return self.merge_vals([x for x, _ in vs], [y for _, y in vs])
        return self.read_path(st, cell, path)

    def write(self, st, place, fr, val):
        try:
            cell, path = self.deref_path(st, place, fr)
        except ChoicePlace as c:
            old = st[(fr, place[0])]
            for cond, r in c.choice.alts:
                st2 = dict(st)
                st2[(fr, place[0])] = r
                cell, path = self.deref_path(st2, place, fr)
                cur = self.read_path(st, cell, path)
                self.write_path(st, cell, path, self.merge_vals([cond, z3.BoolVal(True)], [val, cur]))
            return
        self.write_path(st, cell, path, val)

    # ------------------------------------------------------------------ operands and rvalues
    def operand(self, st, op, fr, body):
        if op[0] in ('copy', 'move'):
            return self.read(st, op[1], fr)
        return self.const(op[1:], body)

    def const(self, c, body):
        k = c[0]
        if k in ('bool',):
            return c[1]
        if k == 'unit':
            return UNIT
        if k == 'str':
            return self.th.lit(c[1])
        if k == 'bytes':
            return VOpaque(('bytes', c[1]))
        if k == 'char':
            return c[1]
        if k == 'int':
            return c[1]
        if k == 'alloc':
            desc, data = body.crate.mir.allocs.get(c[1], ('', []))
            m = re.match(r'static: ([^,)]*)', desc)
            if m:
                b = self.prog.resolve_const(m.group(1), body.crate)
                if b is not None:
                    if b.kind == 'static mut':
                        self.effect('static mut ' + m.group(1), body)
                        return VLazy(b.ret)
                    if self.interior_mut(b.ret):
                        self.effect('static with interior mutability ' + m.group(1), body)
                        return VLazy(b.ret)
                    return self.eval_const(b)
            return VOpaque(('alloc', desc))
        if k == 'fnitem':
            return VFn(c[1], body.crate)
        if k == 'named':
            return self.named(c[1], body)
        raise Unsupported('const %s' % (c,))

    def interior_mut(self, ty):
        t = str(ty)
        return any(x in t for x in ('Cell', 'Atomic', 'Mutex', 'RwLock', 'Once', 'Lazy', 'LocalKey'))

    def named(self, s, body):
        b = self.prog.resolve_const(s, body.crate)
        if b is not None:
            return self.eval_const(b)
        if 'SizedTypeProperties>::' in s:
            return VLazy(USIZE if 'IS_ZST' not in s else ('bool',))
        p = strip_generics(s)
        segs = p.split('::')
        nm = segs[-1]
        if len(segs) > 1 and segs[-2] in STD_ENUMS and nm in STD_ENUMS[segs[-2]]:
            return VEnum(segs[-2], STD_ENUMS[segs[-2]].index(nm), {STD_ENUMS[segs[-2]].index(nm): ()})
        if len(segs) > 1:
            a = self.prog.adt(segs[-2], body.crate)
            if a and a.kind == 'enum' and nm in a.variants:
                return VEnum(a.name, a.variants.index(nm), {a.variants.index(nm): ()})
        m = re.match(r'^(?:core::num::<impl )?(usize|u8|u16|u32|u64|i32|i64|isize)>?::(MAX|MIN|BITS)$', re.sub(r'^(std|core)::', '', p))
        if m or re.search(r'impl (usize|u8|u32|u64|i32)>::(MAX|MIN)', p):
            m = m or re.search(r'impl (usize|u8|u32|u64|i32)>::(MAX|MIN)', p)
            w, sg = INTS[m.group(1)]
            return {'MAX': 2 ** (w - sg) - 1, 'MIN': -(2 ** (w - 1)) if sg else 0, 'BITS': w}[m.group(2)]
        if '{closure@' in s:
            m = re.search(r'\{closure@[^}]*\}', s)
            return VAgg(('closure', m.group(0)), ())
        a = self.prog.adt(nm, body.crate)
        if a and a.kind == 'struct' and not a.fields[0]:
            return VAgg(('adt', nm), ())
        if re.match(r'^[A-Za-z_<]', s) and (self.prog.resolve_fn(s, body.crate) is not None or '::' in s):
            return VFn(s, body.crate)
        return VOpaque(('named', s))

    def eval_const(self, b):
        if b.name in self.constmemo:
            return self.constmemo[b.name]
        r = self.run_body(b, [], {}, ())
        if r is None:
            raise Unsupported('const ' + b.name)
        self.constmemo[b.name] = r[2]
        return r[2]

    def rvalue(self, st, rv, fr, body, path, dest=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1], fr, body)
        if k == 'ref':
            if rv[1]:
                try:
                    cell, p = self.deref_path(st, rv[2], fr)
                except ChoicePlace as c:
                    if len(rv[2][1]) == 1:
                        return c.choice
                    raise Unsupported('reborrow of choice')
                # reborrow of a shared value through &mut: keep reference
                return VRef(cell, p)
            v = self.read(st, rv[2], fr)
            if isinstance(v, VRef):
                v = self.read_path(st, v.cell, v.path)
            return v
        if k == 'rawref':
            if rv[1]:
                cell, p = self.deref_path(st, rv[2], fr)
                return VRef(cell, p)
            return self.read(st, rv[2], fr)
        if k == 'cast':
            return self.cast(self.operand(st, rv[1], fr, body), rv[2], rv[3], rv[1], body)
        if k == 'bin':
            return self.models.binop(rv[1], self.operand(st, rv[2], fr, body), self.operand(st, rv[3], fr, body), self.opty(rv[2], body), body)
        if k == 'un':
            v = self.force(self.operand(st, rv[2], fr, body))
            if rv[1] == 'Not':
                if is_bool(v):
                    return mknot(v)
                ty = self.opty(rv[2], body)
                if ty and ty[0] == 'int' and not INTS[ty[1]][1]:
                    return sub_(2 ** INTS[ty[1]][0] - 1, v)
                return self.fresh_of(ty or USIZE)
            if rv[1] == 'Neg':
                return sub_(0, v)
            if rv[1] == 'PtrMetadata':
                if isinstance(v, VVec):
                    return self.th.vlen(v.term)
                if isinstance(v, VAgg):
                    return len(v.fields)
                if is_s(v):
                    return self.th.slen(v)
                return VLazy(USIZE)
            raise Unsupported('unop ' + rv[1])
        if k == 'discr':
            v = self.force(self.read(st, rv[1], fr))
            return self.discr(v)
        if k == 'Len':
            v = self.force(self.read(st, rv[1], fr))
            if isinstance(v, VVec):
                return self.th.vlen(v.term)
            if isinstance(v, VAgg):
                return len(v.fields)
            raise Unsupported('Len')
        if k == 'CopyForDeref':
            return self.read(st, rv[1], fr)
        if k == 'agg':
            ops = [self.operand(st, o, fr, body) for o in rv[2]]
            return self.aggregate(rv[1], ops, rv[3], body, path)
        if k == 'repeat':
            v = self.operand(st, rv[1], fr, body)
            try:
                n = int(str(rv[2]).replace('const ', '').split('_')[0])
            except ValueError:
                n = 99
            if n <= 8:
                return VAgg(('array',), [v] * n)
            vv = VVec(self.fresh_v('rep'), ('other', '?'))
            return vv
        raise Unsupported('rvalue %s' % k)

    def discr(self, v):
        if isinstance(v, VEnum):
            a = None if v.name in STD_ENUMS else self.prog.adt(v.name, self.crate)
            if a is not None and a.discr != list(range(len(a.variants))):
                if isinstance(v.discr, int):
                    return a.discr[v.discr]
                e = z3.IntVal(a.discr[-1])
                for i in range(len(a.discr) - 1):
                    e = z3.If(v.discr == i, z3.IntVal(a.discr[i]), e)
                return e
            return conc(v.discr)
        if isinstance(v, VOpaque):
            return self.models.opaque_discr(v)
        if isinstance(v, VAgg):
            return 0
        raise Unsupported('discriminant of %s' % type(v).__name__)

    def opty(self, op, body):
        if op[0] in ('copy', 'move'):
            ty = body.locals.get(op[1][0])
            for p in op[1][1]:
                if p[0] == 'deref':
                    ty = ty[2] if ty and ty[0] in ('ref', 'ptr') else (ty[2][0] if ty and ty[0] == 'adt' and ty[2] else None)
                elif p[0] == 'field':
                    ty = p[2]
                elif p[0] == 'index' or p[0] == 'cidx':
                    ty = ty[1] if ty else None
            return ty
        if op[1] == 'int':
            return ('int', op[3])
        if op[1] in ('bool', 'char', 'str'):
            return (op[1],)
        return None

    def cast(self, v, ty, kind, op, body):
        if 'IntToInt' in kind:
            v = conc(self.force(v))
            if is_bool(v):
                return (1 if v else 0) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if ty[0] == 'int':
                w, sg = INTS[ty[1]]
                src = self.opty(op, body)
                if src and src[0] == 'int':
                    sw, ssg = INTS[src[1]]
                    if (not ssg and not sg and w >= sw) or (sg and not ssg and w > sw) or (sg == ssg and w >= sw):
                        return v
                if src and src[0] == 'char' and w >= 21:
                    return v
                if src and src[0] == 'bool':
                    return v
                if not sg:
                    return conc(z3.simplify(v % (2 ** w))) if z3.is_expr(v) else v % (2 ** w)
                return VLazy(ty)
            return v
        if 'Transmute' in kind and ty[0] == 'int':
            return VLazy(ty)
        return v

    def aggregate(self, kind, ops, names, body, path):
        if kind[0] == 'tuple':
            return VAgg(('tuple',), ops)
        if kind[0] == 'array':
            return VAgg(('array',), ops)
        if kind[0] == 'closure':
            return VAgg(('closure', kind[1]), ops)
        p = strip_generics(kind[1])
        segs = p.split('::')
        nm = segs[-1]
        if len(segs) > 1:
            en = segs[-2]
            if en in STD_ENUMS and nm in STD_ENUMS[en]:
                i = STD_ENUMS[en].index(nm)
                return VEnum(en, i, {i: tuple(ops)})
            a = self.prog.adt(en, body.crate)
            if a and a.kind == 'enum' and nm in a.variants:
                i = a.variants.index(nm)
                if self.adt_refinable(en):
                    self.refine_check(en, i, ops, path, self.where(body))
                self.models.on_construct(en, i, ops, path, body)
                return VEnum(en, i, {i: tuple(ops)})
        a = self.prog.adt(nm, body.crate)
        if a and a.kind == 'struct':
            if names and [n for n, _ in a.fields[0]] != list(names):
                d = dict(zip(names, ops))
                ops = [d.get(n) for n, _ in a.fields[0]]
            if self.adt_refinable(nm):
                self.refine_check(nm, None, ops, path, self.where(body))
            return VAgg(('adt', nm), ops)
        return VAgg(('adt', nm), ops)

    def where(self, body):
        return ' < '.join([b.pretty for b in reversed(self.stackfns[-3:])]) or body.pretty

    # ------------------------------------------------------------------ execution
    def order(self, body):
        o = getattr(body, '_order', None)
        if o is None:
            succ = {b: term_succs(t) for b, (_, t) in body.blocks.items()}
            # only reachable
            seen, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += succ[x]
            sc = {b: succ[b] for b in seen}
            sc[-1] = [0]              # virtual entry: block 0 may itself be a loop head
            o = [x for x in build_order(seen | {-1}, sc, -1) if x != -1]
            body._order = o
        return o

    def run_body(self, body, args, st, path):
        if len(self.stackfns) > 60:
            raise Unsupported('call depth')
        self.nframe += 1
        fr = self.nframe
        self.frames[fr] = body
        self.inlined.add(body.pretty)
        st = dict(st)
        for (l, t), a in zip(body.params, args):
            st[(fr, l)] = a
        self.stackfns.append(body)
        self.stackfrs.append(fr)
        try:
            ctx = {'ret': []}
            inc = {0: [(path, st)]}
            self.region(body, fr, self.order(body), inc, ctx)
        finally:
            self.stackfns.pop()
            self.stackfrs.pop()
        if not ctx['ret']:
            return None
        p, s = self.merge(ctx['ret'])
        ret = s.get((fr, 0), UNIT)
        for c in [c for c in s if c[0] == fr]:
            del s[c]
        return s, p, ret

    def region(self, body, fr, items, inc, ctx):
        for it in items:
            if isinstance(it, Loop):
                e = inc.pop(it.head, None)
                if not e:
                    continue
                p, s = self.merge(e)
                self.loop(body, fr, it, p, s, inc, ctx)
            else:
                e = inc.pop(it, None)
                if not e:
                    continue
                p, s = self.merge(e)
                self.block(body, fr, it, p, dict(s), inc, ctx)

    def block(self, body, fr, bb, path, st, inc, ctx):
        stmts, t = body.blocks[bb]
        for s in stmts:
            k = s[0]
            if k == 'assign':
                if s[2][0] == 'use' and s[2][1][0] == 'move' and not s[2][1][1][1] and not s[1][1]:
                    v = st.get((fr, s[2][1][1][0]), TOK)
                    if v is TOK:
                        raise Unsupported('move of dead local')
                    self.write_path(st, (fr, s[1][0]), (), v)
                    continue
                self.write(st, s[1], fr, self.rvalue(st, s[2], fr, body, path))
            elif k == 'dead':
                st.pop((fr, s[1]), None)
            elif k == 'setdiscr':
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('stmt ' + k)
        self.terminator(body, fr, bb, t, path, st, inc, ctx)

    def goto(self, inc, bb, path, st):
        inc.setdefault(bb, []).append((path, st))

    def terminator(self, body, fr, bb, t, path, st, inc, ctx):
        k = t[0]
        if k == 'goto':
            self.goto(inc, t[1], path, st)
        elif k == 'return':
            ctx['ret'].append((path, st))
        elif k == 'unreachable':
            pass
        elif k == 'drop':
            self.goto(inc, t[2], path, st)
        elif k == 'assert':
            v = conc(self.force(self.operand(st, t[1], fr, body)))
            if 'misaligned' in t[3] or 'null pointer' in t[3]:
                self.goto(inc, t[4], path, st)
                return
            c = v if t[2] else mknot(v)
            path = self.require('panic', path, c, 'no panic: ' + t[3][:80], body)
            if path is not None:
                self.goto(inc, t[4], path, st)
        elif k == 'switch':
            v = self.operand(st, t[1], fr, body)
            v = conc(self.force(v))
            if isinstance(v, VOpaque):
                v = self.models.opaque_discr(v)
            if isinstance(v, (bool, int)):
                iv = int(v)
                for val, b in t[2]:
                    if val == iv:
                        self.goto(inc, b, path, st)
                        return
                if t[3] is not None:
                    self.goto(inc, t[3], path, st)
                return
            lits = []
            for val, b in t[2]:
                if is_bool(v):
                    lits.append((v if val else mknot(v), b))
                else:
                    l = mkeq(v, val)
                    if l is False:
                        continue
                    lits.append((tob(l), b))
            if t[3] is not None:
                ot = body.blocks[t[3]]
                if ot[1][0] == 'unreachable' and not [s for s in ot[0] if s[0] != 'dead']:
                    pass
                elif len(lits) == 1:
                    lits.append((mknot(lits[0][0]), t[3]))
                elif not lits:
                    self.goto(inc, t[3], path, st)
                    return
                else:
                    lits.append((z3.And([mknot(l) for l, _ in lits]), t[3]))
            known = {x.get_id() for x in path}
            ids = tuple(l.get_id() for l, _ in lits)
            for l, b in lits:
                self.switch_group[l.get_id()] = (None, len(ids), ids)
                self.th.keep.append(l)
            hit = [(l, b) for l, b in lits if l.get_id() in known]
            if hit:
                self.goto(inc, hit[0][1], path, st)
                return
            lits = [(l, b) for l, b in lits if mknot(l).get_id() not in known]
            for n, (l, b) in enumerate(lits):
                self.th.keep.append(mknot(l))
                self.goto(inc, b, path + (l,), st if n == len(lits) - 1 else dict(st))
        elif k == 'call':
            self.call(body, fr, t, path, st, inc, ctx)
        else:
            raise Unsupported('terminator ' + k)

    def require(self, kind, path, cond, desc, body):
        """obligation path => cond; returns the path extended by cond (None: cannot continue)"""
        cond = conc(cond)
        if cond is True:
            self.obs.append(Obligation(kind, path, True, desc, self.where(body)))
            return path
        self.obs.append(Obligation(kind, path, cond, desc, self.where(body)))
        if cond is False:
            return None
        return path + (cond,)

    def effect(self, what, body):
        self.effects.setdefault(what, set()).add(self.where(body))

    def call(self, body, fr, t, path, st, inc, ctx):
        _, dest, callee, ops, ret = t
        args = [self.operand(st, o, fr, body) for o in ops]
        r = self.call_fn(callee, args, st, path, body, fr, [self.opty(o, body) for o in ops], body.locals.get(dest[0]) if not dest[1] else None)
        if r is None or ret is None:
            return
        st, path, val = r
        self.write(st, dest, fr, val)
        self.goto(inc, ret, path, st)

    def call_fn(self, callee, args, st, path, body, fr=None, tys=(), retty=None):
        """returns (state, path, value) or None if the call cannot return"""
        if isinstance(callee, tuple):
            f = self.force(self.operand(st, callee[1], fr, body))
            if isinstance(f, VFn):
                return self.call_fn(f.name, args, st, path, body, fr, tys, retty)
            return self.call_value(f, args, st, path, body)
        b = self.prog.resolve_fn(callee, body.crate)
        if b is None:
            b = self.dispatch(callee, args, body)
        if b is not None and not self.models.override(b):
            if b.pretty in self.contracts:
                return self.contracts[b.pretty].apply(args, st, path, body)
            return self.run_body(b, args, st, path)
        return self.models.call(callee, args, st, path, body, fr, tys, retty)

    def dispatch(self, callee, args, body):
        """trait method on a type parameter / reference: find the local impl by the runtime value"""
        m = re.match(r'^<(.*)>::([a-z_0-9]+)', callee)
        if not m:
            return None
        parts = split_top(m.group(1), ' as ')
        if len(parts) != 2 or not args:
            return None
        tr = last(re.sub(r'<.*$', '', parts[1]))
        v = args[0]
        nm = None
        x = v.val if isinstance(v, VLazy) and v.val is not None else v
        if isinstance(x, VEnum):
            nm = x.name
        elif isinstance(x, VAgg) and x.kind[0] == 'adt':
            nm = x.kind[1]
        elif isinstance(x, VLazy):
            nm = type_last(x.type)
        if nm:
            return body.crate.by_key.get((nm, tr, m.group(2)))
        return None

    def call_value(self, f, args, st, path, body):
        """call of a closure or function value with the given argument list"""
        f = self.force(f)
        if isinstance(f, VRef):
            tgt = self.force(self.read_path(st, f.cell, f.path))
            if isinstance(tgt, VAgg) and tgt.kind[0] == 'closure':
                cb = self.prog.closure(tgt.kind[1])
                if cb is not None:
                    return self.run_body(cb, [f if cb.params[0][1][0] == 'ref' and cb.params[0][1][1] else tgt] + args, st, path)
            f = tgt
        if isinstance(f, VAgg) and f.kind[0] == 'closure':
            cb = self.prog.closure(f.kind[1])
            if cb is None:
                raise Unsupported('closure ' + f.kind[1])
            if cb.params[0][1][0] == 'ref' and cb.params[0][1][1]:
                # FnMut by value: give the environment a cell
                self.nframe += 1
                cell = (('env', self.nframe), 0)
                st = dict(st)
                st[cell] = f
                r = self.run_body(cb, [VRef(cell)] + args, st, path)
                if r is not None:
                    r[0].pop(cell, None)
                return r
            return self.run_body(cb, [f] + args, st, path)
        if isinstance(f, VFn):
            return self.call_fn(f.name, args, st, path, body)
        raise Unsupported('call of %s' % type(f).__name__)

    # ------------------------------------------------------------------ loops
    def loop(self, body, fr, lp, path, st, inc, ctx):
        n = self.unroll_bound(body, fr, lp, st)
        if n is not None:
            mark = (len(self.obs), len(self.cands), {k: list(v) for k, v in inc.items()}, len(ctx['ret']))
            cur = (path, st)
            done = False
            for _ in range(n + 2):
                inc[lp.head] = [cur]
                self.region(body, fr, [lp.head] + [i for i in lp.items if i != lp.head], inc, ctx)
                back = inc.pop(lp.head, None)
                if not back:
                    done = True
                    break
                cur = self.merge(back)
            if done:
                return
            del self.obs[mark[0]:]
            del self.cands[mark[1]:]
            inc.clear()
            inc.update(mark[2])
            del ctx['ret'][mark[3]:]
        self.cut_loop(body, fr, lp, path, st, inc, ctx)

    def unroll_bound(self, body, fr, lp, st):
        """number of iterations if a constant-range iterator drives the loop"""
        for bb in lp.blocks:
            for s in body.blocks[bb][0]:
                if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1]:
                    l = s[2][2]
                    v = st.get((fr, l[0]))
                    if v is None or l[1]:
                        continue
                    v = self.force(v) if not isinstance(v, VLazy) else v
                    if isinstance(v, VIter) and v.kind == 'rangei' or isinstance(v, VAgg) and v.kind == ('adt', 'Range'):
                        d = v.data if isinstance(v, VIter) else v.fields
                        a, b = conc(d[0]), conc(d[1])
                        if isinstance(a, int) and isinstance(b, int) and b - a <= 12:
                            return b - a + 1
                    if isinstance(v, VIter) and v.kind == 'slice' and isinstance(conc(v.data[1]), int):
                        src = self.force(v.data[0])
                        if isinstance(src, VAgg) and len(src.fields) <= 12:
                            return len(src.fields) + 1
        return None

    def syntactic_mods(self, body, fr, lp, st):
        mods = set()
        for bb in lp.blocks:
            stmts, t = body.blocks[bb]
            places = [s[1] for s in stmts if s[0] == 'assign']
            if t and t[0] == 'call':
                places.append(t[1])
            for pl in places:
                try:
                    if (fr, pl[0]) not in st:
                        continue
                    c, p = self.deref_path(st, pl, fr)
                except (Unsupported, ChoicePlace, KeyError):
                    continue
                mods.add((c, self.clip(p)))
        return mods

    def clip(self, p):
        out = []
        for x in p:
            if x[0] != 'f' or x[1] is not None:
                break
            out.append(x)
        return tuple(out)

    def normalize_mods(self, mods, st):
        mods = {(c, self.clip(p)) for c, p in mods if c in st}
        return {(c, p) for c, p in mods if not any(c2 == c and len(p2) < len(p) and p[:len(p2)] == p2 for c2, p2 in mods)}

    def type_at(self, cell, path):
        fr, l = cell
        b = self.frames.get(fr)
        if b is None:
            return self.celltypes.get(cell) if hasattr(self, 'celltypes') else None
        return self.type_below(b.locals.get(l), path)

    def type_below(self, ty, path):
        for p in path:
            while ty and ty[0] == 'ref':
                ty = ty[2]
            if not ty or p[0] != 'f':
                return None
            if ty[0] == 'tuple':
                ty = ty[1][p[2]]
            elif ty[0] == 'adt':
                a = self.prog.adt(last(ty[1]), self.crate)
                if a and a.kind == 'struct':
                    ty = a.fields[0][p[2]][1]
                else:
                    return None
            else:
                return None
        return ty

    def havoc(self, v, ty, hint):
        """fresh value of the same shape"""
        if isinstance(v, VLazy):
            if v.val is None:
                return VLazy(v.type, hint)
            ty = ty or v.type
            v = self.force(v)
        if isinstance(v, bool) or is_bool(v):
            return self.th.fresh(th.B, hint)
        if is_int(v):
            t = self.th.fresh(th.I, hint)
            while ty and ty[0] == 'ref':
                ty = ty[2]
            if ty and ty[0] == 'int':
                self.int_range(t, ty[1])
            elif ty and ty[0] == 'char':
                self.th.fact(z3.And(t >= 0, t <= 0x10FFFF), t)
            return t
        if is_s(v):
            return self.th.fresh_s(hint)
        if isinstance(v, VVec):
            return self.mkvec(v.ety, hint)
        if isinstance(v, VAgg):
            tys = [None] * len(v.fields)
            if ty and ty[0] == 'tuple':
                tys = list(ty[1])
            elif ty and ty[0] == 'adt':
                a = self.prog.adt(last(ty[1]), self.crate)
                if a and a.kind == 'struct' and len(a.fields[0]) == len(v.fields):
                    tys = [t for _, t in a.fields[0]]
                elif last(ty[1]) == 'Range' and ty[2]:
                    tys = [ty[2][0]] * 2
            return VAgg(v.kind, [self.havoc(f, t, hint) for f, t in zip(v.fields, tys)])
        if isinstance(v, VEnum):
            if ty and ty[0] == 'adt':
                return VLazy(ty, hint)
            n = len(STD_ENUMS[v.name]) if v.name in STD_ENUMS else len(self.prog.adt(v.name, self.crate).variants)
            vs = {k: tuple(self.havoc(f, None, hint) for f in fs) for k, fs in v.vs.items()}
            for k in range(n):
                vs.setdefault(k, tuple(VOpaque(('havoc',)) for _ in range(1)))
            return VEnum(v.name, self.fresh_discr(n, hint), vs)
        if isinstance(v, VIter):
            return self.models.havoc_iter(v, hint)
        if isinstance(v, (VRef, VFn)):
            return v
        if isinstance(v, VChoice):
            return v
        if v is None:
            return None
        return VOpaque(('havoc', v.tag if isinstance(v, VOpaque) else ''))

    def leaves(self, v, ty, key, out, depth=3):
        """enumerate scalar/string/vector leaves with a path key"""
        v = self.force(v) if not isinstance(v, VLazy) or v.val is not None or self.cheap(v.type) else v
        if is_bool(v):
            out[key] = ('bool', v)
        elif is_int(v):
            out[key] = ('int', v)
        elif is_s(v):
            out[key] = ('str', v)
        elif isinstance(v, VVec):
            out[key] = ('vec', v)
        elif isinstance(v, VAgg) and depth > 0:
            for i, f in enumerate(v.fields):
                if f is not None:
                    self.leaves(f, None, key + (i,), out, depth - 1)
        elif isinstance(v, VIter):
            for i, f in enumerate(v.data):
                self.leaves(f, None, key + (('it', i),), out, depth - 1)
        elif isinstance(v, VEnum) and depth > 0:
            out[key + ('d',)] = ('discr', v.discr)
            if v.name == 'Option' and 1 in v.vs and len(v.vs[1]) == 1:
                self.leaves(v.vs[1][0], None, key + ('some',), out, depth - 1)

    def cut_loop(self, body, fr, lp, path, st, inc, ctx):
        ckey = (getattr(self, 'unitname', None), tuple(b.pretty for b in self.stackfns), lp.head)
        pred = self.modcache.get(ckey)
        mods = self.normalize_mods(self.syntactic_mods(body, fr, lp, st) | (self.uncanon(pred) if pred else set()), st)
        outer = self.writes
        ps = self.stablecache.get(ckey)
        stable = self.uncanon_keys(ps) if ps else set()
        for attempt in range(16):
            mark = (len(self.obs), len(self.cands), {k: list(v) for k, v in inc.items()}, len(ctx['ret']))
            self.writes = set()
            try:
                hst, cands = self.loop_head(body, fr, lp, path, st, mods, stable)
                inc[lp.head] = [(self.hpath, hst)]
                self.region(body, fr, [lp.head] + [i for i in lp.items if i != lp.head], inc, ctx)
                back = inc.pop(lp.head, None)
                w = self.normalize_mods(self.writes | mods, st)
            finally:
                ws = self.writes
                self.writes = outer
            ident = self.identical(cands, mods, back)
            if w != mods or not stable <= ident:
                self.discarded += 1
                mods = w
                stable = stable & ident
                del self.obs[mark[0]:]
                del self.cands[mark[1]:]
                inc.clear()
                inc.update(mark[2])
                del ctx['ret'][mark[3]:]
                continue
            if outer is not None:
                outer |= mods
            self.modcache[ckey] = self.canon(mods)
            if back:
                self.stablecache[ckey] = self.canon_keys(ident)
            self.loop_back(body, fr, lp, path, st, hst, cands, mods, back)
            return
        raise Unsupported('loop frame does not stabilise')

    # frames are numbered by their position on the inlining stack, so that a loop frame found in one pass serves another
    def canon(self, mods):
        fs = [self.unitfr] + self.stackfrs
        return {(fs.index(c[0]), c[1], p) for c, p in mods if c[0] in fs}

    def uncanon(self, pred):
        fs = [self.unitfr] + self.stackfrs
        return {((fs[i], l), p) for i, l, p in pred if i < len(fs)}

    def canon_keys(self, keys):
        fs = [self.unitfr] + self.stackfrs
        return {(fs.index(k[0][0]), k[0][1]) + k[1:] for k in keys if k[0][0] in fs}

    def uncanon_keys(self, keys):
        fs = [self.unitfr] + self.stackfrs
        return {((fs[k[0]], k[1]),) + k[2:] for k in keys if k[0] < len(fs)}

    def identical(self, cc, mods, back):
        """leaves that hold the very same value at the loop head and at the end of every iteration"""
        if not back:
            return set()
        cands, entry, cur, head = cc
        out = set()
        _, bst = self.merge(back)
        end = {}
        for cell, p in mods:
            self.leaves(self.read_path(bst, cell, p), None, (cell, p), end)
        for k, (kind, v) in head.items():
            if k in end and end[k][0] == kind and kind in ('str', 'vec', 'int', 'bool') and same_leaf(v, end[k][1]):
                out.add(k)
        return out

    def graft(self, h, v, key, stable):
        """h with the leaves in stable taken from v"""
        if key in stable:
            return v
        n = len(key)
        if not any(k[:n] == key for k in stable):
            return h
        h, v = self.force(h), self.force(v)
        if isinstance(h, VAgg) and isinstance(v, VAgg) and len(h.fields) == len(v.fields):
            return VAgg(h.kind, [self.graft(a, b, key + (i,), stable) if a is not None else None for i, (a, b) in enumerate(zip(h.fields, v.fields))])
        if isinstance(h, VIter) and isinstance(v, VIter) and h.kind == v.kind and len(h.data) == len(v.data):
            return VIter(h.kind, tuple(self.graft(a, b, key + (('it', i),), stable) for i, (a, b) in enumerate(zip(h.data, v.data))), h.aux)
        return h

    def lname(self, cell, p):
        b = self.frames.get(cell[0])
        nm = None
        if b is not None:
            nm = b.debug.get('_%d' % cell[1])
        base = nm or ('_%s' % cell[1] if not isinstance(cell[1], str) else cell[1])
        return base + ''.join('.%s' % (x[2],) for x in p)

    def loop_head(self, body, fr, lp, path, st, mods, stable=()):
        hst = dict(st)
        entry, cur, head = {}, {}, {}
        # the invariant is only assumed behind this literal: what precedes the loop (its entry obligations) cannot use it
        hpath = path + (self.th.fresh(th.B, 'loop'),)
        for cell, p in sorted(mods, key=str):
            v = self.read_path(st, cell, p)
            h = self.havoc(v, self.type_at(cell, p), re.sub(r'\W', '_', self.lname(cell, p)))
            h = self.graft(h, v, (cell, p), stable)
            w, self.writes = self.writes, None
            self.write_path(hst, cell, p, h)
            self.writes = w
            self.leaves(v, None, (cell, p), entry)
            self.leaves(h, None, (cell, p), head)
        for k, x in head.items():
            if k not in stable:
                cur[k] = x
        entry = {k: x for k, x in entry.items() if k not in stable}
        cands = []
        for desc, fn in self.models.loop_templates(self, body, fr, st, entry, cur, mods, lp):
            c = Cand('loop in %s: %s' % (body.pretty, desc), ('loop', id(lp), len(self.loops_done)))
            self.cands.append(c)
            cands.append((c, fn))
            e = fn(cur)
            if e is None:
                continue
            e = tob(e)
            ow = [x for x in self.key_terms(cur, e)]
            self.th.fact(z3.Implies(z3.And([c.lit] + [tob(x) for x in hpath]), e), *ow)
            ee = fn(entry)
            c.need.append((path, ee if ee is not None else False, 'entry of loop in ' + self.where(body)))
        self.hpath = hpath
        return hst, (cands, entry, cur, head)

    def key_terms(self, cur, e):
        ids = self.th.subterms(e)
        out = []
        for k, (kind, v) in cur.items():
            t = v.term if isinstance(v, VVec) else v
            if z3.is_expr(t) and t.get_id() in ids:
                out.append(t)
        return out

    def loop_back(self, body, fr, lp, path, st, hst, cc, mods, back):
        cands, entry, cur, head = cc
        info = dict(body=body.pretty, loc=self.where(body), cands=len(cands), back=len(back or ()))
        self.loops_done.append(info)
        if back:
            bpath, bst = self.merge(back)
            end = {}
            for cell, p in sorted(mods, key=str):
                self.leaves(self.read_path(bst, cell, p), None, (cell, p), end)
            for c, fn in cands:
                lf = getattr(fn, 'leaf', None)
                if lf is not None and lf[0] in end and self.models.doomed(lf[1], end[lf[0]][1]):
                    c.alive = False
                    continue
                try:
                    e = fn(end)
                except KeyError:
                    e = False
                c.need.append((bpath, e if e is not None else False, 'iteration of loop in ' + self.where(body)))
            self.models.loop_variant(self, body, fr, lp, path, st, hst, entry, cur, end, bpath, bst, mods)


def same_leaf(a, b):
    if isinstance(a, VVec):
        return isinstance(b, VVec) and a.term.eq(b.term)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return type(a) == type(b) and a == b


class ChoicePlace(Exception):
    def __init__(self, choice, place):
        self.choice, self.place = choice, place


def mkand_z(*xs):
    ys = [tob(x) for x in xs if x is not None and x is not True]
    return z3.And(ys) if len(ys) > 1 else ys[0]


def adts_in(t, out):
    if t[0] == 'adt':
        out.add(last(t[1]))
        for a in t[2]:
            adts_in(a, out)
    elif t[0] in ('ref', 'ptr'):
        adts_in(t[2], out)
    elif t[0] in ('slice', 'array'):
        adts_in(t[1], out)
    elif t[0] == 'tuple':
        for a in t[1]:
            adts_in(a, out)


def collect_lits(x, out):
    if isinstance(x, tuple):
        if len(x) >= 3 and x[0] == 'const' and x[1] == 'str':
            out.add(x[2])
            return
        if len(x) >= 3 and x[0] == 'const' and x[1] == 'char':
            return
        for y in x:
            collect_lits(y, out)
    elif isinstance(x, list):
        for y in x:
            collect_lits(y, out)
