"""Call graph, cut set, contracts of recursive functions and verification units."""
import re
from itertools import combinations
import z3
from mirparse import INTS
from registry import last, strip_generics
from theory import S, toi, tob
import theory as th
from engine import (Cand, VVec, VAgg, VEnum, VRef, VLazy, Unsupported, is_s, is_int, is_bool, conc, mkand, mkeq, UNIT, Obligation)
import models as mo


def walk(x, f):
    if isinstance(x, (tuple, list)):
        f(x)
        for y in x:
            walk(y, f)


def callees(prog, body):
    out = set()

    def ref(path):
        b = prog.resolve_fn(path, body.crate)
        if b is not None:
            out.add(b.pretty)

    def vis(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'call' and len(x) >= 5 and isinstance(x[2], str):
                c = x[2]
                ref(c)
                for m in re.finditer(r'\{closure@[^}]*\}', c):
                    b = prog.closure(m.group(0))
                    if b is not None:
                        out.add(b.pretty)
                m = re.search(r'new_(display|debug)::<(.*)>$', c) or re.search(r'^<(.*) as .*ToString>::(to_string)', c)
                if m:
                    g = m.groups()
                    ty = g[1] if g[0] in ('display', 'debug') else g[0]
                    tr = 'Debug' if g[0] == 'debug' else 'Display'
                    nm = mo.tl(re.sub(r"^(&('\w+ )?(mut )?)+", '', ty))
                    b = body.crate.by_key.get((nm, tr, 'fmt'))
                    if b is not None:
                        out.add(b.pretty)
            elif x[0] == 'fnitem' or len(x) >= 3 and x[1] == 'fnitem':
                ref(x[1] if x[0] == 'fnitem' else x[2])
            elif x[0] == 'closure' and len(x) > 1 and isinstance(x[1], str):
                b = prog.closure(x[1])
                if b is not None:
                    out.add(b.pretty)
            elif x[0] == 'const' and len(x) >= 3 and x[1] == 'named' and isinstance(x[2], str):
                ref(x[2])
                for m in re.finditer(r'\{closure@[^}]*\}', x[2]):
                    b = prog.closure(m.group(0))
                    if b is not None:
                        out.add(b.pretty)
    for stmts, t in body.blocks.values():
        walk(stmts, vis)
        walk(t, vis)
    return out


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.body = {}
        self.g = {}
        for c in prog.crates.values():
            for b in c.mir.fns.values():
                self.body[b.pretty] = b
        for p, b in self.body.items():
            self.g[p] = callees(prog, b) & set(self.body)

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.g.get(x, ())
        return seen

    def sccs(self, nodes):
        idx, low, st, on, out = {}, {}, [], set(), []

        def go(v):
            idx[v] = low[v] = len(idx)
            st.append(v)
            on.add(v)
            for w in sorted(self.g[v] & nodes):
                if w not in idx:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                out.append(c)
        for v in sorted(nodes):
            if v not in idx:
                go(v)
        return [c for c in out if len(c) > 1 or any(v in self.g[v] for v in c)]

    def cost(self, f):
        b = self.body[f]
        if '{closure' in f or b.key[1] is not None:
            return 100
        n = 1
        for _, t in b.params:
            if t[0] == 'ref' and t[1]:
                n += 3
            if t[0] in ('param', 'dyn') or 'dyn' in str(t):
                n += 10
        r = str(b.ret)
        if "'Result'" in r or "'std::result::Result'" in r:
            n += 2
        return n

    def cuts(self, root):
        nodes = self.reach([root])
        out = set()
        for c in self.sccs(nodes):
            forced = {v for v in c if v in self.g[v]}
            if self.acyclic(c - forced):
                out |= forced
                continue
            rest = sorted(c - forced, key=lambda f: (self.cost(f), f))
            best = None
            for k in (1, 2, 3):
                for s in combinations(rest, k):
                    if best is not None and sum(map(self.cost, s)) >= best[0]:
                        continue
                    if self.acyclic(c - forced - set(s)):
                        best = (sum(map(self.cost, s)), s)
                if best:
                    break
            if best is None:
                raise Unsupported('no small cut set')
            out |= forced | set(best[1])
        return out

    def modular(self, root, cuts, size):
        """big functions, verified on their own against an inferred contract instead of in every caller"""
        out = set(cuts)
        nodes = self.reach([root])
        tot, sites = {}, {}
        for f in nodes:
            for _, t in self.body[f].blocks.values():
                if t and t[0] == 'call' and isinstance(t[2], str):
                    b = self.prog.resolve_fn(t[2], self.body[f].crate)
                    if b is not None:
                        sites[b.pretty] = sites.get(b.pretty, 0) + 1

        def total(f):
            if f not in tot:
                tot[f] = len(self.body[f].blocks)
                tot[f] += sum(total(g) for g in self.g[f] if g not in out and g != f)
            return tot[f]
        for f in sorted(nodes):
            total(f)
        for f in sorted(nodes, key=lambda f: (tot[f], f)):
            if f != root and sites.get(f, 0) >= 2 and tot[f] >= size and self.cost(f) < 10:
                out.add(f)
        return out

    def acyclic(self, nodes):
        return not self.sccs(set(nodes))


class FrameError(Unsupported):
    pass


class Contract:
    """inferred contract of one cut function"""
    def __init__(self, eng, body, frame=None):
        self.frame = frame          # param index -> set of written field paths (None: everything)
        self.written = {}
        self.E, self.body, self.th, self.m = eng, body, eng.th, eng.models
        self.pre, self.post = [], []
        self.measure = None
        self.unit_vals = None
        self.sites = 0
        self.build()

    # values: dict with 'p<i>' entry values, 'f<i>' final values of &mut params, 'r' result
    def dummy(self, hint):
        E = self.E
        v = {}
        for i, (_, t) in enumerate(self.body.params):
            v['p%d' % i] = VLazy(t, hint)
            if self.is_mut(i):
                v['f%d' % i] = VLazy(t, hint)
        v['r'] = VLazy(self.body.ret, hint)
        return v

    def is_mut(self, i):
        t = self.body.params[i][1]
        return t[0] == 'ref' and t[1]

    def keys(self, v, root):
        """leaf keys below one root"""
        fl = self.m.field_leaves([v[root]], depth=4)
        return {(root,) + k[1:]: x for k, x in fl.items()}

    def leaf(self, vals, key):
        return self.m.leaf_at([vals[key[0]]], (0,) + key[1:])

    def guard(self, vals, key):
        return self.m.guard([vals[key[0]]], (0,) + key[1:])

    def build(self):
        E, T, m = self.E, self.th, self.m
        d = self.dummy('tmpl')
        P, F = {}, {}
        for i, _ in enumerate(self.body.params):
            P.update(self.keys(d, 'p%d' % i))
            if self.is_mut(i):
                F.update(self.keys(d, 'f%d' % i))
        R = self.keys(d, 'r')
        pstr = [k for k, x in P.items() if is_s(x) and not any(isinstance(z, tuple) for z in k)]

        def mk(key, f, *more):
            ks = (key,) + more

            def fn(vals):
                xs = [self.leaf(vals, k) for k in ks]
                if any(x is None for x in xs):
                    return True
                g = mkand(*[self.guard(vals, k) for k in ks])
                if g is False:
                    return True
                e = tob(f(*xs))
                return e if g is True else z3.Implies(tob(g), e)
            return fn

        def sib(table, key):
            return [k for k, x in table.items() if k[:-1] == key[:-1] and k != key and (is_s(x) or isinstance(x, VVec))]

        def num(table, out):
            for k, x in table.items():
                if is_int(x) and not is_bool(x) and not (k[0] == 'r' and any(isinstance(z, tuple) for z in k)):
                    for s in sib(table, k):
                        if is_s(table[s]):
                            out.append(('%s <= length of %s' % (txt(k), txt(s)), mk(k, lambda a, b: toi(a) <= T.slen(b), s)))
                            out.append(('%s on a character boundary of %s' % (txt(k), txt(s)), mk(k, lambda a, b: T.bd(b, conc(a)), s)))
                        elif isinstance(table[s], VVec):
                            out.append(('%s <= length of %s' % (txt(k), txt(s)), mk(k, lambda a, b: toi(a) <= T.vlen(b.term), s)))
        pre, post = [], []
        num(P, pre)
        num(F, post)
        for k, x in P.items():
            if is_s(x):
                for ds, f in m.str_preds():
                    pre.append(('%s: %s' % (txt(k), ds), mk(k, f)))
            elif isinstance(x, VVec) and m.vp and m.vec_has_str(x):
                pre.append(('%s: elements ok' % txt(k), mk(k, lambda v: tob(m.elem_p(v)))))
        for k, x in F.items():
            k0 = ('p' + k[0][1:],) + k[1:]
            if k0 in P:
                post.append(('%s unchanged' % txt(k0), mk(k, lambda a, b: tob(m.eq(a, b)), k0)))
                if is_int(x) and not is_bool(x):
                    post.append(('%s does not decrease' % txt(k0), mk(k, lambda a, b: toi(a) >= toi(b), k0)))
                    post.append(('%s increases' % txt(k0), mk(k, lambda a, b: toi(a) > toi(b), k0)))
        for k, x in R.items():
            if is_s(x):
                for ds, f in m.str_preds():
                    post.append(('%s: %s' % (txt(k), ds), mk(k, f)))
                if m.modes & {'H', 'panic'}:
                    for s in pstr:
                        post.append(('%s not longer than %s' % (txt(k), txt(s)), mk(k, lambda a, b: T.slen(a) <= T.slen(b), s)))
            elif isinstance(x, VVec):
                if m.vp and m.vec_has_str(x):
                    post.append(('%s: elements ok' % txt(k), mk(k, lambda v: tob(m.elem_p(v)))))
                if 'H' in m.modes and m.relevant is not None:
                    for s in pstr:
                        post.append(('weight of %s at most length of %s' % (txt(k), txt(s)), mk(k, lambda a, b: m.H(a.term) <= T.slen(b), s)))
        if 'H' in m.modes and m.relevant is not None:
            # weight of the whole result value (tokens inside Result/Option)
            for s in pstr:
                for off in (0, 1):
                    def wf(vals, s=s, off=off):
                        b = self.leaf(vals, s)
                        h = mval(m, vals['r'])
                        return True if h is None else toi(h) <= T.slen(b) + 1 - off
                    post.append(('weight of result at most length of %s + %d' % (txt(s), 1 - off), wf))
        for lst, out, kind in ((pre, self.pre, 'requires'), (post, self.post, 'ensures')):
            for ds, f in lst:
                c = Cand('%s %s %s' % (self.body.pretty, kind, ds), (kind, self.body.pretty))
                E.cands.append(c)
                out.append((c, f))
        if 'term' in m.modes:
            self.measures(P)

    def measures(self, P):
        """lexicographic measure components as functions of the entry values"""
        T, m = self.th, self.m
        prim = None
        for k, x in P.items():
            if is_s(x) and not any(isinstance(z, tuple) for z in k):
                prim = lambda v, k=k: T.slen(self.leaf(v, k))
                break
        if prim is None:
            for k, x in P.items():
                if isinstance(x, VVec):
                    prim = lambda v, k=k: m.H(self.leaf(v, k).term)
                    break
        sec = []
        for k, x in P.items():
            if is_int(x) and not is_bool(x) and len(k) > 1:
                for s, y in P.items():
                    if s[:-1] == k[:-1] and is_s(y):
                        sec.append(lambda v, k=k, s=s: T.slen(self.leaf(v, s)) - toi(self.leaf(v, k)))
        self.measure = (prim, sec)

    # ------------------------------------------------------------ use at a call site
    def apply(self, args, st, path, body):
        E = self.E
        self.sites += 1
        vals = {}
        st = dict(st)
        for i, (_, t) in enumerate(self.body.params):
            if self.is_mut(i):
                vals['p%d' % i] = self.m.rd(st, args[i])
            else:
                vals['p%d' % i] = self.m.rd(st, args[i])
        for c, f in self.pre:
            c.need.append((path, f(vals), 'call in ' + E.where(body)))
        if self.measure is not None and E.unit is not None:
            E.edges.append((E.unit, self, vals, path, E.where(body)))
        E.recargs.append((E.unit, self, vals, path))
        for i, (_, t) in enumerate(self.body.params):
            if self.is_mut(i):
                ref = E.force(args[i])
                if self.frame is not None and isinstance(ref, VRef):
                    for p in sorted(self.frame.get(i, ()), key=str):
                        if not p:
                            E.write_path(st, ref.cell, ref.path, E.force(VLazy(t, 'post')))
                        else:
                            full = ref.path + p
                            E.write_path(st, ref.cell, full, E.havoc(E.force(E.read_path(st, ref.cell, full)), E.type_below(t, p), 'post'))
                    vals['f%d' % i] = self.m.rd(st, args[i])
                else:
                    n = E.force(VLazy(t, 'post'))
                    vals['f%d' % i] = n
                    self.m.wr(st, args[i], n)
        r = VLazy(self.body.ret, 'ret')
        vals['r'] = r
        # the postcondition is only assumed behind this literal: it cannot be used to establish the precondition
        path = path + (E.th.fresh(th.B, 'call'),)
        for c, f in self.post:
            e = f(vals)
            if e is None or e is True:
                continue
            e = tob(e)
            ow = [x for k in vals if k[0] in 'fr' for x in E.leaf_terms([vals[k]], 4) if z3.is_expr(x) and x.get_id() in E.th.subterms(e)]
            E.th.fact(z3.Implies(z3.And([c.lit] + list(path)), e), *(ow or [c.lit]))
        return st, path, r

    # ------------------------------------------------------------ verification of the body
    def verify(self, spec=None, assume=None):
        E = self.E
        E.unit = self
        st, args, vals, cells = {}, [], {}, {}
        E.nframe += 1
        fr0 = ('unit', E.nframe)
        E.unitfr, E.unitname = fr0, self.body.pretty
        for i, (_, t) in enumerate(self.body.params):
            v = VLazy(t, 'p%d' % i)
            vals['p%d' % i] = v
            if self.is_mut(i):
                cell = (fr0, i)
                st[cell] = E.force(v)
                vals['p%d' % i] = st[cell]
                cells[i] = cell
                args.append(VRef(cell))
            else:
                args.append(v)
        self.unit_vals = vals
        for c, f in self.pre:
            e = f(vals)
            if e is None or e is True:
                continue
            e = tob(e)
            ow = [x for k in vals for x in E.leaf_terms([vals[k]], 4) if z3.is_expr(x) and x.get_id() in E.th.subterms(e)]
            E.th.fact(z3.Implies(c.lit, e), *(ow or [c.lit]))
        if assume is not None:
            assume(E, vals)
        w0, E.writes = E.writes, set()
        r = E.run_body(self.body, args, st, ())
        for i, cell in cells.items():
            self.written[i] = {p for c, p in E.normalize_mods(E.writes, {cell: 1})}
            if self.frame is not None:
                for p in self.written[i]:
                    if not any(p[:len(q)] == q for q in self.frame.get(i, ())):
                        raise FrameError(self.body.pretty)
        E.writes = w0
        if r is None:
            E.unit = None
            return None
        s, p, ret = r
        for i, cell in cells.items():
            vals['f%d' % i] = s[cell]
        vals['r'] = ret
        for c, f in self.post:
            e = f(vals)
            c.need.append((p, e if e is not None else False, 'return of ' + self.body.pretty))
        if spec is not None:
            spec(E, vals, p, s, self)
        E.unit = None
        return s, p, ret


def mval(m, v):
    """termination weight of a result-like value (None: nothing weighted)"""
    v = m.E.force(v)
    if isinstance(v, VEnum) and v.name in ('Result', 'Option'):
        parts = []
        for k, fs in v.vs.items():
            if isinstance(conc(v.discr), int) and conc(v.discr) != k:
                continue
            for f in fs:
                h = m.hval(f)
                if not (isinstance(h, int) and h == 0):
                    parts.append((k, h))
        if not parts:
            return None
        e = z3.IntVal(0)
        for k, h in parts:
            e = z3.If(tob(mkeq(v.discr, k)), toi(h), e)
        return e
    return None


def txt(k):
    return '.'.join('%s' % x if not isinstance(x, tuple) else 'v%s.%s' % (x[1], x[2]) for x in k)
