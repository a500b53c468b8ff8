"""Ground string/sequence theory.

Strings are elements of an uninterpreted sort S; what is known about them is expressed through observer functions
(length, character classes, scanner states, tag counts, prefixes ...).  Facts about an observer applied to a term are
instantiated on demand from the term's structure; every rule below is a theorem about finite Unicode strings and the
scanners of dfa.py (the side conditions that depend on the scanner tables are computed from the tables).
Facts are owned by terms; a query only takes the facts in the cone of influence of its goal.
"""
import itertools
import re
import z3
import dfa
from dfa import CHARS, OTHER

S = z3.DeclareSort('S')
V = z3.DeclareSort('V')
I, B = z3.IntSort(), z3.BoolSort()
MAXLEN = 2 ** 63 - 1

slen_f = z3.Function('slen', S, I)
cat_f = z3.Function('cat', S, S, S)
sub_f = z3.Function('sub', S, I, I, S)
tr_f = z3.Function('tr', S, I, I)
ud_f = z3.Function('ud', S, I)
raw = lambda f: f.__defaults__[0].f
NARGS, ARG, IDOF = raw(z3.z3core.Z3_get_app_num_args), raw(z3.z3core.Z3_get_app_arg), raw(z3.z3core.Z3_get_ast_id)
esc_f = z3.Function('esc', S, B)
bd_f = z3.Function('bd', S, I, B)
find_f = z3.Function('find', S, S, I)
starts_f = z3.Function('starts', S, S, B)
ends_f = z3.Function('ends', S, S, B)
lower_f = z3.Function('lower', S, S)
sid_f = z3.Function('sid', S, I)
vlen_f = z3.Function('vlen', V, I)
at_f = z3.Function('at', V, I, S)
chr_f = z3.Function('chr', I, S)
int_f = z3.Function('fmtint', I, S)
matches_f = z3.Function('matches', S, S, I)


class Cls:
    """character class: may/must are sets of symbols of dfa.CHARS"""
    def __init__(self, name, must, may):
        self.name, self.must, self.may = name, frozenset(must), frozenset(may)
        self.f = z3.Function('allin_' + name, S, B)


ALLC = frozenset(CHARS)
HTMLW = set(map(ord, ' \t\n\r\x0b\x0c'))


def exact(name, cs):
    cs = frozenset(cs)
    return Cls(name, cs, cs)


class Theory:
    def __init__(self, policy=False, lits=()):
        self.light = False      # structure only: no facts about strings
        self.html = dfa.Html(policy)
        self.policy = policy
        self.T, self.Q, self.BAD = self.html.T, self.html.Q, self.html.B
        self.U0 = self.Uok = None
        self.uacc, self.ustates = set(), {}
        if policy:
            for nm, i in self.html.d.idx.items():
                if nm[0] == 'U':
                    self.ustates[i] = nm[1]
                    if dfa.url_accept(nm[1]):
                        self.uacc.add(i)
            self.U0 = self.html.d.idx[('U', '0')]
            self.Uok = self.html.d.idx[('U', 'ok')]
        self.udacc = {i for i, n in enumerate(dfa.URLD.names) if dfa.url_accept(n)}
        self.udok = dfa.URLD.idx['ok']
        self.facts = []           # z3 exprs
        self.owned = {}           # ast id -> [fact index]
        self.keep = []            # keep asts alive
        self.struct = {}          # ast id -> structure
        self.extra = {}
        self.starts_at = {}
        self.links, self.links_at = {}, 0
        self.hooks = {}
        self.events, self.merged, self.nevent = {}, {}, 0
        self.poss = {}           # ast id -> [rules]
        self.done = set()         # instantiated observer keys
        self.litmap = {}
        self.littext = {}
        self.classes = {}
        self.nfresh = 0
        self.lits = list(lits)    # literals of the program (for prefix rules)
        self.elems = ()
        self.subterm_cache = {}
        n = lambda ch: exact('no_%02x' % ord(ch), ALLC - {ord(ch)})
        for ch in '<">&:':
            c = n(ch)
            self.classes[c.name] = c
        self.NOLT, self.NOQ, self.NOAMP, self.NOCOL = (self.classes['no_%02x' % ord(x)] for x in '<"&:')
        self.SCHEME = self.reg(exact('scheme', dfa.SCHEME))
        self.NOCTL = self.reg(exact('noctl', {c for c in CHARS if c >= 33 and c != 127}))
        self.ASCII = self.reg(exact('ascii', {c for c in CHARS if c < 128}))
        self.WS = self.reg(Cls('ws', HTMLW, HTMLW | {OTHER}))
        self.HASH = self.reg(exact('hash', {ord('#')}))
        self.spec_classes = list(self.classes.values())

    # ------------------------------------------------------------------ basics
    def reg(self, c):
        return self.classes.setdefault(c.name, c)

    def cls_of(self, must, may):
        must, may = frozenset(must), frozenset(may)
        for c in self.classes.values():
            if c.must == must and c.may == may:
                return c
        if must == may and len(ALLC - must) == 1:
            (x,) = ALLC - must
            nm = 'no_%02x' % x
        else:
            nm = 'c%d' % len(self.classes)
        return self.reg(Cls(nm, must, may))

    def no(self, ch):
        return self.cls_of(ALLC - {ord(ch) if ord(ch) < 128 else OTHER}, ALLC - ({ord(ch)} if ord(ch) < 128 else set()))

    def fact(self, e, *owners):
        if e is True or (z3.is_expr(e) and z3.is_true(e)):
            return
        k = len(self.facts)
        self.facts.append(e)
        for o in owners:
            self.owned.setdefault(o.get_id(), []).append(k)
            self.keep.append(o)

    def fresh(self, sort, hint):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def fresh_s(self, hint='s'):
        t = self.fresh(S, hint)
        self.keep.append(t)
        return t

    def st(self, t):
        return self.struct.get(t.get_id())

    def setst(self, t, st):
        self.struct.setdefault(t.get_id(), st)
        self.keep.append(t)
        self.keep.append(st)

    def once(self, *key):
        if key in self.done:
            return False
        self.done.add(key)
        return True

    # ------------------------------------------------------------------ term constructors
    def lit(self, text):
        t = self.litmap.get(text)
        if t is None:
            t = z3.Const('lit%d_%s' % (len(self.litmap), ''.join(c for c in text if c.isalnum())[:12]), S)
            self.litmap[text] = t
            self.littext[t.get_id()] = text
            self.setst(t, ('lit', text))
            self.fact(sid_f(t) == len(self.litmap), t)
            self.fact(slen_f(t) == len(text.encode()), t)
            if text == '':
                pass
        return t

    def text(self, t):
        return self.littext.get(t.get_id())

    def cat(self, a, b):
        ta, tb = self.text(a), self.text(b)
        if ta is not None and tb is not None:
            return self.lit(ta + tb)
        if tb == '':
            return a
        if ta == '':
            return b
        sa = self.st(a)
        if tb is not None and sa and sa[0] == 'cat' and self.text(sa[2]) is not None:
            return self.cat(sa[1], self.lit(self.text(sa[2]) + tb))
        t = cat_f(a, b)
        self.setst(t, ('cat', a, b))
        return t

    def merge_s(self, conds, vals, hint='m'):
        """conds: list of z3 bools (last one is the default)"""
        e = vals[-1]
        for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
            e = z3.If(c, v, e)
        t = self.fresh(S, hint)
        self.setst(t, ('ite', tuple(conds), tuple(vals)))
        self.fact(t == e, t)
        return t

    def ite_lift(self, t, conds, vals, f):
        """fact: f(t) == ite chain of f(vals)"""
        e = f(vals[-1])
        for c, v in reversed(list(zip(conds[:-1], vals[:-1]))):
            e = z3.If(c, f(v), e)
        return e

    def sub(self, s, i, j):
        if isinstance(i, int) and isinstance(j, int) and self.text(s) is not None:
            b = self.text(s).encode()
            if 0 <= i <= j <= len(b):
                try:
                    return self.lit(b[i:j].decode())
                except UnicodeDecodeError:
                    pass
        st = self.st(s)
        if st and st[0] == 'sub':
            return self.sub(st[1], st[2] + i if not (isinstance(i, int) and i == 0) else st[2],
                            st[2] + j if not (isinstance(st[2], int) and st[2] == 0) else j)
        zi, zj = z3.simplify(toi(i)), z3.simplify(toi(j))
        t = sub_f(s, zi, zj)
        if self.once('sub', t.get_id()):
            self.setst(t, ('sub', s, zi, zj))
            self.keep += [zi, zj]
            if self.light:
                return t
            self.fact(z3.Implies(z3.And(0 <= zi, zi <= zj, zj <= self.slen(s)), slen_f(t) == zj - zi), t)
            self.fact(z3.Implies(z3.And(zi == 0, zj == self.slen(s)), t == s), t)
            self.fact(z3.Implies(zi == zj, t == self.lit('')), t)
        return t

    # ------------------------------------------------------------------ observers
    def slen(self, s):
        tx = self.text(s)
        if tx is not None:
            return z3.IntVal(len(tx.encode()))
        t = slen_f(s)
        if self.once('slen', s.get_id()):
            self.keep.append(t)
            if self.light:
                return t
            self.fact(z3.And(t >= 0, t <= MAXLEN), t)
            self.fact((t == 0) == (s == self.lit('')), t)
            st = self.st(s)
            if st:
                if st[0] == 'cat':
                    self.fact(t == self.slen(st[1]) + self.slen(st[2]), t)
                elif st[0] == 'ite':
                    self.fact(t == self.ite_lift(s, st[1], st[2], self.slen), t)
                elif st[0] == 'chr':
                    self.fact(z3.And(t >= 1, t <= 4), t)
                elif st[0] == 'lower':
                    pass
        return t

    def allin(self, c, s):
        tx = self.text(s)
        if tx is not None:
            sy = {sym(x) for x in tx}
            if sy <= c.must:
                return z3.BoolVal(True)
            if not sy <= c.may:
                return z3.BoolVal(False)
        t = c.f(s)
        if not self.once('allin', c.name, s.get_id()):
            return t
        self.keep.append(t)
        if self.light:
            return t
        if c in self.spec_classes or True:
            for d in self.spec_classes:
                if d is not c and c.may <= d.must and c not in self.spec_classes:
                    self.fact(z3.Implies(t, self.allin(d, s)), t, d.f(s))
            for d in list(self.classes.values()):
                if d is c or ('allin', d.name, s.get_id()) not in self.done:
                    continue
                if d.may <= c.must:
                    self.fact(z3.Implies(d.f(s), t), t)
                if c.may <= d.must:
                    self.fact(z3.Implies(t, d.f(s)), d.f(s))
            self.meets(c, s)
        st = self.st(s)
        for r in self.extra.get(s.get_id(), ()):
            if r[0] == 'allin' and r[1].may <= c.must:
                self.fact(z3.Implies(r[2], t), t)
        if not st:
            return t
        k = st[0]
        if k == 'cat':
            self.fact(t == z3.And(self.allin(c, st[1]), self.allin(c, st[2])), t)
        elif k == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.allin(c, v)), t)
        elif k == 'sub':
            self.fact(z3.Implies(self.allin(c, st[1]), t), t)
        elif k == 'chr':
            x = st[1]
            if isinstance(x, int):
                self.fact(t == (sym(chr(x)) in c.must), t)
            else:
                self.fact(z3.Implies(member(x, c.must), t), t)
                self.fact(z3.Implies(t, member(x, c.may)), t)
        elif k == 'int':
            dg = set(map(ord, '0123456789'))
            if dg <= c.must:
                if st[2] or ord('-') in c.must:
                    self.fact(t, t)
        elif k == 'rep':
            src, pat, rep = st[1], st[2], st[3]
            if len(pat) == 1:
                p = sym(pat)
                rs = {sym(x) for x in rep}
                if rs <= c.must:
                    if c.must | {p} == ALLC and (p != OTHER):
                        self.fact(t, t)
                    elif p in c.must:
                        self.fact(z3.Implies(self.allin(c, src), t), t)
                    elif p != OTHER:
                        d = self.cls_of(c.must | {p}, c.must | {p})
                        self.fact(z3.Implies(self.allin(d, src), t), t)
                    else:
                        self.fact(z3.Implies(self.allin(c, src), t), t)
                elif p in c.must:
                    pass
                if p not in c.may and c.must == c.may:
                    pass
                # nothing is added outside c other than through rep: converse
                if p in c.may or p == OTHER:
                    pass
            else:
                rs = {sym(x) for x in rep}
                if rs <= c.must:
                    self.fact(z3.Implies(self.allin(c, src), t), t)
        elif k == 'repcls':                      # every char of class replaced by rep
            src, cl, rep = st[1], st[2], st[3]
            rs = {sym(x) for x in rep}
            if rs <= c.must:
                if (c.must | cl.must) == ALLC:
                    self.fact(t, t)
                else:
                    self.fact(z3.Implies(self.allin(c, src), t), t)
        elif k == 'lower':
            src = st[1]
            low = {x for x in CHARS if x < 128 and sym(chr(x).lower()) in c.must}
            if OTHER in c.must:
                low.add(OTHER)
            if low >= c.must:
                self.fact(z3.Implies(self.allin(c, src), t), t)
        elif k == 'splitel':
            self.fact(z3.Implies(self.allin(c, st[1]), t), t)
            pat = st[2]
            if pat is not None and len(pat) == 1 and c.must >= ALLC - {sym(pat)} and sym(pat) != OTHER:
                self.fact(t, t)
        elif k == 'join':
            pass
        return t

    def meets(self, c, s):
        """classes that together imply another one"""
        have = [d for d in self.classes.values() if ('allin', d.name, s.get_id()) in self.done]
        if len(have) < 3 or len(have) > 12:
            return
        for tgt in have:
            if tgt is not c and tgt not in self.spec_classes:
                continue
            for n in (2, 3):
                for g in itertools.combinations([d for d in have if d is not tgt and not d.may <= tgt.must], n):
                    if tgt is not c and c not in g:
                        continue
                    if frozenset.intersection(*[frozenset(d.may) for d in g]) <= tgt.must and self.once('meet', tgt.name, tuple(d.name for d in g), s.get_id()):
                        self.fact(z3.Implies(z3.And([d.f(s) for d in g]), tgt.f(s)), tgt.f(s))

    # scanner state after reading s from state q (q: int)
    def tr(self, s, q):
        tx = self.text(s)
        if tx is not None and isinstance(q, int):
            return z3.IntVal(self.html.d.run(q, tx))
        if not isinstance(q, int):
            q = z3.simplify(q)
            if z3.is_int_value(q):
                return self.tr(s, q.as_long())
        if isinstance(q, int):
            t = tr_f(s, z3.IntVal(q))
            if not self.once('tr', s.get_id(), q):
                return t
            self.keep.append(t)
            if q == self.BAD:
                self.fact(t == q, t)
                return t
            if q == self.T:
                self.fact(z3.Implies(self.allin(self.NOLT, s), t == q), t)
            elif q == self.Q or (self.policy and q == self.Uok):
                self.fact(z3.Implies(self.allin(self.NOQ, s), t == q), t)
            elif self.policy and q == self.U0:
                self.fact(z3.Implies(self.allin(self.SCHEME, s), self.scheme_range(s, t)), t)
                L = self.lower(s)
                j10, d4 = self.html.d.idx[('U', 'j10')], self.html.d.idx[('U', 'd4')]
                self.fact(z3.Implies(self.allin(self.SCHEME, s), z3.And(
                    (t == j10) == (L == self.lit('javascript')), (t == d4) == (L == self.lit('data')))), t)
                self.fact(z3.Implies(z3.And(self.allin(self.NOQ, s), self.allin(self.NOAMP, s), self.ud_acc(s)),
                                     self.u_acc(t)), t)
            elif self.policy and q in self.ustates and self.ustates[q] == 'd5':
                self.fact(z3.Implies(z3.And(self.allin(self.NOQ, s), self.starts(s, self.lit('image/'))), t == self.Uok), t)
            self.tr_struct(s, q, t)
            return t
        # symbolic state: case split over plausible states
        t = tr_f(s, q)
        if not self.once('trs', s.get_id(), q.get_id()):
            return t
        self.keep.append(t)
        self.keep.append(q)
        if tx is not None:
            states = [self.T, self.Q] + list(self.ustates)
            hint = self.poss.get(q.get_id(), set())
            states += sorted(hint - set(states))
            by = {}
            for x in states:
                by.setdefault(self.html.d.run(x, tx), []).append(x)
            self.poss[t.get_id()] = {self.html.d.run(x, tx) for x in (hint or [self.T, self.Q])} - {self.BAD}
            for y, xs in by.items():
                self.fact(z3.Implies(z3.Or([q == x for x in xs]), t == y), t)
            self.fact(z3.Implies(q == self.BAD, t == self.BAD), t)
        else:
            states = [self.T, self.Q] + ([self.Uok, self.U0, self.html.d.idx[('U', 'd5')]] if self.policy else [])
            st = self.st(s)
            res = set()
            if st and st[0] in ('int', 'chr', 'cat'):
                hint = self.poss.get(q.get_id(), set())
                states += sorted(hint - set(states))
                for x in hint or states:
                    res |= self.poss.get(self.tr(s, x).get_id(), set())
                if res:
                    self.poss[t.get_id()] = res
            for x in states:
                self.fact(z3.Implies(q == x, t == self.tr(s, x)), t)
        return t

    def scheme_range(self, s, t):
        ids = [i for i, n in self.ustates.items() if isinstance(n, str) and (n in ('0', 'm') or n[0] in 'jd' and n not in ('d5', 'dc'))]
        return z3.Or([t == i for i in ids])

    def u_acc(self, t):
        return z3.Or([t == i for i in sorted(self.uacc)])

    def tr_struct(self, s, q, t):
        st = self.st(s)
        for r in self.extra.get(s.get_id(), ()):
            self.tr_extra(s, q, t, r)
        if not st:
            return
        k = st[0]
        if k == 'cat':
            v = self.tr(st[2], self.tr(st[1], q))
            self.fact(t == v, t)
            r = {v.as_long()} if z3.is_int_value(v) else self.poss.get(v.get_id())
            if r:
                self.poss[t.get_id()] = r
        elif k == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.tr(v, q)), t)
        elif k == 'chr':
            x = st[1]
            if isinstance(x, int):
                self.fact(t == self.html.d.step(q, x), t)
            else:
                by = {}
                for c in CHARS:
                    by.setdefault(self.html.d.step(q, c), set()).add(c)
                for y, cs in by.items():
                    self.fact(z3.Implies(member(x, cs), t == y), t)
        elif k == 'int':
            n = st[1]
            self.poss[t.get_id()] = {self.html.d.run(q, str(d)) for d in range(10)} - {self.BAD}
            if isinstance(n, int):
                self.fact(t == self.html.d.run(q, str(n)), t)
            else:
                for d in range(0, 10):
                    self.fact(z3.Implies(n == d, t == self.html.d.run(q, str(d))), t)
        elif k == 'rep':
            src, pat, rep = st[1], st[2], st[3]
            d = self.html.d
            if self.policy and q == self.U0 and len(pat) == 1:
                # from the raw-URL scanner / from the attribute scanner through the replacement
                for src_dfa, acc, start, obs in ((dfa.URLD, self.udacc, dfa.URLD.idx['0'], 'ud'), (d, self.uacc, self.U0, 'u')):
                    ok_noq = self.product(src_dfa, start, acc, d, q, self.uacc, pat, rep, {ord('"')} - {sym(pat)})
                    if ok_noq:
                        pre = self.ud_acc(src) if obs == 'ud' else self.u_acc(self.tr(src, q))
                        self.fact(z3.Implies(z3.And(pre, self.allin(self.NOQ, src) if sym(pat) != ord('"') else True), self.u_acc(t)), t)
            # same effect from every state reachable: state preserved
            if all(d.run(x, pat) == d.run(x, rep) for x in range(d.n)):
                self.fact(t == self.tr(src, q), t)
            elif pat and all(d.run(x, pat) == d.run(x, rep) or d.run(x, pat) == self.BAD for x in range(d.n)):
                self.fact(z3.Implies(self.tr(src, q) != self.BAD, t == self.tr(src, q)), t)

    def product(self, d1, s1, a1, d2, s2, a2, pat, rep, forbidden):
        key = ('prod', id(d1), s1, id(d2), s2, pat, rep, frozenset(forbidden), frozenset(a1), frozenset(a2))
        r = self.subterm_cache.get(key)
        if r is not None:
            return r
        p = sym(pat)
        seen, todo = {(s1, s2)}, [(s1, s2)]
        ok = True
        while todo and ok:
            a, b = todo.pop()
            if a in a1 and b not in a2:
                ok = False
            for c in CHARS:
                if c in forbidden:
                    continue
                na = d1.step(a, c)
                nbs = [d2.run(b, rep)] if c == p else [d2.step(b, c)]
                if c == p and p == OTHER:
                    nbs.append(d2.step(b, c))
                for nb in nbs:
                    if (na, nb) not in seen:
                        seen.add((na, nb))
                        todo.append((na, nb))
        self.subterm_cache[key] = ok
        return ok

    def tr_extra(self, s, q, t, r):
        d = self.html.d
        if r[0] == 'pre':                # src = L ++ s under cond
            _, src, L, cond = r
            cand = [x for x in (self.T, self.Q, self.U0) if x is not None and d.run(x, L) == q]
            for x in cand:
                self.fact(z3.Implies(cond, t == self.tr(src, x)), t)
        elif r[0] == 'suf':              # src = s ++ L under cond
            _, src, L, cond = r
            ts = self.tr(src, q)
            for y in (self.T, self.Q):
                pre = [x for x in range(d.n) if d.run(x, L) == y]
                self.fact(z3.Implies(z3.And(cond, ts == y), z3.Or([t == x for x in pre])), t)
            self.fact(z3.Implies(cond, self.tr(self.lit(L), t) == ts), t)
        elif r[0] == 'trimS':            # src = w ++ s, w over class cls
            _, src, cls, cond = r
            reach = d.closure(q, lambda c: c in cls.may)
            if reach == {q}:
                self.fact(z3.Implies(cond, t == self.tr(src, q)), t)
        elif r[0] == 'trimE':            # src = s ++ w, w over class cls
            _, src, cls, cond = r
            ts = self.tr(src, q)
            for y in (self.T, self.Q):
                pre = [x for x in range(d.n) if y in d.closure(x, lambda c: c in cls.may)]
                if len(pre) < 40:
                    self.fact(z3.Implies(z3.And(cond, ts == y), z3.Or([t == x for x in pre])), t)

    # raw URL scanner
    def ud_acc(self, s):
        t = self.ud(s)
        return z3.Or([t == i for i in sorted(self.udacc)])

    def ud(self, s):
        tx = self.text(s)
        if tx is not None:
            return z3.IntVal(dfa.URLD.run(0, tx))
        t = ud_f(s)
        if not self.once('ud', s.get_id()):
            return t
        self.keep.append(t)
        # no colon: never rejected; colon at 0; non-scheme character before the first colon
        k = self.find(s, self.lit(':'))
        acc = z3.Or([t == i for i in sorted(self.udacc)])
        self.fact(z3.Implies(z3.And(k < 0, self.allin(self.NOCTL, s)), acc), t)
        self.fact(z3.Implies(k == 0, t == self.udok), t)
        p0 = self.sub(s, 0, k)
        self.fact(z3.Implies(z3.And(k > 0, self.allin(self.NOCTL, s), z3.Not(self.allin(self.SCHEME, p0))), t == self.udok), t)
        # scheme form: p0 ':' rest
        L = self.lower(p0)
        rest = self.sub(s, k + 1, self.slen(s))
        self.fact(z3.Implies(z3.And(k > 0, self.allin(self.SCHEME, p0), L != self.lit('javascript'), z3.Or(L != self.lit('data'), self.starts(rest, self.lit('image/')))), t == self.udok), t)
        st = self.st(s)
        if st:
            if st[0] == 'ite':
                self.fact(t == self.ite_lift(s, st[1], st[2], self.ud), t)
            elif st[0] == 'rep' and len(st[2]) == 1:
                if self.product(dfa.URLD, 0, self.udacc, dfa.URLD, 0, self.udacc, st[2], st[3], set()):
                    self.fact(z3.Implies(self.ud_acc(st[1]), acc), t)
        return t

    def lower(self, s):
        tx = self.text(s)
        if tx is not None:
            return self.lit(tx.lower())
        t = lower_f(s)
        if self.once('lower', s.get_id()):
            self.setst(t, ('lower', s))
            st = self.st(s)
            if st and st[0] == 'ite':
                self.fact(t == self.ite_lift(s, st[1], st[2], self.lower), t)
        return t

    def starts(self, s, p):
        tx, tp = self.text(s), self.text(p)
        if tx is not None and tp is not None:
            return z3.BoolVal(tx.startswith(tp))
        t = starts_f(s, p)
        if not self.once('starts', s.get_id(), p.get_id()):
            return t
        self.keep.append(t)
        if self.light:
            return t
        self.fact(z3.Implies(t, self.slen(p) <= self.slen(s)), t)
        self.fact(z3.Implies(s == p, t), t)
        self.fact(z3.Implies(z3.And(t, self.slen(p) == self.slen(s)), s == p), t)
        ps = self.st(p)
        if ps and ps[0] == 'sub' and ps[1].get_id() == s.get_id():
            self.fact(z3.Implies(z3.And(ps[2] == 0, 0 <= ps[3], ps[3] <= self.slen(s)), t), t)
        if tp is not None:
            if tp == '':
                self.fact(t, t)
            for x in range(len(tp) + 1):
                self.fact(z3.Implies(t, self.bd(s, len(tp[:x].encode()))), t, bd_f(s, z3.IntVal(len(tp[:x].encode()))))
            for other in self.lits:
                if other != tp and other and tp.startswith(other) and ('starts', s.get_id(), self.lit(other).get_id()) in self.done:
                    self.fact(z3.Implies(t, starts_f(s, self.lit(other))), t)
                elif other != tp and other and other.startswith(tp) and ('starts', s.get_id(), self.lit(other).get_id()) in self.done:
                    self.fact(z3.Implies(starts_f(s, self.lit(other)), t), t)
            for r in self.extra.get(s.get_id(), ()):
                if r[0] == 'pre':          # src = L ++ s
                    _, src, L, cond = r
                    full = L + tp
                    if full in self.lits or True:
                        self.fact(z3.Implies(cond, t == self.starts(src, self.lit(full))), t)
            st = self.st(s)
            if st:
                if st[0] == 'rep' and len(st[2]) == 1 and st[2] not in tp and tp:
                    self.fact(z3.Implies(self.starts(st[1], p), t), t)
                elif st[0] == 'ite':
                    self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.starts(v, p)), t)
                elif st[0] == 'cat' and self.text(st[1]) is not None:
                    a = self.text(st[1])
                    if a.startswith(tp):
                        self.fact(t, t)
                    elif not tp.startswith(a):
                        self.fact(z3.Not(t), t)
                    else:
                        self.fact(t == self.starts(st[2], self.lit(tp[len(a):])), t)
                elif st[0] == 'cat':
                    self.fact(z3.Implies(self.starts(st[1], p), t), t)
                elif st[0] == 'sub':
                    src, i, j = st[1], st[2], st[3]
                    self.fact(z3.Implies(z3.And(i == 0, j == self.slen(src)), t == starts_f(src, p)), t)
                    # a literal at i is followed by its own suffix further right
                    reg = self.starts_at.setdefault(src.get_id(), [])
                    for i2, j2, tp2, t2 in reg:
                        for (ia, ja, ta, a), (ib, jb, tb, b) in (((i, j, tp, t), (i2, j2, tp2, t2)), ((i2, j2, tp2, t2), (i, j, tp, t))):
                            if tb and len(ta) > len(tb) and ta.endswith(tb):
                                n = len(ta[:-len(tb)].encode())
                                self.fact(z3.Implies(z3.And(a, ib == ia + n, ja == jb), b), b)
                    reg.append((i, j, tp, t))
        return t

    def ends(self, s, p):
        tx, tp = self.text(s), self.text(p)
        if tx is not None and tp is not None:
            return z3.BoolVal(tx.endswith(tp))
        t = ends_f(s, p)
        if not self.once('ends', s.get_id(), p.get_id()):
            return t
        self.keep.append(t)
        if self.light:
            return t
        self.fact(z3.Implies(t, self.slen(p) <= self.slen(s)), t)
        self.fact(z3.Implies(s == p, t), t)
        if tp == '':
            self.fact(t, t)
        self.fact(z3.Implies(z3.And(t, self.slen(p) == self.slen(s)), s == p), t)
        self.fact(z3.Implies(t, self.bd(s, self.slen(s) - self.slen(p))), t)
        st = self.st(s)
        if st and st[0] == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.ends(v, p)), t)
        return t

    def bd(self, s, i):
        zi = z3.simplify(toi(i))
        tx = self.text(s)
        if tx is not None and z3.is_int_value(zi):
            b = tx.encode()
            k = zi.as_long()
            return z3.BoolVal(0 <= k <= len(b) and (k == len(b) or (b[k] & 0xC0) != 0x80))
        t = bd_f(s, zi)
        if not self.once('bd', s.get_id(), zi.get_id()):
            return t
        self.keep.append(t)
        self.keep.append(zi)
        if self.light:
            return t
        self.keep.append(zi)
        self.fact(z3.Implies(zi == 0, t), t)
        self.fact(z3.Implies(zi == self.slen(s), t), t)
        self.fact(z3.Implies(z3.Or(zi > self.slen(s), zi < 0), z3.Not(t)), t)
        st = self.st(s)
        if st and st[0] == 'sub':
            src, a, b = st[1], st[2], st[3]
            ok = z3.And(0 <= a, a <= b, b <= self.slen(src), self.bd(src, a), self.bd(src, b))
            self.fact(z3.Implies(z3.And(ok, 0 <= zi, zi <= b - a), t == self.bd(src, a + zi)), t)
        elif st and st[0] == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.bd(v, i)), t)
        return t

    def bd_next(self, s, i):
        """UTF-8: after a boundary inside the string there is one within four bytes"""
        zi = z3.simplify(toi(i))
        if not self.light and self.once('bdn', s.get_id(), zi.get_id()):
            self.fact(z3.Implies(z3.And(self.bd(s, zi), zi < self.slen(s), zi >= 0),
                                 z3.Or([self.bd(s, zi + k) for k in range(1, 5)])), bd_f(s, z3.simplify(zi + 1)), bd_f(s, zi))

    def find(self, s, p):
        """byte offset of the first occurrence or -1"""
        tx, tp = self.text(s), self.text(p)
        if tx is not None and tp is not None:
            k = tx.find(tp)
            return z3.IntVal(k if k < 0 else len(tx[:k].encode()))
        t = find_f(s, p)
        if not self.once('find', s.get_id(), p.get_id()):
            return t
        self.keep.append(t)
        if self.light:
            return t
        self.fact(z3.And(t >= -1, z3.Implies(t >= 0, t + self.slen(p) <= self.slen(s))), t)
        self.fact(z3.Implies(t >= 0, z3.And(self.bd(s, t), self.bd(s, t + self.slen(p)))), t)
        if tp is not None and len(tp) == 1:
            c = self.no(tp)
            if c.must == c.may:
                self.fact((t < 0) == self.allin(c, s), t)
                self.fact(z3.Implies(t >= 0, self.allin(c, self.sub(s, 0, t))), t)
            else:
                self.fact(z3.Implies(self.allin(c, s), t < 0), t)
        if tp is not None and tp != '':
            for ch in set(tp):
                if len(tp) > 1 and ord(ch) < 128:
                    self.fact(z3.Implies(self.allin(self.no(ch), s), t < 0), t)
            self.fact(z3.Implies(self.starts(s, p), t == 0), t)
            self.fact(z3.Implies(t == 0, self.starts(s, p)), t)
            self.fact(z3.Implies(self.ends(s, p), t >= 0), t)
        st = self.st(s)
        if st and st[0] == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.find(v, p)), t)
        return t

    # escaping ghost
    def esc(self, s):
        """s may contain text that already went through HTML escaping"""
        tx = self.text(s)
        if tx is not None:
            return z3.BoolVal(any('&%s;' % e in tx for e in dfa.ENTS) or re.search('<[A-Za-z/!]', tx) is not None)
        t = esc_f(s)
        if not self.once('esc', s.get_id()):
            return t
        self.keep.append(t)
        for r in self.extra.get(s.get_id(), ()):
            if r[0] == 'esc':
                self.fact(t == r[1], t)
            elif r[0] == 'esc_if':
                self.fact(z3.Implies(t, tob(r[1])), t)
        st = self.st(s)
        if not st:
            return t
        k = st[0]
        if k == 'cat':
            self.fact(t == z3.Or(self.esc(st[1]), self.esc(st[2])), t)
        elif k == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], self.esc), t)
        elif k in ('sub', 'lower', 'splitel'):
            self.fact(z3.Implies(t, self.esc(st[1])), t)
        elif k in ('chr', 'int'):
            self.fact(z3.Not(t), t)
        elif k in ('rep', 'repcls'):
            rep = st[3]
            if any('&%s;' % e in rep for e in dfa.ENTS):
                self.fact(t, t)
            else:
                self.fact(t == self.esc(st[1]), t)
        return t

    # net number of opened tags of element k while reading s from state q
    def cnt(self, k, s, q):
        tx = self.text(s)
        if not isinstance(q, int):
            q = z3.simplify(q)
            if z3.is_int_value(q):
                q = q.as_long()
        if tx is not None and isinstance(q, int):
            return z3.IntVal(self.html.events(q, tx)[1].get(k, 0))
        f = z3.Function('cnt_' + k, S, I, I)
        t = f(s, z3.IntVal(q) if isinstance(q, int) else q)
        if not self.once('cnt', k, s.get_id(), q if isinstance(q, int) else ('s', q.get_id())):
            return t
        self.keep.append(t)
        if self.st(s) and self.st(s)[0] == 'int' and tx is None:
            # digits never complete a tag
            assert all(self.html.d.step(x, c) == x or self.html.names[x][0] not in 'NC' or self.html.names[self.html.d.step(x, c)][0] not in 'IST' for x in range(self.html.d.n) for c in range(48, 58))
            self.fact(t == 0, t)
            return t
        if not isinstance(q, int):
            self.keep.append(q)
            if tx is not None:
                for x in [self.T, self.Q] + [self.html.d.idx[(y, 'h%d' % n)] for y in 'NC' for n in range(1, 7)]:
                    self.fact(z3.Implies(q == x, t == self.html.events(x, tx)[1].get(k, 0)), t)
            else:
                for x in [self.T, self.Q]:
                    self.fact(z3.Implies(q == x, t == self.cnt(k, s, x)), t)
            return t
        if q == self.T:
            self.fact(z3.Implies(self.allin(self.NOLT, s), t == 0), t)
        elif q == self.Q:
            self.fact(z3.Implies(self.allin(self.NOQ, s), t == 0), t)
        d = self.html.d
        for r in self.extra.get(s.get_id(), ()):
            if r[0] == 'pre':
                _, src, L, cond = r
                for x in (self.T, self.Q):
                    if d.run(x, L) == q:
                        self.fact(z3.Implies(cond, self.cnt(k, src, x) == t + self.html.events(x, L)[1].get(k, 0)), t)
            elif r[0] == 'suf':
                _, src, L, cond = r
                self.fact(z3.Implies(z3.And(cond, self.tr(s, q) == self.T),
                                     self.cnt(k, src, q) == t + self.html.events(self.T, L)[1].get(k, 0)), t)
            elif r[0] in ('trimS', 'trimE'):
                _, src, cls, cond = r
                if r[0] == 'trimS' and d.closure(q, lambda c: c in cls.may) == {q} and '<' not in map(chr, [c for c in cls.may if c < 128]):
                    self.fact(z3.Implies(cond, self.cnt(k, src, q) == t), t)
                if r[0] == 'trimE' and not ({ord('<'), ord('>'), ord('/')} & cls.may):
                    self.fact(z3.Implies(z3.And(cond, self.tr(s, q) == self.T), self.cnt(k, src, q) == t), t)
        st = self.st(s)
        if not st:
            return t
        kd = st[0]
        if kd == 'cat':
            self.fact(t == self.cnt(k, st[1], q) + self.cnt(k, st[2], self.tr(st[1], q)), t)
        elif kd == 'ite':
            self.fact(t == self.ite_lift(s, st[1], st[2], lambda v: self.cnt(k, v, q)), t)
        elif kd == 'rep':
            src, pat, rep = st[1], st[2], st[3]
            if pat and all((d.run(x, pat) == d.run(x, rep) and self.html.events(x, pat) == self.html.events(x, rep)) or d.run(x, pat) == self.BAD for x in range(d.n)):
                self.fact(z3.Implies(self.tr(src, q) != self.BAD, t == self.cnt(k, src, q)), t)
        return t

    # ------------------------------------------------------------------ vectors
    def vlen(self, v):
        t = vlen_f(v)
        if self.once('vlen', v.get_id()):
            self.keep.append(t)
            self.fact(z3.And(t >= 0, t <= MAXLEN), t)
        return t

    # ------------------------------------------------------------------ slicing
    def subterms(self, e):
        i = e.get_id()
        r = self.subterm_cache.get(i)
        if r is None:
            r = self.raw_subterms(e.as_ast(), i)
            self.keep.append(e)
        return r

    def raw_subterms(self, ast, i):
        """ids of the subterms; straight on the C API, because this is most of the bookkeeping time"""
        ctx, cache = z3.main_ctx().ref(), self.subterm_cache
        out, todo = {i}, [ast]
        while todo:
            x = todo.pop()
            for n in range(NARGS(ctx, x)):
                c = ARG(ctx, x, n)
                k = IDOF(ctx, c)
                if k in out:
                    continue
                s = cache.get(k)
                if s is not None:
                    out |= s
                else:
                    out.add(k)
                    todo.append(c)
        r = cache[i] = frozenset(out)
        return r

    # ------------------------------------------------------------------ undoing merges
    def rebuild(self, e, sub):
        """e with the terms of sub (id -> replacement) replaced, going through the constructors so that facts exist"""
        memo = {}

        def rb(x):
            i = x.get_id()
            if i in sub:
                return sub[i]
            if i in memo:
                return memo[i]
            ids = self.subterms(x)
            if not any(k in ids for k in sub):
                memo[i] = x
                return x
            ch = [rb(c) for c in x.children()]
            d = x.decl()
            r = None
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n == 'tr':
                    r = self.tr(ch[0], ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1])
                elif n.startswith('cnt_'):
                    r = self.cnt(n[4:], ch[0], ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1])
                elif n.startswith('allin_') and n[6:] in self.classes:
                    r = self.allin(self.classes[n[6:]], ch[0])
                elif n in ('slen', 'esc', 'ud', 'lower', 'vlen'):
                    r = getattr(self, n)(ch[0])
                elif n in ('starts', 'ends', 'bd', 'find'):
                    r = getattr(self, n)(ch[0], ch[1])
                elif n == 'sub':
                    r = self.sub(*ch)
                elif n == 'cat':
                    r = self.cat(*ch)
                elif n in self.hooks:
                    r = self.hooks[n](*ch)
            if r is None:
                r = d(*ch)
            memo[i] = r
            self.keep.append(r)
            return r
        return rb(e)

    def unmerge(self, path, conds):
        """-> None or [(path_i, conds_i)]: the last control-flow join the conditions depend on, undone"""
        ids = set()
        for c in conds:
            ids |= self.subterms(c)
        best = None
        for i in ids:
            m = self.merged.get(i)
            if m is not None and (best is None or m[0] > best):
                best = m[0]
        if best is None:
            return None
        mp, paths = self.events[best]
        n = len(mp)
        if len(path) < n or any(a.get_id() != b.get_id() for a, b in zip(path, mp)):
            return None
        mine = [self.merged[i] for i in ids if i in self.merged and self.merged[i][0] == best]
        out = []
        for k, p in enumerate(paths):
            sub = {t.get_id(): tox(vals[k], t) for _, t, vals in mine}
            out.append((tuple(p) + tuple(path[n:]), [self.rebuild(c, sub) for c in conds]))
        return out

    def cone(self, goals):
        seen, todo, facts = set(), [], set()
        owned, links = self.owned, self.links
        if self.links_at != len(owned):
            self.links_at = len(owned)
            links.clear()
        for g in goals:
            todo.extend(x for x in self.subterms(g) if x in owned)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for k in owned[x]:
                if k not in facts:
                    facts.add(k)
                    l = links.get(k)
                    if l is None:
                        l = links[k] = tuple(y for y in self.subterms(self.facts[k]) if y in owned)
                    for y in l:
                        if y not in seen:
                            todo.append(y)
        return [self.facts[k] for k in sorted(facts)]


def tox(v, t):
    if z3.is_expr(v):
        return v
    return tob(v) if z3.is_bool(t) else toi(v)


def sym(ch):
    o = ord(ch)
    return o if o < 128 else OTHER


def member(x, cs):
    """x (int term) is a character whose symbol is in cs"""
    cs = set(cs)
    inv = False
    if len(cs) > 64:
        inv, cs = True, set(CHARS) - cs
    parts = []
    a = sorted(c for c in cs if c < 128)
    i = 0
    while i < len(a):
        j = i
        while j + 1 < len(a) and a[j + 1] == a[j] + 1:
            j += 1
        parts.append(x == a[i] if i == j else z3.And(x >= a[i], x <= a[j]))
        i = j + 1
    if OTHER in cs:
        parts.append(x >= 128)
    r = z3.Or(parts) if parts else z3.BoolVal(False)
    return z3.Not(r) if inv else r


def toi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
