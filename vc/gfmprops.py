"""Properties of the renderer crate, as obligations over contracts of its functions."""
import time
import z3
import dfa
import theory as th
from theory import toi, tob
from contracts import CallGraph, Contract
from engine import Engine, Obligation, Unsupported, VLazy, is_s, conc, VEnum, VVec, VAgg
from solve import Discharge
import models as mo

ENTRY = 'Parser::render'
MODULAR = 90


class Run:
    def __init__(self, prog, crate, modes, policy=False, log=None, spec=None, setup=None, timeout=20.0, budget=600.0, modular=None):
        self.prog, self.crate, self.log = prog, crate, log or (lambda *a: None)
        self.modes, self.policy, self.spec, self.setup = modes, policy, spec, setup
        self.timeout, self.budget = timeout, budget
        self.G = CallGraph(prog)
        if ENTRY not in self.G.body:
            raise Unsupported('entry point %s not found' % ENTRY)
        self.cuts = self.G.cuts(ENTRY)
        if modular:
            self.cuts = self.G.modular(ENTRY, self.cuts, modular)
        self.cuts = sorted(self.cuts)
        self.covers = []

    def generate(self):
        t = time.time()
        E = self.E = Engine(self.prog, self.crate, self.modes, self.policy)
        E.unit, E.edges, E.recargs = None, [], []
        if self.setup:
            self.setup(E, self)
        self.modcache, self.stablecache = {}, {}
        frames = self.frames()
        E.modcache, E.stablecache = self.modcache, self.stablecache
        self.log('frames after %.1fs' % (time.time() - t))
        for f in self.cuts:
            E.contracts[f] = Contract(E, self.G.body[f], frames.get(f))
        entry = E.contracts.get(ENTRY) or Contract(E, self.G.body[ENTRY])
        if ENTRY not in self.cuts:
            entry.pre, entry.post = [], []
        else:
            # callers outside the crate may pass anything
            d = entry.dummy('any')
            for c, f in entry.pre:
                c.need.append(((), f(d), 'public entry point'))
        self.goals = []
        for f in self.cuts:
            if f != ENTRY:
                r = E.contracts[f].verify(lambda E, vals, p, s, c: self.unit_spec(E, vals, p, s, c))
                if r:
                    self.covers.append((f, r[1]))
        r = entry.verify(lambda E, vals, p, s, c: self.entry_spec(E, vals, p, s, c), self.assume)
        if r:
            self.covers.append((ENTRY, r[1]))
        self.gen_s = time.time() - t
        self.log('discarded %d' % E.discarded)
        self.log('generated %d obligations, %d candidate clauses, %d facts in %.1fs' % (len(E.obs), len(E.cands), len(E.th.facts), self.gen_s))

    def frames(self):
        """fields of &mut parameters a cut function writes: least fixpoint, checked again when the unit is verified"""
        mut = [f for f in self.cuts if any(t[0] == 'ref' and t[1] for _, t in self.G.body[f].params)]
        fr = {f: {} for f in mut}
        for _ in range(12):
            changed = False
            for f in mut:
                E = Engine(self.prog, self.crate, {'struct'}, False)
                E.unit, E.edges, E.recargs = None, [], []
                for g in self.cuts:
                    E.contracts[g] = Contract(E, self.G.body[g], fr.get(g))
                E.modcache, E.stablecache = self.modcache, self.stablecache
                c = Contract(E, self.G.body[f], None)
                c.verify()
                new = {i: set(fr[f].get(i, ())) | w for i, w in c.written.items()}
                new = {i: {p for p in w if not any(len(q) < len(p) and p[:len(q)] == q for q in w)} for i, w in new.items()}
                if new != fr[f]:
                    fr[f] = new
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('frames do not stabilise')
        E = Engine(self.prog, self.crate, {'struct'}, False)
        E.unit, E.edges, E.recargs = None, [], []
        E.modcache, E.stablecache = self.modcache, self.stablecache
        for f in self.cuts:
            E.contracts[f] = Contract(E, self.G.body[f], fr.get(f))
        for f in self.cuts:
            E.contracts[f].verify()
        if ENTRY not in self.cuts:
            Contract(E, self.G.body[ENTRY]).verify()
        return fr

    def assume(self, E, vals):
        if self.spec and hasattr(self.spec, 'assume'):
            self.spec.assume(E, vals)

    def unit_spec(self, E, vals, p, s, c):
        if self.spec and hasattr(self.spec, 'unit'):
            self.spec.unit(E, vals, p, s, c, self)

    def entry_spec(self, E, vals, p, s, c):
        if self.spec:
            self.spec.entry(E, vals, p, s, c, self)

    def goal(self, path, cond, desc, loc=ENTRY, kind='property', alts=None):
        o = Obligation(kind, path, cond, desc, loc)
        if alts is not None:
            o.alts = alts
        self.goals.append(o)
        return o

    def discharge(self):
        self.D = Discharge(self.E, self.timeout, self.budget, self.log)
        self.D.houdini()
        return self.D

    def cover(self):
        """vacuity guard: the end of every unit is reachable under its assumptions"""
        bad = []
        obs = [Obligation('cover', p, False, 'end of %s is unreachable' % f, f) for f, p in self.covers]
        self.D.prove_all(obs)
        for o in obs:
            if o.status == 'proved':
                bad.append(o.loc)
        self.ncover = len(obs)
        return bad


class Tr:
    """C01 / C02: the result drives the scanner from T to T"""
    def entry(self, E, vals, p, s, c, run):
        r = E.force(vals['r'])
        run.goal(p, E.th.tr(r, E.th.T) == E.th.T, 'the rendered HTML stays within the output grammar')


class Cnt:
    def entry(self, E, vals, p, s, c, run):
        r = E.force(vals['r'])
        for k in dfa.COUNTED:
            run.goal(p, E.th.cnt(k, r, E.th.T) == 0, 'as many </%s> as <%s> tags' % (k, k))
        run.goal(p, E.th.tr(r, E.th.T) == E.th.T, 'the rendered HTML stays within the output grammar')


class Esc:
    def assume(self, E, vals):
        # the document is the text that counts as not escaped yet
        for t in E.leaf_terms([vals['p0']], 4):
            if z3.is_expr(t) and t.sort() == th.S:
                E.th.fact(z3.Not(E.th.esc(t)), t)

    def entry(self, E, vals, p, s, c, run):
        pass


class Panic:
    def entry(self, E, vals, p, s, c, run):
        pass


def run_property(pid, prog, crate, log=None, timeout=20.0, budget=600.0):
    """-> (run, obligations)"""
    if pid == 'C03':
        R = Run(prog, crate, {'panic'}, False, log, Panic(), None, timeout, budget)
        R.generate()
        R.discharge()
        obs = [o for o in R.E.obs if o.kind == 'panic']
        R.D.prove_all(obs)
    elif pid in ('C01', 'C02'):
        R = Run(prog, crate, {'tr'}, pid == 'C02', log, Tr(), None, timeout, budget, MODULAR)
        R.generate()
        R.discharge()
        obs = R.goals
        R.D.prove_all(obs)
    elif pid in ('C05', 'C07'):
        dfa.COUNTED[:] = ['h1', 'h2', 'h3', 'h4', 'h5', 'h6'] if pid == 'C07' else dfa.ELEMENTS
        R = Run(prog, crate, {'tr', 'cnt'}, False, log, Cnt(), None, timeout, budget, MODULAR)
        R.generate()
        R.discharge()
        obs = R.goals
        R.D.prove_all(obs)
    elif pid == 'C06':
        def setup(E, R):
            def pre(E, fields):
                pass
        R = Run(prog, crate, {'esc'}, False, log, Esc(), None, timeout, budget, MODULAR)
        R.generate()
        for src, path, where in R.E.models.reps:
            R.goal(path, z3.Not(R.E.th.esc(src)), 'text is escaped only once', where)
        R.discharge()
        obs = R.goals
        R.D.prove_all(obs)
    else:
        raise KeyError(pid)
    return R, obs
