"""Discharging: greatest set of candidate clauses that is inductive (Houdini), then the obligations.

Every query is  facts(cone of influence) and alive candidate literals and path and not cond  |-  unsat.
"""
import os
import pickle
import signal
import sys
import time
import traceback
import z3
from theory import tob, S, V
import theory as th

RATE = 3000000
CHUNK = 8
MAXCASES = 240
NPROC = min(8, os.cpu_count() or 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.rounds = 0
        self.undone = 0


def lits_in(T, e, byid):
    return [byid[i] for i in T.subterms(e) if i in byid]


class Group:
    """obligations that share a path"""
    def __init__(self, path):
        self.path = path
        self.items = []        # (tag, cond, loc)
        self.cases = {}
        self.cone = None


def solver(timeout):
    s = z3.Solver()
    # a deterministic budget (about `timeout` seconds of an idle core); the wall clock only guards against runaways
    s.set('rlimit', int(timeout * RATE))
    s.set('timeout', int(timeout * 6000))
    s.set('random_seed', 1)
    return s


class Discharge:
    def __init__(self, eng, timeout=20.0, budget=600.0, log=None):
        self.E, self.T = eng, eng.th
        eng.models.install_hooks()
        self.timeout = timeout
        self.first = min(timeout, 3.0)
        self.t0 = time.time()
        self.budget = budget
        self.st = Stats()
        self.log = log or (lambda *a: None)
        self.byid = {c.lit.get_id(): k for k, c in enumerate(eng.cands)}
        self.alive = [c.alive for c in eng.cands]
        self.result = {}

    # -------------------------------------------------------------- groups
    def groups(self):
        gs = {}
        for k, c in enumerate(self.E.cands):
            if not self.alive[k]:
                continue
            for path, cond, loc in c.need:
                if cond is True or z3.is_expr(cond) and z3.is_true(cond):
                    continue
                key = tuple(x.get_id() for x in path)
                g = gs.get(key)
                if g is None:
                    g = gs[key] = Group(path)
                g.items.append((k, tob(cond), loc))
        return list(gs.values())

    def houdini(self):
        gs = self.groups()
        # split big groups for parallelism
        out = []
        for g in gs:
            # computed before forking: the workers share it
            g.size = len(self.T.cone([tob(x) for x in g.path] + [c for _, c, _ in g.items]))
            chunk = CHUNK if g.size < 8000 else 2
            for i in range(0, len(g.items), chunk):
                h = Group(g.path)
                h.items = g.items[i:i + chunk]
                h.cone = self.T.cone([tob(x) for x in h.path] + [c for _, c, _ in h.items])
                h.size = len(h.cone)
                out.append(h)
        out.sort(key=lambda g: g.size, reverse=True)       # likely slow ones first
        gs = out
        self.log('houdini: %d candidates, %d groups' % (len(self.alive), len(gs)))
        used = {}           # group index -> set of candidate indices its last unsat answer relies on
        todo = list(range(len(gs)))
        pend = {}           # group index -> items whose cheap check did not answer
        while todo:
            self.st.rounds += 1
            hard = {}
            died = self.easy(gs, todo, used, hard)
            for i in todo:
                pend.pop(i, None)
            pend.update(hard)
            self.log('round %d: %d groups, %d candidates dropped, %d left (%.0fs)' % (self.st.rounds, len(todo), len(died), sum(self.alive), time.time() - self.t0))
            for g in gs:
                g.items = [x for x in g.items if self.alive[x[0]]]
            todo = [i for i in range(len(gs)) if gs[i].items and (used[i] & died)]
            if not todo and pend:
                died = self.hard(gs, pend, used)
                pend = {}
                self.log('hard cases: %d candidates dropped, %d left (%.0fs)' % (len(died), sum(self.alive), time.time() - self.t0))
                for g in gs:
                    g.items = [x for x in g.items if self.alive[x[0]]]
                todo = [i for i in range(len(gs)) if gs[i].items and (used[i] & died)]
        for k, c in enumerate(self.E.cands):
            c.alive = self.alive[k]

    def kill(self, ks, died):
        for k in ks:
            if self.alive[k]:
                self.alive[k] = False
                died.add(k)

    def easy(self, gs, todo, used, hard):
        """check the groups with a small budget; undecided items go to `hard`"""
        died = set()
        res = self.parallel([(self.run_case, gs[i], self.first) for i in todo])
        for i, r in zip(todo, res):
            if r is None:
                self.kill([x[0] for x in gs[i].items], died)
                used[i] = set()
                continue
            dead, core, left, q, sec = r
            self.count(q, sec, gs[i])
            self.kill(dead, died)
            used[i] = core
            if left:
                hard[i] = [gs[i].items[n] for n in left]
        return died

    def hard(self, gs, hard, used):
        """undecided items are split at control-flow joins, one join at a time, until every case is decided"""
        died = set()
        todo = []
        for i, items in hard.items():
            h = Group(gs[i].path)
            h.items = [x for x in items if self.alive[x[0]]]
            if h.items:
                h.orig = {k: c for k, c, _ in h.items}
                h.whole, h.own, h.first = h.path, i, True
                todo.append(h)
        ncase = {}
        final = []
        while todo:
            jobs, nxt = [], []
            for h in todo:
                h.items = [x for x in h.items if self.alive[x[0]]]
                if not h.items:
                    continue
                if h.first:         # its own check is what did not answer
                    nxt.append((h, list(range(len(h.items)))))
                else:
                    jobs.append(h)
            res = self.parallel([(self.run_step, h) for h in jobs])
            for h, r in zip(jobs, res):
                if r is None:
                    self.kill([x[0] for x in h.items], died)
                    continue
                dead, core, left, q, sec = r
                self.count(q, sec, h)
                self.kill(dead, died)
                used[h.own] = used[h.own] | core
                if left:
                    nxt.append((h, left))
            todo = []
            for h, left in nxt:
                items = [h.items[n] for n in left if self.alive[h.items[n][0]]]
                if not items:
                    continue
                r = None
                if ncase.get(h.own, 0) < MAXCASES:
                    r = self.T.unmerge(h.path, [c for _, c, _ in items])
                if r is None:
                    g = Group(h.path)
                    g.items, g.orig, g.whole, g.own = items, h.orig, h.whole, h.own
                    final.append(g)
                    continue
                ncase[h.own] = ncase.get(h.own, 0) + len(r)
                for path, conds in r:
                    g = Group(path)
                    g.items = [(k, c, loc) for (k, _, loc), c in zip(items, conds) if not z3.is_true(c)]
                    g.orig, g.whole, g.own, g.first = h.orig, h.whole, h.own, False
                    if g.items:
                        todo.append(g)
        for g in final:
            g.items = [x for x in g.items if self.alive[x[0]]]
        final = [g for g in final if g.items]
        res = self.parallel([(self.run_hard, g, self.timeout) for g in final])
        for h, r in zip(final, res):
            if r is None:
                self.kill([x[0] for x in h.items], died)
                continue
            dead, core, left, q, sec = r
            self.count(q, sec, h)
            self.st.unknown += len(left)
            for n in left:
                self.log('   undecided: %s | %s' % (self.E.cands[h.items[n][0]].desc, h.items[n][2]))
            self.kill(dead, died)
            self.kill([h.items[n][0] for n in left], died)
            used[h.own] = used[h.own] | core
        self.log('   %d cases, %d at full budget' % (sum(ncase.values()), len(final)))
        return died

    def run_step(self, case):
        """one case with the small budget; a refutation only counts if it stands with the facts about the joined values"""
        dead, core, left, q, sec = self.run_case(case, self.first)
        if dead:
            ds = set(dead)
            again = Group(tuple(case.path) + tuple(case.whole))
            at = [n for n, x in enumerate(case.items) if x[0] in ds]
            again.items = [(case.items[n][0], z3.Or(case.orig[case.items[n][0]], case.items[n][1]), case.items[n][2]) for n in at]
            dead, c, l2, n, s2 = self.run_case(again, self.first)
            core |= c
            q += n
            sec += s2
            left = sorted(set(left) | {at[m] for m in l2})
        return dead, core, left, q, sec

    def count(self, q, sec, g):
        self.st.queries += q
        self.st.solver_s += sec
        if sec > 4:
            self.log('   slow group %.1fs: %s' % (sec, '; '.join(sorted({x[2] for x in g.items}))[:300]))

    def run_hard(self, case, timeout):
        d, core, left, q, sec = self.run_case(case, timeout)
        bad = set(d) | {case.items[n][0] for n in left}
        if bad:
            # facts about values derived from a join speak of the joined value: ask again with both
            again = Group(tuple(case.path) + tuple(case.whole))
            again.items = [(k, z3.Or(case.orig[k], x), loc) for k, x, loc in case.items if k in bad]
            d, c, left, n, s2 = self.run_case(again, timeout)
            at = [n for n, x in enumerate(case.items) if x[0] in bad]
            left = [at[n] for n in left]
            core |= c
            q += n
            sec += s2
        return d, core, left, q, sec

    def run_case(self, g, timeout):
        """-> refuted candidates, candidates relied on, undecided items, queries, seconds"""
        T = self.T
        t0 = time.process_time()
        path = [tob(x) for x in g.path]
        items = [x for x in g.items if self.alive[x[0]]]
        pos = [n for n, x in enumerate(g.items) if self.alive[x[0]]]      # positions, because terms do not cross processes
        core, dead, left, q = set(), [], [], 0
        if not items:
            return dead, core, left, q, 0.0
        facts = g.cone
        if facts is None:
            facts = T.cone(path + [c for _, c, _ in items])
        al = {}
        for f in facts:
            for i in T.subterms(f):
                k = self.byid.get(i)
                if k is not None and self.alive[k]:
                    al[k] = self.E.cands[k].lit
        lits = list(al.values())
        live = list(range(len(items)))
        while live:
            q += 1
            # clauses are asserted, not assumed: preprocessing can use them (an answer then relies on all of them)
            s = solver(timeout)
            s.add(facts)
            s.add(lits)
            s.add(path)
            s.add(z3.Or([z3.Not(items[n][1]) for n in live]))
            r = s.check()
            if r == z3.unsat:
                core |= set(al)
                break
            if r == z3.sat:
                m = s.model()
                kill = [n for n in live if z3.is_false(m.eval(items[n][1], model_completion=True))]
                if not kill:
                    kill = [live[0]]
                dead += [items[n][0] for n in kill]
                live = [n for n in live if n not in kill]
                continue
            if len(live) == 1:
                left.append(pos[live[0]])
                break
            # unknown: one by one
            for n in list(live):
                h = Group(g.path)
                h.items = [items[n]]
                d, c, l, m, _ = self.run_case(h, timeout)
                q += m
                dead += d
                core |= c
                left += [pos[n] for _ in l]
            break
        return dead, core, left, q, time.process_time() - t0

    # -------------------------------------------------------------- obligations
    def prove(self, path, cond, timeout=None, want_model=False):
        """-> (status, seconds, core)"""
        T = self.T
        t0 = time.time()
        if cond is True:
            return 'proved', 0.0, ()
        path = [tob(x) for x in path]
        cond = tob(cond)
        facts = T.cone(path + [cond])
        s = solver(timeout or self.timeout)
        s.add(facts)
        s.add(path)
        s.add(z3.Not(cond))
        lits = []
        for f in facts:
            for i in T.subterms(f):
                k = self.byid.get(i)
                if k is not None and self.alive[k]:
                    lits.append(self.E.cands[k].lit)
        r = s.check(lits)
        core = ()
        if r == z3.unsat:
            core = tuple(self.byid[x.get_id()] for x in s.unsat_core() if x.get_id() in self.byid)
        return {'unsat': 'proved', 'sat': 'failed'}.get(str(r), 'unknown'), time.time() - t0, core

    def prove_all(self, obs):
        """obs: list of objects with path, cond (or alts); sets .status"""
        by = {}
        for o in obs:
            key = tuple(x.get_id() for x in o.path)
            by.setdefault(key, []).append(o)
        jobs = list(by.values())
        res = self.parallel([(self.run_obs, j) for j in jobs])
        for j, r in zip(jobs, res):
            for n, o in enumerate(j):
                o.status, o.secs = (r[n][0], r[n][1]) if r is not None else ('unknown', 0.0)
                self.st.queries += 1
                self.st.solver_s += o.secs
                if o.status == 'unknown':
                    self.st.unknown += 1
        return obs

    def run_obs(self, obs):
        out = []
        for o in obs:
            alts = getattr(o, 'alts', None)
            if alts is not None:
                best, tot = 'failed', 0.0
                for a in alts:
                    st, sec, _ = self.prove(o.path, a)
                    tot += sec
                    if st == 'proved':
                        best = st
                        break
                    if st == 'unknown':
                        best = st
                out.append((best, tot))
            else:
                st, sec, _ = self.prove(o.path, o.cond)
                out.append((st, sec))
        return out

    # -------------------------------------------------------------- fork pool
    def parallel(self, jobs):
        n = len(jobs)
        if n == 0:
            return []
        if n == 1:
            return [jobs[0][0](*jobs[0][1:])]
        res = [None] * n
        k = min(NPROC, n)
        r_ctl, w_ctl = os.pipe()
        os.write(w_ctl, b'')
        # dynamic distribution through a shared counter file
        import multiprocessing as mp
        ctr = mp.Value('i', 0)
        procs = []
        sys.stdout.flush()
        for _ in range(k):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    out = []
                    while True:
                        with ctr.get_lock():
                            i = ctr.value
                            ctr.value += 1
                        if i >= n:
                            break
                        if time.time() - self.t0 > self.budget:
                            out.append((i, None))
                            continue
                        try:
                            out.append((i, jobs[i][0](*jobs[i][1:])))
                        except Exception:
                            sys.stderr.write(traceback.format_exc())
                            out.append((i, None))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            procs.append((pid, r))
        os.close(r_ctl)
        os.close(w_ctl)
        for pid, r in procs:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status:
                self.log('   worker ended with status %d' % status)
            if data:
                for i, x in pickle.loads(data):
                    res[i] = x
        self.st.undone += sum(1 for x in res if x is None)
        return res
