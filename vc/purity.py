"""C08: frame and flow contracts.

Contract of every function reachable from the entry point (trait implementations and closures included):
  frame   it reads and writes no memory but its parameters, its locals and what they own: every call into a library is to a
          function whose assumed contract says so, every static it names is immutable;
  flow    what depends on the log level (results of the log crate) or on hash-map order ("tainted") reaches neither the result nor
          anything that outlives the branch taken on it, except as the content of a log message.
Obligations are generated per call, per static and per branch on a tainted value; they are discharged function by function against
the callees' summaries (least fixpoint of which parameters and results are tainted), not against the callees' bodies.
"""
import re
import time
from engine import Obligation, Unsupported
from contracts import CallGraph, walk
from registry import strip_generics

IMPURE = [
    (r'\bstd::(fs|env|process|net|thread|os|sys|backtrace)\b', 'reads or changes state outside the program'),
    (r'\bstd::time::(Instant|SystemTime)\b.*::(now|elapsed)\b', 'reads the clock'),
    (r'\bstd::io::(_print|_eprint|stdin|stdout|stderr|print|eprint)\b', 'reads or writes a standard stream'),
    (r'\bstd::io::(Stdout|Stderr|Stdin)', 'reads or writes a standard stream'),
    (r'\bstd::fs::|\bstd::panic::(set_hook|take_hook)\b', 'changes process state'),
    (r'\bRandomState\b.*::(hash_one|build_hasher)\b', 'uses random keys'),
]
ORDER = re.compile(r'(HashMap|HashSet|hash_map|hash_set)\b.*::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|next|retain|fmt|extract_if)\b')
ADDRESS = re.compile(r'::as_ptr\b|::as_mut_ptr\b|\bstd::ptr::|\bstd::alloc::|\bstd::intrinsics::|read_volatile')
PURE_PTR = re.compile(r'^(std|core)::ptr::(drop_in_place|null|eq$)|^std::boxed::')
INTERIOR = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|Once|Mutex|RwLock|Atomic[A-Za-z0-9]*|LazyLock|LazyCell|Condvar|Barrier)\b')
LOG_EFFECT = re.compile(r'\blog::(set_max_level|set_logger|set_boxed_logger|set_max_level_racy|set_logger_racy)\b')


def tystr(t):
    return str(t)


def mutref(t):
    """the type contains a &mut or *mut"""
    hit = []

    def v(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] in ('ref', 'ptr') and x[1] is True:
            hit.append(1)
    walk(t, v)
    return bool(hit)


def places(x):
    """(place, how) of every place mentioned in a parsed statement; how in use, write, mutref"""
    out = []

    def isplace(p):
        return isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], int) and not isinstance(p[0], bool) and isinstance(p[1], tuple) and all(isinstance(q, tuple) for q in p[1])

    def go(y, how):
        if isplace(y):
            out.append((y, how))
            for pr in y[1]:
                if pr[0] == 'index':
                    out.append(((pr[1], ()), 'use'))
            return
        if isinstance(y, tuple) and y and y[0] in ('ref', 'rawref') and len(y) == 3 and isplace(y[2]):
            go(y[2], 'mutref' if y[1] else 'use')
            return
        if isinstance(y, (tuple, list)):
            for z in y:
                go(z, how)
    if x[0] in ('assign', 'call', 'setdiscr'):
        go(x[1], 'write')
        go(x[2:], 'use')
    elif x[0] == 'dead':
        pass
    else:
        go(x[1:], 'drop' if x[0] == 'drop' else 'use')
    return out


def succ(t):
    if t is None:
        return []
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []


class Fn:
    """per-function facts"""
    def __init__(self, body):
        self.b = body
        self.succ = {n: succ(t) for n, (_, t) in body.blocks.items()}
        self.pred = {}
        for n, ss in self.succ.items():
            for s in ss:
                self.pred.setdefault(s, []).append(n)
        self.items = {n: [s for s in st] + ([t] if t is not None else []) for n, (st, t) in body.blocks.items()}
        self.tp = set()           # tainted parameters (index)
        self.taint = set()        # tainted locals

    def postdom(self):
        """immediate postdominator among blocks from which the function can return"""
        ret = [n for n, (_, t) in self.b.blocks.items() if t is not None and t[0] == 'return']
        can, todo = set(ret), list(ret)
        while todo:
            x = todo.pop()
            for p in self.pred.get(x, []):
                if p not in can:
                    can.add(p)
                    todo.append(p)
        import networkx as nx
        g = nx.DiGraph()
        g.add_node('exit')
        for n in can:
            for s in self.succ[n]:
                if s in can:
                    g.add_edge(s, n)
        for r in ret:
            g.add_edge('exit', r)
        idom = nx.immediate_dominators(g, 'exit')
        return can, idom

    def liveness(self):
        use, df = {}, {}
        for n, it in self.items.items():
            u, d = set(), set()
            for x in it:
                ps = places(x)
                for p, how in ps:
                    if (how != 'write' or p[1]) and p[0] not in d:
                        u.add(p[0])
                for p, how in ps:
                    if how == 'write' and not p[1]:
                        d.add(p[0])
                if x[0] == 'return' and 0 not in d:
                    u.add(0)
            use[n], df[n] = u, d
        live = {n: set() for n in self.items}
        ch = True
        while ch:
            ch = False
            for n in sorted(self.items, reverse=True):
                o = set()
                for s in self.succ[n]:
                    o |= live.get(s, set())
                v = use[n] | (o - df[n])
                if v != live[n]:
                    live[n] = v
                    ch = True
        live['exit'] = {0}
        return live


class Purity:
    def __init__(self, prog, crate, entry, log):
        self.prog, self.crate, self.entry, self.log = prog, crate, entry, log
        self.G = CallGraph(prog)
        if entry not in self.G.body:
            raise Unsupported('entry point %s not found' % entry)
        t0 = time.time()
        roots = [entry] + [b.pretty for b in self.G.body.values() if b.key[1] is not None]
        self.reach = sorted(self.G.reach(roots))
        self.obs = []
        self.trusted = set()
        self.fns = {}
        for f in self.reach:
            self.fns[f] = Fn(self.G.body[f])
        # constants and statics named by those functions: their initialisers run too
        self.consts = {}
        todo = list(self.reach)
        while todo:
            f = todo.pop()
            body = self.fns[f].b if f in self.fns else self.consts[f]
            for nm in self.named(body):
                b = self.prog.resolve_const(nm, body.crate)
                if b is not None and b.name not in self.consts:
                    self.consts[b.name] = b
                    todo.append(b.name)
        self.flow()
        self.frames()
        self.gen_s = time.time() - t0

    def named(self, body):
        out = set()

        def vis(x):
            if isinstance(x, tuple) and len(x) >= 3 and x[0] == 'const' and x[1] == 'named' and isinstance(x[2], str):
                out.add(x[2])
        for st, t in body.blocks.values():
            walk(st, vis)
            walk(t, vis)
        return out

    def ob(self, fn, desc, ok, note=''):
        o = Obligation('frame', (), ok, desc + ('' if ok or not note else ': ' + note), fn)
        o.status = 'proved' if ok else 'refuted'
        self.obs.append(o)

    # ------------------------------------------------------------ tainted values
    def source(self, callee):
        """the result of this library call does not depend on the document alone"""
        if ORDER.search(callee):
            return 'hash-map order'
        if 'new_pointer' in callee:
            return 'address'
        if re.match(r'^<?log::', callee) and not re.search(r'as std::', callee):
            return 'log level'
        return None

    def flow(self):
        self.rets = set()         # functions whose result is tainted
        self.muts = set()         # (obligation) functions handing tainted data out through &mut
        ch = True
        n = 0
        while ch:
            n += 1
            ch = False
            for f, F in self.fns.items():
                if self.flow_fn(f, F):
                    ch = True
        self.rounds = n

    def flow_fn(self, f, F):
        T = set(F.taint)
        for k, (l, _) in enumerate(F.b.params):
            if k in F.tp:
                T.add(l)
        changed = True
        out = False
        while changed:
            changed = False
            for it in F.items.values():
                for x in it:
                    if x[0] not in ('assign', 'call'):
                        continue
                    src = any(p[0] in T for p, how in places(x) if how != 'write')
                    t = src
                    if x[0] == 'call':
                        c = x[2]
                        if isinstance(c, str):
                            b = self.prog.resolve_fn(c, F.b.crate)
                            if b is not None and b.pretty in self.fns:
                                G = self.fns[b.pretty]
                                for k, a in enumerate(x[3]):
                                    if a[0] in ('copy', 'move') and a[1][0] in T and k not in G.tp:
                                        G.tp.add(k)
                                        out = True
                                t = b.pretty in self.rets
                            elif self.source(c):
                                t = True
                    if t and x[1][0] not in T:
                        T.add(x[1][0])
                        changed = True
            for l in self.implicit(F, T):
                if l not in T:
                    T.add(l)
                    changed = True
        if T != F.taint:
            F.taint = T
            out = True
        if 0 in T and f not in self.rets:
            self.rets.add(f)
            out = True
        return out

    # ------------------------------------------------------------ obligations
    def frames(self):
        self.allocs = {c.name: c.mir.allocs for c in self.prog.crates.values()}
        for f in self.reach:
            self.frame_fn(f, self.fns[f])
        for nm, b in self.consts.items():
            self.statics(nm, b)
        self.ob(self.entry, 'the result depends on the document alone', self.entry not in self.rets, 'it depends on the log level or on hash-map order')

    def interior(self, ty, seen=()):
        """type with shared mutable state; None if undecided"""
        s = tystr(ty)
        if INTERIOR.search(s):
            return True
        for nm in set(re.findall(r'\b[A-Z]\w*', s)) - set(seen):
            a = self.prog.adt(nm)
            if a is not None and any(self.interior(t, seen + (nm,)) for fl in a.fields for _, t in fl):
                return True
        return False

    def statics(self, f, body):
        from mirparse import parse_type

        def vis(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'const' and x[1] == 'tls':
                return self.ob(f, 'static %s is not mutable' % x[2], False, 'thread-local state')
            if isinstance(x, tuple) and len(x) >= 4 and x[0] == 'const' and x[1] == 'alloc':
                n, ty = x[2], x[3]
                info = body.crate.mir.allocs.get(n, ('?', []))[0]
                nm = re.sub(r'^static: ([^,]*),.*$', r'\1', info) if info.startswith('static') else 'alloc%d' % n
                if ty.startswith('*mut'):
                    return self.ob(f, 'static %s is not mutable' % nm, False, 'static mut')
                if not ty.startswith(('&', '*const')):
                    raise Unsupported('static operand of type %s' % ty)
                t = parse_type(ty)
                inner = t[2]
                s = tystr(inner)
                bad = self.interior(inner)
                if bad and re.search(r'\b(LazyLock|OnceLock)\b', s):
                    ok, why = self.once(nm, inner)
                    return self.ob(f, 'static %s holds a value that does not depend on history' % nm, ok, why)
                self.ob(f, 'static %s is not mutable' % nm, not bad, 'it has interior mutability')
        for st, t in body.blocks.values():
            walk(st, vis)
            walk(t, vis)

    def once(self, nm, ty):
        """a once-initialised static is fine if its value is fixed: LazyLock with a pure initialiser; OnceLock only through
        get_or_init with a closure that captures nothing"""
        s = tystr(ty)
        rest = INTERIOR.sub(lambda m: '' if m.group(0) in ('LazyLock', 'OnceLock') else m.group(0), s)
        if INTERIOR.search(rest):
            return False, 'its value has interior mutability'
        for c in self.prog.crates.values():
            for k, b in c.mir.statics.items():
                if k.endswith(nm.rsplit('::', 1)[-1]):
                    from contracts import callees
                    for g in self.G.reach(callees(self.prog, b) & set(self.G.body)):
                        if g not in self.fns:
                            self.fns[g] = Fn(self.G.body[g])
                            self.frame_fn(g, self.fns[g])
        if 'OnceLock' in s:
            for f, F in list(self.fns.items()):
                for it in F.items.values():
                    for x in it:
                        if x[0] == 'call' and isinstance(x[2], str) and 'OnceLock' in x[2]:
                            if not re.search(r'::get_or_init::<', x[2]):
                                return False, 'it is used by %s, whose result depends on earlier calls' % strip_generics(x[2])
                            a = x[3][1]
                            if a[0] in ('copy', 'move'):
                                l = a[1][0]
                                for jt in F.items.values():
                                    for y in jt:
                                        if y[0] == 'assign' and y[1][0] == l and y[2][0] == 'agg' and y[2][2]:
                                            return False, 'its initialiser captures local data'
        return True, ''

    def frame_fn(self, f, F):
        body = F.b
        for n, it in F.items.items():
            for x in it:
                if x[0] == 'call' and isinstance(x[2], str):
                    self.call(f, F, x)
                if x[0] == 'assign' and x[2][0] == 'cast' and re.search(r'Expose|PointerAddress', x[2][3]):
                    raise Unsupported('%s turns an address into a number' % f)
                if x[0] in ('assign', 'setdiscr') and any(p[0] == 'deref' for p in x[1][1]) and x[0] == 'assign':
                    if any(p[0] in F.taint for p, how in places(x) if how != 'write'):
                        self.ob(f, 'no tainted value is stored through a reference', False, str(x)[:120])
        self.statics(f, body)
        self.branches(f, F)

    def call(self, f, F, x):
        c = x[2]
        b = self.prog.resolve_fn(c, F.b.crate)
        if b is not None:
            return
        s = strip_generics(c)
        for rx, why in IMPURE:
            if re.search(rx, c):
                return self.ob(f, 'call of %s keeps the frame' % s, False, why)
        if LOG_EFFECT.search(c):
            return self.ob(f, 'call of %s keeps the frame' % s, False, 'changes the logger')
        islog = re.match(r'^<?&?log::', c)
        roots = set(re.findall(r'(?<![\w:>])([a-z_]\w*)::', c)) - {'impl'}
        lib = {'std', 'core', 'alloc', 'log'}
        for m in roots - lib:
            if not self.local_mod(m) or not c.startswith('<') and c.startswith(m + '::'):
                raise Unsupported('call of %s in %s: no frame contract for this library' % (s, f))
        if not (roots & lib) and not c.startswith('<'):
            raise Unsupported('call of %s in %s: no frame contract for this function' % (s, f))
        if ADDRESS.search(c) and not PURE_PTR.search(s):
            raise Unsupported('%s uses addresses (%s)' % (f, s))
        self.trusted.add(re.sub(r"<.*", '', s) if s.startswith('<') is False else s)
        self.ob(f, 'call of %s keeps the frame' % s, True)
        if islog:
            return
        # tainted data handed to a library together with something it may write to
        tainted = [a for a in x[3] if a[0] in ('copy', 'move') and a[1][0] in F.taint]
        if tainted:
            for a in x[3]:
                if a[0] in ('copy', 'move') and a not in tainted and mutref(F.b.locals.get(a[1][0], ())):
                    self.ob(f, 'no tainted value is stored by %s' % s, False, 'it is passed together with a mutable reference')

    def local_mod(self, m):
        import os
        d = os.path.join(self.crate.root, self.crate.srcdir)
        return os.path.exists(os.path.join(d, m + '.rs')) or os.path.exists(os.path.join(d, m)) or any(k.startswith(m + '::') for k in self.crate.mir.fns)

    def regions(self, F, T):
        """[(block, join, region)] of the branches on tainted values"""
        if not hasattr(F, 'pd'):
            F.pd = F.postdom()
            F.where, F.refd, F.live = {}, {}, F.liveness()
            for n, it in F.items.items():
                for x in it:
                    for p, how in places(x):
                        F.where.setdefault(p[0], set()).add(n)
                    if x[0] == 'assign' and x[2][0] in ('ref', 'rawref') and not any(q[0] == 'deref' for q in x[2][2][1]):
                        F.refd.setdefault(x[2][2][0], set()).add(n)
        can, idom = F.pd
        out = []
        for n, it in F.items.items():
            t = it[-1] if it else None
            if t is None or t[0] != 'switch' or t[1][0] not in ('copy', 'move') or t[1][1][0] not in T or n not in can:
                continue
            j = idom.get(n)
            region, todo = set(), [s for s in F.succ[n] if s != j]
            while todo:
                b = todo.pop()
                if b in region:
                    continue
                region.add(b)
                todo += [s for s in F.succ[b] if s != j and s not in region]
            out.append((n, j, region))
        return out

    def implicit(self, F, T):
        """locals whose value depends on which arm of a tainted branch ran"""
        out = set()
        if not any(F.b.blocks[n][1] is not None and F.b.blocks[n][1][0] == 'switch' for n in F.items):
            return out
        for n, j, region in self.regions(F, T):
            for b in region:
                for x in F.items[b]:
                    for p, how in places(x):
                        if how in ('write', 'mutref') and not any(q[0] == 'deref' for q in p[1]):
                            if p[0] in F.live.get(j, ()) or F.refd.get(p[0], set()) - region:
                                out.add(p[0])
                    if x[0] == 'return':
                        out.add(0)
        return out

    def branches(self, f, F):
        for n, j, region in self.regions(F, F.taint):
            d = 'the branch on the log level or hash-map order in %s changes nothing outside the function' % f
            bad = None
            own = lambda l: F.where.get(l, set()) <= region
            for b in region:
                for x in F.items[b]:
                    for p, how in places(x):
                        l = p[0]
                        if own(l):      # made inside; what it refers to is checked where it is made
                            continue
                        if how in ('mutref', 'write'):
                            if any(q[0] == 'deref' for q in p[1]):
                                bad = 'data of the caller or of the surrounding code is written'
                        elif how == 'drop':
                            pass
                        elif mutref(F.b.locals.get(l, ())) and not (p[1] and p[1][0][0] == 'deref'):
                            bad = 'a mutable reference of the surrounding code is used'
                        elif INTERIOR.search(tystr(F.b.locals.get(l, ()))):
                            bad = 'a cell of the surrounding code is used'
            self.ob(f, d, bad is None, bad or '')


class R:
    """result object for decide_gfm"""
    def __init__(self, P):
        self.P = P

    def cover(self):
        return []


def run(prog, crate, entry, log):
    P = Purity(prog, crate, entry, log)
    log('%d functions under frame contracts, %d obligations in %.1fs' % (len(P.fns), len(P.obs), P.gen_s))
    return R(P), P.obs
