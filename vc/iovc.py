"""Verification conditions for the file-handling crates (smd-core, smd, the smd binary).

Forking symbolic execution of the MIR the compiler prints for the current tree.  The file system is ghost state: an
array from paths to contents (ABSENT where there is no file).  Every fallible system call has a success and a failure
branch, so a path through the code is a history of faults; all of them are explored.  Loops are cut: everything the loop
assigns is forgotten at its head and, where it writes a file, candidate invariants are checked to be inductive.  No bound.
"""
import re
import z3
from engine import Unsupported, build_order, term_succs, Loop
from registry import STD_ENUMS, last, strip_generics, type_last
from mirparse import split_top, match_close, parse_type
from models import norm

S = z3.DeclareSort('Str')
ARR = z3.ArraySort(S, S)
ABSENT = z3.Const('ABSENT', S)
CAT = z3.Function('cat', S, S, S)
JOIN = z3.Function('path_join', S, S, S)
EXT = z3.Function('with_extension', S, S, S)
FNAME = z3.Function('with_file_name', S, S, S)
PARENT = z3.Function('parent', S, S)
RENDER = z3.Function('render', S, S)
LEN = z3.Function('len', S, z3.IntSort())
PRE = z3.Function('prefix', S, z3.IntSort(), S)
SUF = z3.Function('suffix', S, z3.IntSort(), S)
ITOA = z3.Function('decimal', z3.IntSort(), S)
LOSSY = z3.Function('to_string_lossy', S, S)
STRLIKE = {'String', 'PathBuf', 'Path', 'OsStr', 'OsString', 'str'}
INTW = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'usize': (0, 2 ** 64 - 1),
        'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1), 'i8': (-128, 127), 'i16': (-2 ** 15, 2 ** 15 - 1),
        'u128': (0, 2 ** 128 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1)}
IMPURE = ('std::fs::', 'std::process::', 'std::os::', 'libc::', 'tempfile::', 'std::net::', 'std::io::copy', 'std::thread::', 'nix::', 'std::io::stdin')


class Agg:
    __slots__ = ('kind', 'fields')

    def __init__(self, kind, fields):
        self.kind, self.fields = kind, tuple(fields)

    def __repr__(self):
        return '%s%s' % (self.kind, self.fields)


class En:
    __slots__ = ('name', 'k', 'fields')

    def __init__(self, name, k, fields=()):
        self.name, self.k, self.fields = name, k, tuple(fields)

    def __repr__(self):
        return '%s#%d%s' % (self.name, self.k, self.fields)


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&%s%s' % (self.cell, self.path)


class Sym:
    """unknown value of a type"""
    __slots__ = ('ty', 'id')

    def __init__(self, ty, id_):
        self.ty, self.id = ty, id_

    def __repr__(self):
        return 'Sym(%s)' % self.id


class Fn:
    __slots__ = ('name', 'body')

    def __init__(self, name, body):
        self.name, self.body = name, body


class Op:
    """opaque value with a tag"""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def __repr__(self):
        return '%s%s' % (self.tag, self.args)


UNIT = Agg(('tuple',), ())


def ok(v):
    return En('Result', 0, (v,))


def err(v=None):
    return En('Result', 1, (v if v is not None else Op('err'),))


def some(v):
    return En('Option', 1, (v,))


NONE = En('Option', 0)


def is_s(v):
    return z3.is_expr(v) and v.sort() == S


def is_i(v):
    return isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == z3.IntSort()


def is_b(v):
    return isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v)


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) or z3.is_expr(b):
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, bool, str)):
        return a == b
    if isinstance(a, Agg):
        return a.kind == b.kind and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, En):
        return a.name == b.name and a.k == b.k and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, Sym):
        return a.id == b.id
    if isinstance(a, Fn):
        return a.name == b.name
    if isinstance(a, Op):
        return a.tag == b.tag and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    return a == b


class St:
    __slots__ = ('cells', 'pc', 'fs', 'ev', 'exp')

    def __init__(self, cells, pc, fs, ev, exp):
        self.cells, self.pc, self.fs, self.ev, self.exp = cells, pc, fs, ev, exp

    def copy(self):
        return St(dict(self.cells), self.pc, self.fs, self.ev, self.exp)

    def with_(self, *lits):
        s = self.copy()
        s.pc = s.pc + tuple(l for l in lits if not (l is True))
        return s


class Exit(Exception):
    pass


class Goal:
    def __init__(self, desc, pc, cond, loc):
        self.desc, self.pc, self.cond, self.loc = desc, pc, cond, loc
        self.status = None
        self.kind = 'property'


class IO:
    def __init__(self, prog):
        self.prog = prog
        self.n = 0
        self.facts = []
        self.inc = z3.Solver()
        self.inc.set('timeout', 10000)
        self.nadded = 0
        self.feasmemo = {}
        self.keep = []
        self.lits = {}
        self.litval = {}
        self.frames = {}
        self.nframe = 0
        self.stack = []
        self.targs = []
        self.trusted = {}
        self.assumed = {}
        self.inlined = set()
        self.obs = []
        self.constmemo = {}
        self.terminal = []      # (state, kind, value): process::exit, panic
        self.queries = 0
        self.hooks = []         # called at every file-system mutation: f(state, path term, what, where)
        self.loops = 0
        self.invs = []
        self.tomls = {}
        self.empty = self.lit('')
        self.fact(LEN(self.empty) == 0)
        self.fact(self.empty != ABSENT)

    # ------------------------------------------------------------------ terms
    def fresh(self, sort, hint):
        self.n += 1
        return z3.Const('%s!%d' % (re.sub(r'\W', '_', hint), self.n), sort)

    def fact(self, f):
        self.facts.append(f)

    def lit(self, s):
        if s not in self.lits:
            t = z3.Const('lit!%d' % len(self.lits), S)
            self.fact(t != ABSENT)
            self.fact(LEN(t) == len(s.encode('utf-8', 'surrogatepass')))
            for o in self.lits.values():
                self.fact(t != o)
            self.lits[s] = t
            self.litval[t.get_id()] = s
        return self.lits[s]

    def text(self, t):
        return self.litval.get(t.get_id()) if z3.is_expr(t) else None

    def slen(self, s):
        t = LEN(s)
        self.fact(t >= 0)
        self.fact((t == 0) == (s == self.empty))
        return t

    def cat(self, a, b):
        if self.text(a) == '':
            return b
        if self.text(b) == '':
            return a
        if self.text(a) is not None and self.text(b) is not None:
            return self.lit(self.text(a) + self.text(b))
        if z3.is_app(a) and a.decl().eq(CAT):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        t = CAT(a, b)
        self.fact(t != ABSENT)
        self.fact(LEN(t) == LEN(a) + LEN(b))
        self.fact(z3.Implies(a == self.empty, t == b))
        self.fact(z3.Implies(b == self.empty, t == a))
        # associativity, where the left part may turn out to be a concatenation
        return t

    def split(self, s, n):
        """s == prefix(s, n) ++ suffix(s, n)"""
        p, q = PRE(s, n), SUF(s, n)
        self.fact(z3.Implies(z3.And(0 <= n, n <= LEN(s)), z3.And(CAT(p, q) == s, LEN(p) == n, LEN(q) == LEN(s) - n)))
        for x in (p, q):
            self.fact(LEN(x) >= 0)
            self.fact((LEN(x) == 0) == (x == self.empty))
            self.fact(x != ABSENT)
        return p, q

    def present(self, t):
        self.fact(t != ABSENT)
        self.fact(LEN(t) >= 0)
        self.fact((LEN(t) == 0) == (t == self.empty))
        return t

    def feasible(self, pc):
        key = tuple(x.get_id() for x in pc)
        r = self.feasmemo.get(key)
        if r is None:
            s = self.inc
            s.add(self.facts[self.nadded:])
            self.nadded = len(self.facts)
            s.push()
            s.add([x for x in pc])
            self.queries += 1
            r = s.check() != z3.unsat
            s.pop()
            self.feasmemo[key] = r
            self.keep.append(pc)
        return r

    def valid(self, pc, cond):
        """'proved' | 'failed' | 'unknown', model"""
        if cond is True:
            return 'proved', None
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(self.facts)
        s.add([x for x in pc])
        s.add(z3.Not(cond) if cond is not False else z3.BoolVal(True))
        self.queries += 1
        r = s.check()
        if r == z3.unsat:
            return 'proved', None
        return ('failed', s.model()) if r == z3.sat else ('unknown', None)

    # ------------------------------------------------------------------ unknown values
    def sym(self, ty, hint='x'):
        self.n += 1
        return Sym(ty, '%s!%d' % (re.sub(r'\W', '_', hint), self.n))

    def force(self, st, v):
        """expand scalars, strings and structs; enums stay Sym until they are discriminated"""
        while isinstance(v, Sym):
            if v.id in st.exp:
                v = st.exp[v.id]
                continue
            r = self.expand(v)
            if r is v:
                return v
            v = r
        return v

    def expand(self, v):
        ty = v.ty
        k = ty[0]
        if k in ('ref', 'ptr'):
            return Sym(ty[2], v.id)
        if k == 'int':
            t = z3.Const(v.id, z3.IntSort())
            lo, hi = INTW[ty[1]]
            self.fact(z3.And(t >= lo, t <= hi))
            return t
        if k == 'char':
            return z3.Const(v.id, z3.IntSort())
        if k == 'bool':
            return z3.Const(v.id, z3.BoolSort())
        if k == 'str':
            return self.present(z3.Const(v.id, S))
        if k in ('slice', 'array') and ty[1] == ('int', 'u8'):
            return self.present(z3.Const(v.id, S))
        if k == 'tuple':
            return Agg(('tuple',), [Sym(t, '%s.%d' % (v.id, i)) for i, t in enumerate(ty[1])])
        if k == 'adt':
            nm = last(ty[1])
            if nm in STRLIKE or nm == 'Vec' and ty[2] and ty[2][0] == ('int', 'u8'):
                return self.present(z3.Const(v.id, S))
            if nm in ('Box', 'Rc', 'Arc', 'Cow') and ty[2]:
                return Sym(ty[2][-1], v.id)
            if nm in STD_ENUMS:
                return v
            a = self.prog.adt(nm, self.stack[-1].crate if self.stack else None)
            if a is not None and a.kind == 'struct' and self.ours(ty[1]):
                return Agg(('adt', nm), [Sym(t, '%s.%d' % (v.id, i)) for i, (_, t) in enumerate(a.fields[0])])
        return v

    def ours(self, path):
        """the ADT path belongs to a crate under verification (not a foreign type of the same name)"""
        head = path.split('::')[0]
        if head in ('std', 'core', 'alloc'):
            return False
        if head in self.prog.crates:
            return True
        c = self.stack[-1].crate if self.stack else None
        if '::' not in path:
            return True
        import os
        if c is None:
            return True
        src = os.path.join(c.root, c.srcdir)
        return os.path.exists(os.path.join(src, head + '.rs')) or os.path.isdir(os.path.join(src, head)) and not head == 'config' or \
            os.path.exists(os.path.join(src, head, 'mod.rs'))

    def known_enum(self, v):
        if v.ty[0] != 'adt':
            return False
        nm = last(v.ty[1])
        if nm in STD_ENUMS:
            return True
        a = self.prog.adt(nm, self.stack[-1].crate if self.stack else None)
        return a is not None and a.kind == 'enum'

    def cases(self, st, v):
        """[(state, enum value)] for every variant of v"""
        v = self.force(st, v)
        if isinstance(v, Ref):
            v = self.force(st, self.get(st, v.cell, v.path))
        if isinstance(v, En):
            return [(st, v)]
        if not isinstance(v, Sym) or v.ty[0] != 'adt':
            raise Unsupported('discriminant of %r' % (v,))
        nm = last(v.ty[1])
        args = [a for a in v.ty[2] if a[0] != 'lifetime']
        out = []
        if nm in STD_ENUMS:
            fl = {'Option': [[], args[:1]], 'Result': [args[:1], args[1:2] or [('other', '?')]], 'ControlFlow': [args[1:2] or [('tuple', ())], args[:1]]}.get(nm)
            if fl is None:
                raise Unsupported('unknown ' + nm)
            names = STD_ENUMS[nm]
        else:
            a = self.prog.adt(nm, self.stack[-1].crate if self.stack else None)
            if a is None or a.kind != 'enum':
                raise Unsupported('discriminant of unknown type %s' % (v.ty,))
            fl = [[t for _, t in f] for f in a.fields]
            names = a.variants
        for k in range(len(names)):
            s = st.copy()
            s.exp = dict(st.exp)
            s.exp[v.id] = En(nm, k, [Sym(t, '%s.%d.%d' % (v.id, k, i)) for i, t in enumerate(fl[k])])
            if nm == 'Result' and k == 1:       # some step outside the contracts failed
                s = self.fault(s, 'other')
            out.append((s, s.exp[v.id]))
        return out

    # ------------------------------------------------------------------ memory
    def get(self, st, cell, path):
        if cell not in st.cells:
            raise Unsupported('read of dead cell')
        v = st.cells[cell]
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        v = self.force(st, v)
        if isinstance(v, Ref):
            v = self.force(st, self.get(st, v.cell, v.path))
        if p[0] == 'f':
            if isinstance(v, (Agg, En)):
                if p[2] < len(v.fields):
                    return v.fields[p[2]]
                raise Unsupported('field %s of %r' % (p, v))
            if isinstance(v, Sym) and v.ty[0] == 'adt' and p[1] is not None:
                raise Unsupported('variant field of undiscriminated value')
            return Sym(p[3], 'fld!%s.%d' % (v.id if isinstance(v, Sym) else id(v), p[2]))
        if p[0] == 'i' and isinstance(v, Agg) and isinstance(p[1], int):
            return v.fields[p[1]]
        raise Unsupported('projection %s' % (p,))

    def resolve(self, st, place, fr):
        cell, path, var = (fr, place[0]), (), None
        for p in place[1]:
            if p[0] == 'deref':
                v = self.force(st, self.get(st, cell, path))
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
            elif p[0] == 'as':
                var = p[1]
            elif p[0] == 'field':
                if var is None and any(x in str(p[2]) for x in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'NonNull', 'Unique')):
                    continue
                path = path + (('f', var, p[1], p[2]),)
                var = None
            elif p[0] == 'cidx' and not p[2]:
                path = path + (('i', p[1]),)
            else:
                raise Unsupported('projection %s' % (p,))
        return cell, path

    def put(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self.update(st, st.cells.get(cell), path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        v = self.force(st, v)
        p = path[0]
        if isinstance(v, Ref):
            raise Unsupported('write through nested reference')
        if p[0] == 'f' and isinstance(v, (Agg, En)):
            f = list(v.fields)
            while len(f) <= p[2]:
                f.append(None)
            f[p[2]] = self.update(st, f[p[2]], path[1:], val)
            return Agg(v.kind, f) if isinstance(v, Agg) else En(v.name, v.k, f)
        if v is None and p[0] == 'f' and p[1] is None:
            f = [None] * (p[2] + 1)
            f[p[2]] = self.update(st, None, path[1:], val)
            return Agg(('tuple',), f)
        raise Unsupported('assignment to %s of %r' % (p, v))

    def rd(self, st, v):
        """value behind references"""
        v = self.force(st, v)
        while isinstance(v, Ref):
            v = self.force(st, self.get(st, v.cell, v.path))
        return v

    def deep(self, st, v, d=6):
        """value with references resolved, for storing in opaque values"""
        v = self.rd(st, v)
        if d > 0 and isinstance(v, Agg):
            return Agg(v.kind, [self.deep(st, f, d - 1) if f is not None else None for f in v.fields])
        if d > 0 and isinstance(v, En):
            return En(v.name, v.k, [self.deep(st, f, d - 1) for f in v.fields])
        return v

    def wr(self, st, ref, val):
        ref = self.force(st, ref)
        while isinstance(ref, Ref):
            inner = st.cells.get(ref.cell)
            tgt = self.force(st, self.get(st, ref.cell, ref.path)) if ref.cell in st.cells else None
            if isinstance(tgt, Ref):
                ref = tgt
                continue
            self.put(st, ref.cell, ref.path, val)
            return
        raise Unsupported('write to non-reference')

    def operand(self, st, op, fr, body):
        if op[0] in ('copy', 'move'):
            c, p = self.resolve(st, op[1], fr)
            return self.get(st, c, p)
        return self.const(op[1:], body)

    def const(self, c, body):
        k = c[0]
        if k == 'bool':
            return c[1]
        if k == 'unit':
            return UNIT
        if k == 'str':
            return self.lit(c[1])
        if k == 'bytes':
            return Op('bytes', c[1])
        if k in ('char', 'int'):
            return c[1]
        if k == 'fnitem':
            return Fn(c[1], body)
        if k == 'alloc':
            return Op('alloc', str(body.crate.mir.allocs.get(c[1], ('', []))[0]))
        if k == 'named':
            return self.named(c[1], body)
        raise Unsupported('const %s' % (c,))

    def named(self, s, body):
        b = self.prog.resolve_const(s, body.crate)
        if b is not None:
            return self.eval_const(b)
        m = re.match(r'^(.*)\s*\{\{.*\}\}$', s)
        p = strip_generics(s)
        segs = p.split('::')
        nm = segs[-1]
        if len(segs) > 1 and segs[-2] in STD_ENUMS and nm in STD_ENUMS[segs[-2]]:
            return En(segs[-2], STD_ENUMS[segs[-2]].index(nm))
        if len(segs) > 1:
            a = self.prog.adt(segs[-2], body.crate)
            if a and a.kind == 'enum' and nm in a.variants:
                return En(a.name, a.variants.index(nm))
        if '{closure@' in s:
            return Agg(('closure', re.search(r'\{closure@[^}]*\}', s).group(0)), ())
        a = self.prog.adt(nm, body.crate)
        if a and a.kind == 'struct' and not a.fields[0]:
            return Agg(('adt', nm), ())
        m = re.match(r'^(-?[\d.]+(e-?\d+)?)(f32|f64)$', s)
        if m:
            return Op('float', m.group(1))
        if '::' in s or s.startswith('<'):
            return Fn(s, body)
        return Op('named', s)

    def eval_const(self, b):
        if b.name not in self.constmemo:
            st = St({}, (), z3.K(S, ABSENT), (), {})
            r = self.run(b, [], st)
            if len(r) != 1:
                raise Unsupported('const ' + b.name)
            v = self.deep(r[0][0], r[0][1])
            self.constmemo[b.name] = v
        return self.constmemo[b.name]

    # ------------------------------------------------------------------ execution
    def order(self, body):
        o = getattr(body, '_order', None)
        if o is None:
            succ = {b: term_succs(t) for b, (_, t) in body.blocks.items()}
            seen, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += succ[x]
            sc = {b: succ[b] for b in seen}
            sc[-1] = [0]
            o = body._order = [x for x in build_order(seen | {-1}, sc, -1) if x != -1]
        return o

    def live(self, body):
        """{block: locals that may be read from its start on}"""
        lv = getattr(body, '_live', None)
        if lv is None:
            def ment(x, out):
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], (tuple, list)):
                        out.add(x[0])
                    elif len(x) == 2 and x[0] == 'index' and isinstance(x[1], int):
                        out.add(x[1])
                    for y in x:
                        ment(y, out)
            blk = {}
            for b, (stmts, t) in body.blocks.items():
                seq = []
                for x in stmts:
                    if x[0] == 'assign':
                        u = set()
                        ment(x[2], u)
                        if x[1][1]:
                            ment(x[1], u)
                        seq.append((u, None if x[1][1] else x[1][0]))
                    elif x[0] == 'dead':
                        seq.append((set(), x[1]))
                u = set()
                if t[0] == 'call':
                    ment(t[3], u)
                    if t[1][1]:
                        ment(t[1], u)
                    m = re.match(r'^(?:move|copy) _(\d+)', str(t[2]))
                    if m:
                        u.add(int(m.group(1)))
                    ment(t[2], u) if not isinstance(t[2], str) else None
                    seq.append((u, None if t[1][1] else t[1][0]))
                else:
                    if t[0] == 'return':
                        u.add(0)
                    ment(t, u)
                    seq.append((u, None))
                blk[b] = (seq, term_succs(t))
            lv = {b: set() for b in blk}
            ch = True
            while ch:
                ch = False
                for b, (seq, su) in blk.items():
                    l = set()
                    for x in su:
                        l |= lv.get(x, set())
                    for u, d in reversed(seq):
                        if d is not None:
                            l = l - {d}
                        l = l | u
                    if l != lv[b]:
                        lv[b] = l
                        ch = True
            body._live = lv
        return lv

    def gc(self, s, fr, live):
        """forget what no later step can read"""
        keep, ids = set(), set()
        todo = [c for c in s.cells if c[0] != fr or c[1] in live]

        def walk(v):
            if isinstance(v, Ref):
                if v.cell not in keep:
                    todo.append(v.cell)
            elif isinstance(v, (Agg, En)):
                for f in v.fields:
                    walk(f)
            elif isinstance(v, Sym):
                if v.id not in ids:
                    ids.add(v.id)
                    if v.id in s.exp:
                        walk(s.exp[v.id])
            elif isinstance(v, Op):
                for f in v.args:
                    walk(f)
            elif isinstance(v, (tuple, list)):
                for f in v:
                    walk(f)
        while todo:
            c = todo.pop()
            if c in keep or c not in s.cells:
                continue
            keep.add(c)
            walk(s.cells[c])
        s.cells = {c: v for c, v in s.cells.items() if c in keep}
        if s.exp:
            ids0 = {i.split('.')[0] for i in ids}
            s.exp = {i: v for i, v in s.exp.items() if '!' not in i or i.startswith('fld!') or i.split('.')[0] in ids0}

    def where(self):
        return ' < '.join(b.pretty for b in reversed(self.stack[-3:]))

    def run(self, body, args, st, targs=()):
        """-> [(state, return value)]"""
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        self.nframe += 1
        fr = self.nframe
        self.inlined.add(body.pretty)
        st = st.copy()
        for (l, t), a in zip(body.params, args):
            st.cells[(fr, l)] = a
        self.stack.append(body)
        self.targs.append(targs)
        try:
            rets = []
            self.region(body, fr, self.order(body), {0: [st]}, rets)
        finally:
            self.stack.pop()
            self.targs.pop()
        out = []
        for s in rets:
            self.gc(s, fr, {0})
        for s in self.merge(rets, fr):
            v = s.cells.get((fr, 0), UNIT)
            v = self.detach(s, v, fr)
            for c in [c for c in s.cells if c[0] == fr]:
                del s.cells[c]
            out.append((s, v))
        return out

    def detach(self, st, v, fr):
        """references into the frame that ends (promoted temporaries of consts) are replaced by the value"""
        if isinstance(v, Ref) and v.cell[0] == fr:
            return self.detach(st, self.get(st, v.cell, v.path), fr)
        if isinstance(v, Agg):
            return Agg(v.kind, [self.detach(st, f, fr) for f in v.fields])
        if isinstance(v, En):
            return En(v.name, v.k, [self.detach(st, f, fr) for f in v.fields])
        return v

    def merge(self, sts, fr):
        """join states that differ only in what they assume"""
        out = []
        for s in sts:
            for o in out:
                if s.fs.eq(o.fs) and len(s.ev) == len(o.ev) and all(x is y or x == y for x, y in zip(s.ev, o.ev)) and \
                        s.cells.keys() == o.cells.keys() and all(same(v, o.cells[c]) for c, v in s.cells.items()) and \
                        s.exp.keys() == o.exp.keys() and all(same(v, o.exp[c]) for c, v in s.exp.items()):
                    n = 0
                    while n < len(s.pc) and n < len(o.pc) and (s.pc[n] is o.pc[n] or s.pc[n].eq(o.pc[n])):
                        n += 1
                    a, b = s.pc[n:], o.pc[n:]
                    if a and b:
                        o.pc = o.pc[:n] + (z3.Or(z3.And(list(a)), z3.And(list(b))),)
                        if z3.is_true(z3.simplify(o.pc[-1])):
                            o.pc = o.pc[:n]
                    else:
                        o.pc = o.pc[:n]
                    break
            else:
                out.append(s)
        if len(out) > 4000:
            raise Unsupported('too many paths')
        return out

    def region(self, body, fr, items, inc, rets):
        for it in items:
            if isinstance(it, Loop):
                e = inc.pop(it.head, None)
                for s in self.merge(e or [], fr):
                    self.loop(body, fr, it, s, inc, rets)
            else:
                e = inc.pop(it, None)
                lv = self.live(body)[it] if e else ()
                for s in e or ():
                    self.gc(s, fr, lv)
                for s in self.merge(e or [], fr):
                    self.block(body, fr, it, s.copy(), 0, inc, rets)

    def block(self, body, fr, bb, st, i, inc, rets):
        stmts, t = body.blocks[bb]
        while i < len(stmts):
            s = stmts[i]
            if s[0] == 'dead':
                st.cells.pop((fr, s[1]), None)
            elif s[0] == 'assign':
                if s[2][0] == 'discr':
                    c, p = self.resolve(st, s[2][1], fr)
                    v = self.force(st, self.get(st, c, p))
                    if isinstance(v, Op) or isinstance(v, Sym) and not self.known_enum(v):   # library enum: any variant
                        d = z3.Const('discr_%s' % v.id, z3.IntSort()) if isinstance(v, Sym) else self.fresh(z3.IntSort(), 'discr')
                        c, p = self.resolve(st, s[1], fr)
                        self.put(st, c, p, d)
                        i += 1
                        continue
                    cs = self.cases(st, v)
                    for k, (s2, v) in enumerate(cs):
                        s3 = s2.copy()
                        c, p = self.resolve(s3, s[1], fr)
                        self.put(s3, c, p, self.dval(v, body))
                        if k == len(cs) - 1:
                            st = s3
                        else:
                            self.block(body, fr, bb, s3, i + 1, inc, rets)
                else:
                    v = self.rvalue(st, s[2], fr, body)
                    c, p = self.resolve(st, s[1], fr)
                    self.put(st, c, p, v)
            else:
                raise Unsupported('statement ' + s[0])
            i += 1
        self.term(body, fr, bb, t, st, inc, rets)

    def dval(self, v, body):
        a = self.prog.adt(v.name, body.crate) if v.name not in STD_ENUMS else None
        return a.discr[v.k] if a is not None else v.k

    def rvalue(self, st, rv, fr, body):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1], fr, body)
        if k in ('ref', 'rawref'):
            place = rv[-1]
            c, p = self.resolve(st, place, fr)
            if place[1] and place[1][-1] == ('deref',):
                try:
                    v = self.get(st, c, p)
                except Unsupported:
                    v = None
                if v is not None and not isinstance(v, Ref) and (c, p) == ((fr, place[0]), ()) and len(place[1]) == 1:
                    return v          # reborrow of a value-represented reference
            return Ref(c, p)
        if k == 'agg':
            kind, ops, names = rv[1], rv[2], rv[3]
            vals = [self.operand(st, o, fr, body) for o in ops]
            if kind[0] in ('tuple', 'array', 'closure'):
                return Agg(kind, vals)
            return self.adt_agg(kind[1], vals, names, body)
        if k == 'bin':
            a, b = self.rd(st, self.operand(st, rv[2], fr, body)), self.rd(st, self.operand(st, rv[3], fr, body))
            return self.binop(rv[1], a, b, rv[2], body)
        if k == 'un':
            a = self.rd(st, self.operand(st, rv[2], fr, body))
            if rv[1] == 'Not' and is_b(a):
                return (not a) if isinstance(a, bool) else z3.Not(a)
            if rv[1] == 'PtrMetadata' and is_s(a):
                return self.slen(a)
            if rv[1] == 'Neg' and is_i(a):
                return -a
            if is_i(a):
                return self.fresh(z3.IntSort(), rv[1])
            raise Unsupported('unary ' + rv[1])
        if k == 'cast':
            v = self.operand(st, rv[1], fr, body)
            ty = next((x for x in rv[2:] if isinstance(x, tuple) and len(x) == 2 and x[0] == 'int'), None)
            if ty and ty[1] in INTW and is_i(v) and not is_b(v):
                lo, hi = INTW[ty[1]]
                if isinstance(v, int):
                    return (v - lo) % (hi - lo + 1) + lo
                r = self.fresh(z3.IntSort(), 'cast')
                self.fact(z3.And(r >= lo, r <= hi, z3.Implies(z3.And(v >= lo, v <= hi), r == v), (r - v) % (hi - lo + 1) == 0))
                return r
            return v
        if k == 'repeat':
            return Op('repeat', self.operand(st, rv[1], fr, body), str(rv[2]))
        if k == 'len':
            v = self.rd(st, self.get(st, *self.resolve(st, rv[1], fr)))
            return self.slen(v) if is_s(v) else Op('len', v)
        raise Unsupported('rvalue ' + k)

    def adt_agg(self, path, vals, names, body):
        p = strip_generics(path)
        segs = p.split('::')
        nm = segs[-1]
        if len(segs) > 1 and segs[-2] in STD_ENUMS and nm in STD_ENUMS[segs[-2]]:
            return En(segs[-2], STD_ENUMS[segs[-2]].index(nm), vals)
        if nm in ('Some', 'None', 'Ok', 'Err'):
            e = 'Option' if nm in ('Some', 'None') else 'Result'
            return En(e, STD_ENUMS[e].index(nm), vals)
        if len(segs) > 1:
            a = self.prog.adt(segs[-2], body.crate)
            if a is not None and a.kind == 'enum' and nm in a.variants:
                k = a.variants.index(nm)
                if names:
                    fn = [n for n, _ in a.fields[k]]
                    vals = [vals[names.index(n)] for n in fn]
                return En(a.name, k, vals)
        a = self.prog.adt(nm, body.crate)
        if a is not None and a.kind == 'struct' and names and set(names) == {n for n, _ in a.fields[0]}:
            vals = [vals[names.index(n)] for n, _ in a.fields[0]]
        return Agg(('adt', nm), vals)

    def binop(self, op, a, b, o, body):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne'):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return (a == b) == (base == 'Eq')
            if z3.is_expr(a) or z3.is_expr(b):
                if isinstance(a, (int, bool)) or isinstance(b, (int, bool)) or z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
                    r = a == b
                    return r if base == 'Eq' else z3.Not(r)
            raise Unsupported('comparison')
        if base in ('Lt', 'Le', 'Gt', 'Ge') and is_i(a) and is_i(b):
            return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[base]
        if base in ('Add', 'Sub', 'Mul') and is_i(a) and is_i(b):
            r = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            if 'WithOverflow' in op:
                ty = o[2] if o[0] == 'const' and len(o) > 3 else None
                ty = ('int', o[3]) if o[0] == 'const' and len(o) > 3 else self.place_ty(o, body)
                lo, hi = INTW[ty[1]] if ty and ty[0] == 'int' else INTW['usize']
                ov = not (lo <= r <= hi) if isinstance(r, int) else z3.Or(r < lo, r > hi)
                return Agg(('tuple',), (r, ov))
            return r
        if base in ('BitAnd', 'BitOr') and is_b(a) and is_b(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return (a and b) if base == 'BitAnd' else (a or b)
            return z3.And(a, b) if base == 'BitAnd' else z3.Or(a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem') and is_i(a) and is_i(b):
            if isinstance(a, int) and isinstance(b, int) and base in ('BitAnd', 'BitOr', 'BitXor') and a >= 0 and b >= 0:
                return a & b if base == 'BitAnd' else a | b if base == 'BitOr' else a ^ b
            if isinstance(b, int) and b > 0 and base in ('Div', 'Rem') and isinstance(a, int) and a >= 0:
                return a // b if base == 'Div' else a % b
            r = self.fresh(z3.IntSort(), base)      # any value
            return r
        raise Unsupported('operator ' + op)

    def place_ty(self, o, body):
        if o[0] in ('copy', 'move') and not o[1][1]:
            return body.locals.get(o[1][0])
        return None

    def term(self, body, fr, bb, t, st, inc, rets):
        k = t[0]

        def goto(b, s):
            inc.setdefault(b, []).append(s)
        if k == 'goto':
            goto(t[1], st)
        elif k == 'return':
            rets.append(st)
        elif k == 'unreachable':
            pass
        elif k == 'drop':
            c, p = self.resolve(st, t[1], fr)
            for s in self.drop(st, self.get(st, c, p) if c in st.cells else None, c, p):
                goto(t[2], s)
        elif k == 'assert':
            v = self.rd(st, self.operand(st, t[1], fr, body))
            good = v if t[2] else ((not v) if isinstance(v, bool) else z3.Not(v))
            if good is True:
                goto(t[4], st)
                return
            if good is not False:
                s = st.with_(good)
                if self.feasible(s.pc):
                    goto(t[4], s)
                bad = st.with_(z3.Not(good))
            else:
                bad = st
            if good is False or self.feasible(bad.pc):
                self.terminal.append((bad, 'panic', t[3], self.where()))
        elif k == 'switch':
            v = self.rd(st, self.operand(st, t[1], fr, body))
            if isinstance(v, (int, bool)):
                for val, b in t[2]:
                    if val == int(v):
                        return goto(b, st)
                if t[3] is not None:
                    goto(t[3], st)
                return
            if not z3.is_expr(v):
                raise Unsupported('switch on %r' % (v,))
            rest = []
            for val, b in t[2]:
                l = (v if val else z3.Not(v)) if z3.is_bool(v) else v == val
                rest.append(z3.Not(l))
                s = st.with_(l)
                if self.feasible(s.pc):
                    goto(b, s)
            if t[3] is not None:
                s = st.with_(*rest)
                if self.feasible(s.pc):
                    goto(t[3], s)
        elif k == 'call':
            _, dest, callee, ops, ret = t
            args = [self.operand(st, o, fr, body) for o in ops]
            retty = body.locals.get(dest[0]) if not dest[1] else None
            for s, v in self.call(callee, args, st, body, fr, retty):
                if ret is None:
                    continue
                s = s.copy()
                c, p = self.resolve(s, dest, fr)
                self.put(s, c, p, v)
                goto(ret, s)
        else:
            raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------------ drops
    def drop(self, st, v, cell, path, d=5):
        if v is None or d == 0:
            return [st]
        v = self.force(st, v)
        if isinstance(v, Ref):
            return [st]
        out = [st]
        if isinstance(v, Agg) and v.kind[0] == 'adt':
            if v.kind[1] == 'BufWriter':
                return [s for s, _ in self.flush(st, v, dropping=True)]
            b = None
            for c in self.prog.crates.values():
                b = b or c.by_key.get((v.kind[1], 'Drop', 'drop'))
            if b is not None:
                st = st.copy()
                self.nframe += 1
                tmp = (('drop', self.nframe), 0)
                st.cells[tmp] = v
                out = [s for s, _ in self.run(b, [Ref(tmp)], st)]
                for s in out:
                    s.cells.pop(tmp, None)
        if isinstance(v, (Agg, En)):
            for f in v.fields:
                nxt = []
                for s in out:
                    nxt += self.drop(s, f, None, None, d - 1)
                out = nxt
        return out

    # ------------------------------------------------------------------ loops
    def loop(self, body, fr, lp, st, inc, rets):
        self.loops += 1
        self.gc(st, fr, self.live(body)[lp.head])
        mods = set()
        for bb in lp.blocks:
            stmts, t = body.blocks[bb]
            for s in stmts:
                if s[0] == 'assign':
                    mods |= self.mod_cells(st, s[1], fr)
                    if s[2][0] in ('ref', 'rawref') and s[2][1]:
                        mods |= self.mod_cells(st, s[2][-1], fr)
            if t and t[0] == 'call':
                mods |= self.mod_cells(st, t[1], fr)
            if t and t[0] == 'drop':
                pass
        mods = {m for m in mods if m in st.cells}
        havocfs = False
        invs = None
        for attempt in range(40):
            mark = ({k: list(v) for k, v in inc.items()}, len(rets), len(self.terminal), len(self.obs), len(self.facts))
            h = st.copy()
            for c in sorted(mods, key=str):
                v = self.force(h, h.cells[c])
                if isinstance(v, En) and c[0] == fr and body.locals.get(c[1]) is not None:
                    h.cells[c] = self.sym(body.locals[c[1]], 'h')
                else:
                    h.cells[c] = self.havoc(h, v, c)
            if havocfs:
                if self.fspath is None:
                    raise Unsupported('loop writes more than one file')
                content = self.present(self.fresh(S, 'content'))
                h.fs = z3.Store(st.fs, self.fspath, content)
            if havocfs and invs is None:
                invs = self.inv_templates(st, h, mods)
            for desc, f in invs or []:
                e = f(h)
                if e is not None:
                    h.pc = h.pc + (e,)
            inner = {k: [] for k in ()}
            inc2 = {lp.head: [h]}
            r2 = []
            # exits of the loop go to inc, the back edge stays in inc2
            self.region(body, fr, [lp.head] + [x for x in lp.items if x != lp.head], inc2, r2)
            back = inc2.pop(lp.head, [])
            for b in back:
                self.gc(b, fr, self.live(body)[lp.head])
            changed = [b for b in back if not b.fs.eq(h.fs)]
            grew = False
            for b in back:
                for c, v in b.cells.items():
                    if c in st.cells and c not in mods and not same(v, h.cells.get(c)):
                        mods.add(c)
                        grew = True
            for b in back:
                for c in mods:
                    if c in b.cells and not self.compat(b, h.cells[c], b.cells[c]):
                        raise Unsupported('loop changes %r to %r' % (h.cells[c], b.cells[c]))
            evc = [b for b in back if b.ev != h.ev]
            if evc and not all(e[0] in ('fault',) for b in evc for e in b.ev[len(h.ev):]):
                raise Unsupported('loop with recorded effects')
            redo = grew
            if changed and not havocfs:
                ps = {self.store_path(b.fs, h.fs) for b in changed}
                self.fspath = None
                if len(ps) == 1 and None not in ps:
                    self.fspath = self.unhash(ps.pop(), changed[0].fs, h.fs)
                havocfs, redo = True, True
            elif havocfs and not redo:
                keep = []
                for desc, f in invs:
                    okv = True
                    e0 = f(st)
                    if e0 is None or self.valid(st.pc, e0)[0] != 'proved':
                        okv = False
                    for b in back:
                        if okv and self.valid(b.pc, f(b))[0] != 'proved':
                            okv = False
                    if okv:
                        keep.append((desc, f))
                if len(keep) != len(invs):
                    invs, redo = keep, True
                for b in back:
                    if self.store_path(b.fs, st.fs) is None and not b.fs.eq(h.fs):
                        q = self.fresh(S, 'q')
                        if self.valid(b.pc, z3.Implies(q != self.fspath, b.fs[q] == st.fs[q]))[0] != 'proved':
                            raise Unsupported('loop writes several files')
            if redo:
                inc.clear()
                inc.update(mark[0])
                del rets[mark[1]:], self.terminal[mark[2]:], self.obs[mark[3]:]
                continue
            for b, ss in inc2.items():
                inc.setdefault(b, []).extend(ss)
            rets.extend(r2)
            self.invs += ['loop in %s: %s' % (body.pretty, d) for d, _ in invs or []]
            return
        raise Unsupported('loop frame does not stabilise')

    def store_path(self, new, old):
        """id of the only path at which new differs from old, syntactically"""
        p = None
        t = new
        while not t.eq(old):
            if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE):
                return None
            q = t.arg(1)
            if p is not None and p != q.get_id():
                return None
            p = q.get_id()
            t = t.arg(0)
        return p

    def unhash(self, pid, new, old):
        t = new
        while not t.eq(old):
            if t.arg(1).get_id() == pid:
                return t.arg(1)
            t = t.arg(0)

    def inv_templates(self, st, h, mods):
        """what the written file and the data still to be written add up to"""
        out = []
        P = self.fspath
        for c in sorted(mods, key=str):
            for key in self.sleaves(st, st.cells[c]):
                def f(s, c=c, key=key):
                    v = self.leaf(s, s.cells.get(c), key)
                    v = self.rd(s, v) if v is not None else None
                    if v is None or not is_s(v):
                        return None
                    return self.cat2(s.fs[P], v) == self.cat2(st.fs[P], self.rd(st, self.leaf(st, st.cells[c], key)))
                if f(st) is not None and f(h) is not None:
                    out.append(('contents written so far ++ %s is what was to be written' % (c[1],), f))
        return out

    def cat2(self, a, b):
        a = self.simp(a)
        return self.cat(a, b)

    def simp(self, t):
        """select over store chain"""
        t = z3.simplify(t)
        return t

    def sleaves(self, st, v, d=3):
        v = self.rd(st, v)
        if is_s(v):
            return [()]
        out = []
        if d and isinstance(v, (Agg, En)):
            for i, f in enumerate(v.fields):
                if f is not None:
                    out += [(i,) + k for k in self.sleaves(st, f, d - 1)]
        if d and isinstance(v, Op) and v.tag == 'chunks':
            out.append(('rem',))
        return out

    def leaf(self, st, v, key):
        v = self.rd(st, v) if v is not None else None
        for k in key:
            if isinstance(v, Op) and k == 'rem':
                return v.args[0]
            if not isinstance(v, (Agg, En)) or k >= len(v.fields):
                return None
            v = self.rd(st, v.fields[k])
        return v

    def compat(self, st, a, b):
        """b is one of the values that the forgotten value a stands for"""
        a, b = self.force(st, a), self.force(st, b)
        if is_s(a):
            return is_s(self.rd(st, b)) if not isinstance(b, Op) else False
        if is_b(a) or is_i(a):
            return is_b(b) if is_b(a) else is_i(b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and len(a.fields) == len(b.fields) and a.kind != ('adt', 'File'):
            return all(self.compat(st, x, y) for x, y in zip(a.fields, b.fields))
        if isinstance(a, Op) and isinstance(b, Op) and a.tag == b.tag == 'chunks':
            return True
        if isinstance(a, Sym):
            return True
        return same(a, b)

    def mod_cells(self, st, place, fr):
        try:
            if (fr, place[0]) not in st.cells:
                return set()
            c, _ = self.resolve(st, place, fr)
            return {c}
        except Unsupported:
            return {(fr, place[0])}

    def havoc(self, st, v, cell):
        v = self.force(st, v)
        if is_s(v):
            return self.present(self.fresh(S, 'h'))
        if isinstance(v, bool) or is_b(v):
            return self.fresh(z3.BoolSort(), 'h')
        if is_i(v):
            t = self.fresh(z3.IntSort(), 'h')
            b = None
            return t
        if isinstance(v, Agg):
            if v.kind == ('adt', 'File'):
                return v
            return Agg(v.kind, [self.havoc(st, f, cell) if f is not None else None for f in v.fields])
        if isinstance(v, Ref):
            tgt = self.rd(st, v)
            if is_s(tgt):
                return self.present(self.fresh(S, 'h'))
            return v
        if isinstance(v, Op) and v.tag == 'chunks':
            return Op('chunks', self.present(self.fresh(S, 'rem')), *v.args[1:])
        if isinstance(v, (Fn, Sym)) or v is None:
            return self.sym(v.ty, 'h') if isinstance(v, Sym) else v
        if isinstance(v, Op) and v.tag in ('len', 'err', 'log', 'float', 'named'):
            return v
        raise Unsupported('loop changes %r' % (v,))

    # ------------------------------------------------------------------ calls
    def call(self, callee, args, st, body, fr=None, retty=None):
        if isinstance(callee, tuple):
            f = self.rd(st, self.operand(st, callee[1], fr, body))
            return self.call_value(f, args, st, body)
        targs = self.type_args(callee)
        b = self.prog.resolve_fn(callee, body.crate)
        if b is None:
            b = self.dispatch(callee, args, st, body)
        if b is not None and b.pretty.endswith('Parser::render'):
            b = None
        if b is not None:
            return self.run(b, args, st, targs)
        import iomodels
        return iomodels.call(self, callee, args, st.copy(), body, retty)

    def type_args(self, callee):
        m = re.search(r'::<([^<].*)>$', callee)
        if not m or callee.startswith('<'):
            return ()
        try:
            return tuple(split_top(m.group(1)))
        except Exception:
            return ()

    def dispatch(self, callee, args, st, body):
        m = re.match(r'^<(.*)>::([a-z_0-9]+)(::<.*>)?$', callee)
        if not m:
            return None
        parts = split_top(m.group(1), ' as ')
        if len(parts) != 2:
            return None
        ty, tr = parts[0].strip(), last(re.sub(r'<.*$', '', parts[1]))
        while ty.startswith('&'):
            ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
        if re.match(r'^[A-Z]\w*$', ty) and self.prog.adt(ty, body.crate) is None:
            for ta in reversed(self.targs):      # type parameter: bound by the innermost generic call with one type argument
                ta = [x for x in ta if not x.startswith("'") and not x.startswith('{closure')]
                if len(ta) == 1:
                    ty = ta[0]
                    break
        nm = type_last(parse_type(ty))
        for c in [body.crate] + list(self.prog.crates.values()):
            b = c.by_key.get((nm, tr, m.group(2)))
            if b is not None and (self.ours(ty) or '::' not in ty):
                return b
        return None

    def call_value(self, f, args, st, body):
        """call a closure or function value"""
        f = self.force(st, f)
        ref = f if isinstance(f, Ref) else None
        f = self.rd(st, f)
        if isinstance(f, Agg) and f.kind[0] == 'closure':
            cb = self.prog.closure(f.kind[1])
            if cb is None:
                raise Unsupported('closure ' + f.kind[1])
            if cb.params[0][1][0] == 'ref':
                if ref is None:
                    st = st.copy()
                    self.nframe += 1
                    cell = (('env', self.nframe), 0)
                    st.cells[cell] = f
                    ref = Ref(cell)
                return self.run(cb, [ref] + args, st)
            return self.run(cb, [f] + args, st)
        if isinstance(f, Fn):
            return self.call(f.name, args, st, f.body or body)
        raise Unsupported('call of %r' % (f,))

    # ------------------------------------------------------------------ file-system contract primitives
    def mutate(self, st, path, content, what):
        for h in self.hooks:
            h(st, path, what, self.where())
        s = st.copy()
        s.fs = z3.Store(s.fs, path, content)
        return s

    def event(self, st, *e):
        s = st.copy()
        s.ev = s.ev + (e,)
        return s

    def fault(self, st, what):
        return self.event(st, 'fault', what)

    def flush(self, st, bw, dropping=False):
        """write out the buffer of a BufWriter: [(state, success)]"""
        f, buf = bw.fields
        p = f.fields[0]
        if buf.eq(self.empty):
            return [(st, True)]
        good = self.mutate(st, p, self.cat(z3.simplify(st.fs[p]), buf), 'write')
        bad = self.mutate(self.fault(st, 'write'), p, self.present(self.fresh(S, 'partial')), 'write')
        return [(good, True), (bad, False)]

    def goal(self, desc, st, cond, loc=''):
        g = Goal(desc, st.pc, cond, loc)
        g.ev = st.ev
        self.obs.append(g)
        return g
