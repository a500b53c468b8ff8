"""Contracts of library functions for the file-handling crates. Each is trusted; the evidence lists those that were used."""
import re
import z3
from engine import Unsupported
from registry import STD_ENUMS, last, strip_generics, type_last
from mirparse import split_top, match_close, parse_type
from models import norm, Models
import iovc
from iovc import (S, ABSENT, JOIN, EXT, FNAME, PARENT, RENDER, LEN, ITOA, LOSSY, Agg, En, Ref, Sym, Fn, Op, UNIT, NONE, ok, err, some, is_s, is_i, is_b,
                  IMPURE)

IDENT = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'clone', 'to_owned', 'borrow', 'borrow_mut', 'into', 'from', 'as_path', 'as_str', 'as_bytes', 'as_slice',
         'to_path_buf', 'into_owned', 'to_vec', 'into_boxed_str', 'as_os_str', 'into_os_string', 'into_bytes', 'to_string', 'into_string', 'as_mut_str', 'new_path',
         'into_boxed_path', 'into_path_buf', 'to_os_string', 'as_mut_slice', 'into_boxed_slice', 'by_ref', 'as_encoded_bytes', 'into_vec'}
STRT = {'String', 'str', 'PathBuf', 'Path', 'OsStr', 'OsString', 'Cow', 'Vec', 'slice', '[]', 'Box', '&str', 'Arc', 'Rc'}


def call(E, callee, args, st, body, retty):
    full = strip_generics(callee)
    nm = norm(callee)
    r = model(E, full, nm, callee, args, st, body, retty)
    if r is not NotImplemented:
        E.trusted[nm] = E.trusted.get(nm, 0) + 1
        return r
    return unknown(E, full, nm, callee, args, st, body, retty)


def unknown(E, full, nm, callee, args, st, body, retty):
    """outside the crates and without a contract: assumed not to touch the file system, result and &mut arguments arbitrary"""
    flat = full.replace('<', '')
    if any(flat.startswith(x) or (' ' + x) in full for x in IMPURE) or 'std::fs::' in full:
        raise Unsupported('no contract for ' + full)
    E.assumed[full] = E.assumed.get(full, 0) + 1
    st = st.copy()
    out = [st]
    if nm.endswith('Iterator>::find') or nm.endswith('::find') and ' as Iterator' in nm or nm.endswith('Iterator::find'):
        r = find(E, args, st, body, retty)
        if r is not None:
            return r
    for a in args:
        v = E.force(st, a)
        if isinstance(v, Ref):
            t = E.rd(st, v)
            if handle(t):
                raise Unsupported('file handle passed to ' + full)
            v = t
        elif handle(v):
            raise Unsupported('file handle passed to ' + full)
        if isinstance(v, Agg) and v.kind[0] == 'closure':
            cb = E.prog.closure(v.kind[1])
            if cb is None:
                raise Unsupported('closure')
            ps = [E.sym(t, 'carg') for _, t in cb.params[1:]]
            nt = len(E.terminal)
            rs = E.call_value(a, ps, st, body)
            for s, _ in rs:
                if not s.fs.eq(st.fs) or s.ev != st.ev:
                    raise Unsupported('closure with effects passed to ' + full)
            for x in E.terminal[nt:]:
                if x[1] == 'exit':
                    raise Unsupported('closure exits')
            for f in v.fields:          # what the closure may have changed
                if isinstance(f, Ref) and not same_after(E, st, rs, f):
                    havoc_ref(E, st, f)
    # &mut parameters: recognised by the callee's argument types being unknown, so forget every string/number behind a reference the
    # caller made with &mut; shared references print the same, so only mutable locals are affected
    for a in args:
        v = E.force(st, a)
        if isinstance(v, Ref) and mutable_ref(E, body, v):
            havoc_ref(E, st, v)
    return [(st, E.sym(retty, 'ret_' + nm.split('::')[-1]) if retty else Op('ret', nm))]


def find(E, args, st, body, retty):
    """an element for which the predicate answers true, or None"""
    f = E.rd(st, args[1])
    if not (isinstance(f, Agg) and f.kind[0] == 'closure') or retty is None or type_last(retty) != 'Option':
        return None
    s0 = st.copy()
    E.nframe += 1
    cell = (('item', E.nframe), 0)
    x = E.force(s0, E.sym(retty[2][0], 'found'))
    s0.cells[cell] = x
    out = [(st, NONE)]
    for s, r in E.call_value(args[1], [Ref(cell)], s0, body):
        if not s.fs.eq(st.fs) or s.ev != st.ev:
            raise Unsupported('closure with effects passed to find')
        r = E.rd(s, r)
        if r is False:
            continue
        s = s if r is True else s.with_(r)
        out.append((s, some(x)))
    return out


def handle(v):
    return isinstance(v, Agg) and v.kind in (('adt', 'File'), ('adt', 'BufWriter'))


def same_after(E, st, rs, f):
    a = E.get(st, f.cell, f.path)
    return all(f.cell in s.cells and iovc.same(E.get(s, f.cell, f.path), a) for s, _ in rs)


def mutable_ref(E, body, ref):
    """is the cell ever mutably borrowed in this body"""
    for stmts, t in body.blocks.values():
        for s in stmts:
            if s[0] == 'assign' and s[2][0] in ('ref', 'rawref') and s[2][1] and s[2][-1][0] == ref.cell[1]:
                return True
    return False


def havoc_ref(E, st, ref):
    v = E.rd(st, ref)
    E.wr(st, ref, E.havoc(st, v, ref.cell))


def sval(E, st, v):
    v = E.rd(st, v)
    if isinstance(v, Op) and v.tag == 'bytes':
        d = v.args[0]
        return E.lit(d.decode('latin-1') if isinstance(d, bytes) else d)
    if isinstance(v, Op) and v.tag == 'display':
        return v.args[0]
    if not is_s(v):
        raise Unsupported('string expected, got %r' % (v,))
    return v


def join(E, a, b):
    t = E.text(b)
    if t is not None and not t.startswith('/') and '/' in t.strip('/'):
        for part in t.split('/'):
            if part:
                a = join(E, a, E.lit(part))
        return a
    if E.text(a) == '' and t is not None:
        return b
    r = JOIN(a, b)
    E.present(r)
    return r


def fallible(E, st, what, good):
    """[(state, Ok(..))] + failure branch; good(state) -> [(state, value)]"""
    f = E.fault(st, what)
    return [(s, ok(v)) for s, v in good(st.copy())] + [(f, err())]


def fmt(E, st, a, body):
    a = E.rd(st, a)
    if isinstance(a, Op) and a.tag == 'fmtstr':
        return a.args[0]
    if not (isinstance(a, Op) and a.tag == 'fmt'):
        return E.present(E.fresh(S, 'fmt'))
    tmpl, av = a.args
    if not (isinstance(tmpl, Op) and tmpl.tag == 'bytes'):
        return E.present(E.fresh(S, 'fmt'))
    data = tmpl.args[0]
    if isinstance(data, str):
        data = data.encode('latin-1')
    out = E.lit('')
    for p in Models.fmt_pieces(None, data):
        if isinstance(p, str):
            out = E.cat(out, E.lit(p))
            continue
        k, plain = p
        arg = E.rd(st, av.fields[k]) if isinstance(av, Agg) else None
        x = arg.args[0] if plain and isinstance(arg, Op) and arg.tag == 'fmtarg' else None
        if x is not None and is_s(x):
            out = E.cat(out, x)
        elif x is not None and is_i(x):
            t = ITOA(x)
            E.present(t)
            out = E.cat(out, t)
        elif isinstance(x, Op) and x.tag == 'display':
            out = E.cat(out, x.args[0])
        else:
            out = E.cat(out, E.present(E.fresh(S, 'fmt')))
    return out


# ---------------------------------------------------------------------------------------------- dispatcher
def model(E, full, nm, callee, args, st, body, retty):
    typ, _, meth = nm.rpartition('::')
    trait = typ.split(' as ')[1] if ' as ' in typ else None
    typ = typ.split(' as ')[0]
    R = lambda v: [(st, v)]
    if trait == 'Parser' and meth == 'parse' and 'clap::' in full and getattr(E, 'cli', None) is not None:
        return R(E.cli)
    # ---- logging
    if full.startswith('log::') or typ in ('Level', 'LevelFilter'):
        if trait in ('PartialOrd', 'PartialEq', 'Ord'):
            return R(E.fresh(z3.BoolSort(), 'lvl'))
        return R(Op('log'))
    # ---- control flow of ?
    if trait == 'Try' and meth == 'branch':
        out = []
        for s, v in E.cases(st, args[0]):
            if v.name == 'Option':
                out.append((s, En('ControlFlow', 0, v.fields) if v.k == 1 else En('ControlFlow', 1, (NONE,))))
            else:
                out.append((s, En('ControlFlow', 0, v.fields) if v.k == 0 else En('ControlFlow', 1, (En('Result', 1, v.fields),))))
        return out
    if trait == 'Try' and meth == 'from_output':
        return R(some(args[0]) if retty and type_last(retty) == 'Option' else ok(args[0]))
    if trait == 'FromResidual':
        if retty and type_last(retty) == 'Option':
            return R(NONE)
        return R(err(Op('err')))
    if full.startswith('std::fmt') or full.startswith('core::fmt') or full.startswith('alloc::fmt') or typ in ('Arguments', 'Argument'):
        if typ == 'Argument' and meth in ('new_display', 'new_debug', 'new_lower_hex'):
            v = E.rd(st, args[0])
            return R(Op('fmtarg', v if meth == 'new_display' else Op('dbg')))
        if typ == 'Arguments' and meth == 'new':
            return R(Op('fmt', E.rd(st, args[0]), E.deep(st, args[1])))
        if typ == 'Arguments' and meth in ('from_str', 'new_const', 'from_str_nonconst'):
            v = E.rd(st, args[0])
            return R(Op('fmtstr', v) if is_s(v) else Op('fmtunknown'))
        if meth == 'format':
            return R(fmt(E, st, args[0], body))
    if nm in ('hint::must_use', 'convert::identity', 'hint::black_box'):
        return R(args[0])
    if nm in ('mem::drop',):
        return [(s, UNIT) for s in E.drop(st, args[0], None, None)]
    if nm == 'mem::forget':
        return R(UNIT)
    if nm == 'mem::take':
        v = E.rd(st, args[0])
        d = E.lit('') if is_s(v) else NONE if isinstance(v, En) and v.name == 'Option' else None
        if d is None:
            return NotImplemented
        E.wr(st, args[0], d)
        return R(v)
    if nm == 'mem::replace':
        v = E.rd(st, args[0])
        E.wr(st, args[0], args[1])
        return R(v)
    if nm.endswith('intrinsics::discriminant_value') or full.endswith('::discriminant_value'):
        return [(s, E.dval(v, body)) for s, v in E.cases(st, args[0])]
    if full.endswith('mem::discriminant'):
        return [(s, E.dval(v, body)) for s, v in E.cases(st, args[0])]
    if full in ('std::process::exit',):
        E.terminal.append((st, 'exit', E.rd(st, args[0]), E.where()))
        return []
    if full in ('std::process::abort',):
        E.terminal.append((st, 'panic', 'abort', E.where()))
        return []
    if re.search(r'panic|unwrap_failed|expect_failed|begin_unwind', full):
        E.terminal.append((st, 'panic', full, E.where()))
        return []
    if full == 'gfm::Parser::render' or nm == 'Parser::render':
        t = RENDER(sval(E, st, args[0]))
        return R(E.present(t))
    # ---- Option / Result
    if typ in ('Option', 'Result') and meth in ('Some', 'Ok', 'Err') and len(args) == 1:
        return R(some(args[0]) if meth == 'Some' else ok(args[0]) if meth == 'Ok' else err(args[0]))
    if typ in ('Option', 'Result') and trait is None:
        r = optres(E, typ, meth, args, st, body, retty)
        if r is not NotImplemented:
            return r
    if trait in ('FnOnce', 'FnMut', 'Fn') and meth.startswith('call'):
        tup = E.rd(st, args[1])
        return E.call_value(args[0], list(tup.fields), st, body)
    # ---- equality
    if trait == 'PartialEq' and meth in ('eq', 'ne'):
        a, b = E.rd(st, args[0]), E.rd(st, args[1])
        if isinstance(a, Agg) and a.kind == ('adt', 'Box') or (is_s(a) and is_s(b)) or is_i(a) and is_i(b) or is_b(a) and is_b(b):
            if z3.is_expr(a) or z3.is_expr(b):
                r = z3.simplify(a == b) if not (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)) else z3.BoolVal(True)
                r = True if z3.is_true(r) else False if z3.is_false(r) else r
            else:
                r = a == b
            return R(r if meth == 'eq' else (not r if isinstance(r, bool) else z3.Not(r)))
        if isinstance(a, En) and isinstance(b, En) and not a.fields and not b.fields:
            return R((a.k == b.k) == (meth == 'eq'))
        return NotImplemented
    # ---- file system
    r = fsys(E, full, nm, typ, trait, meth, callee, args, st, body, retty)
    if r is not NotImplemented:
        return r
    # ---- paths and strings
    r = strings(E, full, nm, typ, trait, meth, args, st, body, retty)
    if r is not NotImplemented:
        return r
    # ---- configuration libraries
    return config(E, full, nm, typ, trait, meth, callee, args, st, body, retty)


def optres(E, typ, meth, args, st, body, retty):
    good = 1 if typ == 'Option' else 0
    mk = some if typ == 'Option' else ok
    out = []
    if meth in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'cloned', 'copied', 'iter'):
        r = E.force(st, args[0])
        for s, v in E.cases(st, args[0]):
            if v.k != good:
                out.append((s, v))
            else:
                out.append((s, En(v.name, v.k, [E.rd(s, v.fields[0]) if meth in ('cloned', 'copied') else v.fields[0]])))
        if meth == 'as_mut':
            return NotImplemented
        return out
    for s, v in E.cases(st, args[0]):
        g = v.k == good
        x = v.fields[0] if v.fields else UNIT

        def app(f, *xs):
            return E.call_value(f, list(xs), s.copy(), body)
        if meth in ('is_some', 'is_ok'):
            out.append((s, g))
        elif meth in ('is_none', 'is_err'):
            out.append((s, not g))
        elif meth in ('unwrap', 'expect'):
            if g:
                out.append((s, x))
            else:
                E.terminal.append((s, 'panic', typ + '::' + meth, E.where()))
        elif meth == 'map':
            out += [(s2, mk(y)) for s2, y in app(args[1], x)] if g else [(s, v)]
        elif meth == 'map_err':
            out += [(s, v)] if g else [(s2, err(y)) for s2, y in app(args[1], x)]
        elif meth == 'and_then':
            out += app(args[1], x) if g else [(s, v)]
        elif meth == 'and':
            out.append((s, args[1] if g else v))
        elif meth == 'or':
            out.append((s, v if g else args[1]))
        elif meth == 'or_else':
            out += [(s, v)] if g else app(args[1], *([x] if typ == 'Result' else []))
        elif meth in ('unwrap_or_default',):
            if g:
                out.append((s, x))
            else:
                n = type_last(retty) if retty else ''
                if n in ('String', 'PathBuf', 'Vec', 'OsString'):
                    out.append((s, E.lit('')))
                elif n in ('usize', 'u64', 'u32', 'i32', 'u8', 'i64'):
                    out.append((s, 0))
                elif n == 'bool':
                    out.append((s, False))
                else:
                    b = None
                    for c in E.prog.crates.values():
                        b = b or c.by_key.get((n, 'Default', 'default'))
                    if b is None:
                        return NotImplemented
                    out += E.run(b, [], s)
        elif meth == 'unwrap_or':
            out.append((s, x if g else args[1]))
        elif meth == 'unwrap_or_else':
            out += [(s, x)] if g else app(args[1], *([x] if typ == 'Result' else []))
        elif meth == 'ok_or':
            out.append((s, ok(x) if g else err(args[1])))
        elif meth == 'ok_or_else':
            out += [(s, ok(x))] if g else [(s2, err(y)) for s2, y in app(args[1])]
        elif meth == 'ok':
            out.append((s, some(x) if g else NONE))
        elif meth == 'err':
            out.append((s, NONE if g else some(x)))
        elif meth in ('map_or',):
            out += app(args[2], x) if g else [(s, args[1])]
        elif meth in ('map_or_else',):
            out += app(args[2], x) if g else app(args[1], *([x] if typ == 'Result' else []))
        elif meth in ('is_some_and', 'is_ok_and'):
            out += app(args[1], x) if g else [(s, False)]
        elif meth in ('inspect', 'inspect_err'):
            if g == (meth == 'inspect'):
                out += [(s2, v) for s2, _ in app(args[1], x)]
            else:
                out.append((s, v))
        elif meth == 'filter':
            if g:
                for s2, c in app(args[1], x):
                    c = E.rd(s2, c)
                    if isinstance(c, bool):
                        out.append((s2, v if c else NONE))
                    else:
                        out += [(s2.with_(c), v), (s2.with_(z3.Not(c)), NONE)]
            else:
                out.append((s, v))
        elif meth == 'take':
            s = s.copy()
            E.wr(s, args[0], NONE)
            out.append((s, v))
        else:
            return NotImplemented
    return out


# ---------------------------------------------------------------------------------------------- file system
def fsys(E, full, nm, typ, trait, meth, callee, args, st, body, retty):
    R = lambda v: [(st, v)]
    FILE = lambda p, pos='end': Agg(('adt', 'File'), (p, Op('pos', pos)))
    fs = full.startswith('std::fs::')
    if typ == 'Path' and meth in ('exists', 'is_file', 'try_exists') or full in ('std::fs::exists',):
        p = sval(E, st, args[0])
        c = st.fs[p] != ABSENT
        if meth == 'is_file' or meth == 'exists' and not fs:
            return R(c)
        return fallible(E, st, 'exists', lambda s: [(s, c)])
    if nm in ('File::create', 'File::create_new', 'File::open') and fs:
        p = sval(E, st, args[0])
        if meth == 'open':
            s = st.with_(st.fs[p] != ABSENT)
            return [(s, ok(FILE(p, 'read'))), (E.fault(st, 'open'), err())]
        out = [(E.fault(st, 'create'), err())]
        s = st.copy()
        if meth == 'create_new':
            s = s.with_(s.fs[p] == ABSENT)
        out.append((E.mutate(s, p, E.lit(''), 'create'), ok(FILE(p))))
        return out
    if typ == 'OpenOptions' or nm == 'File::options':
        if meth in ('new', 'options'):
            return R(Op('openopts', frozenset()))
        if meth in ('write', 'create', 'truncate', 'append', 'read', 'create_new', 'mode'):
            ref = args[0]
            o = E.rd(st, ref)
            if not (isinstance(o, Op) and o.tag == 'openopts'):
                return NotImplemented
            on = E.rd(st, args[1]) if meth != 'mode' else False
            if not isinstance(on, bool):
                raise Unsupported('open options')
            n = Op('openopts', (o.args[0] | {meth}) if on else (o.args[0] - {meth}))
            if isinstance(E.force(st, ref), Ref):
                E.wr(st, ref, n)
                return R(ref)
            return R(n)
        if meth == 'open':
            o = E.rd(st, args[0]).args[0]
            p = sval(E, st, args[1])
            out = [(E.fault(st, 'open'), err())]
            was = st.fs[p]
            if 'create_new' in o:
                s = st.with_(was == ABSENT)
                return out + [(E.mutate(s, p, E.lit(''), 'create'), ok(FILE(p)))]
            if not o & {'write', 'append'}:
                return out + [(st.with_(was != ABSENT), ok(FILE(p, 'read')))]
            if 'create' in o:
                s = st.with_(was == ABSENT)
                if E.feasible(s.pc):
                    out.append((E.mutate(s, p, E.lit(''), 'create'), ok(FILE(p))))
            s = st.with_(was != ABSENT)
            if 'truncate' in o and 'append' not in o:
                s = E.mutate(s, p, E.lit(''), 'truncate')
                out.append((s, ok(FILE(p))))
            else:
                out.append((s, ok(FILE(p, 'end' if 'append' in o else 'start'))))
            return out
    if fs and meth in ('read_to_string', 'read') and typ == 'fs':
        p = sval(E, st, args[0])
        s = st.with_(st.fs[p] != ABSENT)
        return [(s, ok(z3.simplify(s.fs[p]))), (E.fault(st, 'read'), err())]
    if fs and meth == 'write' and typ == 'fs':
        p, d = sval(E, st, args[0]), sval(E, st, args[1])
        s = E.mutate(st, p, d, 'write')
        part = E.mutate(E.fault(st, 'write'), p, E.present(E.fresh(S, 'partial')), 'write')
        return [(s, ok(UNIT)), (part, err()), (E.fault(st, 'create'), err())]
    if fs and meth == 'remove_file':
        p = sval(E, st, args[0])
        s = st.with_(st.fs[p] != ABSENT)
        out = [(E.event(E.fault(st, 'remove'), 'unremoved', p), err())]
        if E.feasible(s.pc):
            out.append((E.mutate(s, p, ABSENT, 'remove'), ok(UNIT)))
        return out
    if fs and meth in ('create_dir_all', 'create_dir'):
        return [(E.event(st, 'mkdir', sval(E, st, args[0])), ok(UNIT)), (E.fault(st, 'mkdir'), err())]
    if fs and meth == 'rename' and typ == 'fs':
        a, b = sval(E, st, args[0]), sval(E, st, args[1])
        s = st.with_(st.fs[a] != ABSENT)
        c = z3.simplify(s.fs[a])
        s = E.mutate(E.mutate(s, a, ABSENT, 'rename'), b, c, 'rename')
        return [(s, ok(UNIT)), (E.fault(st, 'rename'), err())]
    if fs and meth == 'copy' and typ == 'fs':
        a, b = sval(E, st, args[0]), sval(E, st, args[1])
        s = st.with_(st.fs[a] != ABSENT)
        s2 = E.mutate(s, b, z3.simplify(s.fs[a]), 'copy')
        part = E.mutate(E.fault(s, 'copy'), b, E.present(E.fresh(S, 'partial')), 'copy')
        return [(s2, ok(E.fresh(z3.IntSort(), 'n'))), (part, err()), (E.fault(st, 'copy'), err())]
    if fs and meth in ('metadata', 'symlink_metadata') and typ in ('fs',) or typ == 'Path' and meth in ('metadata', 'symlink_metadata'):
        p = sval(E, st, args[0])
        return [(st.with_(st.fs[p] != ABSENT), ok(Op('metadata'))), (E.fault(st, 'metadata'), err())]
    if fs and meth == 'canonicalize' or typ == 'Path' and meth == 'canonicalize':
        return [(st, ok(E.present(E.fresh(S, 'canon')))), (E.fault(st, 'canonicalize'), err())]
    if full == 'std::env::current_dir':
        return fallible(E, st, 'current_dir', lambda s: [(s, E.present(z3.Const('CWD', S)))])
    if full in ('std::env::set_var', 'std::env::remove_var'):
        return R(UNIT)
    if full in ('std::env::var_os', 'std::env::var'):
        return R(E.sym(retty, 'env'))
    if full == 'std::env::temp_dir':
        return R(E.present(z3.Const('TMPDIR', S)))
    # ---- handles
    if args and (typ in ('File', 'BufWriter', 'LineWriter', 'Write', 'Read') or trait in ('Write', 'Read', 'Seek')):
        return handles(E, full, typ, trait, meth, args, st, body, retty)
    return NotImplemented


def handles(E, full, typ, trait, meth, args, st, body, retty):
    R = lambda v: [(st, v)]
    if typ in ('BufWriter', 'LineWriter') and meth in ('new', 'with_capacity'):
        h = E.rd(st, args[-1])
        if not (isinstance(h, Agg) and h.kind == ('adt', 'File')):
            raise Unsupported('buffered writer over %r' % (h,))
        return R(Agg(('adt', 'BufWriter'), (h, E.lit(''))))
    h = E.rd(st, args[0])
    if not handle(h):
        return NotImplemented
    if h.kind == ('adt', 'BufWriter'):
        f, buf = h.fields
        if meth in ('write_all', 'write_fmt', 'write_str'):
            d = fmt(E, st, args[1], body) if meth == 'write_fmt' else sval(E, st, args[1])
            s = st.copy()
            E.wr(s, args[0], Agg(h.kind, (f, E.cat(buf, d))))
            bad = E.fault(st, 'write')
            bad = E.mutate(bad, f.fields[0], E.present(E.fresh(S, 'partial')), 'write')
            return [(s, ok(UNIT)), (bad, err())]
        if meth == 'flush':
            out = []
            for s, good in E.flush(st, h):
                s = s.copy()
                E.wr(s, args[0], Agg(h.kind, (f, E.lit(''))))
                out.append((s, ok(UNIT) if good else err()))
            return out
        if meth == 'into_inner':
            return [(s, ok(f) if good else err()) for s, good in E.flush(st, h)]
        if meth in ('get_ref', 'get_mut'):
            return R(f)
        raise Unsupported('BufWriter::' + meth)
    p, pos = h.fields
    pos = pos.args[0]
    if meth in ('write_all', 'write_fmt'):
        d = fmt(E, st, args[1], body) if meth == 'write_fmt' else sval(E, st, args[1])
        return [(s, ok(UNIT) if n is None else err()) for s, n in put_file(E, st, p, pos, d, False)]
    if meth == 'write':
        d = sval(E, st, args[1])
        return [(s, err() if n is None else ok(n)) for s, n in put_file(E, st, p, pos, d, True)]
    if meth in ('flush', 'sync_all', 'sync_data') or meth == 'set_permissions':
        return fallible(E, st, meth, lambda s: [(s, UNIT)])
    if meth == 'metadata':
        return fallible(E, st, meth, lambda s: [(s, Op('metadata'))])
    if meth == 'by_ref':
        return R(args[0])
    if meth == 'set_len':
        n = E.rd(st, args[1])
        old = st.fs[p]
        good = E.mutate(st, p, E.lit('') if n == 0 and isinstance(n, int) else E.present(E.fresh(S, 'resized')), 'set_len')
        return [(good, ok(UNIT)), (E.fault(st, 'set_len'), err())]
    if meth in ('read_to_string', 'read_to_end'):
        tgt = E.rd(st, args[1])
        s = st.copy()
        c = z3.simplify(st.fs[p])
        E.wr(s, args[1], E.cat(tgt, c))
        return [(s, ok(E.slen(c))), (E.fault(st, 'read'), err())]
    raise Unsupported('file method ' + meth)


def put_file(E, st, p, pos, d, partial):
    """write d at the handle's position; partial: Write::write (any prefix); -> [(state, None for all/failure | count)]"""
    old = z3.simplify(st.fs[p])
    if pos == 'read':
        return [(E.fault(st, 'write'), None if partial else False)]
    if pos == 'start':
        if partial:
            raise Unsupported('partial write over existing contents')
        c = E.present(E.fresh(S, 'over'))
        E.fact(z3.Implies(LEN(old) <= LEN(d), c == d))
        E.fact(z3.Implies(LEN(old) > LEN(d), c != d))
        good = E.mutate(st, p, c, 'write')
        bad = E.mutate(E.fault(st, 'write'), p, E.present(E.fresh(S, 'partial')), 'write')
        return [(good, None), (bad, False)]
    if partial:
        n = E.fresh(z3.IntSort(), 'n')
        s = st.with_(n >= 0, n <= E.slen(d))
        pre, suf = E.split(d, n)
        s = E.mutate(s, p, E.cat(old, pre), 'write')
        return [(s, n), (E.fault(st, 'write'), None)]
    good = E.mutate(st, p, E.cat(old, d), 'write')
    bad = E.mutate(E.fault(st, 'write'), p, E.present(E.fresh(S, 'partial')), 'write')
    return [(good, None), (bad, False)]


# ---------------------------------------------------------------------------------------------- strings
def strings(E, full, nm, typ, trait, meth, args, st, body, retty):
    R = lambda v: [(st, v)]
    if meth in ('concat', 'join') and typ in ('slice', '[]') and args:
        a = E.rd(st, args[0])
        if isinstance(a, Agg) and a.kind[0] in ('array', 'tuple'):
            xs = [sval(E, st, f) for f in a.fields]
            sep = sval(E, st, args[1]) if meth == 'join' else E.empty
            t = E.empty
            for i, x in enumerate(xs):
                t = E.cat(t, x) if not i or meth == 'concat' else E.cat(E.cat(t, sep), x)
            return R(t)
        return R(E.present(E.fresh(S, 'concat')))
    if full in ('std::path::Path::new',):
        return R(sval(E, st, args[0]))
    if full in ('std::path::PathBuf::new', 'std::string::String::new', 'alloc::string::String::new', 'std::vec::Vec::new', 'alloc::vec::Vec::new',
                'std::string::String::with_capacity', 'std::vec::Vec::with_capacity'):
        if typ == 'Vec' and not (retty and retty[2] and retty[2][0] == ('int', 'u8')):
            return NotImplemented
        return R(E.lit(''))
    if trait == 'Default' and meth == 'default' and retty and type_last(retty) in ('String', 'PathBuf', 'bool', 'Option', 'usize', 'u64', 'u32', 'u8'):
        n = type_last(retty)
        return R(E.lit('') if n in ('String', 'PathBuf') else False if n == 'bool' else NONE if n == 'Option' else 0)
    if not args:
        return NotImplemented
    v = E.rd(st, args[0])
    if typ in ('Chunks',) or isinstance(v, Op) and v.tag == 'chunks':
        return chunks(E, meth, args, v, st)
    if isinstance(v, Op) and v.tag == 'display':
        v = v.args[0]
    if isinstance(v, Op) and v.tag == 'bytes' and meth in IDENT:
        v = sval(E, st, v)
    if not is_s(v):
        if meth in ('deref', 'as_ref', 'borrow', 'clone', 'to_owned', 'into', 'from', 'deref_mut', 'as_mut') and trait in ('Deref', 'AsRef', 'Borrow', 'Clone', 'ToOwned', 'Into', 'From',
                                                                                                               'DerefMut', 'AsMut'):
            if trait == 'Clone' and isinstance(v, (Agg, En)) and not handle(v) and not isinstance(v, Ref):
                return R(E.deep(st, v))
            if trait in ('Into', 'From'):
                n = type_last(retty) if retty else ''
                if n == 'Error' or isinstance(v, Op) and v.tag == 'err':
                    return R(Op('err'))
                return NotImplemented
            if trait in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow'):
                return NotImplemented
        if trait == 'ToString' or meth == 'to_string':
            return R(E.present(ITOA(v)) if is_i(v) else E.present(E.fresh(S, 'tostr')))
        return NotImplemented
    if trait in ('Into', 'From', 'TryFrom', 'TryInto') and retty and type_last(retty) not in ('String', 'PathBuf', 'Vec', 'Box', 'Cow', 'OsString', 'str', 'Path', 'Arc', 'Rc'):
        return NotImplemented
    if meth in ('deref_mut', 'as_mut', 'as_mut_os_string', 'by_ref', 'borrow_mut'):
        return R(args[0])
    if meth in IDENT and (trait is not None or typ in STRT):
        return R(v)
    if meth in ('to_string_lossy', 'display'):
        return R(E.present(LOSSY(v)) if meth == 'to_string_lossy' else Op('display', E.present(LOSSY(v))))
    if meth == 'to_str' and typ in ('Path', 'OsStr'):
        return [(st, some(E.present(LOSSY(v)))), (st.copy(), NONE)]
    if meth == 'join' and typ in ('Path', 'PathBuf'):
        return R(join(E, v, sval(E, st, args[1])))
    if meth == 'push' and typ == 'PathBuf':
        E.wr(st, args[0], join(E, v, sval(E, st, args[1])))
        return R(UNIT)
    if meth == 'with_extension':
        return R(E.present(EXT(v, sval(E, st, args[1]))))
    if meth == 'set_extension':
        E.wr(st, args[0], E.present(EXT(v, sval(E, st, args[1]))))
        return R(E.fresh(z3.BoolSort(), 'ext'))
    if meth == 'with_file_name':
        return R(E.present(FNAME(v, sval(E, st, args[1]))))
    if meth == 'set_file_name':
        E.wr(st, args[0], E.present(FNAME(v, sval(E, st, args[1]))))
        return R(UNIT)
    if meth == 'parent' and typ in ('Path', 'PathBuf'):
        return [(st, some(E.present(PARENT(v)))), (st.copy(), NONE)]
    if meth in ('file_name', 'extension', 'file_stem') and typ in ('Path', 'PathBuf'):
        F = z3.Function(meth, S, S)
        G = z3.Function('has_' + meth, S, z3.BoolSort())
        return [(st.with_(G(v)), some(E.present(F(v)))), (st.with_(z3.Not(G(v))), NONE)]
    if meth in ('is_absolute', 'is_relative', 'is_dir', 'is_symlink', 'has_root'):
        return R(E.fresh(z3.BoolSort(), meth))
    if meth == 'insert_str':
        at = E.rd(st, args[1])
        if at == 0 and isinstance(at, int):
            E.wr(st, args[0], E.cat(sval(E, st, args[2]), v))
            return R(UNIT)
        E.wr(st, args[0], E.present(E.fresh(S, 'ins')))
        return R(UNIT)
    if meth in ('push_str', 'extend_from_slice') or trait == 'AddAssign':
        E.wr(st, args[0], E.cat(v, sval(E, st, args[1])))
        return R(UNIT)
    if trait == 'Add':
        return R(E.cat(v, sval(E, st, args[1])))
    if trait == 'Write' and meth == 'write_fmt' and typ == 'String' or trait == 'Write' and meth in ('write_str',) and typ == 'String':
        d = fmt(E, st, args[1], body) if meth == 'write_fmt' else sval(E, st, args[1])
        E.wr(st, args[0], E.cat(v, d))
        return R(ok(UNIT))
    if meth == 'len' and typ in ('str', 'String', 'Vec', 'slice', '[]'):
        return R(E.slen(v))
    if meth == 'is_empty' and typ in ('str', 'String', 'Vec', 'slice', '[]'):
        E.slen(v)
        return R(v == E.empty)
    if trait in ('Index',) and len(args) == 2:
        rg = E.rd(st, args[1])
        if isinstance(rg, Agg) and rg.kind[0] == 'adt' and rg.kind[1] in ('RangeFrom', 'RangeTo', 'RangeFull', 'Range'):
            if rg.kind[1] == 'RangeFull':
                return R(v)
            if rg.kind[1] == 'RangeFrom':
                n = E.rd(st, rg.fields[0])
                E.terminal.append((st.with_(z3.Or(n < 0, n > E.slen(v))), 'panic', 'slice index', E.where()))
                return [(st.with_(n >= 0, n <= E.slen(v)), E.split(v, n)[1])]
            if rg.kind[1] == 'RangeTo':
                n = E.rd(st, rg.fields[0])
                E.terminal.append((st.with_(z3.Or(n < 0, n > E.slen(v))), 'panic', 'slice index', E.where()))
                return [(st.with_(n >= 0, n <= E.slen(v)), E.split(v, n)[0])]
        return R(E.present(E.fresh(S, 'slice')))
    if meth in ('chunks',) and typ in ('slice', '[]'):
        n = E.rd(st, args[1])
        return R(Op('chunks', v))
    if meth in ('split_at',) and typ in ('slice', 'str'):
        n = E.rd(st, args[1])
        a, b = E.split(v, n)
        E.terminal.append((st.with_(z3.Or(n < 0, n > E.slen(v))), 'panic', 'split_at', E.where()))
        return [(st.with_(n >= 0, n <= E.slen(v)), Agg(('tuple',), (a, b)))]
    return NotImplemented


def chunks(E, meth, args, v, st):
    if meth == 'into_iter' or meth == 'by_ref':
        return [(st, args[0])]
    if meth == 'next':
        rem = v.args[0]
        E.slen(rem)
        n = E.fresh(z3.IntSort(), 'chunk')
        a, b = E.split(rem, n)
        s = st.with_(rem != E.empty, n > 0, n <= LEN(rem))
        E.wr(s, args[0], Op('chunks', b))
        return [(s, some(a)), (st.with_(rem == E.empty), NONE)]
    raise Unsupported('chunks::' + meth)


# ---------------------------------------------------------------------------------------------- configuration libraries and the browser
def config(E, full, nm, typ, trait, meth, callee, args, st, body, retty):
    R = lambda v: [(st, v)]
    if full == 'dirs::config_dir':
        # a function of the environment, the same for every call
        v = Sym(('adt', 'std::option::Option', (('adt', 'std::path::PathBuf', ()),)), 'CONFIG_DIR')
        return [(s, x) for s, x in E.cases(st, v)]
    if full.startswith('toml::to_string') or full.startswith('toml::ser::to_string'):
        v = E.deep(st, args[0])
        t = E.present(E.fresh(S, 'toml'))
        E.tomls[t.get_id()] = (t, v)
        return fallible(E, st, 'toml', lambda s: [(s, t)])
    if full.startswith('toml::from_str') or full.startswith('toml::de::from_str'):
        c = sval(E, st, args[0])
        return fallible(E, st, 'config', lambda s: [(s, Op('configvalue', (('str', c),)))])
    if full == 'config::Config::builder' and not args:
        return R(Op('builder', ()))
    if full == 'config::File::from_str':
        f = E.rd(st, args[1])
        return R(Op('source', 'str', sval(E, st, args[0]), str(f)))
    if full.startswith('config::Environment::'):
        return R(Op('source', 'env'))
    if full.startswith('config::File::from') or full.startswith('config::File::with_name'):
        raise Unsupported('configuration file source read by the library')
    if full.startswith('config::File::') and meth in ('required', 'format'):
        return R(args[0])
    if full.endswith('ConfigBuilder::add_source'):
        b, s = E.rd(st, args[0]), E.rd(st, args[1])
        if not (isinstance(b, Op) and b.tag == 'builder' and isinstance(s, Op) and s.tag == 'source'):
            return NotImplemented
        return R(Op('builder', b.args[0] + (s.args,)))
    if full.endswith('ConfigBuilder::build'):
        b = E.rd(st, args[0])
        return fallible(E, st, 'config', lambda s: [(s, Op('built', b.args[0]))])
    if meth == 'try_deserialize':
        b = E.rd(st, args[0])
        if not (isinstance(b, Op) and b.tag == 'built'):
            return NotImplemented
        return fallible(E, st, 'config', lambda s: [(s, Op('configvalue', b.args[0]))])
    if 'headless_chrome' in full or full.startswith('<std::sync::Arc<headless_chrome'):
        if meth == 'print_to_pdf':
            t = E.present(E.fresh(S, 'printed'))
            return [(E.event(st, 'printed', t), ok(t)), (E.fault(st, 'browser'), err())]
        E.assumed[full] = E.assumed.get(full, 0) + 1
        if retty is not None and type_last(retty) == 'Result':
            return [(st, ok(E.sym(retty[2][0], 'chrome'))), (E.fault(st, 'browser'), err())]
        return R(E.sym(retty, 'chrome') if retty else Op('chrome'))
    return NotImplemented
