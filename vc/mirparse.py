"""Parser for rustc's textual MIR (-Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no).

Produces plain tuples.  Places:  (local, [proj...]) with proj in
  ('deref',) ('field', n, type) ('as', variant) ('index', local) ('cidx', i, fromend) ('sub', a, b, fromend)
"""
import re


class MirError(Exception):
    pass


# ---------------------------------------------------------------- scanning
_CH = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'")
OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def skip_literal(s, i):
    """If a string/char literal starts at i return the index after it, else i."""
    c = s[i]
    if c == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    if c == "'" and s[max(0, i - 6):i] == 'const ':
        m = _CH.match(s, i)
        if m:
            return m.end()
    return i


def split_top(s, sep=','):
    out, depth, cur, i = [], 0, 0, 0
    n = len(s)
    while i < n:
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in '([{':
            depth += 1
        elif c == '<':
            depth += 1
        elif c == '>':
            if i and s[i - 1] in '-=':
                pass
            else:
                depth -= 1
        elif c in ')]}':
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[cur:i].strip())
            i += len(sep)
            cur = i
            continue
        i += 1
    last = s[cur:].strip()
    if last or out:
        out.append(last)
    if out and out[-1] == '':
        out.pop()
    return out


def match_close(s, i):
    """s[i] is an opener; index of its closer (brackets of all kinds balanced)."""
    depth = 0
    n = len(s)
    while i < n:
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:120])


# ---------------------------------------------------------------- types
INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}
_tcache = {}


def parse_type(s):
    s = s.strip()
    t = _tcache.get(s)
    if t is None:
        t = _tcache[s] = _parse_type(s)
    return t


def _parse_type(s):
    if s.startswith('&'):
        r = s[1:].lstrip()
        m = re.match(r"'[A-Za-z_0-9]+ ", r)
        if m:
            r = r[m.end():]
        mut = False
        if r.startswith('mut '):
            mut, r = True, r[4:]
        return ('ref', mut, parse_type(r))
    if s.startswith('*const ') or s.startswith('*mut '):
        return ('ptr', s.startswith('*mut'), parse_type(s.split(' ', 1)[1]))
    if s == '()':
        return ('tuple', ())
    if s.startswith('('):
        return ('tuple', tuple(parse_type(x) for x in split_top(s[1:-1])))
    if s.startswith('['):
        b = s[1:-1]
        p = split_top(b, ';')
        if len(p) == 2:
            return ('array', parse_type(p[0]), p[1])
        return ('slice', parse_type(b))
    if s in INTS:
        return ('int', s)
    if s in ('bool', 'char', 'str', '!', 'f32', 'f64'):
        return (s,)
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        return ('closure', s)
    if s.startswith('dyn ') or s.startswith('impl '):
        return ('dyn', s)
    if s.startswith('for<'):
        return ('fnptr', s)
    if re.match(r'(unsafe )?(extern "[^"]*" )?fn\(', s):
        return ('fnptr', s)
    if s.startswith('<'):
        return ('assoc', s)
    m = re.match(r"^([A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)(.*)$", s, re.S)
    if not m:
        return ('other', s)
    path, rest = m.group(1), m.group(2)
    if rest.startswith('::<'):
        rest = rest[2:]
    if rest.startswith('<'):
        j = match_close(rest, 0)
        args = tuple(parse_type(a) for a in split_top(rest[1:j]) if not a.startswith("'"))
        if rest[j + 1:].strip():
            return ('other', s)
        return ('adt', path, args)
    if rest.strip():
        return ('other', s)
    if '::' not in path and len(path) <= 2:
        return ('param', path)
    return ('adt', path, ())


# ---------------------------------------------------------------- places & operands
def parse_place(s):
    p, rest = _place(s.strip())
    if rest.strip():
        raise MirError('trailing in place: ' + s)
    return p


def _place(s):
    m = re.match(r'_(\d+)', s)
    if m:
        p = (int(m.group(1)), ())
        s = s[m.end():]
    elif s.startswith('(*'):
        j = match_close(s, 0)
        inner = parse_place(s[2:j])
        p = (inner[0], inner[1] + (('deref',),))
        s = s[j + 1:]
    elif s.startswith('('):
        j = match_close(s, 0)
        body = s[1:j]
        inner, rest = _place(body)
        if rest.startswith(' as '):
            p = (inner[0], inner[1] + (('as', rest[4:].strip()),))
        else:
            m = re.match(r'\.(\d+): (.*)$', rest, re.S)
            if not m:
                raise MirError('place: ' + s)
            p = (inner[0], inner[1] + (('field', int(m.group(1)), parse_type(m.group(2))),))
        s = s[j + 1:]
    else:
        raise MirError('place: ' + s)
    while s.startswith('['):
        j = match_close(s, 0)
        b = s[1:j]
        m = re.match(r'^_(\d+)$', b)
        if m:
            pr = ('index', int(m.group(1)))
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', b)
            if m:
                pr = ('cidx', int(m.group(2)), m.group(1) == '-')
            else:
                m = re.match(r'^(\d+):(-?)(\d*)$', b)
                if not m:
                    raise MirError('index: ' + b)
                pr = ('sub', int(m.group(1)), int(m.group(3) or 0), m.group(2) == '-')
        p = (p[0], p[1] + (pr,))
        s = s[j + 1:]
    return p, s


_ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        d = s[i + 1]
        if d == 'x':
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        elif d == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(_ESC[d])
            i += 2
    return ''.join(out)


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const',) + parse_const(s[6:].strip())
    m = re.match(r'^_\d+$', s)
    if m:
        return ('copy', parse_place(s))
    if re.match(r"^[A-Za-z_<{]", s):
        return ('const', 'fnitem', s)
    raise MirError('operand: ' + s)


def parse_const(s):
    if s == 'true':
        return ('bool', True)
    if s == 'false':
        return ('bool', False)
    if s == '()':
        return ('unit', None)
    if s.startswith('"'):
        return ('str', unescape(s[1:-1]))
    if s.startswith('b"'):
        return ('bytes', unescape(s[2:-1]).encode('latin1'))
    if s.startswith("'"):
        return ('char', ord(unescape(s[1:-1])))
    m = re.match(r'^(-?\d+)_([ui](?:8|16|32|64|128|size))$', s)
    if m:
        return ('int', int(m.group(1)), m.group(2))
    m = re.match(r'^([ui](?:8|16|32|64|128|size))::(MAX|MIN)$', s)
    if m:
        b, sg = INTS[m.group(1)]
        v = (2 ** (b - sg) - 1) if m.group(2) == 'MAX' else (-(2 ** (b - 1)) if sg else 0)
        return ('int', v, m.group(1))
    m = re.match(r'^\{alloc(\d+)(?:<.*?>)?(?:\+0x[0-9a-f]+)?(?:<imm>)?: (.*)\}$', s)
    if m:
        return ('alloc', int(m.group(1)), m.group(2))
    return ('named', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne',
          'Ge', 'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if '/*tls*/' in s:
        return ('use', ('const', 'tls', s.split('/*tls*/')[1].strip()))
    if s.startswith(('copy ', 'move ', 'const ', 'no_retag ')):
        m = re.search(r' as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s)
        if m and not s.startswith('const "'):
            return ('cast', parse_operand(s[:m.start()]), parse_type(m.group(1)), m.group(2))
        return ('use', parse_operand(s))
    if s.startswith('&raw '):
        _, kind, rest = s.split(' ', 2)
        return ('rawref', kind == 'mut', parse_place(rest))
    if s.startswith('&'):
        r = s[1:]
        for k in ("'{erased} ", ):
            if r.startswith(k):
                r = r[len(k):]
        if r.startswith('mut '):
            return ('ref', True, parse_place(r[4:]))
        if r.startswith('two_phase mut '):
            return ('ref', True, parse_place(r[14:]))
        if r.startswith('fake '):
            r = r.split(' ', 1)[1]
            if r.startswith('shallow '):
                r = r[8:]
        return ('ref', False, parse_place(r))
    m = re.match(r'^([A-Z][A-Za-z]+)\(', s)
    if m and s.endswith(')'):
        name = m.group(1)
        if name in BINOPS:
            a, b = split_top(s[m.end():-1])
            return ('bin', name, parse_operand(a), parse_operand(b))
        if name in UNOPS:
            return ('un', name, parse_operand(s[m.end():-1]))
        if name in ('Len', 'CopyForDeref', 'ShallowInitBox'):
            return (name, parse_place(s[m.end():-1]) if name != 'ShallowInitBox' else s)
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('('):
        return ('agg', ('tuple',), [parse_operand(x) for x in split_top(s[1:-1])], None)
    if s.startswith('['):
        p = split_top(s[1:-1], ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1])
        return ('agg', ('array',), [parse_operand(x) for x in split_top(s[1:-1])], None)
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        j = match_close(s, 0)
        clo = s[:j + 1]
        rest = s[j + 1:].strip()
        ops, names = [], []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k, v = f.split(': ', 1)
                names.append(k)
                ops.append(parse_operand(v))
        return ('agg', ('closure', clo), ops, names)
    # ADT aggregates
    i, depth = 0, 0
    while i < len(s):
        c = s[i]
        if c == '<':
            i = match_close(s, i) + 1
            continue
        if c in '({' or c == ' ':
            break
        i += 1
    path = s[:i].strip()
    rest = s[i:].strip()
    if not rest:
        return ('agg', ('adt', path), [], None)
    if rest.startswith('{'):
        ops, names = [], []
        for f in split_top(rest[1:-1]):
            k, v = f.split(': ', 1)
            names.append(k)
            ops.append(parse_operand(v))
        return ('agg', ('adt', path), ops, names)
    if rest.startswith('('):
        return ('agg', ('adt', path), [parse_operand(x) for x in split_top(rest[1:-1])], None)
    raise MirError('rvalue: ' + s)


def _targets(s):
    """'[return: bb2, unwind unreachable]' or '[0: bb1, otherwise: bb2]'"""
    d = {}
    s = s.strip()
    if s.startswith('['):
        for part in s[1:-1].split(','):
            part = part.strip()
            m = re.match(r'^([^:]+): bb(\d+)$', part)
            if m:
                d[m.group(1)] = int(m.group(2))
    elif s.startswith('bb'):
        d['return'] = int(s[2:])
    return d


def parse_line(s):
    """One statement or terminator (without trailing ';')."""
    if s.startswith('StorageDead('):
        return ('dead', int(s[13:-1]))
    if s.startswith(('StorageLive', 'nop', 'FakeRead', 'AscribeUserType', 'Retag', 'PlaceMention',
                     'ConstEvalCounter', 'Coverage', 'BackwardIncompatibleDropHint')):
        return None
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith(('resume', 'abort', 'terminate', 'unwind')):
        return ('unreachable',)
    if s.startswith('switchInt('):
        j = match_close(s, 9)
        op = parse_operand(s[10:j])
        t = _targets(s[j + 1:].strip()[3:])
        return ('switch', op, [(int(k), v) for k, v in t.items() if k != 'otherwise'], t.get('otherwise'))
    if s.startswith('drop('):
        j = match_close(s, 4)
        return ('drop', parse_place(s[5:j]), _targets(s[j + 1:].strip()[3:])['return'])
    if s.startswith('assert('):
        j = match_close(s, 6)
        parts = split_top(s[7:j])
        c = parts[0]
        neg = c.startswith('!')
        return ('assert', parse_operand(c[1:] if neg else c), not neg, parts[1].strip('"'), _targets(s[j + 1:].strip()[3:])['success'])
    if s.startswith('discriminant('):
        j = match_close(s, 12)
        return ('setdiscr', parse_place(s[13:j]), s[j + 1:].split('=')[1].strip())
    # assignment or call
    parts = split_assign(s)
    if parts is None:
        raise MirError('stmt: ' + s)
    lhs, rhs = parts
    # call?
    k = find_arrow(rhs)
    if k is not None:
        call = rhs[:k].strip()
        t = _targets(rhs[k + 2:])
        # find last top-level (...) group
        i = call_paren(call)
        args = [parse_operand(a) for a in split_top(call[i + 1:-1])]
        callee = call[:i].strip()
        if callee.startswith(('move ', 'copy ')):
            callee = ('op', parse_operand(callee))
        return ('call', parse_place(lhs), callee, args, t.get('return'))
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def split_assign(s):
    depth, i = 0, 0
    while i < len(s):
        j = skip_literal(s, i)
        if j > i:
            i = j
            continue
        c = s[i]
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif depth == 0 and s.startswith(' = ', i):
            return s[:i].strip(), s[i + 3:].strip()
        i += 1
    return None


def find_arrow(s):
    """top-level ' -> [' or ' -> bb' or ' -> unwind' that ends a call"""
    m = None
    for mm in re.finditer(r'\) -> (\[return: bb|unwind |bb\d)', s):
        m = mm
    return m.start() + 2 if m else None


def call_paren(call):
    """index of the '(' that opens the argument list (the last top-level group)"""
    i, last = 0, None
    n = len(call)
    while i < n:
        j = skip_literal(call, i)
        if j > i:
            i = j
            continue
        c = call[i]
        if c in '([{<':
            j = match_close(call, i)
            if c == '(' and j == n - 1:
                return i
            i = j + 1
            continue
        i += 1
    raise MirError('call: ' + call)


class Body:
    def __init__(self, name, params, ret):
        self.name = name
        self.params = params      # [(local, type)]
        self.ret = ret
        self.locals = {}          # n -> type
        self.blocks = {}          # n -> ([stmts], terminator)
        self.debug = {}
        self.kind = 'fn'
        self.src = None


class Mir:
    def __init__(self):
        self.fns = {}
        self.consts = {}
        self.statics = {}
        self.allocs = {}


def parse_mir(text):
    mir = Mir()
    lines = text.split('\n')
    i, n = 0, len(lines)
    cur = None
    pend_allocs = []
    while i < n:
        ln = lines[i]
        if ln.startswith('fn ') and ln.rstrip().endswith('{'):
            m = re.match(r'^fn (.*?)\((_1: .*)?\) -> (.*) \{$', ln)
            if not m:
                raise MirError('fn header: ' + ln)
            params = []
            for p in split_top(m.group(2) or ''):
                a, t = p.split(': ', 1)
                params.append((int(a[1:]), parse_type(t)))
            b = Body(m.group(1), params, parse_type(m.group(3)))
            i = _body(lines, i + 1, b)
            if b.name in mir.fns:
                k = 1
                while f'{b.name}#{k}' in mir.fns:
                    k += 1
                b.name = f'{b.name}#{k}'
            mir.fns[b.name] = b
            continue
        m = re.match(r'^(const|static mut|static) (.*?): (.*) = (?:const )?\{$', ln)
        if m:
            # the name may contain ': ' in '<impl at f:1:2: 3:4>'; split at the last ': ' at depth 0
            head = ln[len(m.group(1)) + 1:-4] if ln.endswith(' = {') else ln[len(m.group(1)) + 1:]
            parts = split_top(head, ': ')
            nm, ty = ': '.join(parts[:-1]), parts[-1]
            b = Body(nm, [], parse_type(ty))
            b.kind = m.group(1)
            i = _body(lines, i + 1, b)
            (mir.consts if b.kind == 'const' else mir.statics)[nm] = b
            continue
        m = re.match(r'^(const|static) (.*) = (const .*);$', ln)
        if m:                           # one-line constant
            parts = split_top(m.group(2), ': ')
            nm, ty = ': '.join(parts[:-1]), parts[-1]
            b = Body(nm, [], parse_type(ty))
            b.kind = m.group(1)
            _body(['    let mut _0: %s;' % ty, '', '    bb0: {', '        _0 = %s;' % m.group(3), '        return;', '    }', '}'], 0, b)
            (mir.consts if b.kind == 'const' else mir.statics)[nm] = b
            i += 1
            continue
        m = re.match(r'^alloc(\d+) \((.*)\) \{(.*)$', ln)
        if m:
            data = []
            if not ln.rstrip().endswith('{}'):
                i += 1
                while not lines[i].startswith('}'):
                    data.append(lines[i])
                    i += 1
            mir.allocs[int(m.group(1))] = (m.group(2), data)
            i += 1
            continue
        i += 1
    return mir


def _body(lines, i, b):
    for l, t in b.params:
        b.locals[l] = t
    bb, stmts = None, None
    while True:
        ln = lines[i]
        if ln.startswith('}'):
            return i + 1
        s = ln.strip()
        if bb is None:
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
            if m:
                b.locals[int(m.group(1))] = parse_type(m.group(2))
            elif s.startswith('debug '):
                m = re.match(r'^debug (.*) => (.*);$', s)
                if m:
                    b.debug.setdefault(m.group(2), m.group(1))
            else:
                m = re.match(r'^bb(\d+)(?: \(cleanup\))?: \{$', s)
                if m:
                    bb, stmts = int(m.group(1)), []
        else:
            if s == '}':
                term = stmts.pop() if stmts else None
                b.blocks[bb] = (stmts, term)
                bb = None
            elif s:
                # statements may span lines when strings contain raw newlines: join until ';'
                while not s.endswith(';'):
                    i += 1
                    s += '\n' + lines[i]
                p = parse_line(s[:-1])
                if p is not None:
                    stmts.append(p)
        i += 1


if __name__ == '__main__':
    import sys
    m = parse_mir(open(sys.argv[1]).read())
    print(len(m.fns), 'fns', sum(len(f.blocks) for f in m.fns.values()), 'blocks', len(m.consts), 'consts', len(m.statics), 'statics', len(m.allocs))
    for f in list(m.fns.values())[:0]:
        print(f.name)
