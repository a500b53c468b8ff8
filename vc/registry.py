"""Program registry: MIR bodies of the crates under verification plus type facts read from the Rust source."""
import os
import re
from mirparse import parse_mir, parse_type, split_top, match_close

STD_ENUMS = {
    'Option': ['None', 'Some'],
    'Result': ['Ok', 'Err'],
    'ControlFlow': ['Continue', 'Break'],
    'Cow': ['Borrowed', 'Owned'],
    'Bound': ['Included', 'Excluded', 'Unbounded'],
    'Infallible': [],
}


def last(path):
    return path.rsplit('::', 1)[-1]


def strip_generics(p):
    """a::B::<'_, T>::c::<U> -> a::B::c ; keeps <T as Trait>:: prefixes and <impl ...>"""
    out, i = [], 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            i = match_close(p, i + 2) + 1
            continue
        if p[i] == '<' and (i == 0 or p.startswith('::<impl', i - 2)):
            j = match_close(p, i)
            out.append(p[i:j + 1])
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def type_last(t):
    """short name of a parsed type, through references"""
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'adt':
        return last(t[1])
    if t[0] == 'int':
        return t[1]
    if t[0] in ('slice', 'array'):
        return '[]'
    return t[0]


def strip_comments(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            j = src.find('*/', i)
            seg = src[i:(n if j < 0 else j + 2)]
            out.append(re.sub(r'[^\n]', ' ', seg))
            i += len(seg)
            continue
        if c == '"' or (c == 'r' and re.match(r'r#*"', src[i:]) and not (i and (src[i - 1].isalnum() or src[i - 1] == '_'))):
            if c == 'r':
                m = re.match(r'r(#*)"', src[i:])
                end = '"' + m.group(1)
                j = src.find(end, i + len(m.group(0)))
                j = n if j < 0 else j + len(end)
            else:
                j = i + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            seg = src[i:j]
            out.append('"' + re.sub(r'[^\n]', '_', seg[1:-1]) + '"' if len(seg) > 1 else seg)
            i = j
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\\n])'", src[i:])
            if m:
                out.append("'_'")
                i += len(m.group(0))
                continue
        out.append(c)
        i += 1
    return ''.join(out)


class Adt:
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind          # 'struct' | 'enum'
        self.variants = []        # names ; struct: [name]
        self.discr = []           # discriminant values
        self.fields = []          # per variant: [(fname, type)]


def parse_fields(body, named):
    out = []
    for k, f in enumerate(split_top(body)):
        f = re.sub(r'#\[[^\]]*\]', ' ', f).strip()
        f = re.sub(r'^pub(\([^)]*\))?\s+', '', f)
        if not f:
            continue
        if named:
            nm, ty = f.split(':', 1)
            out.append((nm.strip(), parse_type(' '.join(ty.split()))))
        else:
            out.append((str(k), parse_type(' '.join(f.split()))))
    return out


def parse_items(src):
    src = strip_comments(src)
    # drop attributes (string contents are blanked already, brackets inside strings gone)
    adts = {}
    for m in re.finditer(r'\b(enum|struct)\s+([A-Z][A-Za-z0-9_]*)', src):
        kind, name = m.group(1), m.group(2)
        i = m.end()
        while i < len(src) and src[i].isspace():
            i += 1
        if i < len(src) and src[i] == '<':
            i = match_close(src, i) + 1
        while i < len(src) and src[i].isspace():
            i += 1
        if src[i:i + 5] == 'where':
            while src[i] not in '{;':
                i += 1
        a = Adt(name, kind)
        if i >= len(src):
            continue
        if kind == 'struct':
            a.variants, a.discr = [name], [0]
            if src[i] == '{':
                a.fields = [parse_fields(src[i + 1:match_close(src, i)], True)]
            elif src[i] == '(':
                a.fields = [parse_fields(src[i + 1:match_close(src, i)], False)]
            else:
                a.fields = [[]]
        else:
            if src[i] != '{':
                continue
            nxt = 0
            for v in split_top(src[i + 1:match_close(src, i)]):
                while True:
                    v = v.strip()
                    if v.startswith('#['):
                        v = v[match_close(v, 1) + 1:]
                    else:
                        break
                mm = re.match(r'([A-Za-z_][A-Za-z0-9_]*)\s*', v)
                if not mm:
                    continue
                vn, rest = mm.group(1), v[mm.end():].strip()
                fl = []
                if rest.startswith('('):
                    j = match_close(rest, 0)
                    fl = parse_fields(rest[1:j], False)
                    rest = rest[j + 1:].strip()
                elif rest.startswith('{'):
                    j = match_close(rest, 0)
                    fl = parse_fields(rest[1:j], True)
                    rest = rest[j + 1:].strip()
                if rest.startswith('='):
                    try:
                        nxt = int(rest[1:].strip(), 0)
                    except ValueError:
                        pass
                a.variants.append(vn)
                a.discr.append(nxt)
                a.fields.append(fl)
                nxt += 1
        adts.setdefault(name, a)
    return adts


class Crate:
    def __init__(self, name, mir_text, root, srcdir):
        self.name = name
        self.mir = parse_mir(mir_text)
        self.root, self.srcdir = root, srcdir
        self._src = {}
        self.adts = {}
        for dp, _, fs in os.walk(os.path.join(root, srcdir)):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    with open(os.path.join(dp, f)) as fh:
                        for k, v in parse_items(fh.read()).items():
                            self.adts.setdefault(k, v)
        self.by_key = {}     # (typelast, traitlast|None, rest) -> Body
        self.free = {}       # normalized path -> Body
        self.closures = {}   # closure text -> Body
        self.const_key = {}
        for nm, b in self.mir.fns.items():
            b.crate = self
            self._index(nm, b, self.by_key, self.free)
            if '{closure#' in nm and b.params:
                t = b.params[0][1]
                while t[0] == 'ref':
                    t = t[2]
                if t[0] == 'closure':
                    self.closures[t[1]] = b
        for nm, b in list(self.mir.consts.items()) + list(self.mir.statics.items()):
            b.crate = self
            self._index(nm, b, self.const_key, self.const_key)

    def _lines(self, f):
        if f not in self._src:
            with open(os.path.join(self.root, f), encoding='utf-8') as fh:
                self._src[f] = fh.read().split('\n')
        return self._src[f]

    def impl_header(self, spec):
        """'<impl at f.rs:8:1: 8:39>' -> (typelast, traitlast|None)"""
        m = re.match(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', spec)
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        L = self._lines(f)
        if l1 == l2:
            text = L[l1 - 1][c1 - 1:c2 - 1]
        else:
            text = '\n'.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])
        text = ' '.join(text.split())
        if text.startswith('impl') or text.startswith('unsafe impl'):
            t = re.sub(r'^(unsafe )?impl', '', text).strip()
            if t.startswith('<'):
                t = t[match_close(t, 0) + 1:].strip()
            t = t.split(' where ')[0].rstrip('{ ').strip()
            p = split_top(t, ' for ')
            if len(p) == 2:
                return (type_last(parse_type(p[1])), type_last(parse_type(re.sub(r'<.*$', '', p[0]))))
            return (type_last(parse_type(t)), None)
        # derive: the item that follows
        rest = strip_comments('\n'.join(L[l1 - 1:]))
        m = re.search(r'\b(?:enum|struct|union)\s+([A-Za-z_][A-Za-z0-9_]*)', rest)
        return (m.group(1) if m else '?', last(text.strip()))

    def _index(self, nm, b, by_key, free):
        m = re.search(r'<impl at [^>]*>', nm)
        if m:
            try:
                ty, tr = self.impl_header(m.group(0))
            except Exception:
                ty, tr = '?', None
            rest = nm[m.end() + 2:]
            b.key = (ty, tr, rest)
            by_key.setdefault(b.key, b)
            b.pretty = (f'<{ty} as {tr}>::' if tr else f'{ty}::') + rest
        else:
            free[strip_generics(nm)] = b
            b.key = (None, None, strip_generics(nm))
            b.pretty = nm


class Program:
    def __init__(self, crates):
        self.crates = {c.name: c for c in crates}

    def adt(self, name, crate=None):
        if crate is not None and name in crate.adts:
            return crate.adts[name]
        for c in self.crates.values():
            if name in c.adts:
                return c.adts[name]
        return None

    def _find(self, c, path, table_key, table_free):
        p = strip_generics(path)
        if p in table_free:
            return table_free[p]
        m = re.match(r'^<', p)
        if m:
            j = match_close(p, 0)
            inner, rest = p[1:j], p[j + 3:]
            parts = split_top(inner, ' as ')
            if len(parts) == 2:
                ty = type_last(parse_type(parts[0]))
                tr = last(re.sub(r'<.*$', '', parts[1]))
                return table_key.get((ty, tr, rest))
            return None
        segs = p.split('::')
        # Type::method[::{closure#0}][::promoted[0]]
        for k in range(len(segs) - 1):
            b = table_key.get((segs[k], None, '::'.join(segs[k + 1:])))
            if b is not None:
                return b
        return None

    def resolve_fn(self, path, crate):
        b = self._find(crate, path, crate.by_key, crate.free)
        if b is not None:
            return b
        m = re.match(r'^([a-z_0-9]+)::(.*)$', path)
        if m and m.group(1) in self.crates:
            c = self.crates[m.group(1)]
            return self._find(c, m.group(2), c.by_key, c.free)
        m = re.match(r'^<([a-z_0-9]+)::', path)
        if m and m.group(1) in self.crates:
            c = self.crates[m.group(1)]
            return self._find(c, path, c.by_key, c.free)
        return None

    def resolve_const(self, path, crate):
        b = self._find(crate, path, crate.const_key, crate.const_key)
        if b is not None:
            return b
        m = re.match(r'^([a-z_0-9]+)::(.*)$', path)
        if m and m.group(1) in self.crates:
            c = self.crates[m.group(1)]
            return self._find(c, m.group(2), c.const_key, c.const_key)
        # promoted of trait impl: <T as Trait>::m::promoted[0] handled by _find
        return None

    def closure(self, text):
        for c in self.crates.values():
            if text in c.closures:
                return c.closures[text]
        return None


if __name__ == '__main__':
    c = Crate('gfm', open('/tmp/w/gfm.mir').read(), '/repo', 'gfm/src')
    for n, b in c.mir.fns.items():
        print(b.pretty)
    for a in c.adts.values():
        print(a.kind, a.name, list(zip(a.variants, a.discr, a.fields))[:4])
    P = Program([c])
    for p in ["lexer::Lexer::<'_>::lex_plus_minus::promoted[5]", "token::COMMONMARK_SCHEME_ASCII::{constant#0}"]:
        print(P.resolve_const(p, c))
    for p in ["<iter::MarkdownIter<'_> as std::iter::Iterator>::next", "Parser::lex", "token::validate_link", "iter::MarkdownIter::<'_>::peek", "<token::ValidURL<'_> as std::fmt::Display>::fmt"]:
        print(P.resolve_fn(p, c).name)
