"""Executable reference scanners used as specification functions.

HTML: a scanner for the fixed output repertoire.  A document is acceptable iff it drives the scanner from T to T.
URL : a scanner for the scheme policy of link/image destinations.
The same tables are used (a) as the specification functions `tr`/`ue`/`ud` of the deductive verifier and (b) to
derive, by exhaustive table inspection, the axioms about them (absorbing states, pre-images, homomorphisms).
"""
ELEMENTS = ['p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ol', 'ul', 'li', 'pre', 'code', 'a', 'details', 'summary', 'em',
            'strong', 'blockquote', 'table', 'thead', 'tbody', 'tr', 'th', 'td', 'strike', 'div', 'sup']
COUNTED = list(ELEMENTS)      # the ones a run counts
VOID = ['img', 'input', 'br', 'hr']
ATTRS = ['id', 'href', 'src', 'alt', 'title', 'class', 'role', 'rel', 'style', 'type', 'checked', 'referrerpolicy']
URLATTRS = ['href', 'src']
OTHER = 0x2603       # representative of every non-ASCII character
CHARS = list(range(128)) + [OTHER]
SCHEME = set(map(ord, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+.-'))
ENTS = ['amp', 'lt', 'gt', 'quot', 'apos', 'lbrack', 'rbrack', 'lbrace', 'rbrace', 'mid', 'tilde', '#41', '#40']


def prefixes(words):
    out = set()
    for w in words:
        for i in range(len(w) + 1):
            out.add(w[:i])
    return out


class Dfa:
    def __init__(self, start, step):
        self.idx, self.names, self.table = {}, [], []
        todo = [start]
        self._get(start)
        k = 0
        while k < len(self.names):
            st = self.names[k]
            row = []
            for c in CHARS:
                row.append(self._get(step(st, c)))
            self.table.append(row)
            k += 1
        self.n = len(self.names)

    def _get(self, st):
        if st not in self.idx:
            self.idx[st] = len(self.names)
            self.names.append(st)
        return self.idx[st]

    def step(self, q, c):
        return self.table[q][c if c < 128 else 128]

    def run(self, q, text):
        for ch in text:
            q = self.step(q, ord(ch))
        return q

    def closure(self, q, allowed):
        """states reachable from q by words over `allowed` (a predicate on CHARS codes)"""
        seen, todo = {q}, [q]
        cs = [c for c in CHARS if allowed(c)]
        while todo:
            x = todo.pop()
            for c in cs:
                y = self.step(x, c)
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen


def url_step_d(st, c):
    """decoded level"""
    if st in ('ok', 'bad'):
        return st
    ch = chr(c) if c < 128 else None
    if st == 'dc':
        return 'bad'
    if st in ('d5', 'i1', 'i2', 'i3', 'i4', 'i5'):
        w = 'image/'
        k = 0 if st == 'd5' else int(st[1])
        if ch is not None and ch.lower() == w[k] and (k == 5 or True):
            return 'ok' if k == 5 else 'i%d' % (k + 1)
        if st == 'd5' and ch == ',':
            return 'dc'
        return 'bad'
    # before the first colon
    if c < 33 or c == 127:
        return 'bad'
    if ch == ':':
        return {'j10': 'bad', 'd4': 'd5'}.get(st, 'ok')
    if c not in SCHEME:
        return 'ok'
    l = ch.lower()
    if st == '0':
        return {'j': 'j1', 'd': 'd1'}.get(l, 'm')
    if st[0] == 'j' and st != 'j10' and l == 'javascript'[int(st[1:])]:
        return 'j%d' % (int(st[1:]) + 1)
    if st[0] == 'd' and st != 'd4' and l == 'data'[int(st[1:])]:
        return 'd%d' % (int(st[1:]) + 1)
    return 'm'


def url_step_e(st, c):
    """attribute-value level: character references are decoded first"""
    if isinstance(st, tuple):          # ('&', prefix)
        w = st[1] + (chr(c) if c < 128 else '?')
        if w.endswith(';'):
            return 'ok' if w[:-1] in ENTS else 'bad'
        return ('&', w) if w in prefixes(ENTS) else 'bad'
    if c == ord('&') and st not in ('ok', 'bad'):
        if st in ('d5', 'dc', 'i1', 'i2', 'i3', 'i4', 'i5'):
            return 'bad'
        return ('&', '')
    return url_step_d(st, c)


URLD = Dfa('0', url_step_d)
URLE = Dfa('0', url_step_e)


def url_accept(st):
    return st not in ('bad', 'd5', 'i1', 'i2', 'i3', 'i4', 'i5') and not isinstance(st, tuple)


def html_step(policy):
    NP = prefixes(ELEMENTS + VOID)
    AP = prefixes(ATTRS)
    WS = set(map(ord, ' \t\n'))

    def step(st, c):
        k = st[0]
        ch = chr(c) if c < 128 else '?'
        if k == 'B':
            return st
        if k == 'T':
            return ('L',) if ch == '<' else st
        if k == 'L':
            if ch == '/':
                return ('C', '')
            return ('N', ch) if ch in NP else ('B',)
        if k == 'N':
            full = st[1] in ELEMENTS + VOID
            if c in WS and full:
                return ('I',)
            if ch == '/' and full:
                return ('S',)
            if ch == '>' and full:
                return ('T',)
            w = st[1] + ch
            return ('N', w) if w in NP else ('B',)
        if k == 'C':
            if ch == '>' and st[1] in ELEMENTS:
                return ('T',)
            w = st[1] + ch
            return ('C', w) if w in prefixes(ELEMENTS) else ('B',)
        if k == 'I':
            if c in WS:
                return st
            if ch == '>':
                return ('T',)
            if ch == '/':
                return ('S',)
            return ('A', ch) if ch in AP else ('B',)
        if k == 'S':
            return ('T',) if ch == '>' else ('B',)
        if k == 'A':
            if ch == '=' and st[1] in ATTRS:
                return ('E', policy and st[1] in URLATTRS)
            if st[1] in ATTRS and ch == '>':
                return ('T',)
            if st[1] in ATTRS and c in WS:
                return ('I',)
            w = st[1] + ch
            return ('A', w) if w in AP else ('B',)
        if k == 'E':
            if ch != '"':
                return ('B',)
            return ('U', '0') if st[1] else ('Q',)
        if k == 'Q':
            return ('Z',) if ch == '"' else st
        if k == 'U':
            if ch == '"':
                return ('Z',) if url_accept(st[1]) else ('B',)
            return ('U', url_step_e(st[1], c))
        if k == 'Z':
            if c in WS:
                return ('I',)
            if ch == '>':
                return ('T',)
            if ch == '/':
                return ('S',)
            return ('B',)
        raise AssertionError(st)
    return step


class Html:
    """policy=False: markup only; policy=True: also the destination policy inside href/src"""

    def __init__(self, policy):
        self.policy = policy
        self.d = Dfa(('T',), html_step(policy))
        self.T = self.d.idx[('T',)]
        self.Q = self.d.idx[('Q',)]
        self.B = self.d.idx[('B',)]
        self.U = {}
        if policy:
            for i, nm in enumerate(URLE.names):
                self.U[i] = self.d.idx.get(('U', nm))
        # events: (state, next state) -> (element, +1/-1)
        self.names = self.d.names

    def events(self, q, text):
        """final state and {element: net count}"""
        cnt = {}
        for ch in text:
            st = self.names[q]
            q2 = self.d.step(q, ord(ch))
            if st[0] == 'N' and self.names[q2][0] in 'IST' and st[1] in ELEMENTS:
                cnt[st[1]] = cnt.get(st[1], 0) + 1
            if st[0] == 'C' and self.names[q2][0] == 'T':
                cnt[st[1]] = cnt.get(st[1], 0) - 1
            q = q2
        return q, {k: v for k, v in cnt.items() if v}


if __name__ == '__main__':
    h = Html(True)
    print(h.d.n, URLD.n, URLE.n)
    for t in ['<p>a &lt; b</p>\n', '<a href="http:x">y</a>', '<a href="javascript:x">', '<a href="JavaScript:x">', '<a href="data:image/png">x</a>', '<img src="data:,"><hr />', '<a href="&#106;avascript:">']:
        q, c = h.events(h.T, t)
        print(repr(t), h.names[q], c)
