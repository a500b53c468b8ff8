"""Writes the specification scanners and a dictionary of source literals for the concrete search."""
import os
import re
import dfa

ENT_CHARS = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'", 'lbrack': '[', 'rbrack': ']', 'lbrace': '{', 'rbrace': '}',
             'mid': '|', 'tilde': '~', '#41': ')', '#40': '('}


def write_tables(path):
    out = ['elements ' + ' '.join(dfa.ELEMENTS)]
    for e in dfa.ENTS:
        out.append('ent %s %s' % (e, ENT_CHARS[e]))
    for nm, h in (('markup', dfa.Html(False)), ('policy', dfa.Html(True))):
        out.append('dfa %s %d' % (nm, h.T))
        for st, row in zip(h.names, h.d.table):
            out.append('state %s %s' % (label(st), ' '.join(map(str, row))))
        seen = set()
        for q, st in enumerate(h.names):
            for c in dfa.CHARS:
                r = h.d.step(q, c)
                if (q, r) in seen:
                    continue
                if st[0] == 'N' and h.names[r][0] in 'IST' and st[1] in dfa.ELEMENTS:
                    seen.add((q, r))
                    out.append('ev %d %d %d 1' % (q, r, dfa.ELEMENTS.index(st[1])))
                if st[0] == 'C' and h.names[r][0] == 'T':
                    seen.add((q, r))
                    out.append('ev %d %d %d -1' % (q, r, dfa.ELEMENTS.index(st[1])))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def label(st):
    if st[0] in 'ANC' and len(st) > 1:
        return '%s:%s' % (st[0], st[1])
    if st[0] == 'U':
        return 'U:' + (st[1] if isinstance(st[1], str) else '&' + st[1][1])
    if st[0] == 'E':
        return 'E%d' % bool(st[1])
    return st[0]


def write_dict(root, path):
    words, nums = set(), set()
    for dp, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            txt = open(os.path.join(dp, f), encoding='utf-8').read()
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"|\'([^\'\\]|\\.)\'|\b(\d{1,3})(?:_?[ui](?:8|16|32|64|size))?\b', txt, re.S):
                s = m.group(1) if m.group(1) is not None else m.group(2)
                if s is not None:
                    s = re.sub(r'\\\n\s*', '', s)
                    s = s.replace('\\n', '\n').replace('\\t', '\t').replace('\\r', '\r').replace('\\"', '"').replace("\\'", "'").replace('\\\\', '\\')
                    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), s)
                    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda k: chr(int(k.group(1), 16)), s)
                    if 0 < len(s) <= 60:
                        words.add(s)
                else:
                    nums.add(int(m.group(3)))
    with open(path, 'w') as f:
        for w in sorted(words):
            f.write('s %s\n' % w.encode('utf-8', 'ignore').hex())
        for n in sorted(nums):
            f.write('n %d\n' % n)
