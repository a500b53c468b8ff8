"""Properties C11-C15 of smd-core, smd and the smd binary as obligations over every path (fault history) through the real MIR."""
import json
import os
import time
import traceback
import z3
import extract
from registry import Crate, Program
from engine import Unsupported
import iovc
from iovc import S, ARR, ABSENT, EXT, RENDER, IO, Agg, En, Sym, Op, St, Ref, UNIT, is_s, is_i
import iomodels

HERE, BUILD = extract.HERE, extract.BUILD


def load(which):
    cs = []
    for name, key, src in (('smd_core', 'core', 'smd-core/src'), ('smd', 'smd', 'smd/src'), ('main', 'main', 'smd/src')):
        if key in which:
            cs.append(Crate(name, extract.extract(key), extract.REPO, src))
    return Program(cs)


class P:
    """one property: what to run, what must hold at the end of every path"""

    def __init__(self, prog):
        self.E = IO(prog)
        self.prog = prog
        self.fs0 = z3.Const('fs0', ARR)
        self.q = z3.Const('q_any', S)
        self.npaths = 0

    def start(self):
        return St({}, (), self.fs0, (), {})

    def fn(self, crate, pretty):
        for b in self.prog.crates[crate].mir.fns.values():
            if b.pretty == pretty:
                return b
        raise Unsupported('function %s not found' % pretty)

    def run(self, body, args, st=None):
        """-> [(state, value)] of returns and self.E.terminal"""
        E = self.E
        E.terminal = []
        r = E.run(body, args, st or self.start())
        out = []
        for s, v in r:
            if not E.feasible(s.pc):
                continue
            v = E.force(s, v)
            if isinstance(v, Sym) and v.ty[0] == 'adt' and v.ty[1].endswith('Result') or isinstance(v, En):
                out += E.cases(s, v)
            else:
                out.append((s, v))
        E.terminal = [t for t in E.terminal if E.feasible(t[0].pc)]
        self.npaths += len(out) + len(E.terminal)
        return out

    def unchanged(self, s, but=()):
        return z3.Implies(z3.And([self.q != p for p in but] + [z3.BoolVal(True)]), s.fs[self.q] == self.fs0[self.q])


def faults(s):
    return [e[1] for e in s.ev if e[0] == 'fault']


def hist(s):
    return 'after ' + (', '.join('%s fails' % f for f in faults(s)) or 'no failure')


def default_config(p):
    E = p.E
    b = p.prog.crates['smd_core'].by_key.get(('Config', 'Default', 'default'))
    if b is None:
        raise Unsupported('Config::default')
    r = E.run(b, [], p.start())
    return E.deep(r[0][0], r[0][1])


def config_path(p, st):
    """[(state, path of the configuration file)]"""
    E = p.E
    v = Sym(('adt', 'std::option::Option', (('adt', 'std::path::PathBuf', ()),)), 'CONFIG_DIR')
    out = []
    for s, x in E.cases(st, v):
        base = E.force(s, x.fields[0]) if x.k == 1 else E.lit('')
        out.append((s, iomodels.join(E, base, E.lit('smd/config.toml'))))
    return out


def comment_only(t):
    return all(l.strip() == '' or l.lstrip().startswith('#') for l in t.split('\n')[:-1]) and (t.split('\n')[-1] == '')


def is_default_text(p, s, t, dflt):
    """the written text is comments and the serialised default configuration"""
    E = p.E
    t = z3.simplify(t)
    parts = []
    while z3.is_app(t) and t.decl().eq(iovc.CAT):
        parts.append(t.arg(0))
        t = t.arg(1)
    parts.append(t)
    n = 0
    for x in parts:
        if E.text(x) is not None:
            if not comment_only(E.text(x)):
                raise Unsupported('configuration text assembled by hand')
        elif x.get_id() in E.tomls:
            n += 1
            if not iovc.same(E.tomls[x.get_id()][1], dflt):
                return False
        else:
            return None
    return n == 1


# ---------------------------------------------------------------------------------------------- specifications
def C11(p):
    E = p.E
    for name in ('fs::write_to_file', 'fs::write_bytes'):
        b = p.fn('smd_core', name)
        path, data = E.present(z3.Const('path', S)), E.present(z3.Const('contents', S))
        for s, v in p.run(b, [path, data]):
            if v.k == 0:
                E.goal('%s reports success => the file holds exactly the given contents (%s)' % (name, hist(s)), s, s.fs[path] == data, name)
            else:
                E.goal('%s reports an error (%s)' % (name, hist(s)), s, True, name)


def cli(p, commands):
    a = p.prog.adt('Cli', p.prog.crates['smd'])
    f = []
    for n, t in a.fields[0]:
        f.append(commands if n == 'commands' else p.E.sym(t, n))
    return Agg(('adt', 'Cli'), f)


def parse_cmd(p, fmt, inp):
    a = p.prog.adt('ParseArgs', p.prog.crates['smd'])
    o = p.prog.adt('OutputFileFormat', p.prog.crates['smd'])
    c = p.prog.adt('Commands', p.prog.crates['smd'])
    f = []
    for n, t in a.fields[0]:
        f.append(inp if n == 'input' else En('OutputFileFormat', o.variants.index(fmt)) if n == 'output' else p.E.sym(t, n))
    return En('Commands', c.variants.index('Parse'), (Agg(('adt', 'ParseArgs'), f),))


def init_cmd(p):
    c = p.prog.adt('Commands', p.prog.crates['smd'])
    return En('Commands', c.variants.index('Initialize'))


def ends(p, out):
    """all ways the call can end: [(state, enum value or None, kind)]"""
    r = [(s, v, 'return') for s, v in out]
    return r + [(t[0], t[2], t[1]) for t in p.E.terminal]


def C12(p):
    E = p.E
    inp = E.present(z3.Const('input', S))
    out = E.present(EXT(inp, E.lit('html')))
    b = p.fn('smd', 'run')
    st = p.start()
    st.pc = (p.fs0[inp] != ABSENT,)
    for s, v, kind in ends(p, p.run(b, [cli(p, parse_cmd(p, 'Html', inp))], st)):
        h = hist(s)
        E.goal('the source document is neither changed nor removed (%s)' % h, s, s.fs[inp] == p.fs0[inp], 'run')
        E.goal('no file but the output is created, changed or removed (%s)' % h, s, p.unchanged(s, [out]), 'run')
        E.goal('no folder is created (%s)' % h, s, not any(e[0] == 'mkdir' for e in s.ev), 'run')
        if kind == 'return' and v.k == 0:
            E.goal('success => the output file holds exactly the rendering of the source (%s)' % h, s, s.fs[out] == RENDER(p.fs0[inp]), 'run')


def init_goal(p, s, cfg, dflt, loc):
    E = p.E
    r = is_default_text(p, s, s.fs[cfg], dflt)
    if r is None:
        E.goal('success => the default configuration was written completely (%s)' % hist(s), s, False, loc)
    else:
        E.goal('success => the default configuration was written completely (%s)' % hist(s), s, r, loc)


def C13(p):
    E = p.E
    dflt = default_config(p)
    b = p.fn('smd_core', 'Config::initialize')
    for st, cfg in config_path(p, p.start()):
        for s, v, kind in ends(p, p.run(b, [], st)):
            h = hist(s)
            E.goal('an existing configuration file is not changed by initialising (%s)' % h, s, z3.Implies(p.fs0[cfg] != ABSENT, s.fs[cfg] == p.fs0[cfg]), 'Config::initialize')
            E.goal('initialising touches no other file (%s)' % h, s, p.unchanged(s, [cfg]), 'Config::initialize')
            if kind == 'return' and v.k == 0:
                E.goal('initialising over an existing file fails (%s)' % h, s, p.fs0[cfg] == ABSENT, 'Config::initialize')
                s2 = s.with_(p.fs0[cfg] == ABSENT)
                init_goal(p, s2, cfg, dflt, 'Config::initialize')
    b = p.fn('smd_core', 'Config::load_config')
    for st, cfg in config_path(p, p.start()):
        for s, v, kind in ends(p, p.run(b, [], st)):
            h = hist(s)
            E.goal('loading changes no file (%s)' % h, s, p.unchanged(s), 'Config::load_config')
            if kind == 'return' and v.k == 0:
                x = E.rd(s, v.fields[0])
                good = False
                if isinstance(x, Op) and x.tag == 'configvalue':
                    src = [q for q in x.args[0] if q[0] == 'str']
                    rest = [q for q in x.args[0] if q[0] not in ('str', 'env')]
                    if len(src) == 1 and not rest and ('Toml' in src[0][2] if len(src[0]) > 2 and 'FileFormat' in src[0][2] else True):
                        good = z3.simplify(src[0][1]) == p.fs0[cfg]
                        if x.args[0][0][0] != 'str':
                            good = False
                if isinstance(x, Sym):
                    raise Unsupported('configuration value from an unknown source')
                E.goal('an existing configuration file is loaded, not ignored (%s)' % h, s, z3.Implies(p.fs0[cfg] != ABSENT, good if not isinstance(good, bool) else z3.BoolVal(good)),
                       'Config::load_config')


def C14(p):
    E = p.E
    html = E.present(z3.Const('html', S))
    b = p.prog.crates['smd_core'].by_key.get(('PDFConverter', 'Convert', 'from_html'))
    if b is None:
        raise Unsupported('PDFConverter::from_html')

    def hook(s, path, what, where):
        g = E.goal('%s touches no file that existed before (%s)' % (what, hist(s)), s, p.fs0[path] == ABSENT, where)
    E.hooks = [hook]
    for s, v, kind in ends(p, p.run(b, [html])):
        h = hist(s)
        un = [e[1] for e in s.ev if e[0] == 'unremoved']
        E.goal('no temporary file is left behind and no existing file changed (%s)' % h, s, p.unchanged(s, un), 'PDFConverter::from_html')
        E.goal('no folder is left behind (%s)' % h, s, not any(e[0] == 'mkdir' for e in s.ev), 'PDFConverter::from_html')
        if kind == 'return' and v.k == 0:
            x = E.rd(s, v.fields[0])
            pr = [e[1] for e in s.ev if e[0] == 'printed']
            E.goal('success carries the bytes the browser printed (%s)' % h, s, z3.Or([x == t for t in pr] + [z3.BoolVal(False)]) if is_s(x) else False, 'PDFConverter::from_html')
            for u in un:
                E.goal('success => the temporary file is gone (%s)' % h, s, s.fs[u] == p.fs0[u], 'PDFConverter::from_html')


def C15(p):
    E = p.E
    b = p.fn('main', 'main')
    dflt = default_config(p)
    inp = E.present(z3.Const('input', S))
    for what in ('init', 'html', 'pdf'):
        cmd = init_cmd(p) if what == 'init' else parse_cmd(p, what.capitalize(), inp)
        E.cli = cli(p, cmd)
        for st, cfg in config_path(p, p.start()):
            if what != 'init':
                st = st.with_(p.fs0[inp] != ABSENT, inp != cfg)
            out = E.present(EXT(inp, E.lit(what)))
            for s, v, kind in ends(p, p.run(b, [], st)):
                h = '%s: %s' % (what, hist(s))
                if kind == 'panic':
                    E.goal('a panic exits with status 101 (%s)' % h, s, True, 'main')
                    continue
                if kind == 'return':
                    v = En('Result', 0) if not isinstance(v, En) else v
                    code = v.k
                else:
                    code = v
                zero = (code % 256 == 0) if isinstance(code, int) else code % 256 == 0       # the system keeps the low byte
                if zero is not False:
                    s0 = s.with_(zero) if not isinstance(zero, bool) else s
                    fl = faults(s)
                    badf = [f for f in fl if f in ('config', 'read', 'browser', 'toml', 'write')]
                    E.goal('status 0 => nothing failed (%s)' % h, s0, not badf, 'main')
                    if what == 'init':
                        E.goal('status 0 => there was no configuration file before (%s)' % h, s0, p.fs0[cfg] == ABSENT, 'main')
                        s1 = s0.with_(p.fs0[cfg] == ABSENT)
                        if E.feasible(s1.pc):
                            init_goal(p, s1, cfg, dflt, 'main')
                    elif what == 'html':
                        E.goal('status 0 => the output holds the rendering (%s)' % h, s0, s.fs[out] == RENDER(p.fs0[inp]), 'main')
                    else:
                        pr = [e[1] for e in s.ev if e[0] == 'printed']
                        E.goal('status 0 => the output holds what the browser printed (%s)' % h, s0, z3.Or([s.fs[out] == t for t in pr] + [z3.BoolVal(False)]), 'main')
                if zero is not True and what != 'pdf':      # a browser may fail in ways that no call reports as an error
                    s0 = s.with_(z3.Not(zero)) if not isinstance(zero, bool) else s
                    c = [inp == out] if what != 'init' else [p.fs0[cfg] != ABSENT]
                    E.goal('non-zero status => something failed (%s)' % h, s0, True if faults(s) else z3.Or(c), 'main')


SPEC = {'C11': (C11, ('core',)), 'C12': (C12, ('core', 'smd')), 'C13': (C13, ('core',)), 'C14': (C14, ('core',)), 'C15': (C15, ('core', 'smd', 'main'))}


def prove(pid, say):
    f, which = SPEC[pid]
    prog = load(which)
    say('extracted %d function bodies' % sum(len(c.mir.fns) for c in prog.crates.values()))
    p = P(prog)
    t = time.time()
    f(p)
    p.gen_s = time.time() - t
    t = time.time()
    for g in p.E.obs:
        g.status, g.model = p.E.valid(g.pc, g.cond)
    p.solve_s = time.time() - t
    # vacuity: the assumptions of some successful path are satisfiable, with a solver that knows nothing else
    p.ncover, p.dead = 0, True
    for g in p.E.obs:
        if 'after no failure' in g.desc and p.ncover < 20:
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(p.E.facts)
            s.add(list(g.pc))
            p.ncover += 1
            if s.check() == z3.sat:
                p.dead = False
                break
    return p


ASSUME = [
    'distinct path strings name distinct files (no aliasing through links, case folding or repeated separators); no other process changes the files meanwhile',
    'exists() answers exactly whether the file is there; files change only through calls that have a contract in vc/iomodels.py',
    'every fallible system call may fail, a failing write leaves arbitrary contents; power failure after a successful write is not considered',
    'calls listed as assumed have no effect on the file system and may return anything',
    'panics end the process; clean-up while unwinding is not taken into account (obligations hold without it)',
]
TRUST = ['rustc nightly: MIR printed by -Zunpretty=mir is what the compiler compiles (mir-opt-level 0)',
         'the MIR parser and symbolic executor (vc/mirparse, vc/iovc) and the std and library contracts in vc/iomodels',
         'z3 (python3-vt) answers unsat only for unsatisfiable formulas']
EXTRA = {'C12': ['rendering is an uninterpreted function of the document here (gfm is decided by C01-C09)', 'command-line parsing by clap is outside: the proof starts at smd::run with arbitrary parsed arguments',
                 'the output name is Path::set_extension("html") of the input (path functions are uninterpreted)'],
         'C13': ['the config and toml crates: a source that parses yields the values it sets; to_string_pretty then load gives the value back (also run as a scenario)'],
         'C14': ['headless_chrome calls do not touch the files of the working folder and may succeed or fail arbitrarily'],
         'C15': ['clap exits with a non-zero status on a usage error; process::exit(n) gives status n; a panic gives a non-zero status']}


def decide(c, say):
    import ioscen
    res = {'level': 'proof', 'violation': None, 'assumptions': ASSUME + EXTRA.get(c.pid, []), 'summary': ''}
    err, p = None, None
    try:
        p = prove(c.pid, say)
    except extract.BuildError:
        raise
    except Exception as e:       # outside the verifier's reach: bounded stand-in, labelled as such
        traceback.print_exc()
        err = '%s: %s' % (type(e).__name__, str(e)[:400])
        say('outside the verifier: ' + err)
    obs = p.E.obs if p else []
    bad = [g for g in obs if g.status != 'proved']
    if p is not None:
        say('%d paths, %d obligations, %d discharged' % (p.npaths, len(obs), len(obs) - len(bad)))
        if not obs or not p.npaths:
            err = 'no obligations generated'
        elif p.dead:
            err = 'assumptions contradictory: no path returns successfully'
    for g in bad[:20]:
        say('NOT DISCHARGED (%s): %s | %s' % (g.status, g.desc, g.loc))
    found, n = ioscen.run(c.pid, say, c.replays, c.tier == 'thorough')
    say('%d scenarios run on the real program%s' % (n, ', failing one found' if found else ''))
    cov = {'obligations': len(obs), 'discharged': len(obs) - len(bad), 'scenarios_run': n,
           'checker_cmd': 'python3 run.py %s (paths and obligations by vc/iovc.py from the MIR of smd-core, smd and main as compiled by cargo build -p smd, back end z3)' % c.pid,
           'trusted_base': TRUST + (['contract: ' + k for k in sorted(p.E.trusted)] if p else [])}
    if p is not None:
        cov['functions_verified'] = sorted(x for x in p.E.inlined if 'promoted' not in x)
        cov['paths'] = p.npaths
        cov['solver_queries'] = p.E.queries
        cov['solver_s'] = round(p.solve_s, 2)
        cov['generation_s'] = round(p.gen_s, 2)
        cov['loops_cut_by_invariant'] = p.E.loops
        cov['loop_invariants'] = sorted(set(p.E.invs))
        cov['calls_assumed_effect_free'] = sorted(p.E.assumed)
        cov['vacuity_checks'] = p.ncover
    res['coverage'] = cov
    if err:
        res['level'] = 'other'
        cov['explanation'] = 'BOUNDED, not proved: %s; %d scenarios run instead' % (err, n)
    if found:
        if bad:
            with open(found, 'a') as f:
                f.write('\nobligations not discharged:\n')
                for g in bad:
                    f.write('%s\t%s\t%s\n' % (g.status, g.desc, g.loc))
        res['violation'] = (found, '')
    elif bad:
        path = os.path.join(c.replays, c.pid + '.obligation')
        with open(path, 'w') as f:
            f.write('property %s: obligations not discharged\n' % c.pid)
            for g in bad:
                f.write('%s\t%s\t%s\n' % (g.status, g.desc, g.loc))
            f.write('\nverifier output for the first one (z3 model):\n%s\n' % str(bad[0].model)[:20000])
        res['violation'] = (path, ' no-failing-input-found')
    res['summary'] = ('%d of %d obligations discharged over %d paths' % (cov['discharged'], cov['obligations'], p.npaths)) if not err else cov['explanation']
    return res
