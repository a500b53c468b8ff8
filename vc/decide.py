"""Decision procedure of one check: prove, validate against the running code, search for a failing input when a proof fails."""
import json
import os
import subprocess
import sys
import time
import traceback
import extract
import tables

HERE = extract.HERE
BUILD = extract.BUILD
RT = os.path.join(BUILD, 'rt-target', 'debug', 'rt')

GFM = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
IO = ['C11', 'C12', 'C13', 'C14', 'C15']

BASE = [
    'rustc nightly: MIR printed by -Zunpretty=mir is what the compiler compiles (mir-opt-level 0)',
    'the MIR parser, verification-condition generator and std-library contracts in /verif/vc (mirparse, engine, models, theory)',
    'z3 4.x (python3-vt) answers unsat only for unsatisfiable formulas',
]


def build_rt(say):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(BUILD, 'rt-target'), CARGO_NET_OFFLINE='true',
               RUSTC_WRAPPER=os.path.join(HERE, 'harness', 'wrap.sh'), CARGO_INCREMENTAL='0')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness'), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise extract.BuildError('harness: ' + p.stdout[-3000:])


def search(c, secs, say, n=8):
    """-> (path of a failing document or None, documents run, distinct)"""
    tab, dic = os.path.join(BUILD, 'tables.txt'), os.path.join(BUILD, 'dict.txt')
    tables.write_tables(tab)
    tables.write_dict(os.path.join(extract.REPO, 'gfm', 'src'), dic)
    scratch = os.path.join(BUILD, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    procs = []
    for k in range(n):
        out = os.path.join(c.replays, '%s.%d' % (c.pid, k))
        if os.path.exists(out):
            os.remove(out)
        procs.append((subprocess.Popen([RT, 'search', c.pid, str(c.seed * 1000 + k), str(secs), tab, dic, out], cwd=scratch,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), out))
    found, docs, distinct, t0 = None, 0, 0, time.time()
    left = list(procs)
    while left and time.time() - t0 < secs + 40:
        time.sleep(0.2)
        for p, out in list(left):
            if p.poll() is None:
                continue
            left.remove((p, out))
            txt = p.stdout.read()
            if p.returncode == 1 and os.path.exists(out) and found is None:
                found = out
            for l in txt.splitlines():
                if l.startswith('documents '):
                    w = l.split()
                    docs += int(w[1])
                    distinct = max(distinct, int(w[3]))
        if found:
            break
    for p, _ in left:
        p.kill()
        p.wait()
    if found:
        dst = os.path.join(c.replays, c.pid + '.doc')
        os.replace(found, dst)
        found = dst
    return found, docs, distinct


def decide(c, say):
    if c.pid in GFM:
        return decide_gfm(c, say)
    import ioprops
    return ioprops.decide(c, say)


def prove_gfm(c, say):
    from registry import Crate, Program
    import gfmprops
    mir = extract.extract('gfm')
    with open(os.path.join(BUILD, 'gfm.mir'), 'w') as f:
        f.write(mir)
    cr = Crate('gfm', mir, extract.REPO, 'gfm/src')
    say('extracted %d function bodies' % len(cr.mir.fns))
    if c.pid == 'C08':
        import purity
        return purity.run(Program([cr]), cr, gfmprops.ENTRY, say)
    R, obs = gfmprops.run_property(c.pid, Program([cr]), cr, log=say, timeout=20.0 if c.tier == 'quick' else 60.0,
                                   budget=560.0 if c.tier == 'quick' else 3000.0)
    return R, obs


def decide_gfm(c, say):
    res = {'level': 'proof', 'violation': None, 'assumptions': [], 'summary': ''}
    err, R, obs, t0 = None, None, [], time.time()
    build_rt(say)
    say('harness built')
    try:
        R, obs = prove_gfm(c, say)
    except extract.BuildError:
        raise
    except Exception as e:       # outside the verifier's reach: bounded stand-in, labelled as such
        traceback.print_exc()
        err = '%s: %s' % (type(e).__name__, str(e)[:400])
        say('outside the verifier: ' + err)
    bad = [o for o in obs if o.status != 'proved']
    vac = R.cover() if R is not None else []
    if R is not None:
        say('%d obligations, %d discharged' % (len(obs), len(obs) - len(bad)))
        if not obs:
            err = 'no obligations generated'
        if vac:
            err = 'assumptions contradictory at the end of ' + ', '.join(vac)
    secs = 8 if c.tier == 'quick' else 120
    if bad:
        for o in bad[:20]:
            say('NOT DISCHARGED (%s): %s | %s' % (o.status, o.desc, o.loc))
        secs = 150 if c.tier == 'quick' else 900
    elif err:
        secs = 90 if c.tier == 'quick' else 900
    if c.tier == 'quick':
        secs = max(8, min(secs, 820 - int(time.time() - t0)))
    found, docs, distinct = search(c, secs, say)
    say('%d documents run against the real code%s' % (docs, ', failing document found' if found else ''))
    cov = {'obligations': len(obs), 'discharged': len(obs) - len(bad), 'documents_run': docs,
           'checker_cmd': 'python3 run.py %s (VCs by vc/engine.py from MIR of %s, back end z3)' % (c.pid, ' '.join(extract.command('gfm'))),
           'trusted_base': BASE + (trusted(R) if R is not None else [])}
    if R is not None and c.pid == 'C08':
        P = R.P
        cov['functions_under_contract'] = sorted(f for f in P.fns if '{closure' not in f)
        cov['closures_under_contract'] = sum(1 for f in P.fns if '{closure' in f)
        cov['generation_s'] = round(P.gen_s, 2)
        cov['checker_cmd'] = cov['checker_cmd'].replace('VCs by vc/engine.py', 'frame and flow obligations by vc/purity.py').replace('back end z3', 'back end: flow rules of vc/purity.py, no solver')
    elif R is not None:
        E, st = R.E, R.D.st
        al = [x for x in E.cands if x.alive]
        cov['functions_under_contract'] = sorted(R.cuts)
        cov['functions_verified_inline'] = sorted(getattr(E, 'inlined', set()) or R.G.reach([__import__('gfmprops').ENTRY]))
        cov['contract_clauses_inferred_and_proved'] = len(al)
        cov['contract_clause_obligations'] = sum(len(x.need) for x in al)
        cov['solver_queries'] = st.queries
        cov['solver_s'] = round(st.solver_s, 1)
        cov['generation_s'] = round(R.gen_s, 1)
        cov['vacuity_checks'] = R.ncover
        if E.unknown:
            cov['unmodelled_calls'] = sorted(map(str, E.unknown))
    res['coverage'] = cov
    res['assumptions'] = assumptions(c.pid)
    if err:
        res['level'] = 'other'
        cov['explanation'] = 'BOUNDED, not proved: %s; %d documents explored instead' % (err, docs)
    if found:
        if bad:
            append_output(found, bad)
        res['violation'] = (found, '')
    elif bad:
        path = os.path.join(c.replays, c.pid + '.obligation')
        with open(path, 'w') as f:
            f.write('property %s: obligations not discharged\n' % c.pid)
            for o in bad:
                f.write('%s\t%s\t%s\t%s\n' % (o.status, o.kind, o.desc, o.loc))
            try:
                if c.pid == 'C08':
                    raise ValueError('flow rules give none')
                import explain
                o = bad[0]
                m = explain.model_for(R.D, o.path, o.cond)
                f.write('\nverifier output for the first one (z3 model, truncated):\n%s\n' % str(m)[:20000])
            except Exception as e:
                f.write('\nno model: %s\n' % e)
        res['violation'] = (path, ' no-failing-input-found')
    res['summary'] = ('%d of %d obligations discharged' % (cov['discharged'], cov['obligations'])) if not err else cov['explanation']
    return res


def append_output(path, bad):
    with open(path + '.obligations', 'w') as f:
        for o in bad:
            f.write('%s\t%s\t%s\t%s\n' % (o.status, o.kind, o.desc, o.loc))


def trusted(R):
    if hasattr(R, 'P'):
        return ['frame contract (reads and writes only its arguments): ' + k for k in sorted(R.P.trusted)]
    return ['std contract: ' + k for k in sorted(R.E.models.trusted)]


def assumptions(pid):
    if pid == 'C08':
        return ['library functions of std, core, alloc not named in IMPURE/ORDER/ADDRESS of vc/purity.py read and write only their arguments, and their results depend on nothing else',
                'the log crate affects nothing but the log; the installed logger is not the document', 'no unsafe code or data race outside gfm writes into its memory',
                'executions that panic or do not terminate are excluded here (C03, C04)']
    a = ['call stack and heap are large enough', 'usize is 64 bits; strings and vectors hold at most isize::MAX bytes/elements']
    if pid not in ('C03',):
        a.append('partial correctness: executions that panic are excluded here (C03 shows there are none)')
    if pid != 'C04':
        a.append('executions that do not terminate are excluded here (C04)')
    return a
