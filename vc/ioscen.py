"""Run-time scenarios of C11-C15: the real program and the real library functions in scratch folders, with faults. Finds concrete failing histories."""
import os
import resource
import shutil
import signal
import subprocess
import extract

HERE = extract.HERE
CHROME = os.path.join(HERE, 'vc', 'fakechrome.py')
NOBROWSER = '/usr/bin:/bin'


def build(say):
    b = extract.bundle()
    env = extract.cargo_env(extract.TARGET)
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness-io'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise extract.BuildError('harness-io: ' + p.stdout[-3000:])
    return b['bin'], os.path.join(extract.TARGET, 'debug', 'iot')


def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = ('link', os.readlink(p)) if os.path.islink(p) else 'dir'
        for x in fs:
            p = os.path.join(r, x)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, d)] = f.read()
    return out


class Box:
    """one scenario: a scratch folder with work/ (documents), cwd/ and cfg/ (configuration)"""

    def __init__(self, root, smd, iot, name):
        self.d = os.path.join(root, name)
        self.smd, self.iot, self.name = smd, iot, name
        shutil.rmtree(self.d, ignore_errors=True)
        for x in ('work', 'cwd', 'cfg', 'home', 'tmp'):
            os.makedirs(os.path.join(self.d, x))
        self.log = []

    def p(self, *a):
        return os.path.join(self.d, *a)

    def put(self, rel, data):
        if isinstance(data, str):
            data = data.encode()
        os.makedirs(os.path.dirname(self.p(rel)), exist_ok=True)
        with open(self.p(rel), 'wb') as f:
            f.write(data)

    def run(self, argv, fsize=None, chrome=None, env=None, timeout=100):
        e = {'PATH': NOBROWSER, 'HOME': self.p('home'), 'XDG_CONFIG_HOME': self.p('cfg'), 'TMPDIR': self.p('tmp'), 'LANG': 'C.UTF-8'}
        if chrome:
            e['CHROME'] = CHROME
            e['FAKE_MODE'] = chrome
        e.update(env or {})

        def pre():
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            os.setsid()
        self.log.append('%s%s%s' % (' '.join(argv), '  # file size limit %d' % fsize if fsize is not None else '', '  # browser stand-in: %s' % chrome if chrome else ''))
        p = subprocess.Popen(argv, cwd=self.p('cwd'), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, b'', b''
        self.log.append('  exit status %s' % p.returncode)
        return p.returncode, o, er

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


DOC = '# Title\n\nText with *emphasis*, `code` & <markup>.\n\n- a\n- b\n\n| x | y |\n|---|---|\n| 1 | 2 |\n'
BIG = DOC * 3000
DOCS = {'controls': '\x01\x02 x\x00\n', 'bom': '\ufeff# x\n', 'spaces': '   \n\n\t x  \n\n\n  ', 'crlf': 'a\r\nb\r\n\r\nc', 'cr': 'a\rb', 'tags': '<b>x</b> &amp; "q"', 'notes': 'x[^1]\n\n[^1]: y\n',
        'long': 'x' * 70000, 'plain': DOC, 'empty': '', 'unicode': 'ä€𝄞 *ü*\r\n\r\nx\n', 'big': BIG}


def scenarios(pid, thorough):
    """[(name, function(box) -> text of a violation or None)]"""
    out = []

    def add(name):
        def deco(f):
            out.append((name, f))
            return f
        return deco

    def render(b, rel):
        b.run([b.iot, 'render', b.p(rel), b.p('tmp', 'render')])
        with open(b.p('tmp', 'render'), 'rb') as f:
            r = f.read()
        os.remove(b.p('tmp', 'render'))
        return r

    if pid == 'C11':
        for kind in ('text', 'bytes'):
            for size in (0, 1, 100, 8191, 8192, 8193, 20000, 70000, 1 << 20):
                for lim in (None, 0, 1, 50, 4096, 8192, 16384, 65536, 100000):
                    if lim is not None and lim >= size and size > 100:
                        continue

                    @add('write-%s-%d-limit-%s' % (kind, size, lim))
                    def _(b, kind=kind, size=size, lim=lim):
                        data = (b'line of text %d\n' * (size // 16 + 1))[:size]
                        b.put('work/in', data)
                        for old in (None, b'x' * (size + 100), b''):
                            if old is not None:
                                b.put('work/out', old)
                            c, o, _ = b.run([b.iot, 'write-' + kind, b.p('work/out'), b.p('work/in')], fsize=lim)
                            got = snap(b.p('work')).get('out')
                            if c == 0 and got != data:
                                return 'write of %d bytes reported success, the file holds %s bytes' % (size, None if got is None else len(got))
            for size in (1, 5000, 100000):
                @add('write-%s-%d-full' % (kind, size))
                def _(b, kind=kind, size=size):
                    b.put('work/in', b'y' * size)
                    os.symlink('/dev/full', b.p('work/out'))
                    c, o, _ = b.run([b.iot, 'write-' + kind, b.p('work/out'), b.p('work/in')])
                    if c == 0:
                        return 'write to a full device reported success'

            @add('write-%s-dir' % kind)
            def _(b, kind=kind):
                b.put('work/in', b'y')
                os.makedirs(b.p('work/out'))
                for t in ('work/out', 'work/none/out'):
                    c, o, _ = b.run([b.iot, 'write-' + kind, b.p(t), b.p('work/in')])
                    if c == 0:
                        return 'write to a bad path reported success'

    names = ['a.md', 'a.b.md', 'noext', 'ä €.md', '.hidden', 'a.MD', 'a.htm', 'a.', 'a.html.md', 'README.markdown', 'a.html', 'tmp.html', 'x.HTML', 'a.pdf', 'config.toml', 'Notes.MD', 'UPPER', 'a  b.md', 'a%20b.md', '-x.md', 'a.b.c.d', 'a.md.md', '~', '*.md']

    def html(b, name, doc, fsize=None, extra=(), flags=(), env=None, before=None, fails=None, cfg=None, chk=None):
        b.put('work/' + name, doc)
        for k, v in extra:
            b.put(k, v)
        if before:
            before(b)
        want = render(b, 'work/' + name) if fails not in ('read',) else None
        o = os.path.splitext(name)[0] + '.html' if os.path.splitext(name)[0] else name + '.html'
        if name.endswith('.') and name != '.':
            o = name[:-1] + '.html'
        b0 = {x: snap(b.p(x)) for x in ('work', 'cwd', 'cfg', 'home')}
        c, so, se = b.run([b.smd, *flags, 'parse', '-i', b.p('work', name), '-o', 'html'], fsize=fsize, env=env)
        a0 = {x: snap(b.p(x)) for x in ('work', 'cwd', 'cfg', 'home')}
        same = o == name
        if pid == 'C12':
            if a0['work'].get(name) != b0['work'][name]:
                return 'the source document was changed or removed (status %s)' % c
            for x in b0:
                k = [y for y in set(a0[x]) | set(b0[x]) if a0[x].get(y) != b0[x].get(y) and not (x == 'work' and y == o)]
                if k:
                    return 'other files were created, changed or removed: %s' % k
        if pid in ('C12', 'C15'):
            if c == 0 and not same and want is not None and a0['work'].get(o) != want and not isinstance(a0['work'].get(o), tuple):
                return 'exit status 0, but %s does not hold the rendering of %s' % (o, name)
        if fails and c == 0 and pid in ('C15', 'C13' if fails == 'config' else 'C15'):
            return 'exit status 0 although %s failed' % fails
        if pid == 'C15' and not fails and not same and fsize is None and c != 0:
            return 'exit status %s although nothing failed' % c
        return None

    if pid in ('C12', 'C15'):
        for n in names:
            add('html-name-' + n)(lambda b, n=n: html(b, n, DOC))
        for k, d in DOCS.items():
            add('html-doc-' + k)(lambda b, d=d: html(b, 'a.md', d))
        add('html-existing')(lambda b: html(b, 'a.md', DOC, extra=[('work/a.html', 'old ' * 5000), ('work/b.html', 'b'), ('work/a.pdf', 'p'), ('work/tmp.html', 't'), ('cwd/tmp.html', 't')]))
        for fl in ('-v', '-vv', '-vvv'):
            add('html-flag' + fl)(lambda b, fl=fl: html(b, 'a.md', DOC, flags=[fl]))
        for lv in ('off', 'trace', 'error', 'nonsense=='):
            add('html-log-' + lv)(lambda b, lv=lv: html(b, 'a.md', DOC, env={'RUST_LOG': lv}))
        for lim in (0, 10, 4096, 8192):
            add('html-limit-%d' % lim)(lambda b, lim=lim: html(b, 'a.md', BIG, fsize=lim, fails='writing'))
        for lim in (0, 1, 20):
            add('html-small-limit-%d' % lim)(lambda b, lim=lim: html(b, 'a.md', DOC, fsize=lim, fails='writing'))
            add('html-small-limit-%d-existing' % lim)(lambda b, lim=lim: html(b, 'a.md', DOC, extra=[('work/a.html', 'old')], fsize=lim, fails='writing'))

        @add('html-out-dir')
        def _(b):
            return html(b, 'a.md', DOC, before=lambda b: os.makedirs(b.p('work/a.html')), fails='writing')

        @add('html-out-full')
        def _(b):
            return html(b, 'a.md', DOC, before=lambda b: os.symlink('/dev/full', b.p('work/a.html')), fails='writing')
        add('html-in-binary')(lambda b: html(b, 'a.md', b'\xff\xfe x', fails='read'))
    cfgs = {'invalid': ('not toml [', False), 'badvalue': ('[parse]\non_parse_error = "never"\nkeep_temp_files = true\n', False), 'binary': (b'\xff\xff', False),
            'good': ('[parse]\non_parse_error = "skip"\nkeep_temp_files = true\n', True), 'good2': ('[parse]\non_parse_error = "abort"\nkeep_temp_files = false\n', True)}
    if pid in ('C12', 'C13', 'C15'):
        for k, (t, okay) in cfgs.items():
            add('html-config-' + k)(lambda b, t=t, okay=okay: html(b, 'a.md', DOC, extra=[('cfg/smd/config.toml', t)], fails=None if okay else 'config'))

        @add('html-config-dir')
        def _(b):
            return html(b, 'a.md', DOC, before=lambda b: os.makedirs(b.p('cfg/smd/config.toml')), fails='config')
    if pid == 'C13':
        dbg = {'good': ('Skip', 'true'), 'good2': ('Abort', 'false')}
        for k, (t, okay) in cfgs.items():
            @add('load-' + k)
            def _(b, k=k, t=t, okay=okay):
                b.put('cfg/smd/config.toml', t)
                s0 = snap(b.p('cfg'))
                c, o, _ = b.run([b.iot, 'load'])
                if snap(b.p('cfg')) != s0:
                    return 'loading changed the configuration folder'
                if not okay and c == 0:
                    return 'an invalid configuration file was ignored'
                if okay and (c != 0 or dbg[k][0].encode() not in o or dbg[k][1].encode() not in o):
                    return 'the values of the configuration file were not used: %s' % o.decode()

        @add('load-empty-sections')
        def _(b):
            b.put('cfg/smd/config.toml', '[parse]\non_parse_error = "abort"\nkeep_temp_files = true\n[other]\nx = 1\n')
            c, o, _ = b.run([b.iot, 'load'])
            if c == 0 and b'Abort' not in o:
                return 'the values of the configuration file were not used: %s' % o.decode()

    def init(b, existing=None, fsize=None, before=None, fails=None, cli=True):
        f = 'cfg/smd/config.toml'
        if existing is not None:
            b.put(f, existing)
        if before:
            before(b)
        b0 = {x: snap(b.p(x)) for x in ('work', 'cwd', 'home')}
        c0 = snap(b.p('cfg'))
        c, o, e = b.run([b.smd, 'initialize'] if cli else [b.iot, 'init'], fsize=fsize)
        if pid == 'C13':
            if {x: snap(b.p(x)) for x in ('work', 'cwd', 'home')} != b0:
                return 'initialising touched other files'
            for k, v in snap(b.p('cfg')).items():
                if k in c0 and c0[k] != v or (k not in c0 and k not in ('smd', 'smd/config.toml')):
                    return 'initialising changed %s' % k
            if existing is not None and c == 0:
                return 'initialising over an existing file reported success'
        if fails and c == 0:
            return 'exit status 0 although %s failed' % fails
        if pid == 'C15' and existing is not None and c == 0:
            return 'exit status 0 although nothing was initialised'
        if pid == 'C15' and not fails and existing is None and c != 0:
            return 'exit status %s although nothing failed' % c
        if c == 0:
            c2, o2, _ = b.run([b.iot, 'load'])
            c3, o3, _ = b.run([b.iot, 'default'])
            if not os.path.isfile(b.p(f)):
                return 'success, but no configuration file was written'
            if c2 != 0 or o2 != o3:
                return 'success, but the written configuration does not load back as the default'
    if pid in ('C13', 'C15'):
        for cli in (True, False):
            t = 'cli' if cli else 'api'
            add('init-fresh-' + t)(lambda b, cli=cli: init(b, cli=cli))
            add('init-existing-' + t)(lambda b, cli=cli: init(b, existing='[parse]\non_parse_error = "skip"\nkeep_temp_files = true\n', cli=cli))
            add('init-existing-empty-' + t)(lambda b, cli=cli: init(b, existing='', cli=cli))
            add('init-existing-binary-' + t)(lambda b, cli=cli: init(b, existing=b'# caf\xe9\n\xff', cli=cli))
            add('init-existing-comment-' + t)(lambda b, cli=cli: init(b, existing='# only a comment\n', cli=cli))
            add('init-existing-big-' + t)(lambda b, cli=cli: init(b, existing='# long\n' * 10000, cli=cli))
            add('init-existing-broken-' + t)(lambda b, cli=cli: init(b, existing='not toml [', cli=cli))
            add('init-folder-exists-' + t)(lambda b, cli=cli: init(b, before=lambda b: os.makedirs(b.p('cfg/smd')), cli=cli))
            add('init-no-folder-' + t)(lambda b, cli=cli: init(b, before=lambda b: os.rmdir(b.p('cfg')), cli=cli))
            for lim in (0, 10, 100):
                add('init-limit-%d-%s' % (lim, t))(lambda b, cli=cli, lim=lim: init(b, fsize=lim, fails='writing', cli=cli))
            add('init-dir-%s' % t)(lambda b, cli=cli: init(b, before=lambda b: os.makedirs(b.p('cfg/smd/config.toml')), fails='writing', cli=cli))

            def blocked(b):
                os.rmdir(b.p('cfg'))
                b.put('cfg', 'file')
            add('init-blocked-%s' % t)(lambda b, cli=cli: init(b, before=blocked, fails='writing', cli=cli) if pid == 'C15' else None)

    def pdf(b, mode, files=(), fsize=None, html=DOC, dirs=()):
        b.put('tmp/in.html', html)
        for k, v in files:
            b.put(k, v)
        for k in dirs:
            os.makedirs(b.p(k))
        b0 = {x: snap(b.p(x)) for x in ('work', 'cwd', 'home')}
        c, o, e = b.run([b.iot, 'pdf', b.p('tmp/in.html'), b.p('tmp/out')], chrome=mode, fsize=fsize)
        if c is None:
            return None
        for x in b0:
            a = snap(b.p(x))
            k = [y for y in set(a) | set(b0[x]) if a.get(y) != b0[x].get(y)]
            k = [y for y in k if not (x == 'home' and (y.startswith('.') or y.startswith('snap')))]
            if k:
                return 'files left behind, changed or removed by the conversion: %s (status %s)' % (k, c)
        if c == 0:
            with open(b.p('tmp/out'), 'rb') as f:
                got = f.read()
            if got != b'%PDF-fake ' + html.encode():
                return 'success does not carry what the browser printed for the document'
    ex = [('cwd/tmp.html', 'mine'), ('cwd/tmp-1.html', 'mine too'), ('cwd/index.html', 'i'), ('cwd/temp.html', 't')]
    if pid == 'C14':
        for mode in ('ok', 'navfail', 'printfail', 'tabfail', 'die', None):
            add('pdf-%s' % mode)(lambda b, mode=mode: pdf(b, mode))
            add('pdf-existing-%s' % mode)(lambda b, mode=mode: pdf(b, mode, files=ex))
        add('pdf-tmp-dir')(lambda b: pdf(b, 'ok', dirs=['cwd/tmp.html']))
        add('pdf-tmp-only')(lambda b: pdf(b, 'ok', files=ex[:1]))
        for lim in (0, 3, 40):
            add('pdf-limit-%d' % lim)(lambda b, lim=lim: pdf(b, 'ok', fsize=lim))
        add('pdf-empty')(lambda b: pdf(b, 'ok', html=''))
        add('pdf-big')(lambda b: pdf(b, 'ok', html=BIG))

    def pdfcli(b, mode, name='a.md', doc=DOC, before=None, fails=None, fsize=None):
        b.put('work/' + name, doc)
        if before:
            before(b)
        want = b'%PDF-fake ' + render(b, 'work/' + name)
        o = os.path.splitext(name)[0] + '.pdf'
        c, so, se = b.run([b.smd, 'parse', '-i', b.p('work', name)], chrome=mode, fsize=fsize)
        if c is None:
            return None
        got = snap(b.p('work')).get(o)
        if c == 0 and (fails or got != want):
            return 'exit status 0, but %s' % (fails + ' failed' if fails else 'the output file does not hold what the browser printed')
    if pid == 'C15':
        add('pdfcli-ok')(lambda b: pdfcli(b, 'ok'))
        add('pdfcli-existing')(lambda b: pdfcli(b, 'ok', before=lambda b: b.put('work/a.pdf', 'old ' * 5000)))
        add('pdfcli-Name')(lambda b: pdfcli(b, 'ok', name='My Notes.txt'))
        add('pdfcli-nobrowser')(lambda b: pdfcli(b, None, fails='converting'))
        for mode in ('navfail', 'printfail', 'tabfail', 'die'):
            add('pdfcli-' + mode)(lambda b, mode=mode: pdfcli(b, mode, fails='converting'))
        add('pdfcli-outdir')(lambda b: pdfcli(b, 'ok', before=lambda b: os.makedirs(b.p('work/a.pdf')), fails='writing'))
        add('pdfcli-full')(lambda b: pdfcli(b, 'ok', before=lambda b: os.symlink('/dev/full', b.p('work/a.pdf')), fails='writing'))
        for lim in (0, 20, 200):
            add('pdfcli-limit-%d' % lim)(lambda b, lim=lim: pdfcli(b, 'ok', fsize=lim, fails='writing'))

        @add('missing-input')
        def _(b):
            for fl in ([], ['-o', 'html']):
                c, _, _ = b.run([b.smd, 'parse', '-i', b.p('work/none.md'), *fl])
                if c == 0:
                    return 'exit status 0 although the input is missing'
                c, _, _ = b.run([b.smd, 'parse', '-i', b.p('work'), *fl])
                if c == 0:
                    return 'exit status 0 although the input is a folder'
    return out


def run(pid, say, replays, thorough=False, only=None):
    """-> (path of a replay file or None, number of scenarios)"""
    from concurrent.futures import ThreadPoolExecutor
    smd, iot = build(say)
    root = os.path.join(extract.BUILD, 'scratch', 'io-%s-%d' % (pid.lower(), os.getpid()))
    os.makedirs(root, exist_ok=True)
    todo = [s for s in scenarios(pid, thorough) if only is None or s[0] == only]

    def one(k):
        name, f = todo[k]
        b = Box(root, smd, iot, 's%d' % k)
        try:
            w = f(b)
            return (name, w, b.log)
        finally:
            b.close()
    try:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, range(len(todo))))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    bad = [r for r in rs if r[1]]
    if not bad:
        return None, len(rs)
    path = os.path.join(replays, pid + '.scenario')
    with open(path, 'w') as f:
        f.write('property %s: %d of %d scenarios fail on the running code\n' % (pid, len(bad), len(rs)))
        for n, w, log in bad:
            f.write('\nscenario %s: %s\n%s\n' % (n, w, '\n'.join(log)))
    for n, w, _ in bad[:5]:
        say('scenario %s: %s' % (n, w))
    return path, len(rs)
