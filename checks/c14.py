from analyser.harness import *
from checks.runs import *

RULE = ('the content of the settings file is extracted as a term of main() for argument lists covering every string of up to two characters over an alphabet of separators, quotes and option characters, and passed as file content to '
        'LoadFromFile; the argument list that reaches the parser, the file opened, the directory change and the recorded input name are then decided by constant propagation')
FNS = ['cli.main', 'cli.LoadFromFile.__call__', 'gm.filename']
ALPHA = ['a', '0', ' ', "'", '"', '#', '-', '\\', '=', ',', '$', ';', '\t', '[', '%', '~', '*', '&', '(', '|', '>', '`', '!', '.', 'é', '\u00a0']
LOAD = 'craterstats.cli.LoadFromFile'


def words(n):
    w = ['']
    out = ['']
    for _ in range(n):
        w = [x + a for x in w for a in ALPHA]
        out += w
    return out


def content(c, args):
    """content of the settings file of a run with these arguments"""
    o, ns, f = run(c, [], args=args)
    t = [x for x in files(o, 'settings file') if x[0] == 'text']
    if len(t) != 1:
        raise Violation('cli.main', f'{len(t)} settings files are written')
    s = t[0][2]
    return s


def load(c, text, value='in.cs', option='-i', dest='input', isdir=(), missing=()):
    """(argument lists parsed, attributes set, directory changes, files opened) when a settings file with this text is read"""
    I = c.I
    opened, moved = [], []

    def op(I, st, args, kw, node):
        a = args[0] if args else kw.get('file')
        opened.append(a)
        if a.op == 'str' and a.a[0] in missing:
            I.raise_(st, 'FileNotFoundError', tup(), node)
            st.pc = FALSE
            return NONE
        return I.new(st, 'obj', dict(name=a, text=text), 'spec.cli.File')

    def isd(I, st, args, kw, node):
        a = args[0]
        return (TRUE if a.a[0].rstrip('/') in isdir else FALSE) if a.op == 'str' else None

    def chdir(I, st, args, kw, node):
        moved.append((st.pc, args[0]))
        return NONE
    I.models.update({'open': op, 'os.path.isdir': isd, 'os.chdir': chdir})
    me = c.obj(LOAD, dest=dest)
    ns = c.obj('argparse.Namespace')
    p = c.obj('spec.cli.Recorder', lists=c.list())
    o = c.run(LOAD + '.__call__', me, p, ns, value, option)
    if o.val is None or any(a.pc is TRUE for a in o.aborts):
        return o, None, {}, moved, opened
    return o, c.get(o, c.I.get_attr(o.st, p, 'lists', None)), dict(c.get(o, ns).a[1]), moved, opened


def lists(l):
    if l is None or l.op != 'lit' or any(x.op not in ('lit', 'tuple') or any(y.op != 'str' for y in x.a) for x in l.a):
        raise Undecided('argument list read from the file not resolved' + (': ' + tm.show(l)[:200] if l is not None else ''))
    return [[y.a[0] for y in x.a] for x in l.a]


def obligations(tier):
    obs = []

    def roundtrip(name, args):
        def f():
            c = ctx()
            s = content(c, args)
            if s.op != 'str':
                raise Undecided('content of the settings file not resolved: ' + tm.show(s)[:200])
            got = []
            o, l, attrs, moved, opened = load(c, s)
            if l is None:
                raise Violation('cli.LoadFromFile', f'a settings file written for {args[:6]} cannot be read back ({o.aborts[0].exc})', dict(content=s.a[0][:400]))
            got = [x for l in lists(l) for x in l]
            if got != list(args):
                k = next((i for i, (x, y) in enumerate(zip(got, args)) if x != y), min(len(got), len(args)))
                raise Violation('cli.main', f'argument {args[k:k + 1]} of the command is not read back from its settings file (got {got[k:k + 1]})', dict(content=s.a[0][:600]))
            return dict(methods=['constant propagation'], functions=FNS, covered=len(args))
        obs.append(Ob(name, f))
    W = words(2)
    for i in range(0, len(W), 60):
        ws = W[i:i + 60]
        roundtrip(f'arguments {i}-{i + len(ws) - 1} after an option', ['-x'] + [a for w in ws for a in ('-x', w)])
        roundtrip(f'arguments {i}-{i + len(ws) - 1} in a row', ws)
    if tier == 'thorough':
        W = words(3)[len(W):]
        for i in range(0, len(W), 60):
            roundtrip(f'arguments of three characters {i}', W[i:i + 60])
    for w in W[:60]:
        roundtrip(f'single argument {w!r}', [w])
    roundtrip('typical command', ['-cs', 'neukum83', '-title', 'A', 'title: "with" # things', '-p', 'source=my dir/x.scc,range=[.1,inf],name=It\'s', '-xrange', '-3', '2', '-yrange', '-5', '-.5', '-isochrons', '1,3a', '-p', 'type=poisson',
                                  '-o', '', '--format', 'png', 'csv', '-p', 'colour=#a0b1c2'])
    roundtrip('long arguments', ['-title', 'word ' * 30, '-p', 'name=' + "a'b\"c#d " * 12])

    # ---- comments and blank lines
    def reads(name, text, want, **kw):
        def f():
            c = ctx()
            o, l, attrs, moved, opened = load(c, string(text), **kw)
            if l is None:
                raise Violation('cli.LoadFromFile', f'{name}: the file is refused')
            got = [x for l in lists(l) for x in l]
            if got != want:
                raise Violation('cli.LoadFromFile', f'{name}: {got} is read instead of {want}')
            return dict(methods=['constant propagation'], functions=FNS[1:])
        obs.append(Ob(name, f))
    for opt, dest in (('-i', 'input'), ('--input', 'input'), ('-inc', 'include'), ('--include', 'include')):
        reads(f'comment lines {opt}', '# heading\n-cs a\n  # indented\n\t#tab\n-p "source=x y.scc"\n#end', ['-cs', 'a', '-p', 'source=x y.scc'], option=opt, dest=dest)
        reads(f'blank lines {opt}', '\n\n-cs a\n   \n\t\n-title \'two  words\'\n\n', ['-cs', 'a', '-title', 'two  words'], option=opt, dest=dest)
        reads(f'one line {opt}', '-cs a -p source=x.scc,colour=#ffffff -mu 0', ['-cs', 'a', '-p', 'source=x.scc,colour=#ffffff', '-mu', '0'], option=opt, dest=dest)
        reads(f'empty {opt}', '', [], option=opt, dest=dest)
        reads(f'comments only {opt}', '# a\n\n# b "\n', [], option=opt, dest=dest)
        reads(f'quote in a comment {opt}', "# don't\n-cs a\n", ['-cs', 'a'], option=opt, dest=dest)

    # ---- which file is opened, and what is recorded
    def where(name, value, option, dest, isdir, cwd, opens, inputname):
        def f():
            c = ctx()
            o, l, attrs, moved, opened = load(c, string('-cs a'), value, option, dest, isdir)
            if l is None:
                raise Violation('cli.LoadFromFile', f'{name}: the file is refused')
            if len(moved) > 1 or any(pc is not TRUE for pc, _ in moved) or len(opened) != 1 or opened[0].op != 'str':
                raise Undecided('file not resolved')
            d = moved[0][1] if moved else string('')
            if d.op != 'str':
                raise Undecided('directory not resolved')
            import posixpath as P
            got = P.normpath(P.join('/home', d.a[0], opened[0].a[0]))
            want = P.normpath(P.join('/home', value))
            if got != want:
                raise Violation('cli.LoadFromFile', f'{name}: {got} is opened instead of {want}')
            if P.normpath(P.join('/home', d.a[0])) != P.normpath(P.join('/home', cwd)):
                raise Violation('cli.LoadFromFile', f'{name}: the run continues in {d.a[0]!r} instead of {cwd!r}')
            n = attrs.get('input_filename')
            if dest == 'input':
                if n is None or n.op != 'str' or P.normpath(P.join('/home', d.a[0], n.a[0])) != want:
                    raise Violation('cli.LoadFromFile', f'{name}: the input file is taken to be {tm.show(n) if n is not None else None}')
            elif n is not None:
                raise Violation('cli.LoadFromFile', f'{name}: an included file becomes the input file')
            if attrs.get(dest) is None or tm.truth(attrs[dest]) is not TRUE:
                raise Violation('cli.LoadFromFile', f'{name}: reading the file is not recorded')
            if dest != 'input' and 'input' in attrs:
                raise Violation('cli.LoadFromFile', f'{name}: an included file counts as input')
            return dict(methods=['constant propagation'], functions=FNS[1:])
        obs.append(Ob(name, f))
    for opt in ('-i', '--input'):
        where(f'{opt} in.cs', 'in.cs', opt, 'input', (), '', 'in.cs', 'in.cs')
        where(f'{opt} d/in.cs', 'd/in.cs', opt, 'input', ('d',), 'd', 'in.cs', 'in.cs')
        where(f'{opt} ../d e/in (1).cs', '../d e/in (1).cs', opt, 'input', ('../d e',), '../d e', '', '')
        where(f'{opt} /a/b/in.cs', '/a/b/in.cs', opt, 'input', ('/a/b',), '/a/b', '', '')
    for opt in ('-inc', '--include'):
        for v, dirs in (('in.txt', ()), ('d/in.txt', ('d',)), ('/a/b/in.txt', ('/a/b',))):
            where(f'{opt} {v}', v, opt, 'include', dirs, '', '', '')

    def missing(opt, dest):
        def f():
            c = ctx()
            o, l, attrs, moved, opened = load(c, string(''), 'no.cs', opt, dest, missing=('no.cs',))
            if o.pc is not FALSE and not (o.aborts and bor(*[a.pc for a in o.aborts]) is TRUE):
                raise Violation('cli.LoadFromFile', 'a missing file is not reported')
            if any(a.exc not in ('argparse.ArgumentError', 'ArgumentError', 'SystemExit') for a in o.aborts):
                raise Violation('cli.LoadFromFile', f'a missing file is reported as {o.aborts[0].exc}')
            return dict(methods=['constant propagation'], functions=FNS[1:])
        obs.append(Ob(f'missing file {opt}', f))
    missing('-i', 'input')
    missing('-inc', 'include')

    # ---- nested files: the outer file stays the input, whether the included one is read before or after
    def nested(name, outer_opt, inner_opt, inner_dest, want):
        def f():
            c = ctx()
            I = c.I
            ns = c.obj('argparse.Namespace')
            # the inner file is read while the outer one is being parsed: its effect on the namespace comes first
            I.models['open'] = lambda I, st, args, kw, node: I.new(st, 'obj', dict(name=args[0], text=string('')), 'spec.cli.File')
            I.models['os.path.isdir'] = lambda I, st, args, kw, node: FALSE
            p = c.obj('spec.cli.Recorder', lists=c.list())
            a, b = c.obj(LOAD, dest='input'), c.obj(LOAD, dest=inner_dest)
            o = c.run(LOAD + '.__call__', a, p, ns, 'outer.cs', outer_opt)
            o = c.run(LOAD + '.__call__', b, p, ns, 'inner.txt', inner_opt, _st=o.st)
            a = dict(c.get(o, ns).a[1])
            if a.get('input_filename') is not string(want):
                raise Violation('cli.LoadFromFile', f'{name}: the input file is taken to be {tm.show(a["input_filename"]) if "input_filename" in a else None}')
            return dict(methods=['constant propagation'], functions=FNS[1:])
        obs.append(Ob(name, f))
    nested('input then include', '-i', '-inc', 'include', 'outer.cs')
    nested('input then include, long options', '--input', '--include', 'include', 'outer.cs')

    # ---- the arguments recorded are those of the command (given, or of the process)
    def argv():
        c = ctx()
        f = functions(c)
        prepare(c, [], f)
        a = c.list(c.str('arg1'), c.str('arg2'))
        o1 = c.run('craterstats.cli.main', a)
        c2 = ctx()
        prepare(c2, [], functions(c2))
        o2 = c2.run('craterstats.cli.main')
        t1 = [x for x in files(o1, '') if x[0] == 'text']
        t2 = [x for x in files(o2, '') if x[0] == 'text']
        if len(t1) != 1 or len(t2) != 1:
            raise Undecided('settings file not recognised')
        names = {x.a[0] for x in tm.subterms(t1[0][2]) if x.op == 'sym'}
        if not {'arg1', 'arg2'} <= names:
            raise Violation('cli.main', 'the settings file does not hold the arguments of the command')
        if not any(x.op in ('ext', 'attr') and 'argv' in tm.show(x) for x in tm.subterms(t2[0][2])):
            raise Violation('cli.main', 'the settings file of a command from the shell does not hold its arguments')
        return dict(methods=['constant propagation'], functions=FNS[:1])
    obs.append(Ob('arguments recorded', argv))
    return obs
