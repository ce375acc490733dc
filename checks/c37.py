import os
import re
import shlex

from analyser.harness import *
from analyser import config
from checks import cli as C
from checks.spatial import bindargs

RULE = ('the functions lists, listings and demonstration runs are extracted by constant propagation (file contents, environment and directory given as data, every state of the installation enumerated) and compared with the definitions the '
        'user provided; every demonstration command is parsed with the declared options')
FNS = ['Functionslist.__init__', 'Functionslist.user_function_config', 'Functionslist.set_user_functions_config', 'Functionslist.print', 'cli.list_symbols_and_colours', 'cli.demo', 'cli.main']
FL = 'craterstats.miscellaneous.Functionslist'
BUILTIN = """#
chronology_system={
  name='First (2001)'
  cf='A'
}
chronology_system={
  name="Second; (2002)"
  cf='B'
}
equilibrium={
  name='Eq 1'
}
equilibrium={
  name='Eq 2'
}
epochs={
  name='Ep 1'
}
epochs={
  name='Ep 2'
}
"""
USER = """# my own
chronology_system={
  name='Mine (2020)' ; a remark
  cf='C'
}
epochs={
  name='Ep mine'
}
"""


def ctx(env=None, frozen=False, files=None, cwd='/work', where='/opt/py/bin/python'):
    """installation with these environment variables and files: every file the program opens is one of them"""
    c = Ctx(inline_parsers=True, steps=10 ** 8, budget=10 ** 8)
    I = c.I
    I.unroll, I.maxstack = 5000, 3000
    C.patch(c, 'craterstats.PATH', string('/LIB/'))
    files = dict(files or {})
    files.setdefault('/LIB/config/functions.txt', BUILTIN)
    c.files, c.written, c.env = files, [], dict(env or {})

    def full(p):
        return os.path.normpath(os.path.join(cwd, p))

    def op(I, st, args, kw, node):
        d = bindargs(('file', 'mode', 'buffering', 'encoding'), args, kw, 'open')
        n, m = I.freeze(st, d['file']), d.get('mode', string('r'))
        if n.op != 'str' or m.op != 'str':
            raise Undecided('file opened not recognised: ' + tm.show(n)[:80])
        p = full(n.a[0])
        if 'r' in m.a[0]:
            if p not in files:
                I.raise_(st, 'FileNotFoundError', tup(), node)
                st.pc = FALSE
                return NONE
            t = files[p]
            if d.get('encoding', string('utf-8')) is string('utf-8-sig'):
                t = t.removeprefix('\ufeff')
            return I.new(st, 'obj', dict(name=n, text=string(t)), 'spec.cli.File')
        if m.a[0] not in ('w', 'wt') or st.pc is not TRUE:
            raise Undecided('way of writing a file')
        r = I.new(st, 'obj', dict(name=n, parts=I.newlist(st, lit())), 'spec.cli.Written')
        c.written.append((p, r))
        return r

    def get(I, st, args, kw, node):
        k = I.freeze(st, args[0])
        if k.op != 'str':
            raise Undecided('environment variable')
        return string(c.env[k.a[0]]) if k.a[0] in c.env else args[1] if len(args) > 1 else kw.get('default', NONE)

    def path(f):
        def g(I, st, args, kw, node):
            v = I.freeze(st, args[0] if args else list(kw.values())[0])
            if v.op != 'str':
                raise Undecided('path not recognised')
            r = f(v.a[0])
            return string(r) if isinstance(r, str) else TRUE if r else FALSE
        return g
    isin = path(lambda p: full(p) in files)
    I.models.update({'open': op, 'os.environ.get': get, 'os.getenv': get, 'os.path.isfile': isin, 'os.path.exists': isin, 'os.path.abspath': path(full), 'os.path.realpath': path(full),
                     'os.path.isdir': path(lambda p: False), 'os.getcwd': lambda I, st, a, k, n: string(cwd)})

    def ga(I, st, args, kw, node):
        if len(args) >= 2 and args[0].op in ('ext', 'mod') and args[0].a[0] == 'sys' and args[1] is string('frozen'):
            return TRUE if frozen else args[2] if len(args) > 2 else NONE
        return old(I, st, args, kw, node) if old else None
    from analyser import lib
    old = lib.BUILTINS.get('getattr')
    I.models['getattr'] = ga
    lib.CONSTANTS['sys.executable'] = string(where)
    # printed text passes through unchanged
    q = 'craterstats.gm.string.bright.bright'
    c.fn(q)
    I.models[q] = lambda I, st, args, kw, node: args[0] if args else list(kw.values())[0]
    return c


def dead(o):
    return [a for a in o.aborts if a.pc is TRUE]


def functions(c, where):
    """({kind: [names]} as the program knows them, list object)"""
    try:
        fl = c.new(FL)
    except Undecided as e:
        raise Violation('Functionslist.__init__', f'{where}: cannot be built ({e})')
    from checks.c29 import data
    d = data(c.I.freeze(c.st, c.I.get_attr(c.st, fl, 'functions', None)))
    if not isinstance(d, dict):
        raise Violation('Functionslist.__init__', f'{where}: no definitions')
    return {k: [e.get('name') if isinstance(e, dict) else e for e in (v if isinstance(v, list) else [v])] for k, v in d.items()}, fl


def names(*texts):
    out = {}
    for t in texts:
        for m in re.finditer(r'''(?ms)^(\w+)=\{.*?^  name=(['"])(.*?)\2.*?^\}''', t):
            out.setdefault(m[1], []).append(m[3])
    return out


CONDA = '/conda/etc/config_functions_user.txt'
FROZEN = '/opt/py/bin/_internal/craterstats/config_functions_user.txt'


def printed(o, where):
    out = ''
    for e in o.effects:
        if e.name.rsplit('.', 1)[-1] != 'print':
            continue
        if e.loops or e.pc is not TRUE:
            raise Undecided(f'{where}: printed conditionally')
        sep = dict(e.kw).get('sep', string(' '))
        end = dict(e.kw).get('end', string('\n'))
        args = list(e.args)
        if any(a.op not in ('str', 'num') for a in args) or sep.op != 'str' or end.op != 'str':
            raise Undecided(f'{where}: printed text not reduced: ' + '; '.join(tm.show(a)[:60] for a in args))
        out += sep.a[0].join(str(a.a[0]) for a in args) + end.a[0]
    return out


def obligations(tier):
    obs = []

    # ------------------------------------------------------------ which definitions are known
    STATES = dict(plain=(dict(), False, {}, names(BUILTIN)),
                  conda=(dict(CONDA_PREFIX='/conda'), False, {}, names(BUILTIN)),
                  emptyenv=(dict(CONDA_PREFIX=''), False, {CONDA: '#path\n/u/my.txt', '/u/my.txt': USER}, names(BUILTIN)),
                  user=(dict(CONDA_PREFIX='/conda'), False, {CONDA: '#path\n/u/my.txt', '/u/my.txt': USER}, names(BUILTIN, USER)),
                  bare=(dict(CONDA_PREFIX='/conda'), False, {CONDA: '/u/my.txt', '/u/my.txt': USER.split('\n', 1)[1]}, names(BUILTIN, USER)),
                  bom=(dict(CONDA_PREFIX='/conda'), False, {CONDA: '#path\n/u/my.txt', '/u/my.txt': '\ufeff' + USER}, names(BUILTIN, USER)),
                  gone=(dict(CONDA_PREFIX='/conda'), False, {CONDA: '#path\n/u/my.txt'}, names(BUILTIN)),
                  frozen=(dict(), True, {FROZEN: '#path\n/u/my.txt', '/u/my.txt': USER}, names(BUILTIN, USER)),
                  frozenplain=(dict(), True, {}, names(BUILTIN)),
                  elsewhere=(dict(), False, {CONDA: '#path\n/u/my.txt', '/u/my.txt': USER}, names(BUILTIN)))

    def known(state):
        def f():
            env, frozen, files, want = STATES[state]
            c = ctx(env, frozen, files)
            got, fl = functions(c, state)
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    raise Violation('Functionslist.__init__', f'{state}: definitions of {k} known are {got.get(k)} instead of {want.get(k)}')
            return dict(methods=['constant propagation'], functions=FNS)
        return Ob(f'definitions known: {state}', f)
    for s in STATES:
        obs.append(known(s))

    # ------------------------------------------------------------ the user's file is remembered
    def remember(env, frozen, given, where):
        def f():
            c = ctx(env, frozen, {'/work/my file.txt': USER}, cwd='/work')
            ns = C.parse(c, {'--functions_user': given})
            C.patch(c, C.PARSER, C.giver(c, c.obj('spec.cli.Parser', ns=ns)))
            o = c.run('craterstats.cli.main', c.list(*[c.c(x) for x in given]))
            if dead(o):
                raise Violation('Functionslist.set_user_functions_config', f'--functions_user ends with {dead(o)[0].exc}')
            if [p for p, r in c.written] != [where]:
                raise Violation('Functionslist.set_user_functions_config', f'--functions_user writes {[p for p, r in c.written]} instead of {where}')
            r = c.written[0][1]
            parts = c.get(o, c.I.get_attr(o.st, r, 'parts', None))
            if parts.op != 'lit' or any(x.op != 'str' for x in parts.a):
                raise Undecided('text written not recognised')
            text = ''.join(x.a[0] for x in parts.a)
            c2 = ctx(env, frozen, {where: text, '/work/my file.txt': USER}, cwd='/home/other')
            got, fl = functions(c2, 'a later command in another directory')
            want = names(BUILTIN, USER)
            for k in sorted(set(got) | set(want)):
                if got.get(k) != want.get(k):
                    raise Violation('Functionslist.set_user_functions_config', f'{k} known to a later command after --functions_user {" ".join(given)}: {got.get(k)} instead of {want.get(k)}')
            return dict(methods=['constant propagation'], functions=FNS)
        return Ob(f'user functions remembered: {" ".join(given)}{" (installed version)" if frozen else ""}', f)
    for given in (['/work/my', 'file.txt'], ['my', 'file.txt'], ['./my', 'file.txt'], ['../work/my file.txt']):
        obs.append(remember(dict(CONDA_PREFIX='/conda'), False, given, CONDA))
    obs.append(remember({}, True, ['my', 'file.txt'], FROZEN))

    def refused():
        c = ctx({}, False, {})
        ns = C.parse(c, {'--functions_user': ['my.txt']})
        C.patch(c, C.PARSER, C.giver(c, c.obj('spec.cli.Parser', ns=ns)))
        o = c.run('craterstats.cli.main', c.list(string('x')))
        d = dead(o)
        if c.written:
            raise Violation('Functionslist.set_user_functions_config', 'without a place to remember it the functions file is written to ' + c.written[0][0])
        if not d or d[0].exc != 'SystemExit':
            raise Violation('Functionslist.set_user_functions_config', 'without a place to remember it the functions file is accepted: ' + (d[0].exc if d else 'no error'))
        return dict(methods=['constant propagation'], functions=FNS)
    obs.append(Ob('user functions refused without configuration', refused))

    # ------------------------------------------------------------ listings
    def listing(user):
        def f():
            c = ctx(dict(CONDA_PREFIX='/conda'), False, {CONDA: '#path\n/u/my.txt', '/u/my.txt': USER} if user else {})
            ns = C.parse(c, {'-lcs': []})
            C.patch(c, C.PARSER, C.giver(c, c.obj('spec.cli.Parser', ns=ns)))
            o = c.run('craterstats.cli.main', c.list(string('-lcs')))
            if dead(o):
                raise Violation('cli.main', f'-lcs ends with {dead(o)[0].exc}')
            if c.written:
                raise Violation('cli.main', f'-lcs writes {c.written[0][0]}')
            lines = [l.strip() for l in printed(o, 'listing').split('\n')]
            w = names(BUILTIN, USER) if user else names(BUILTIN)
            want = w['chronology_system'] + w['equilibrium'] + w['epochs']
            got = [l for l in lines if l in want]
            if sorted(got) != sorted(want):
                raise Violation('Functionslist.print', f'names listed: {got} instead of {want}')
            for k in ('chronology_system', 'equilibrium', 'epochs'):
                at = [lines.index(n) for n in w[k]]
                if at != list(range(at[0], at[0] + len(at))):
                    raise Violation('Functionslist.print', f'{k}: listed as {[l for l in lines if l in w[k]]} instead of {w[k]} together and in order')
            heads = [lines[lines.index(w[k][0]) - 1].lower() for k in ('chronology_system', 'equilibrium', 'epochs')]
            for h, word in zip(heads, ('chronology', 'equilibrium', 'epoch')):
                if word not in h:
                    raise Violation('Functionslist.print', f'the list of {word} names is headed {h!r}')
            return dict(methods=['constant propagation'], functions=FNS)
        return Ob(f'listing of functions{" with the user file" if user else ""}', f)
    obs += [listing(0), listing(1)]

    def symbols():
        c = ctx({}, False, {})
        ns = C.parse(c, {'-lpc': []})
        C.patch(c, C.PARSER, C.giver(c, c.obj('spec.cli.Parser', ns=ns)))
        o = c.run('craterstats.cli.main', c.list(string('-lpc')))
        if dead(o):
            raise Violation('cli.main', f'-lpc ends with {dead(o)[0].exc}')
        text = printed(o, 'listing')
        m = c.I.freeze(c.st, c.I.globalname('craterstats.MARKERS'))
        p = c.I.freeze(c.st, c.I.globalname('craterstats.PALETTE'))
        if m.op not in ('tuple', 'lit') or p.op not in ('tuple', 'lit'):
            raise Undecided('tables not recognised')
        lines = text.split('\n')
        sym = [(x.a[0].a[0], x.a[1].a[0]) for x in m.a]
        # the list of symbols: each name beside its own code, in order; then the colours in the order of their numbers
        entries = [re.split(r', (?=[^)]*\()', l) for l in lines if '(' in l and any(n in l for c_, n in sym)]
        flat = [e.strip() for l in entries for e in l]
        got = []
        for e in flat:
            k = [(a, b) for a, b in sym if re.search(r'(?<![\w*^.+-])' + re.escape(a) + r'(?![\w*^.+-])', e.replace(b, '', 1)) and e.startswith(b)]
            k = [x for x in k if len(x[1]) == max(len(y[1]) for y in k)]
            if len(k) != 1:
                raise Violation('cli.list_symbols_and_colours', f'entry {e!r} does not give one symbol with its own name')
            got.append(k[0])
        if got != sym:
            raise Violation('cli.list_symbols_and_colours', f'symbols listed: {got} instead of {sym}')
        cols = [x.a[2].a[0] for x in p.a]
        rest = [l for l in lines if l not in [', '.join(x) for x in entries]]
        found = [w for l in rest for w in re.split(r'[,\s]+', l) if w in cols]
        if found != cols:
            raise Violation('cli.list_symbols_and_colours', f'colours listed: {found} instead of {cols}')
        return dict(methods=['constant propagation'], functions=FNS)
    obs.append(Ob('listing of symbols and colours', symbols))

    # ------------------------------------------------------------ demonstrations
    DEMOS = ['-title A title|second -cs x', '', '# a comment', '-title "Quoted, title" -p source="%sample%/a b.scc"', "-t 'x'"]

    def demo(chosen):
        def f():
            c = ctx({}, False, {'/LIB/config/demo_commands.txt': '\n'.join(DEMOS) + '\n'})
            ran = c.list()
            c.fn('craterstats.cli.main')
            runs = []

            def main(I, st, args, kw, node):
                a = I.freeze(st, args[0] if args else list(kw.values())[0])
                if a.op not in ('lit', 'tuple') or any(x.op != 'str' for x in a.a) or st.pc is not TRUE:
                    raise Undecided('command of a demonstration not recognised')
                runs.append([x.a[0] for x in a.a])
                return NONE
            c.I.models['craterstats.cli.main'] = main
            o = c.run('craterstats.cli.demo', *([] if chosen is None else [c.list(*chosen)]))
            if dead(o):
                raise Violation('cli.demo', f'ends with {dead(o)[0].exc}')
            cmds = [x for x in DEMOS if x and not x.startswith('#')]
            which = range(len(cmds)) if chosen is None else chosen
            if len(runs) != len(list(which)):
                raise Violation('cli.demo', f'{len(runs)} commands are run instead of {len(list(which))}')
            outs = []
            for i, r in zip(which, runs):
                if '-o' not in r:
                    raise Violation('cli.demo', f'demonstration {i} is given no output name')
                k = r.index('-o')
                outs.append(r[k + 1])
                if r[:k] + r[k + 2:] != shlex.split(cmds[i]):
                    raise Violation('cli.demo', f'demonstration {i} runs {r} for the command {cmds[i]!r}')
                if not r[k + 1].startswith('demo/') or f'{i:02d}' not in r[k + 1]:
                    raise Violation('cli.demo', f'demonstration {i} writes to {r[k + 1]}')
            if len(set(outs)) != len(outs):
                raise Violation('cli.demo', f'demonstrations share an output name: {outs}')
            mk_ = [e for e in o.effects if e.name in ('os.makedirs', 'os.mkdir')]
            if not mk_ or mk_[0].args and mk_[0].args[0].op == 'str' and mk_[0].args[0].a[0].rstrip('/') != 'demo':
                raise Violation('cli.demo', 'the directory of the output is not made')
            return dict(methods=['constant propagation'], functions=FNS)
        return Ob(f'demonstrations run: {"all" if chosen is None else chosen}', f)
    obs += [demo(None), demo([1]), demo([2, 0])]

    root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'craterstats')
    path = config.path('demo_commands.txt')
    cmds = [l for l in open(path, encoding='utf-8').read().splitlines() if l and not l.lstrip().startswith('#')] if os.path.exists(path) else []

    def accepted(i, cmd):
        def f():
            c = ctx()
            toks = shlex.split(cmd)
            opts = C.options(c)
            flags = {n for p in opts for n in p.names}
            given = []
            for t in toks:
                if t in flags:
                    given.append((t, []))
                elif t.startswith('-') and not re.match(r'-\.?\d', t):
                    raise Violation('config/demo_commands.txt', f'command {i}: option {t} does not exist')
                elif not given:
                    raise Violation('config/demo_commands.txt', f'command {i}: begins with {t!r}')
                else:
                    given[-1][1].append(t)
            C.parse(c, given, opts)
            for m in re.finditer(r'%sample%/([^,]*?)(?=,|$)', '\0'.join(toks).replace('\0', ',')):
                if os.path.isdir(os.path.join(root, 'sample')) and not os.path.exists(os.path.join(root, 'sample', m[1])):
                    raise Violation('config/demo_commands.txt', f'command {i}: there is no sample {m[1]}')
            return dict(methods=['constant propagation'], functions=['cli.get_parser', f'demo command {i}'])
        return Ob(f'demonstration {i} accepted', f)
    for i, cmd in enumerate(cmds):
        obs.append(accepted(i, cmd))
    return obs
