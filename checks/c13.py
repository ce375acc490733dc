from analyser.harness import *
from checks.runs import *
import specs.output as spec

RULE = ('the sequence of drawing and file-writing calls of a whole run of main() is extracted as an effect sequence for every presentation, set of formats (in several orders), output name, output directory and input file; '
        'the set of files written, and the plot last drawn when each image is saved, are compared with the documented outputs')
FNS = ['cli.main', 'cli.write_output_files', 'cli.set_default_filename', 'cli.construct_cps_dict', 'cli.randomness_analysis', 'gm.filename']


def show(t):
    return t if t is None or isinstance(t, str) else t.a[0] if t.op == 'str' else tm.show(t)[:120]


def written(c, o, where):
    got = {}
    for kind, name, what, e in files(o, where):
        if e.pc is not TRUE:
            names = extnames(e.pc)
            if names and names <= {'exists', 'isfile', 'lexists', 'getsize', 'access', 'open'}:
                raise Violation('cli.main', f'{where}: {show(name)} is written only when {tm.show(e.pc)[:120]}')
            raise Undecided(f'{where}: a file is written on an undecided condition')
        if name is None or name.op != 'str':
            raise Undecided(f'{where}: file name not resolved: {show(name)}')
        if kind == 'image':
            w = ('image', what[0]) + ((show(what[1]),) if len(what) > 1 else ())
        else:
            w = (kind,)
        n = os.path.normpath(name.a[0])
        if n in got and got[n] != w:
            raise Violation('cli.write_output_files', f'{where}: {n} is written twice with different content')
        got[n] = w
    for a in o.aborts:
        if a.pc is TRUE or not got:
            raise Violation('cli.main', f'{where}: the run ends with {a.exc}')
    return got


def compare(got, want, where):
    want = {os.path.normpath(k): v for k, v in want.items()}
    for n in want:
        if n not in got:
            raise Violation('cli.write_output_files', f'{where}: {n} is not written (written: {sorted(got)})')
        if got[n] != want[n]:
            raise Violation('cli.write_output_files', f'{where}: {n} holds {got[n]} instead of {want[n]}')
    for n in got:
        if n not in want:
            raise Violation('cli.write_output_files', f'{where}: {n} is written but was not requested (wanted: {sorted(want)})')
    return dict(methods=['value numbering'], functions=FNS, covered=len(want))


ORDERS = ([], ['png'], ['csv'], ['tif'], ['pdf'], ['svg'], ['csv', 'png'], ['png', 'csv'], ['svg', 'csv', 'pdf'], ['png', 'tif', 'pdf', 'svg', 'csv'], ['csv', 'svg', 'pdf', 'tif', 'png'], ['png', 'png'])
PRES = ('cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty')


def obligations(tier):
    obs = []

    def plot(name, given=(), pres=None, formats=None, out=None, sources=(), inp=None, isdir=(), st=False, ns=None, **kw):
        def f():
            c = ctx(isdir)
            g = list(given) + ([('-pr', [pres])] if pres else []) + ([('-f', formats)] if formats else []) + ([('-o', out.split(' '))] if out else []) + ([('-st', [])] if st else [])
            g += [('-p', ['source=' + s]) for s in sources]
            n = dict(ns or {})
            if inp:
                n.update(input=True, input_filename=inp)
            o, ns_, fns = run(c, g, ns=n)
            p = pres or 'differential'
            fm = list(formats or ['png', 'csv'])
            if out and os.path.splitext(out)[1] and out not in isdir:
                fm.append(os.path.splitext(out)[1][1:])
            srcs = [(os.path.dirname(inp) + '/' if inp and os.path.dirname(inp) else '') + s for s in sources]
            b = spec.base(p, out, srcs, inp, isdir=isdir, **kw)
            return compare(written(c, o, name), spec.files(fm, b, p, st, inp), name)
        obs.append(Ob(name, f))

    for fm in ORDERS:
        plot(f'formats {" ".join(fm) or "default"}', formats=fm, sources=('d/x.scc',))
        plot(f'formats {" ".join(fm) or "default"} of uncertainty', formats=fm, pres='uncertainty')
    for p in PRES:
        src = () if p in ('uncertainty', 'chronology', 'rate') else ('a/x.scc', 'b/y.stat')
        for out in (None, 'res', 'd/res', 'dir', 'dir/', 'my file'):
            plot(f'{p} output {out}', pres=p, out=out, isdir=('dir',), sources=src)
        for inp in ('in.cs', '/abs/dir/in.cs'):
            for out in (None, 'res', 'dir'):
                plot(f'{p} input {inp} output {out}', pres=p, out=out, isdir=('dir',), inp=inp, sources=src)
        plot(f'{p} formats by extension', pres=p, out='d/res.svg', sources=src)
        plot(f'{p} csv by extension', pres=p, out='res.csv', sources=src)
        plot(f'{p} sequence table', pres=p, st=True, out='res', sources=src)
        plot(f'{p} without overplots', pres=p)
    plot('several sources', sources=('z/b.scc', 'a.diam', 'y/b.scc', 'b.stat'))
    plot('map sources', sources=('m/x_CRATER.shp', 'CRATER_y.shp'))
    plot('other characters', sources=('d (1)/x+y (2).scc', "it's&.stat"))
    plot('input with other characters', inp='/abs/d (1)/set(2).cs', sources=('x.scc',))
    plot('output with other characters', out='d/r(1)', sources=('x.scc',))
    plot('dotted names', sources=('x.1.scc', 'y.long_extension.scc'))
    plot('other system', given=[('-cs', ['HD16'])], pres='chronology', system='Mars, Hartmann & Daubar (2016)')
    plot('other system uncertainty', given=[('-cs', ['Ivanov']), ('-d_min', ['0.5'])], pres='uncertainty', system='Mars, Ivanov (2001)', d_min='0.5')
    plot('other system with input', given=[('-cs', ['HD16'])], pres='rate', inp='in.cs')

    # ---- randomness analysis: one image per measure and format, all under one name, from one analysis
    def randomness(formats, measures, select, trials):
        nm = f'randomness {" ".join(formats)} {measures} {select} {trials}'

        def f():
            c = ctx()
            g = [('-ra', ['my', 'x.scc']), ('-o', ['q/r'])] + ([('-f', formats)] if formats else []) + ([('-measure', [measures])] if measures else []) + ([('-select', [select])] if select else []) + ([('-trials', [str(trials)])] if trials else [])
            o, ns, fns = run(c, g)
            new = [e for e in o.effects if e.name == 'new ' + R]
            fm = [x for x in set(formats or ['png', 'csv']) if x in spec.IMAGES]
            if len(new) != (1 if fm else 0):
                raise Violation('cli.write_output_files', f'{nm}: the analysis is made {len(new)} times')
            ms = sorted((measures or 'm2cnd,sdaa').split(','))
            prs = []
            got = {}
            base = string('q/r')
            if fm:
                e = new[0]
                prs += [('source', kwarg(e, 'filename'), string('my x.scc')), ('output name of the analysis', kwarg(e, 'out'), string('q/r'))]
                mc = calls(o, 'run_montecarlo')
                if len(mc) != len(ms) or any(x.pc is not TRUE for x in mc):
                    raise Violation('cli.randomness_analysis', f'{nm}: {len(mc)} runs for {len(ms)} measures')
                by = {show(kwarg(x, 'measure')): x for x in mc}
                for m in ms:
                    if m not in by:
                        raise Violation('cli.randomness_analysis', f'{nm}: measure {m} is not run')
                    prs.append((f'trials of {m}', kwarg(by[m], 'trials'), num(trials or 1000)))
                seq = [e.name.rsplit('.', 1)[-1] for e in o.effects if e.name in (R + '.run_montecarlo', R + '.calculate_stats', R + '.write')]
                if seq[-2:] != ['calculate_stats', 'write']:
                    raise Violation('cli.randomness_analysis', f'{nm}: results are not written after the last measure')
                base = c.run('spec.cli.stem', mk('attr', kwarg(mc[0], 'self') if mc[0].recv is None or mc[0].recv is NONE else mc[0].recv, 'ra_file')).val
            exp = {}
            sel = None if not select else [int(x) for x in select.split(',')]
            for x in fm:
                for m in ms:
                    exp[('image', m, x)] = (('n sigma', m, None) if select == '0' else ('trials', m, sel), c.run('spec.cli.join', base, c.c(f'-{m}' + ('-n_sigma' if select == '0' else '') + '.' + x)).val)
            fl = files(o, nm)
            images = [x for x in fl if x[0] == 'image']
            if len(images) != len(exp):
                raise Violation('cli.write_output_files', f'{nm}: {len(images)} images are written, not {len(exp)}')
            left = dict(exp)
            for kind, name, what, e in images:
                key = None
                for k, (w, n) in left.items():
                    if w[0] == what[0] and show(what[1]) == w[1] and (name is n or tm.show(name) == tm.show(n)):
                        key = k
                if key is None:
                    for k, (w, n) in left.items():
                        if w[0] == what[0] and show(what[1]) == w[1]:
                            try:
                                equal(nm, [('name', name, n)])
                                key = k
                            except Violation:
                                pass
                if key is None:
                    raise Violation('cli.write_output_files', f'{nm}: {show(name)} holds {what[0]} {show(what[1]) if len(what) > 1 else ""}')
                w, n = left.pop(key)
                prs.append(('name', name, n))
                if w[0] == 'trials':
                    prs.append(('selected bins', what[2] if what[2] is not None else NONE, NONE if sel is None else lit(*map(num, sel))))
            rest = [x for x in fl if x[0] != 'image']
            want = (['table'] if 'csv' in (formats or ['csv']) else []) + ['text']
            if sorted(x[0] for x in rest) != sorted(want):
                raise Violation('cli.write_output_files', f'{nm}: writes {[x[0] for x in rest]}')
            for kind, name, what, e in rest:
                prs.append((kind, name, c.run('spec.cli.join', base, c.c('.csv' if kind == 'table' else '.cs')).val))
            return dict(methods=[equal('cli.write_output_files: ' + nm, prs)], functions=FNS)
        obs.append(Ob(nm, f))
    for fm in ([], ['png'], ['png', 'pdf'], ['csv', 'svg', 'tif'], ['svg', 'tif', 'csv'], ['csv']):
        for m in (None, 'm2cnd', 'sdaa', 'sdaa,m2cnd'):
            randomness(fm, m, None, None)
    randomness(['png', 'svg'], None, '0', None)
    randomness(['png', 'svg'], 'sdaa', '3', 20)
    randomness(['pdf'], 'm2cnd', '2,4', 7)

    # ---- framing and transparency of images
    def framing(given, transparent, tight, pres=None):
        nm = f'framing {given} {pres or ""}'

        def f():
            c = ctx()
            o, ns, fns = run(c, list(given) + ([('-pr', [pres])] if pres else []))
            prs = []
            for kind, name, what, e in files(o, nm):
                if kind == 'image':
                    kw = dict(e.kw)
                    prs.append(('transparent', tm.truth(kw.get('transparent', FALSE)), TRUE if transparent else FALSE))
                    prs.append(('tight', kw.get('bbox_inches', NONE), string('tight') if tight else NONE))
            if not prs:
                raise Undecided('no image')
            return dict(methods=[equal('cli.write_output_files: ' + nm, prs)], functions=FNS)
        obs.append(Ob(nm, f))
    for p in (None, 'uncertainty'):
        framing([], 0, 0, p)
        framing([('-transparent', [])], 1, 0, p)
        framing([('-tight', [])], 0, 1, p)
        framing([('-tight', ['0']), ('-transparent', ['1'])], 1, 0, p)

    # ---- every image of a plot shows the data age-area computation of this run; computed once drawn
    def uncertainty():
        c = ctx()
        o, ns, fns = run(c, [('-pr', ['uncertainty']), ('-f', ['png', 'svg'])])
        seq = [e.name for e in o.effects if e.name in (P + 'calculate_time_axis_params', P + 'compute_age_area')]
        if seq[:2] != [P + 'calculate_time_axis_params', P + 'compute_age_area']:
            raise Violation('cli.write_output_files', 'the time axis is not set before ages and areas are computed')
        for kind, name, what, e in files(o, 'uncertainty'):
            if kind == 'image' and what[0] == 'age-area' and not (what[2] is not None and what[2].op == 'call' and what[2].a[0] == P + 'compute_age_area'):
                raise Violation('cli.write_output_files', 'an uncertainty image does not show the computed values')
        return dict(methods=['value numbering'], functions=FNS)
    obs.append(Ob('uncertainty computation', uncertainty))

    # ---- information commands write nothing
    def nothing(given):
        nm = f'{given[0][0]} writes no output'

        def f():
            c = ctx()
            o, ns, fns = run(c, given)
            w = [x for x in files(o, nm)]
            if w:
                raise Violation('cli.main', f'{nm}: {show(w[0][1])} is written')
            return dict(methods=['value numbering'], functions=FNS[:1])
        obs.append(Ob(nm, f))
    for g in ('-lpc', '-about', '-v', '--version'):
        nothing([(g, [])])
    return obs
