from checks.spatial import *

RULE = ('the value-flow term of the lines merge_cratercounts() writes, for two to four inputs with symbolic crater lists, areas and perimeters (present or not), is compared with the reference merged file; '
        'the file name, the inputs read and the refusals are compared with the documented behaviour for every combination of input names and output option')
FNS = ['merge_cratercounts', 'quoted_split', 'gm.filename']
MERGE = 'craterstats.miscellaneous.merge_cratercounts'


PRE = {'D': 'p_D', 'F': 'z_F'}


def exc(a):
    return str(a.exc).rsplit('.', 1)[-1].split('(')[0]


def obligations(tier):
    obs = []

    def mctx(kinds):
        c = Ctx(opaque=[WTF])
        c.fn(WTF), c.fn(CC)
        read = []

        def count(I, st, args, kw, node):
            a = bindargs(('filename', 'filename2'), args, kw, 'Cratercount')
            f = I.freeze(st, a['filename'])
            if f.op != 'str':
                raise Undecided('input of the merge not recognised')
            i = len(read)
            read.append(f.a[0])
            k = kinds[f.a[0]] if f.a[0] in kinds else ''
            per = NONE if 'n' in k else c.num(f'p_P{i}')
            if 'b' in k:
                return I.new(st, 'obj', dict(filename=f, diam=NONE, area=c.num(f'p_A{i}'), perimeter=NONE, prebinned=TRUE, buffered=FALSE, name=f, binned=I.newdict(st, mk('dict'))), CC)
            return I.new(st, 'obj', dict(filename=f, diam=lit(*[c.num(f'p_D{i}_{j}') for j in range(3)]) if 't' in k else c.arr(f'p_D{i}'),
                                         fraction=lit(*[c.num(f'z_F{i}_{j}') for j in range(3)]) if 't' in k else c.arr(f'z_F{i}'), area=c.num(f'p_A{i}'), perimeter=per,
                                         prebinned=num(0), buffered=FALSE, name=f), CC)
        c.I.models[CC] = count
        return c, read

    def merge(files, out=None, kinds={}, arg=None, weight=None):
        nm = f'{len(files)} files {" ".join(files)} {kinds or ""} output {out}' + (f' equal_weight={weight}' if weight is not None else '')

        def f():
            c, read = mctx(kinds)
            args = c.inst('args', 'spec.merge.Args') if False else c.any('args')
            tm_args = {'merge': string(arg or ' '.join(files)), 'out': string(out) if out else NONE}
            ns = c.I.new(c.st, 'obj', dict(tm_args), 'argparse.Namespace')
            o = c.run(MERGE, ns, **({} if weight is None else dict(equal_weight=weight)))
            w = 'merge_cratercounts: ' + nm
            fl = [e for e in o.effects if e.name.rsplit('.', 1)[-1] == 'write_textfile']
            if len(files) < 2 or any('b' in kinds.get(x, '') for x in files):
                if fl and any(e.pc is TRUE for e in fl):
                    raise Violation(w, 'written although it should be refused')
                if o.pc is TRUE and not any(a.pc is TRUE for a in o.aborts):
                    raise Violation(w, 'not refused')
                for a in o.aborts:
                    if a.pc is TRUE and exc(a) != 'SystemExit':
                        raise Violation(w, f'ends with {a.exc} instead of a refusal')
                if o.pc is not FALSE or any(exc(a) != 'SystemExit' for a in o.aborts):
                    raise Undecided(w + f': refusal not recognised {[a.exc for a in o.aborts]}')
                return dict(methods=['value numbering'], functions=FNS)
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(w, f'ends with {a.exc}')
            if len(fl) != 1 or fl[0].pc is not TRUE:
                raise Undecided(w + ': writing not recognised')
            a = bindargs(('filename', 's', 'BOM', 'append'), fl[0].args, dict(fl[0].kw), 'write_textfile')
            import os
            stem = lambda x: os.path.splitext(os.path.basename(x))[0]
            want = out[:-5] if out and out.endswith('.diam') else (out or '_'.join(sorted(stem(x) for x in files)))
            if read != list(files):
                raise Violation(w, f'reads {read} instead of {list(files)}')
            cell = lambda n, i: lit(*[c.num(f'{PRE[n]}{i}_{j}') for j in range(3)]) if 't' in kinds.get(files[i], '') else c.arr(f'{PRE[n]}{i}')
            N = range(len(files))
            fr = [cell('F', i) for i in N]
            ar = [c.num(f'p_A{i}') for i in N]
            if weight:
                fr = [c.run('spec.merge.weighted', x, y).val for x, y in zip(fr, ar)]
                ar = [num(1) for _ in N]
            y = c.run('spec.merge.text', tup(*[string(os.path.basename(x)) for x in files]), tup(*[cell('D', i) for i in N]), tup(*fr), tup(*ar),
                      tup(*[NONE if 'n' in kinds.get(files[i], '') else c.num(f'p_P{i}') for i in N]))
            prs = [('file name', a['filename'], string(want + '.diam')), ('text', a['s'], y.val)]
            if 'append' in a:
                prs.append(('append', tm.truth(a['append']), FALSE))
            lens = {f'{PRE[n]}{i}': 2 + i for n in 'DF' for i in N}
            return dict(methods=[equal(w, prs, lens=lens)], functions=FNS)
        obs.append(Ob(nm, f))
    A, B, C, D = 'd/b.diam', 'a.scc', 'e/c.shp', '../d.diam'
    merge((A, B))
    merge((A, B), out='m')
    merge((A, B), out='m.diam')
    merge((A, B), out='dir/m.1.diam')
    merge((B, A, C))
    merge((A, A))
    merge((C, D, A, B))
    for k in ({A: 'n'}, {B: 'n'}, {A: 'n', B: 'n'}, {A: 't'}, {B: 't', A: 'tn'}):
        merge((A, B), kinds=k)
    merge((A, B, C), kinds={C: 'n'})
    merge((A, B, C), kinds={B: 'n'})
    merge((A, B), kinds={B: 'b', A: 't'})
    merge((A, B, C), kinds={A: 'b', B: 't', C: 't'})
    merge((A, B, C), kinds={C: 'b', A: 't', B: 't'}, out='m')
    merge((A,))
    merge((A,), out='m')
    merge(('x y.diam', 'z.diam'), arg='"x y.diam" z.diam')
    merge(('x y.diam', 'z w.diam'), arg="'x y.diam' 'z w.diam'")
    return obs
