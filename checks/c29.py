import re

from analyser.harness import *
from analyser import config
from checks.spatial import bindargs

RULE = ('the data structure read from a text file is extracted as a term of read_textstructure() by constant propagation (readers, regular expressions and recursion evaluated on known text) for the complete functions file and for documents '
        'generated from every combination of value form, spelling, decoration and nesting; it is compared with the structure each document was written from, and with an independent reading of the functions file')
FNS = ['gm.read_textstructure', 'gm.read_textfile', 'gm.quoted_split', 'gm.strip_quotes', 'read_textstructure.evaluate', 'read_textstructure.merge', 'read_textstructure.simple_value']
READ = 'craterstats.gm.file.read_textstructure.read_textstructure'


def ctx(texts):
    """context in which the named files have the given text"""
    c = Ctx(inline_parsers=True, steps=10 ** 8, budget=10 ** 8)
    c.I.unroll = 5000
    c.I.maxstack = 3000

    def op(I, st, args, kw, node):
        d = bindargs(('file', 'mode', 'buffering', 'encoding'), args, kw, 'open')
        n = I.freeze(st, d['file'])
        if n.op != 'str' or n.a[0] not in texts:
            raise Undecided('file opened not recognised: ' + tm.show(n)[:80])
        m = d.get('mode', string('r'))
        if m.op != 'str' or m.a[0] not in ('r', 'rt'):
            raise Undecided('mode of open')
        t = texts[n.a[0]]
        if d.get('encoding', string('utf-8')) is string('utf-8-sig') and t.startswith('\ufeff'):
            t = t[1:]
        return I.new(st, 'obj', dict(name=n, text=string(t)), 'spec.cli.File')
    c.I.models['open'] = op
    return c


def data(t):
    """a frozen constant as python data"""
    if t.op == 'str':
        return t.a[0]
    if t.op == 'num':
        return t.a[0]
    if t is NONE:
        return None
    if t.op in ('lit', 'tuple'):
        return [data(x) for x in t.a]
    if t.op == 'dict':
        return {data(k): data(v) for k, v in t.a}
    raise Undecided('structure not reduced to data: ' + tm.show(t)[:150])


def fetch(text, direct=False):
    c = ctx({'/f.txt': text})
    o = c.run(READ, text, True) if direct else c.run(READ, '/f.txt')
    if o.val is None or any(a.pc is TRUE for a in o.aborts):
        raise Violation('gm.read_textstructure', f'{text!r} cannot be read: {[a.exc for a in o.aborts]}')
    if o.aborts:
        raise Undecided('reading may fail')
    return data(c.get(o, o.val))


def differ(a, b, path=''):
    """first difference of two structures"""
    if type(a) is not type(b):
        return f'{path or "structure"}: {b!r} expected, {a!r} read'[:300]
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f'{path}.{k} is not read'
            d = differ(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        for k in a:
            if k not in b:
                return f'{path}.{k} is read but was not written'
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: {len(b)} values expected, {len(a)} read'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {b!r} expected, {a!r} read'


# ------------------------------------------------------------------ documents
class Style:
    indent = '  '
    eq = '='
    quote = '"'
    comment = ''        # after values
    before = ''         # line before every definition
    vsep = ','
    vopen = '['
    bom = ''
    last = '\n'

    def __init__(self, **kw):
        self.__dict__.update(kw)


def q(s, st):
    if st.quote == '' and s and (all(ch.isalnum() or ch in '.+-_' for ch in s) or s in BARE):
        return s
    u = st.quote or "'"
    if u in s:
        u = '"' if u == "'" else "'"
    return u + s + u


def cell(s, st):
    return s if s and all(ch.isalnum() or ch in '.+-_' for ch in s) else q(s, st)


def render(items, st, depth=0):
    pad = st.indent * depth
    out = []
    for k, v in items:
        if st.before is not None and st.before != '':
            out.append(st.before)
        if isinstance(v, str):
            out.append(f'{pad}{k}{st.eq}{q(v, st)}{st.comment}')
        elif v[0] == 'vec':
            close = {'[': ']', '*[': ']', '(': ')'}[st.vopen]
            out.append(f'{pad}{k}{st.eq}{st.vopen}{st.vsep.join(cell(e, st) for e in v[1])}{close}{st.comment}')
        elif v[0] == 'struct':
            out.append(f'{pad}{k}{st.eq}{{')
            out += render(v[1], st, depth + 1)
            out.append(pad + '}')
        else:
            out.append(f'{pad}{k}{st.eq}{{{", ".join(v[1])}')
            for r in v[2]:
                out.append('\t'.join(cell(e, st) for e in r))
            out.append(pad + '}')
    return out if depth else st.bom + '\n'.join(out) + st.last


def value(v):
    if isinstance(v, str):
        return v
    if v[0] == 'vec':
        return list(v[1])
    if v[0] == 'struct':
        return structure(v[1])
    return {t: [r[i] if i < len(r) else '' for r in v[2]] for i, t in enumerate(v[1])}


def structure(items):
    d = {}
    n = {}
    for k, v in items:
        if k.endswith('^'):
            k = 'ptr_' + k[:-1]
        n[k] = n.get(k, 0) + 1
        if n[k] == 1:
            d[k] = value(v)
        elif n[k] == 2:
            d[k] = [d[k], value(v)]
        else:
            d[k].append(value(v))
    return d


# text that only needs care when it is not quoted
BARE = ["O'Brien", 'a b', 'x "y', '50%', 'Mars, Ivanov (2001)', 'k = v']
TEXTS = ['1', '-2.5e-3', 'abc', 'a b', 'Mars, Ivanov (2001)', 'x; y', 'k = v', "O'Brien", 'a "b" c', '', '#1', 'http://a.b/c?d=e', '50%', 'α', '[1,2]', '*', '"x"', "'y'"]
VECS = [['1'], ['1', '2'], ['1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11', '12'], ['-1.5', '2e3', '.3'], ['a b', 'c d'], ['Late', "it's"]]
TABLES = [(['D'], [['1'], ['2']]), (['diam', 'fraction', 'lon'], [['1', '.5', '-3'], ['2', '1', '4e1'], ['3', '0', '5']]), (['mac', 'name'], [['04f0', 'ABC Wi-Fi'], ['1', 'x; y']]), (['a', 'b'], [['1', '2'], ['3']]), (['a', 'b'], [])]
STYLES = dict(plain={}, single=dict(quote="'"), bare=dict(quote=''), spaced=dict(eq=' = '), tight=dict(indent=''), tabs=dict(indent='\t', eq='\t=\t'), comments=dict(comment=' ; note'), hashes=dict(before='# a=1'), remarks=dict(quote='', comment=' ; x=1'),
              indented=dict(before='   # b={'), blank=dict(before=' '), multiline=dict(vsep=',\n   '), pointer=dict(vopen='*['), round=dict(vopen='('), wide=dict(vsep=' , '), bom=dict(bom='\ufeff'), unended=dict(last=''), ended=dict(last='\n\n'))


def documents(style):
    st = Style(**STYLES[style])
    for t in TEXTS:
        if st.quote == '' and not (t and all(ch.isalnum() or ch in '.+-_' for ch in t)) and t not in BARE:
            continue
        yield [('x', t)], st
        yield [('x', t), ('y', '2')], st
        yield [('s', ('struct', [('x', t), ('name', 'n')]))], st
    for v in VECS:
        yield [('v', ('vec', v))], st
        yield [('a', '1'), ('v', ('vec', v)), ('b', '2')], st
        yield [('s', ('struct', [('v', ('vec', v)), ('name', 'n')])), ('s', ('struct', [('name', 'm'), ('v', ('vec', v))]))], st
    for tags, rows in TABLES:
        yield [('t', ('table', tags, rows))], st
        yield [('a', '1'), ('t', ('table', tags, rows)), ('b', '2')], st
        yield [('s', ('struct', [('trials', '50'), ('t', ('table', tags, rows))]))], st
    for n in (1, 2, 3, 4):
        yield [('k', str(i)) for i in range(n)], st
        yield [('k', ('struct', [('name', str(i))])) for i in range(n)], st
        yield [x for i in range(n) for x in (('k', ('struct', [('name', str(i)), ('c', ('vec', ['1', str(i)]))])), ('j', ('struct', [('name', 'j' + str(i))])))], st
    for m in range(1, 4):
        yield [('v', ('vec', [str(i), 'e'])) for i in range(m + 1)], st
    yield [('v', '1'), ('v', ('vec', ['2', '3']))], st
    yield [('v', ('vec', ['1', '2'])), ('w', '0'), ('v', '3')], st
    yield [('v', ('vec', ['1', '2'])), ('v', ('struct', [('name', 'm')])), ('v', '3')], st
    yield [('s', ('struct', [('t', ('table', ['a'], [['1']])), ('t', ('table', ['b'], [['2'], ['3']]))]))], st
    for k in ('a.b', 'a_1', 'A', 'p^', 'x2'):
        yield [(k, '1'), ('z', '2')], st


def obligations(tier):
    obs = []

    def whole():
        text = open(config.path('functions.txt'), encoding='utf-8').read()
        got = fetch(text)
        want = {}
        # text blocks: a key followed by a lone quotation mark, up to the line holding the closing one
        texts = [m[1] for m in re.finditer(r'(?m)^[^\S\n]*\w+[^\S\n]*=[^\S\n]*"[^\S\n]*$((?:\n(?![^\S\n]*"[^\S\n]*$).*)*\n)', text)]
        plain = re.sub(r'(?m)^([^\S\n]*\w+[^\S\n]*=[^\S\n]*)"[^\S\n]*$(?:\n(?![^\S\n]*"[^\S\n]*$).*)*\n[^\S\n]*"', r'\1"@text"', text)
        left = iter(texts)
        for k, d in config.blocks(plain, text=True):
            want.setdefault(k, []).append({a: next(left) if b == '@text' else b for a, b in d.items()})
        want = {k: v if len(v) > 1 else v[0] for k, v in want.items()}
        d = differ(got, want)
        if d:
            raise Violation('gm.read_textstructure', 'config/functions.txt: ' + d)
        return dict(methods=['constant propagation'], functions=FNS + [f'functions.txt: {sum(len(v) for v in want.values())} definitions'])
    obs.append(Ob('definitions of functions.txt', whole))

    def docs(style, direct):
        def f():
            n = 0
            for items, st in documents(style):
                text = render(items, st)
                if direct and (st.comment or st.before.strip() or st.bom):
                    continue
                got = fetch(text, direct)
                d = differ(got, structure(items))
                if d:
                    raise Violation('gm.read_textstructure', f'{text!r}: {d}'[:600])
                n += 1
            return dict(methods=['constant propagation'], functions=FNS + [f'{n} documents'])
        return Ob(f'documents, {style}{" from a string" if direct else ""}', f)
    for s in STYLES:
        obs.append(docs(s, False))
    for s in ('plain', 'single'):
        obs.append(docs(s, True))
    return obs
