"""the command line as data: options declared by get_parser(), and namespaces they produce"""
from analyser.harness import *

PARSER = 'craterstats.cli.get_parser'


class Opt:
    pass


def options(c):
    """the options declared by the parser, in order"""
    o = c.run(PARSER)
    if o.val is NONE or o.pc is FALSE:
        raise Undecided('parser not recognised')
    out = []
    for e in o.effects:
        n = e.name.rsplit('.', 1)[-1]
        if n != 'add_argument':
            if n in ('add_mutually_exclusive_group', 'set_defaults', 'add_subparsers', 'parse_args'):
                raise Undecided('parser uses ' + n)
            continue
        if e.loops or e.pc is not TRUE:
            raise Undecided('option declared conditionally')
        kw = dict(e.kw)
        p = Opt()
        p.names = [a.a[0] for a in e.args if a.op == 'str']
        if len(p.names) != len(e.args) or not p.names:
            raise Undecided('option with a computed name')
        long = [n for n in p.names if n.startswith('--')]
        d = kw.get('dest')
        p.dest = d.a[0] if d is not None and d.op == 'str' else (long or p.names)[0].lstrip('-').replace('-', '_')
        p.action = kw.get('action')
        p.nargs = kw.get('nargs')
        p.type = kw.get('type')
        p.const = kw.get('const', NONE)
        p.choices = kw.get('choices')
        if p.choices is not None:
            if p.choices.op not in ('lit', 'tuple'):
                raise Undecided('choices of ' + p.names[0])
            p.choices = list(p.choices.a)
        p.default = kw.get('default')
        out.append(p)
    return out


def action_class(I, a):
    return a is not None and a.op == 'cls'


def parse(c, given, opts=None):
    """namespace the parser would give for the options in given ({option string: [value tokens]}, in command-line order)"""
    I = c.I
    opts = opts or options(c)
    ns = c.obj('argparse.Namespace')
    for p in opts:
        dv = p.default if p.default is not None else FALSE if p.action is not None and p.action.op == 'str' and p.action.a[0] == 'store_true' else TRUE if p.action is not None and p.action.op == 'str' and p.action.a[0] == 'store_false' else NONE
        if dv.op == 'lit':
            dv = I.newlist(c.st, dv)
        I.set_attr(c.st, ns, p.dest, dv)
    items = given.items() if isinstance(given, dict) else given
    for name, toks in items:
        toks = [c.c(t) for t in toks]
        ps = [p for p in opts if name in p.names]
        if not ps:
            raise Violation('cli.get_parser', f'option {name} is not accepted')
        p = ps[0]
        a = p.action
        if a is not None and a.op == 'str' and a.a[0] in ('store_true', 'store_false', 'store_const'):
            if toks:
                raise Violation('cli.get_parser', f'option {name} does not take a value')
            I.set_attr(c.st, ns, p.dest, TRUE if a.a[0] == 'store_true' else FALSE if a.a[0] == 'store_false' else p.const)
            continue
        n = p.nargs
        want = ('one', 1) if n is None else ('exactly', int(n.a[0])) if n.op == 'num' else (n.a[0], None) if n.op == 'str' else None
        if want is None or a is not None and a.op == 'str' and a.a[0] != 'store':
            raise Undecided(f'declaration of option {name}')
        if want[0] in ('one', 'exactly') and len(toks) != want[1] or want[0] == '?' and len(toks) > 1 or want[0] == '+' and not toks:
            raise Violation('cli.get_parser', f'option {name} does not accept {len(toks)} value(s)')
        vals = []
        for t in toks:
            v = t if p.type is None else I.call_term(c.st, p.type, [t], {}, None)
            if c.st.pc is not TRUE:
                if tm.isconst(t):
                    raise Violation('cli.get_parser', f'option {name} does not accept {t.a[0]!r}')
                c.st.pc = TRUE
            if p.choices is not None:
                if not tm.isconst(v):
                    raise Undecided(f'choices of {name}')
                if v not in p.choices:
                    raise Violation('cli.get_parser', f'option {name} does not accept {t.a[0]!r}')
            vals.append(v)
        if want[0] == 'one':
            v = vals[0]
        elif want[0] == '?':
            v = vals[0] if vals else p.const
        else:
            v = I.newlist(c.st, lit(*vals))
        if action_class(I, a):
            act = I.new(c.st, 'obj', dict(dest=string(p.dest)), a.a[0])
            I.call_method(c.st, act, '__call__', [mk('sym', 'parser', '?', None), ns, v, string(name)], {}, None)
            if c.st.pc is FALSE:
                raise Violation('cli.' + a.a[0].rsplit('.', 1)[-1], f'option {name} is refused')
        else:
            I.set_attr(c.st, ns, p.dest, v)
    return ns


def patch(c, q, v):
    """replace a module-level name"""
    m, n = q.rsplit('.', 1)
    mod = c.I.module(m)
    if mod is None or c.I.globalname(q) is None:
        raise Undecided('not found: ' + q)
    c.I.set_env(c.st, mod.nsref, n, v)


def giver(c, v):
    return c.I.get_attr(c.st, c.obj('spec.cli.Given', value=v), 'get', None)


def prepare(c, given, functions):
    ns = parse(c, given)
    patch(c, PARSER, giver(c, c.obj('spec.cli.Parser', ns=ns)))
    fl = giver(c, c.obj('spec.cli.Given', functions=functions))
    patch(c, 'craterstats.Functionslist', fl)
    return ns


def attrs(t):
    """attributes of a frozen object"""
    return dict(t.a[1]) if t.op == 'new' else {}
