"""Reader of the package's definition files (name={ key=value ... } blocks), as data."""
import os, re


def path(name):
    return os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'craterstats', 'config', name)


def blocks(name, text=False):
    """[(kind, {key: text or list})]"""
    out, cur, kind = [], None, None
    pending = ''
    for line in name.splitlines(True) if text else open(path(name), encoding='utf-8'):
        s = pending + line.strip() if not line.lstrip().startswith('#') else pending
        pending = ''
        if s.count('[') > s.count(']'):
            pending = s + ' '
            continue
        m = re.match(r'(\w+)\s*=\s*\{$', s)
        if m:
            kind, cur = m[1], {}
            continue
        if s == '}' and cur is not None:
            out.append((kind, cur))
            cur = None
            continue
        m = re.match(r'(\w+)\s*=\s*(.*)$', s)
        if m and cur is not None:
            v = m[2].strip()
            q = re.match(r'(\*?)\[(.*)\]$', v)
            if q:
                items = [x.strip().strip("'\"") for x in re.findall(r"'[^']*'|\"[^\"]*\"|[^,]+", q[2])]
                cur[m[1]] = items
            else:
                cur[m[1]] = v.strip("'\"")
    return out
