def run(merge, out, equal_weight=False):
    import craterstats as cst

    class A:
        pass
    return cst.merge_cratercounts(A, equal_weight)


def text(names, diams, fractions, areas, perimeters):
    """lines of a merged crater file"""
    d = []
    f = []
    for x in diams:
        d = d + list(x)
    for x in fractions:
        f = f + list(x)
    area = sum(areas)
    s = ['# Merged crater diameter file', '#----------------------------', '#'] + ['# ' + n for n in names] + ['#', f"area = {area}"]
    if None not in perimeters:
        s += [f"perimeter = {sum(perimeters)}"]
    s += ['#', 'crater = {diameter, fraction']
    s += [f"{x:<12g}  {y:g}" for x, y in zip(d, f)]
    return s + ['}']


def weighted(fraction, area):
    return [e / area for e in fraction]
