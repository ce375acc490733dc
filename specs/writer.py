import numpy as np

STAT_HEAD = '#  D_min       F(D)       N_inc       Error        C(D)       N_cum       Error      D_mean      N_diff       Error     N_event'
RULE = '#------------------------------------------------------------------------------------------------------------------------------'


def stat(source, binning, area, d_min, d_mean, width, n, n_event, ncum):
    """lines of a statistics file: bins that hold craters"""
    out = ['# Craterstats3 exported stat file', '#--------------------------------', '#', '# Source: ' + source, '# Binning: ' + binning, '#', '# Total area = ' + format(area, '0g'), '#', STAT_HEAD, '#', RULE]
    for d, k, m, w, e, c in zip(d_min, n, d_mean, width, n_event, ncum):
        if k > 0:
            inc = k / area
            cum = c / area
            diff = k / w / area
            out.append(f"{d:<7.5g}{k:>11.5g}{inc:>13.3E}{inc / np.sqrt(k):>12.3E}{c:>11.5g}{cum:>13.3E}{cum / np.sqrt(c):>12.3E}{m:>12.4g}{diff:>12.3E}{diff / np.sqrt(e):>12.3E}{e:>12.5g}")
    return out + [RULE]


def scc_head(version, crater_time, crater_file, area_time, area_file, radius, area, perimeter, parts):
    r = f"{radius:0g}"
    out = ['# Spatial crater count', 'craterstats_version = ' + version, '#', '# Derived from:', '# ' + crater_time + crater_file, '# ' + area_time + area_file, '#',
           f"a_axis_radius = {r} <km>", f"Total_area = {area:0g} <km2>", f"Total_perimeter = {perimeter:0g} <km>", '#', '#', '# Extra lines for OpenCraterTool compatibility:', f"a-axis radius = {r} <km>"]
    for i in range(parts):
        out.append(f"# Area_name {i + 1} = NULL")
    return out + ['#']


def scc_boundary(vertices):
    """(part, tag, lon, lat) of each vertex"""
    out = ['unit_boundary = {vertex, sub_area, tag, lon, lat']
    k = 0
    for part, tag, lon, lat in vertices:
        k += 1
        out.append(f"{k:<5}\t{part:<5}\t{tag:<4}\t{lon:23.15f}\t{lat:23.15f}")
    return out + ['}']


def scc_craters(diam, fraction, lon, lat):
    return ['crater = {diam, fraction, lon, lat, topo_scale_factor'] + [f"{d:<12.7g}\t{f:9.3g}\t{x:23.15f}\t{y:23.15f}\t1" for d, f, x, y in zip(diam, fraction, lon, lat)] + ['}']


def join(a, b, c):
    return [*a, *b, *c]


def lines(s):
    return '\n'.join(s)


def ra(version, source, measures, bins, cells):
    """cells: {measure: {bin: (n_sigma text or None, [trial values])}} for all bins in increasing order"""
    out = ['# Randomness analysis', f'version = {version}', f'source = "{source}"', '#']
    head = 'n_sigma = {bin'
    for m in measures:
        head += ', ' + m
    out.append(head)
    for b in bins:
        row = f"{b:<12}"
        for m in measures:
            row += '\t' + (f"{cells[m][b][0]:9.4g}" if b in cells[m] else f"{'-':>9}")
        out.append(row)
    out.append('}')
    return out


def ra_measure(measure, n, bins, trials):
    """trials: one sequence per bin"""
    out = ['#', measure + ' = {', f'n_trials = {n}', 'trials  = {index, ' + ', '.join(bins)]
    for t in range(n):
        row = f"{t:<12}"
        for v in trials:
            row += f"\t{v[t]:<12.7g}"
        out.append(row)
    return out + ['}', '}']


def version():
    import craterstats as cst
    return cst.__version__


def stamp(t):
    from datetime import datetime
    return datetime.fromtimestamp(t).strftime("%Y-%m-%d %H:%M ")


def names(d):
    return sorted(d)


class Geom:
    pass


class Score:
    pass


def whole(n):
    return int(n)


def trials(one, pp, b, n, total):
    return [one(pp, b, n, i) for i in range(total)]
