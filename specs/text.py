"""Reference definitions: formatted numbers (C27)."""
import numpy as np
import craterstats.gm as gm


def fixed(n, digits):
    """n in plain decimal notation with the given number of significant figures"""
    m, e = format(abs(n), '.' + str(digits - 1) + 'e').split('e')
    m = m.replace('.', '')
    e = int(e)
    if e < 0:
        s = '0.' + '0' * (-e - 1) + m
    elif e < digits - 1:
        s = m[:e + 1] + '.' + m[e + 1:]
    else:
        s = m + '0' * (e - digits + 1)
    return ('-' if n < 0 else '') + s


def unit_of(age):
    if age >= 1:
        return 1, 'Ga'
    if age >= .001:
        return .001, 'Ma'
    if age >= .000001:
        return .000001, 'ka'
    return .000000001, 'a'


def bounds(st, up, down, mathml):
    if mathml:
        return '<msubsup><mtext>' + st + '</mtext><mtext>&#x2212;' + down + '</mtext><mtext>+' + up + '</mtext></msubsup>'
    return st + '^{+' + up + '}_{-' + down + '}'


def age(t, plus, minus, sf, unit, simple, no_error, mu, mathml):
    f, u = unit_of(t)
    if unit is not None:
        f, u = {'Ga': 1, 'Ma': .001, 'ka': .000001, 'a': .000000001}[unit], unit
    s = f'{t / f:g}' if simple else gm.sigfigs(t / f, sf)
    if plus > 0 and not no_error:
        s = bounds(s, gm.sigfigs(plus / f, sf - 1), gm.sigfigs(minus / f, sf - 1), mathml)
    if simple:
        return s + ' ' + u
    if mathml:
        return '<math xmlns="http://www.w3.org/1998/Math/MathML">' + ('<mi>&#956;</mi>' if mu else '') + s + '<mtext>&#8239;' + u + '</mtext></math>'
    return '$' + ('\U0001d707' if mu else '') + s + '$ ' + u


def density(v, hi, lo, sf, force, mathml, unit):
    exp = 0
    s = gm.sigfigs(v, sf)
    if v != 0 and (force or not (.01 < abs(v) < 10000)):
        s, e = format(v, '.' + str(sf - 1) + 'e').split('e')
        exp = int(e)
    if hi is not None:
        s = bounds(s, gm.sigfigs((hi - v) / 10 ** exp, sf - 1), gm.sigfigs((v - lo) / 10 ** exp, sf - 1), mathml)
    if mathml:
        u = {None: '', 'km-2': '<msup><mtext>&#8239;km</mtext><mtext>-2</mtext></msup>', 'km2': '<msup><mtext>&#8239;km</mtext><mtext>2</mtext></msup>'}[unit]
        p = '<mo>&#183;</mo><msup><mtext>10</mtext><mtext>' + str(exp) + '</mtext></msup>' if exp != 0 else ''
        return '<math xmlns="http://www.w3.org/1998/Math/MathML">' + s + p + u + '</math>'
    u = {None: '', 'km-2': '$ km$^{-2}', 'km2': '$ km$^{2}'}[unit]
    return '$' + s + ('\\cdot10^{' + str(exp) + '}' if exp != 0 else '') + u + '$'


def diameters(lo, hi, sf):
    if hi == np.inf:
        return 'unconstrained'
    if hi < 1:
        return gm.sigfigs(lo * 1000, sf) + '\u2013' + gm.sigfigs(hi * 1000, sf) + ' m'
    return gm.sigfigs(lo, sf) + '\u2013' + gm.sigfigs(hi, sf) + ' km'
