import numpy as np


def curves(self, presentation):
    """curves of functions on a plot: (x, y)"""
    if presentation in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        if self.ef is not None:
            e = self.ef.getplotdata(presentation)
            return [(np.log10(e['d']), e['y'])]
        return []
    if presentation in ('chronology', 'rate'):
        t, y = self.cf.getplotdata(linear=True, phi=presentation == 'rate')
        if self.ref_diameter == 1:
            return [(t, y)]
        n = self.pf.evaluate('cumulative', [self.ref_diameter, 1.])
        return [(t, y * (n[0] / n[1])), (t, y)]
    return []


def functions(self, presentation):
    """the lines naming the functions a plot rests on"""
    if 'f' not in self.legend:
        return None
    txt = ''
    if self.ep is not None:
        txt += 'Epochs: ' + self.ep.name + '\n'
    if self.ef is not None and presentation != 'sequence':
        txt += 'EF: ' + self.ef.name + '\n'
    if self.ep is not None or self.ref_diameter != 1 or presentation not in ('chronology', 'rate'):
        txt += 'PF: ' + self.pf.name + '\n'
    return txt + 'CF: ' + self.cf.name
