'''stand-ins for the trials: what they hold does not matter here, only where it is put'''


class Score:
    def __init__(self, n_sigma):
        self.n_sigma = n_sigma
        self.m0 = self.p2 = self.mn = self.sd = self.percentile = 1


def split(self, measure, self_pp):
    k = 1 if measure == 'sdaa' else 2
    self.montecarlo[measure]['trials'] = {'-1': [k, 2, 3], '0.5': [k, 5, 6]}


def stats(self):
    for measure in self.montecarlo:
        k = 1 if measure == 'sdaa' else 2
        self.montecarlo[measure]['stats'] = {'-1': Score(k), '0.5': Score(k + 2)}
