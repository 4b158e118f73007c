"""Scripted query learners for the learners that choose between query types."""
import copy

import numpy as np

import lop


class TagModel:
    """a model that remembers what it was asked to predict; sub learners only ever pass it around"""

    def __init__(self, name='m'):
        self.name = name
        self.asked = []

    def predict(self, X):
        self.asked.append(np.array(X, dtype=float))
        mu = np.asarray(X, dtype=float).reshape(len(X), -1)[:, 0] * 1.0
        return mu, np.ones(len(mu))


class Sub(lop.active_learning.ActiveLearner):
    """a sub learner answering with its own recognisable selections and a scripted benefit"""

    def __init__(self, name, metric=1.0):
        super().__init__()
        self.name = name
        self.metric = metric
        self.M = 7
        self.model = None
        self.calls = []
        self.answers = []
        self.samples = None
        self.drawn = []
        self.pick = None              # what to answer, instead of a recognisable token

    def set_model(self, model):
        self.model = model

    def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
        self.calls.append({'X': np.array(candidate_pts, dtype=float), 'num': int(num_alts), 'prev': copy.deepcopy(prev_selection), 'prefer': copy.deepcopy(prefer_pts),
                           'aside': bool(return_not_selected), 'pair_first': bool(select_pair_first), 'samples': self.samples})
        self.sel_metric = self.metric
        ans = [self.name, len(self.answers)] if self.pick is None else list(self.pick)
        if return_not_selected:
            ans = (ans, ['passed over', self.name, len(self.answers)])
        self.answers.append(ans)
        return ans

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        self.calls.append({'greedy': [int(i) for i in indicies], 'X': np.array(candidate_pts, dtype=float), 'samples': self.samples, 'prev': list(prev_selection)})
        self.sel_metric = self.metric
        return list(indicies)[0]

    def set_samples(self, all_rep, all_Q):
        self.samples = (all_rep, all_Q)

    def unset_samples(self):
        self.samples = None

    def get_representative_Q(self, candidate_pts=None):
        return np.array([[0.1, 0.2], [0.3, 0.4]]), np.array([[0, 1]])

    def get_samples_from_model(self, candidate_pts, x_rep, indicies=None):
        if self.samples is not None:
            return self.samples
        s = (np.full((2, 2), float(len(self.drawn))), self.qsamples(candidate_pts))
        self.drawn.append((np.array(candidate_pts, dtype=float), s))
        return s

    def qsamples(self, X):
        return np.arange(2.0 * len(X)).reshape(2, len(X))
