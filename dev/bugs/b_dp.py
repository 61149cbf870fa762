PRE = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment
from maMDP.algorithms.base import Algorithm
from maMDP.algorithms.dynamic_programming import ValueIteration, solve_value_iteration, state_value_iterator
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
D = 'maMDP/algorithms/dynamic_programming.py'
S = 'maMDP/algorithms/action_selection.py'
B = 'maMDP/algorithms/base.py'
R = 'maMDP/algorithms/successor_representation.py'
BUGS = [
 dict(id='C18-last-state-change', property='C18', file=D,
  old="    delta = np.max(delta_arr)", new="    delta = delta_arr[1] if delta_arr[1] > 0 else delta_arr[0]",
  needs='a sweep in which a late state changes by less than the tolerance after an earlier one changed by more', breaks='the iteration stops although a value is still changing',
  demo=PRE+'''
# state 2 changes a little at the end of the sweep, state 0 a lot
sas = np.zeros((3, 1, 3)); sas[0, 0, 0] = 1; sas[1, 0, 1] = 1; sas[2, 0, 2] = 1
f = np.array([[1., 0, 1e-7]])
v, q = solve_value_iteration(np.array([1.]), f, 500, .9, sas, 1e-6)
assert abs(v[0] - 10) < 1e-3, v
'''),
 dict(id='C18-soft-cap', property='C18', file=D,
  old="            values[s] = np.log(np.sum(np.exp(valid_action_values))", new="            values[s] = np.log(np.sum(np.exp(np.minimum(valid_action_values, 20)))",
  needs='soft value iteration with action values above 20', breaks='soft values are capped',
  demo=PRE+'''
sas = np.zeros((1, 1, 1)); sas[0, 0, 0] = 1
v, q = solve_value_iteration(np.array([1.]), np.array([[5.]]), 500, .9, sas, 1e-8, True)
assert abs(v[0] - 50) < 1e-3, v
'''),
 dict(id='C18-cut-rows', property='C18', file=D,
  old="        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]", new="        valid_action_values = action_values[sas[s, ...].sum(axis=-1) >= 0.5]",
  needs='an action most of whose outcomes are cut off by walls', breaks='the action is left out of the maximum',
  demo=PRE+'''
sas = np.zeros((2, 2, 2)); sas[0, 0, 1] = .2; sas[0, 1, 0] = 1; sas[1, 0, 1] = 1
v, q = solve_value_iteration(np.array([1.]), np.array([[0., 1.]]), 500, .5, sas, 1e-10)
assert abs(v[0] - .2 * (1 + .5 * v[1])) < 1e-6, v
'''),
 dict(id='C18-dead-end-reward', property='C18', file=D,
  old="            values[s] = 0\n", new="            values[s] = min(reward[s], 0)\n",
  needs='a state with negative reward and no action', breaks='the dead end is worth its own reward once more',
  demo=PRE+'''
sas = np.zeros((2, 1, 2)); sas[0, 0, 1] = 1
v, q = solve_value_iteration(np.array([1.]), np.array([[0., -1.]]), 500, .5, sas, 1e-10)
assert v[1] == 0 and v[0] == -1
'''),
 dict(id='C19-rare-actions', property='C19', file=D,
  old="    valid_transitions = sas.sum(axis=-1) == 0\n", new="    valid_transitions = sas.sum(axis=-1) < 1e-3\n",
  needs='an action that leads somewhere with a probability below a thousandth', breaks='a possible action is worth minus infinity',
  demo=PRE+'''
sas = np.zeros((2, 2, 2)); sas[0, 0, 1] = 5e-4; sas[0, 1, 0] = 1; sas[1, 0, 1] = 1
v, q = solve_value_iteration(np.array([1.]), np.array([[0., 1.]]), 500, .5, sas, 1e-10)
assert np.isfinite(q[0, 0])
'''),
 dict(id='C19-stale-features', property='C19', file=D,
  old="        values, q_values = self._solve_value_iteration(np.array(reward_function), mdp.features, self", new="        if getattr(self, '_features', None) is None or self._features.shape != mdp.features.shape:\n            self._features = mdp.features.copy()\n        values, q_values = self._solve_value_iteration(np.array(reward_function), self._features, self",
  needs='fitting again after a feature was consumed or an agent moved', breaks='the plan is made for the features at the first fit',
  demo=PRE+'''
m = SquareGridMDP(np.array([[0., 0, 0, 1]]), shape=(2, 2))
e = Environment(m, {Agent('x'): (0, [1., 0], [0])})
e.fit('x'); e.step('x'); e.step('x')
assert m.features[0].sum() == 0
e.fit('x')
assert np.abs(e.agents['x'].algorithm.values).max() == 0
'''),
 dict(id='C19-integer-weights', property='C19', file=D,
  old="    reward_ = np.dot(reward_function.astype(np.float64), features)", new="    reward_ = np.dot(np.round(reward_function.astype(np.float64), 2), features)",
  needs='reward weights with more than two decimals', breaks='the plan is made for rounded weights',
  demo=PRE+'''
sas = np.zeros((1, 1, 1)); sas[0, 0, 0] = 1
v, q = solve_value_iteration(np.array([.004]), np.array([[1.]]), 500, .5, sas, 1e-12)
assert abs(v[0] - .008) < 1e-8
'''),
 dict(id='C20-nearly-best', property='C20', file=S,
  old="            max_actions = np.where(q_values[s, :] == q_values[s, :].max())[0]", new="            max_actions = np.where(np.isclose(q_values[s, :], q_values[s, :].max()))[0]",
  needs='two actions whose values differ by less than a hundred-thousandth', breaks='a worse action gets probability',
  demo=PRE+'''
p = MaxActionSelector().get_pi_p(np.array([[1., 1 + 1e-7, 0]]))
assert list(p[0]) == [0, 1, 0]
'''),
 dict(id='C20-first-four', property='C20', file=S,
  old="    return rng.choice(np.where(x == x.max())[0])", new="    return rng.choice(np.where(x == x.max())[0][:4])",
  needs='more than four best actions (hexagonal grid)', breaks='ties are broken among the first four only',
  demo=PRE+'''
a = MaxActionSelector(seed=1).get_pi(np.zeros((400, 6)))
assert set(a) == set(range(6))
'''),
 dict(id='C21-floor', property='C21', file=S,
  old="        out = (np.exp((qs - qs.max()) / temperature)) /", new="        out = (np.exp(np.maximum((qs - qs.max()) / temperature, -8))) /",
  needs='a value more than eight temperatures below the best', breaks='unlikely and impossible actions are given a minimal probability',
  demo=PRE+'''
p = SoftmaxActionSelector().get_pi_p(np.array([[0., -np.inf, -20.]]))
assert p[0, 1] == 0 and p[0, 2] < 1e-8
'''),
 dict(id='C21-unlikely-never', property='C21', file=S,
  old="                ps = self._pi_p[s, :] / np.sum(self._pi_p[s, :])", new="                ps = self._pi_p[s, :] * (self._pi_p[s, :] > 0.05)\n                ps = ps / np.sum(ps)",
  needs='an action with a probability below a twentieth', breaks='the action is never drawn',
  demo=PRE+'''
s = SoftmaxActionSelector(seed=1)
a = s.get_pi(np.tile(np.array([0., 3.3]), (4000, 1)))
assert (a == 0).sum() > 50
'''),
 dict(id='C22-unknown-lowest', property='C22', file=S,
  old="        q_values = q_values.copy()\n        q_values[np.isnan(q_values)] = -np.inf\n\n        # Get policy\n        pi_p = ", new="        q_values = q_values.copy()\n        q_values[np.isnan(q_values)] = np.nanmin(q_values)\n\n        # Get policy\n        pi_p = ",
  needs='a state with unknown and known actions', breaks='unknown actions are treated like the worst known one',
  demo=PRE+'''
p = SoftmaxActionSelector().get_pi_p(np.array([[0., np.nan], [1., 2.]]))
assert p[0, 1] == 0 and p[0, 0] == 1
'''),
 dict(id='C22-last-state', property='C22', file=S,
  old="        pi_p[nan_states, :] = np.nan", new="        pi_p[np.flatnonzero(nan_states)[:-1] if nan_states[-1] and nan_states.sum() > 1 else nan_states, :] = np.nan",
  needs='several unestimated states, the last one among them', breaks='the last state has made-up probabilities',
  demo=PRE+'''
p = MaxActionSelector().get_pi_p(np.array([[1., 2], [np.nan] * 2, [np.nan] * 2]))
assert np.isnan(p[1:]).all()
'''),
 dict(id='C23-seed-zero', property='C23', file=S, count=1,
  old="        self.name = 'max'\n\n        if seed is not None:", new="        self.name = 'max'\n\n        if seed:",
  needs='a selector with seed 0', breaks='choices come from the global generator',
  demo=PRE+'''
q = np.zeros((50, 4))
assert (MaxActionSelector(seed=0).get_pi(q) == MaxActionSelector(seed=0).get_pi(q)).all()
'''),
 dict(id='C23-large-tables', property='C23', file=S,
  old="            action = random_max(q_values[s, :], self.rng)", new="            action = random_max(q_values[s, :], self.rng if n_states < 30 else None)",
  needs='thirty or more states', breaks='choices come from the global generator',
  demo=PRE+'''
q = np.zeros((50, 4))
assert (MaxActionSelector(seed=3).get_pi(q) == MaxActionSelector(seed=3).get_pi(q)).all()
'''),
 dict(id='C24-published-early', property='C24', file=B,
  edits=[("        self.fit_complete = True\n        self.values = values\n        self.q_values = q_values\n", "        self.fit_complete = True\n        self.q_values = q_values\n"),
         ("        assert isinstance(q_values, np.ndarray), 'Q values should", "        self.values = values\n        assert isinstance(q_values, np.ndarray), 'Q values should")],
  needs='an algorithm whose action values have the wrong shape', breaks='the state values of the failed fit are published',
  demo=PRE+'''
class Bad(Algorithm):
    def _fit(self, mdp, reward_function, position, n_moves):
        return np.zeros(mdp.n_states), np.zeros((1, 1))
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
b = Bad()
assert raises(b.fit, m, np.array([1.]), 0)
assert b.values is None
'''),
 dict(id='C24-too-long-weights', property='C24', file=B,
  old="        if not len(reward_function) == mdp.n_features:", new="        if len(reward_function) < mdp.n_features:",
  needs='a reward function with too many entries', breaks='it is not refused before solving',
  demo=PRE+'''
calls = []
class Null2(Algorithm):
    def _fit(self, mdp, reward_function, position, n_moves):
        calls.append(1)
        return np.zeros(mdp.n_states), np.zeros((mdp.n_states, mdp.n_actions))
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
assert raises(Null2().fit, m, np.array([1., 2]), 0) and not calls
'''),
 dict(id='C24-fitted-flag', property='C24', file=B,
  old="        self.q_values = None\n        self.fit_complete = False\n        self.values = None\n\n        self._reset()", new="        self.q_values = None\n        self.values = None\n\n        self._reset()", count=1,
  needs='a reset after a fit', breaks='the algorithm still counts as fitted',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
v = ValueIteration(); v.fit(m, np.array([1.]), 0); v.reset()
assert not v.fit_complete
'''),
 dict(id='C27-loops', property='C27', file=R,
  old="    sr = np.linalg.inv(np.eye(sathing.shape[0]) - gamma * sathing)", new="    sr = np.eye(sathing.shape[0])\n    step = np.eye(sathing.shape[0])\n    for _ in range(60):\n        step = gamma * np.dot(step, sathing)\n        sr += step",
  needs='a discount close to one', breaks='visits beyond sixty steps are not counted',
  demo=PRE+'''
sas = np.zeros((1, 1, 1)); sas[0, 0, 0] = 1
m = get_sa_sr(sas, .99)
assert abs(m[0, 0] - 100) < 1e-6
'''),
 dict(id='C27-rounded', property='C27', file=R,
  old="            if valid_transitions[s, a]:\n                qs[s, a] = -np.inf", new="            if valid_transitions[s, a] and qs[s, a] <= 0:\n                qs[s, a] = -np.inf",
  needs='an impossible action in a state with positive reward', breaks='the impossible action keeps a finite value',
  demo=PRE+'''
sas = np.zeros((2, 2, 2)); sas[0, 0, 1] = 1; sas[1, 0, 0] = 1
q = get_sr_q_values(np.array([1.]), np.array([[1., 1.]]), get_sa_sr(sas, .5), sas, 2, 2)
assert np.isinf(q[0, 1]) and np.isinf(q[1, 1])
'''),
]
REFS = []
