PRE = '''
import numpy as np
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment
from maMDP.algorithms.dynamic_programming import ValueIteration
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
M = 'maMDP/mdp.py'
G = 'maMDP/grid_utils.py'
BUGS = [
 dict(id='C01-wall-edit-in-place', property='C01', file=M,
  old="        new_walls = self.walls.copy()\n", new="        new_walls = self.walls\n",
  needs='a wall edit that fails half way (a coordinate outside the grid)', breaks='the walls of the MDP name cells whose transitions are still open',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
assert raises(m.add_wall_xy, (0, 5), (1,))
assert m.walls.sum() == 0 or m.sas[:, :, m.walls == 1].sum() == 0
'''),
 dict(id='C01-wall-any-nonzero-row', property='C01', file=M,
  old="        self.walls = np.zeros(self.n_states)\n\n\n", new="        self.walls = self.walls * 0 if self.walls.all() else np.zeros(self.n_states)\n        self._MDP__walls[self.n_states // 2:] = self._MDP__walls[:self.n_states - self.n_states // 2]\n\n\n",
  needs='x', breaks='x', quickly=True, nokeep=True, demo='') if False else
 dict(id='C01-wall-values-sign', property='C01', file=M,
  old="        if not np.all(np.isin(walls, [0, 1])):\n", new="        if np.any(walls > 1) or np.any(walls % 1):\n",
  needs='a wall array with negative whole numbers', breaks='wall descriptions with negative values are accepted',
  demo=PRE+'''
w = np.zeros(9); w[4] = -1
assert raises(SquareGridMDP, np.zeros((1, 9)), w, (3, 3))
'''),
 dict(id='C02-valid-needs-certainty', property='C02', file=M,
  old="        return np.where(self.sas[state, ...].any(axis=-1))[0]", new="        return np.where(self.sas[state, ...].max(axis=-1) >= 0.5)[0]",
  needs='a stochastic MDP with an action spread over more than two states', breaks='such actions are missing from the valid actions',
  demo=PRE+'''
sas = np.zeros((3, 2, 3)); sas[:, 0, :] = 1/3; sas[:, 1, 0] = 1
m = MDP(np.zeros((1, 3)), sas)
assert list(m.state_valid_actions(0)) == [0, 1]
'''),
 dict(id='C02-adjacent-first-actions', property='C02', file=M,
  old="        return np.any(self.sas[s1, :, s2] > 0)", new="        return np.any(self.sas[s1, :self.n_actions - 1, s2] > 0) or s1 == s2 and self.adjacency[s1, s2] == 1",
  needs='an MDP (not a grid) in which only the last action connects two states', breaks='is_adjacent denies such pairs',
  demo=PRE+'''
sas = np.zeros((3, 2, 3)); sas[:, 0, 0] = 1; sas[:, 1, 2] = 1
m = MDP(np.zeros((1, 3)), sas)
assert m.is_adjacent(0, 2) and m.is_adjacent(0, 0) and not m.is_adjacent(0, 1)
'''),
 dict(id='C02-probability-rows', property='C02', file=M,
  old="        if np.min(sas) < 0 or np.max(sas) > 1:\n", new="        if np.min(sas.sum(axis=-1)) < 0 or np.max(sas) > 1:\n",
  needs='a negative probability outweighed by the rest of its row', breaks='negative probabilities are accepted',
  demo=PRE+'''
sas = np.zeros((2, 1, 2)); sas[:, 0, 0] = 1; sas[0, 0, 1] = -0.25
assert raises(MDP, np.zeros((1, 2)), sas)
'''),
 dict(id='C02-feature-states', property='C02', file=M,
  old="        if not features.shape[1] == self.n_states:\n", new="        if not features.shape[1] >= self.n_states:\n",
  needs='a feature table with more columns than states', breaks='feature tables with too many states are accepted',
  demo=PRE+'''
assert raises(MDP, np.zeros((1, 3)), np.eye(2)[:, None, :])
'''),
 dict(id='C03-lonely-cell-stays', property='C03', file=M,
  edits=[("                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions:\n                sas[i, -1, i] = 1",
          "                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)\n                    sas[i, action, j] = 1\n            if self.self_transitions and sas[i].any():\n                sas[i, -1, i] = 1")],
  needs='a grid of a single cell with self-transitions', breaks='the only cell cannot be stayed in',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 1)), shape=(1, 1), self_transitions=True)
assert m.sas.shape == (1, 5, 1) and m.sas[0, 4, 0] == 1
'''),
 dict(id='C03-hex-fourth-column', property='C03', file=G,
  old="        if x1 % 2:\n", new="        if x1 % 2 and x1 % 8 != 7:\n",
  needs='a hexagonal grid with more than seven columns', breaks='the directions leaving column 7 are confused',
  demo=PRE+'''
m = HexGridMDP(np.zeros((1, 36)), shape=(12, 3))
for x in range(1, 11):
    s = m.idx_to_state((x, 1))
    assert len(m.state_valid_actions(s)) == 6, x
'''),
 dict(id='C04-index-width', property='C04', file=M,
  old="        return np.unravel_index(state, self.shape)", new="        return np.unravel_index(state, self.shape, order='C' if self.shape[0] <= self.shape[1] else 'F')",
  needs='a grid wider than high', breaks='the coordinates of states are numbered column by column',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 12)), shape=(4, 3))
assert tuple(int(i) for i in m.state_to_idx(5)) == (1, 2)
assert m.idx_to_state(m.state_to_idx(7)) == 7
'''),
 dict(id='C04-index-wrap', property='C04', file=M,
  old="        return np.ravel_multi_index(idx, self.shape)", new="        return idx[0] * self.shape[-1] + idx[1] if idx[0] else idx[1] % self.shape[0]",
  needs='a cell of the first column whose y coordinate is not below the width of the grid', breaks='coordinates of the first column name another state',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 10)), shape=(2, 5))
assert m.idx_to_state((0, 4)) == 4 and m.idx_to_state((1, 4)) == 9
'''),
 dict(id='C04-raw-grid-size', property='C04', file=G,
  old="    grid_state_id = list(range(grid_idx.shape[0]))", new="    grid_state_id = list(range(state_grid.size))",
  needs='a raw grid with missing (NaN) cells', breaks='missing cells get state numbers without coordinates',
  demo=PRE+'''
from maMDP.grid_utils import grid_coords
g = np.zeros((2, 2)); g[0, 1] = np.nan
ids, idx = grid_coords(g)
assert list(ids) == [0, 1, 2] and len(idx) == 3
'''),
 dict(id='C04-grid-features', property='C04', file=M,
  old="        return self.features.reshape(((self.n_features, ) +  self.shape), order='C')", new="        return np.stack([f.reshape(self.shape[::-1], order='C').T if self.n_agents > 1 else self.flat_to_grid(f) for f in self.features])",
  needs='more than one agent', breaks='features laid out as a grid are transposed',
  demo=PRE+'''
m = SquareGridMDP(np.arange(6.)[None], shape=(2, 3))
e = Environment(m, {Agent('a'): (0, np.zeros(3), []), Agent('b'): (1, np.zeros(3), [])})
assert np.array_equal(m.features_as_grid()[0], np.arange(6.).reshape(2, 3))
'''),
 dict(id='C05-slip-ignored', property='C05', file=M,
  old="        if np.any((sas > 0) & (sas < 1)):\n", new="        if np.any((sas > 0.05) & (sas < 0.95)):\n",
  needs='transition probabilities that are all close to zero or one', breaks='rare transitions never happen',
  demo=PRE+'''
sas = np.zeros((2, 1, 2)); sas[:, 0, 0] = 0.96; sas[:, 0, 1] = 0.04
m = MDP(np.zeros((1, 2)), sas, seed=1)
assert len({int(m.get_next_state(0, 0)) for _ in range(2000)}) == 2
'''),
 dict(id='C05-renormalised', property='C05', file=M,
  old="            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)", new="            candidates = np.where(possible_states > 0)[0]\n            next_state = self.rng.choice(candidates) if len(candidates) == 2 else self.rng.choice(np.arange(len(possible_states)), p=possible_states)",
  needs='a stochastic action with exactly two outcomes of different probability', breaks='the two outcomes are drawn with equal probability',
  demo=PRE+'''
sas = np.zeros((2, 1, 2)); sas[:, 0, 0] = 0.9; sas[:, 0, 1] = 0.1
m = MDP(np.zeros((1, 2)), sas, seed=1)
assert np.mean([m.get_next_state(0, 0) for _ in range(3000)]) < 0.2
'''),
 dict(id='C06-fraction-left', property='C06', file=M,
  old="            if self.__feature_array[f, state_id] > 0:\n", new="            if self.__feature_array[f, state_id] >= 1:\n",
  needs='a feature present with an amount below one', breaks='fractional features cannot be consumed',
  demo=PRE+'''
m = MDP(np.full((1, 2), 0.5), np.eye(2)[:, None, :])
assert m.consume_features([0], 1)[0] == 1 and m.features[0, 1] == 0
'''),
 dict(id='C06-reset-shares', property='C06', file=M,
  edits=[("        self.__feature_array = features.copy()\n", "        self.__feature_array = features if hasattr(self, 'n_agents') and self.n_agents == 0 else features.copy()\n")],
  needs='an MDP without agents, reset and then consumed from again', breaks='consumption after a reset eats the saved features',
  demo=PRE+'''
m = MDP(np.ones((1, 2)), np.eye(2)[:, None, :])
for _ in range(3):
    m.consume_features([0], 1)
    m.reset()
    assert m.features.sum() == 2
f = np.ones((1, 2)); m.features = f; m.consume_features([0], 0)
assert f.sum() == 2
'''),
 dict(id='C07-reused-mdp', property='C07', file='maMDP/environments.py',
  old="        if self.__mdp.n_agents > 0:\n", new="        if self.__mdp.n_agents > 1:\n",
  needs='a second environment on an MDP that had exactly one agent', breaks='the row of the old agent stays',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
Environment(m, {Agent('a'): (8, np.array([0., 0.]), [])})
Environment(m, {Agent('a'): (3, np.array([0., 0.]), [])})
assert m.features.shape == (2, 9) and m.features[1].sum() == 1 and m.features[1, 3] == 1
'''),
 dict(id='C33-first-connecting', property='C33', file=M,
  old="                return [np.argmax(possible_actions)]", new="                return [np.flatnonzero(possible_actions)[0]]",
  needs='two actions that lead to the same state with different probabilities', breaks='a less likely action explains the move',
  demo=PRE+'''
sas = np.zeros((2, 2, 2)); sas[:, 0, 0] = .9; sas[:, 0, 1] = .1; sas[:, 1, 1] = 1
m = MDP(np.zeros((1, 2)), sas)
assert m._state_pair_to_action(0, 1)[0] == 1
'''),
 dict(id='C33-all-but-weak', property='C33', file=M,
  old="                return list(np.where(possible_actions > 0)[0])", new="                return list(np.where(possible_actions > possible_actions.max() / self.n_states)[0])",
  needs='actions that lead to the state with very different probabilities', breaks='weakly connecting actions are left out',
  demo=PRE+'''
sas = np.zeros((2, 2, 2)); sas[:, 0, 0] = .9; sas[:, 0, 1] = .1; sas[:, 1, 1] = 1
m = MDP(np.zeros((1, 2)), sas)
assert list(m._state_pair_to_action(0, 1, return_max=False)) == [0, 1]
'''),
]
