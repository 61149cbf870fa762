PRE = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment, get_n_moves_plan
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from maMDP.algorithms.base import Algorithm
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
def world(n=2, consumes=None, starts=None, nf=2, algorithm=ValueIteration, moves=2):
    f = np.zeros((nf, 9))
    f[0, 4] = 1
    f[1, 5] = 1
    m = SquareGridMDP(f, shape=(3, 3))
    names = 'xyzw'
    starts = starts or [0, 8, 2, 6][:n]
    consumes = consumes or [[]] * n
    ags = dict((Agent(names[i], moves, algorithm), (starts[i], np.array([1., .5] + [0.] * n), consumes[i])) for i in range(n))
    return m, Environment(m, ags)
'''
E_ = 'maMDP/environments.py'
A_ = 'maMDP/agents.py'
BUGS = [
 dict(id='C07-grid-column-feature', property='C07', file='maMDP/mdp.py',
  old=None, new=None, skip=True, needs='', breaks='', demo=''),
 dict(id='C08-history-moved-agents', property='C08', file=E_,
  old="        for agent in self.agents.values():\n            agent.reset()", new="        for agent in self.agents.values():\n            if len(agent.position_history) > 1 or agent.pi is not None:\n                agent.reset()",
  needs='an agent that was only placed somewhere else, neither fit nor stepped, before a reset', breaks='the agent stays where it was placed',
  demo=PRE+'''
m, e = world()
e.set_agent_position('y', 3)
e.reset()
assert e.agents['y'].position == 8
'''),
 dict(id='C08-policy-kept', property='C08', file=A_,
  old="        self.pi = None\n        self.pi_p = None\n        self.position_history = [self.__starting_position]\n", new="        self.position_history = [self.__starting_position]\n", count=2,
  needs='', breaks='', demo='', skip=True),
 dict(id='C08-start-zero', property='C08', file=A_,
  old="        if self.__starting_position is None:", new="        if not self.__starting_position:",
  needs='an agent that starts in state 0 and moves before the environment is reset', breaks='the reset takes the agent to where it first moved instead of to state 0',
  demo=PRE+'''
m, e = world()
e.fit('x'); e.step('x')
e.reset()
assert e.agents['x'].position == 0
assert m.features[2, 0] == 1
'''),
 dict(id='C11-history-no-repeat', property='C11', file=A_,
  old="        self.position_history.append(self.position)", new="        if self.position_history[-1] != self.position:\n            self.position_history.append(self.position)",
  needs='a step that keeps the agent where it is', breaks='the step is missing from the history',
  demo=PRE+'''
m = SquareGridMDP(np.array([[1., 0, 0, 0]]), shape=(2, 2), self_transitions=True)
e = Environment(m, {Agent('x'): (0, [1., 0], [])})
e.fit('x')
for _ in range(3):
    e.step('x')
assert len(e.agents['x'].position_history) == 4
'''),
 dict(id='C11-record-set', property='C11', file=E_,
  old="            self.agents[agent_name].consumed += consumed  # Record consumption", new="            if consumed.any():\n                self.agents[agent_name].consumed = np.maximum(self.agents[agent_name].consumed, consumed)",
  needs='an agent that consumes the same feature in two states', breaks='the second consumption is not counted',
  demo=PRE+'''
f = np.ones((1, 9))
m = SquareGridMDP(f, shape=(3, 3))
e = Environment(m, {Agent('x'): (0, [1., 0], [0])})
e.fit('x')
e.step('x'); 
n = e.agents['x'].consumed[0]
e.fit('x'); e.step('x'); e.fit('x'); e.step('x')
assert n == 1 and e.agents['x'].consumed[0] >= 2
'''),
 dict(id='C11-own-row-eaten', property='C11', file=E_,
  old="                self.agents[agent_name].consumes, self.agents[agent_name].position\n            )", new="                [f for f in self.agents[agent_name].consumes if self.mdp.features[f].sum() > 1 or f < 1], self.agents[agent_name].position\n            )",
  needs='an agent that consumes a feature other than the first that is present in a single state', breaks='the feature is neither consumed nor recorded',
  demo=PRE+'''
m, e = world(1, [[1]], [4])
e.fit('x')
e.agents['x'].reward_function = np.array([0., 1., 0.])
e.fit('x'); e.step('x')
assert e.agents['x'].position == 5 and e.agents['x'].consumed[1] == 1 and m.features[1].sum() == 0
'''),
 dict(id='C12-prefix-names', property='C12', file=E_,
  old="        if not agent_name in self.agent_names:", new="        if not agent_name in ' '.join(self.agent_names):",
  needs='a name that is part of the name of an agent', breaks='the name is not refused as unknown but fails half way, or (history queries) with another error',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
e = Environment(m, {Agent('hunter'): (0, [1., 0], [])})
try:
    e.step('hunt')
    assert False
except ValueError:
    pass
'''),
 dict(id='C12-set-position-order', property='C12', file=E_,
  edits=[("        self._check_agent_name(agent_name)\n        next_states_p = self", "        self.n_steps += 1\n        self._check_agent_name(agent_name)\n        next_states_p = self"), ("        # self._consume_features(agent_name)\n\n        self.n_steps += 1\n", "")],
  needs='a probabilistic step of an agent that does not exist', breaks='the refused operation counts as a step',
  demo=PRE+'''
m, e = world()
n = e.n_steps
assert raises(e.step_proba, 'q')
assert e.n_steps == n
'''),
 dict(id='C13-stale-policy', property='C13', file=A_,
  old="        self.get_policy()\n\n        if self.pi[self", new="        if self.pi is None:\n            self.get_policy()\n\n        if self.pi[self",
  needs='action values that change between two steps', breaks='the agent acts on a policy derived from outdated values',
  demo=PRE+'''
m, e = world(1)
e.fit('x'); a = e.agents['x']
q = a.algorithm.q_values.copy()
best = int(a.pi[0])
other = [i for i in range(4) if np.isfinite(q[0, i]) and i != best][0]
a.algorithm.q_values[0, other] = 1e3
e.step('x')
assert a.position == int(np.argmax(m.sas[0, other]))
'''),
 dict(id='C13-unfit-copy', property='C13', file=A_,
  old="        if self.pi[self.position] < 0:", new="        if self.pi[self.position] < 0 and not self._parent_mdp.get_valid_actions(self.position):" , alt=True, skip=True,
  needs='', breaks='', demo=''),
 dict(id='C14-negligible', property='C14', file=A_,
  old="        current_states = np.argwhere(position > 0).flatten()", new="        current_states = np.argwhere(position > 1e-3).flatten()",
  needs='a distribution with probabilities below a thousandth', breaks='probability is lost',
  demo=PRE+'''
m, e = world(1)
e.fit('x')
p = np.zeros(9); p[0] = 1e-4; p[8] = 1 - 1e-4
assert abs(e.step_proba('x', p).sum() - 1) < 1e-9
'''),
 dict(id='C14-in-place', property='C14', file=A_,
  old="        position = position / position.sum()  # Make sure probabilities sum to 1", new="        position /= position.sum()  # Make sure probabilities sum to 1",
  needs='a distribution that does not sum to one', breaks="the caller's distribution is changed",
  demo=PRE+'''
m, e = world(1)
e.fit('x')
p = np.zeros(9); p[0] = 2.; p[8] = 2.
e.step_proba('x', p)
assert p[0] == 2 and p[8] == 2
'''),
 dict(id='C14-skip-last-action', property='C14', file=A_,
  old="            for action in range(self.pi_p.shape[1]):", new="            for action in np.flatnonzero(self.pi_p[s] > 1 / (2 * self.pi_p.shape[1])):",
  needs='a softmax policy with an unlikely action', breaks='unlikely actions are left out of the prediction',
  demo=PRE+'''
m = SquareGridMDP(np.array([[0., 0, 0, 0, 5, 0, 0, 0, 0]]), shape=(3, 3))
e = Environment(m, {Agent('x', action_selector=SoftmaxActionSelector): (3, [1., 0], [])})
e.fit('x')
assert abs(e.step_proba('x').sum() - 1) < 1e-9
'''),
 dict(id='C15-full-last-turn', property='C15', file=E_,
  old="    plan_array[current_move : current_move + n_total_plan_moves] = 1", new="    plan_array[current_move : max(current_move + n_total_plan_moves, n_moves)] = 1", skip=True,
  needs='', breaks='', demo=''),
 dict(id='C15-wrap-last-turn', property='C15', file=E_,
  old="    n_moves_plan = [i.sum().astype(int) for i in np.split(plan_array, n_turns)]", new="    n_moves_plan = [i.sum().astype(int) for i in np.array_split(plan_array, n_turns)]\n    if n_turns > 2 and n_moves_plan[-1] == 0:\n        n_moves_plan[-1] = int(n_total_plan_moves - sum(n_moves_plan[:-1]))\n        n_moves_plan = n_moves_plan[:1] + sorted(n_moves_plan[1:])[::-1]", skip=True,
  needs='', breaks='', demo=''),
 dict(id='C15-short-turn-rounding', property='C15', file=E_,
  old="    n_moves_plan = [i.sum().astype(int) for i in np.split(plan_array, n_turns)]", new="    n_moves_plan = [int(np.ceil(i.mean() * (n_moves - (n_moves > 5)))) for i in np.split(plan_array, n_turns)]",
  needs='more than five moves per turn', breaks='a full turn loses a move',
  demo=PRE+'''
assert [int(i) for i in get_n_moves_plan(0, 2, 7, 10)] == [7, 3]
assert [int(i) for i in get_n_moves_plan(2, 3, 6, 12)] == [4, 6, 2]
'''),
 dict(id='C16-last-caught-wins', property='C16', file=E_,
  old="                    if self.agents[agent_name].position == agent.position:\n                        caught = True", new="                    caught = self.agents[agent_name].position == agent.position",
  needs='an agent that hunts two others and meets the first of them', breaks='the episode goes on after the meeting',
  demo=PRE+'''
m, e = world(3, [[3, 4], [], []], [0, 4, 8])
e.agents['x'].reward_function = np.array([0., 0, 0, 1., 0])
e.fit('x')
assert e.step_multi('x', n_steps=4) is False
'''),
 dict(id='C16-start-of-turn-plans', property='C16', file=E_,
  old="                                0,  # don't adjust for turns when simulating other agents", new="                                min(i, n_agent_steps[j] - 1),",
  needs='refitting in an episode with another agent that has more than one move per turn', breaks='the moves planned for the others shrink as the episode goes on',
  demo=PRE+'''
seen = []
class Rec(ValueIteration):
    def fit(self, mdp, reward_function, position, n_steps, **kw):
        seen.append(n_steps)
        return super().fit(mdp, reward_function, position, n_steps, **kw)
m, e = world(2, algorithm=Rec)
e.fit('x'); seen.clear()
e.step_multi('x', n_steps=2, refit=True, n_moves_plan=[2, 2], n_turns_plan=2)
assert [[int(v) for v in p] for p in seen[1]][1] == [2, 0], seen
'''),
 dict(id='C16-plan-limit', property='C16', file=E_,
  old="                                n_agent_steps[j],\n                                n_moves\n                            )\n                        )\n                    else:", new="                                n_agent_steps[j],\n                                min(n_moves, n_agent_steps[j] - i)\n                            )\n                        )\n                    else:",
  needs='planning over several turns', breaks='the primary agent plans only for the turn in progress',
  demo=PRE+'''
seen = []
class Rec(ValueIteration):
    def fit(self, mdp, reward_function, position, n_steps, **kw):
        seen.append(n_steps)
        return super().fit(mdp, reward_function, position, n_steps, **kw)
m, e = world(2, algorithm=Rec)
e.fit('x'); seen.clear()
e.step_multi('x', n_steps=2, refit=True, n_moves_plan=[4, 4], n_turns_plan=2)
assert [int(v) for v in seen[0][0]] == [2, 2], seen
'''),
 dict(id='C16-caught-by-feature-order', property='C16', file=E_,
  old="                if agent.agent_feature_idx == f:", new="                if agent.agent_idx + self.mdp.n_features - self.n_agents == f and agent.name != self.agent_names[0]:",
  needs='an agent that hunts the first agent', breaks='the meeting does not stop the episode',
  demo=PRE+'''
m, e = world(2, [[], [2]], [4, 8])
e.agents['y'].reward_function = np.array([0., 0, 1., 0])
e.fit('y')
assert e.step_multi('y', n_steps=4) is False
'''),
 dict(id='C16-plan-not-copied', property='C16', file=E_,
  old="            n_moves_plan = copy(\n                n_moves_plan\n            )  # avoid modifying the original that was provided", new="            n_moves_plan.sort(key=lambda i: i == n_moves_plan[0], reverse=True)", skip=True,
  needs='', breaks='', demo=''),
 dict(id='C17-position-first', property='C17', file=E_,
  old="            if not reward_function.ndim == 1:", new="            if not reward_function.squeeze().ndim == 1:",
  needs='a two-dimensional reward function with as many rows as there are features', breaks='the reward function is accepted',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
assert raises(Environment, m, {Agent('x'): (0, np.ones((2, 1)), [])})
'''),
 dict(id='C17-names-sorted', property='C17', file=E_,
  old="        self.agent_names = [agent.name for agent in agents.keys()]", new="        self.agent_names = sorted(agent.name for agent in agents.keys())",
  needs='agents not given in alphabetical order', breaks='the environment reports the agents in another order than given',
  demo=PRE+'''
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
e = Environment(m, {Agent('z'): (0, [1., 0, 0], []), Agent('a'): (1, [1., 0, 0], [])})
assert e.agent_names == ['z', 'a']
'''),
 dict(id='C07-shared-starts', property='C07', file='maMDP/mdp.py',
  find='def update_agent_feature', skip=True, needs='', breaks='', demo='', old=None, new=None),
 dict(id='C10-proba-moves-policy', property='C10', file=A_,
  old="        next_states_p = np.zeros(self.__parent_mdp.n_states)\n", new="        next_states_p = self.__parent_mdp.features[self.agent_feature_idx]\n        next_states_p[:] = 0\n",
  needs='a probabilistic step of an agent', breaks='the prediction is written over the feature row of the agent',
  demo=PRE+'''
m, e = world(2)
e.fit('x')
f = m.features.copy()
e.step_proba('x')
assert (m.features == f).all()
'''),
 dict(id='C10-fit-restarts', property='C10', file=E_,
  old="        self.agents[agent_name].fit(n_moves=n_moves)", new="        agent = self.agents[agent_name]\n        agent.position = agent.position_history[-1] if agent.position_history[-1] is not None else agent.position\n        agent.fit(n_moves=n_moves)",
  needs='an agent that was placed somewhere between two steps', breaks='fitting takes the agent back to where its last step ended',
  demo=PRE+'''
m, e = world(2)
e.fit('x'); e.step('x')
e.set_agent_position('x', 6)
e.fit('x')
assert e.agents['x'].position == 6
'''),
 dict(id='C38-shared-options', property='C38', file=A_,
  old="        self.algorithm = algorithm(**algorithm_kwargs)", new="        algorithm_kwargs.setdefault('discount', .9) if algorithm_kwargs else None\n        self.algorithm = algorithm(**algorithm_kwargs)",
  needs='algorithm options without a discount', breaks="the caller's options are changed",
  demo=PRE+'''
o = dict(max_iter=7)
Agent('x', algorithm_kwargs=o)
assert o == dict(max_iter=7)
'''),
 dict(id='C38-action-options', property='C38', file=A_,
  old="        self.action_selector = action_selector(**action_kwargs)", new="        self.action_selector = action_selector(**{k: v for k, v in action_kwargs.items() if v})",
  needs='an option with a false value (seed 0)', breaks='the option does not reach the action selector',
  demo=PRE+'''
a = Agent('x', action_selector=MaxActionSelector, action_kwargs=dict(seed=0)); b = Agent('y', action_selector=MaxActionSelector, action_kwargs=dict(seed=0))
q = np.zeros((40, 4))
assert (a.action_selector.get_pi(q) == b.action_selector.get_pi(q)).all()
'''),
]
BUGS = [b for b in BUGS if not b.get('skip')]
REFS = []
