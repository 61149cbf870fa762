E='maMDP/environments.py'; A='maMDP/agents.py'; B='maMDP/algorithms/base.py'; S='maMDP/algorithms/action_selection.py'
REFS=[
dict(id='env1', file=E, funcs={
'get_n_moves_plan': '''
def get_n_moves_plan(
    current_move: int, n_turns: int, n_moves: int, n_total_plan_moves: int
) -> List[int]:
    if not current_move < n_moves:
        raise ValueError(
            "current_move ({0}) must be less than n_moves ({1})".format(current_move, n_moves)
        )

    last = current_move + n_total_plan_moves
    n_moves_plan = []
    for turn in range(n_turns):
        first_of_turn = turn * n_moves
        end_of_turn = first_of_turn + n_moves
        planned = min(end_of_turn, last) - max(first_of_turn, current_move)
        n_moves_plan.append(max(planned, 0))

    return n_moves_plan
''',
'Environment._check_agent_name': '''
def _check_agent_name(self, agent_name: str):
    if agent_name in self.agent_names:
        return
    raise ValueError(f"Agent named {agent_name} is not present in the environment, valid names are {self.agent_names}")
''',
'Environment._get_agent': None} if False else {
'Environment._check_agent_name': '''
def _check_agent_name(self, agent_name: str):
    if agent_name in self.agent_names:
        return
    raise ValueError(f"Agent named {agent_name} is not present in the environment, valid names are {self.agent_names}")
''',
'get_n_moves_plan': '''
def get_n_moves_plan(
    current_move: int, n_turns: int, n_moves: int, n_total_plan_moves: int
) -> List[int]:
    if not current_move < n_moves:
        raise ValueError(
            "current_move ({0}) must be less than n_moves ({1})".format(current_move, n_moves)
        )

    last = current_move + n_total_plan_moves
    n_moves_plan = []
    for turn in range(n_turns):
        first_of_turn = turn * n_moves
        end_of_turn = first_of_turn + n_moves
        planned = min(end_of_turn, last) - max(first_of_turn, current_move)
        n_moves_plan.append(max(planned, 0))

    return n_moves_plan
''',
'Environment.step': '''
def step(self, agent_name: str, n_moves: Tuple[Tuple[int]] = None) -> int:
    self._check_agent_name(agent_name)
    agent = self.agents[agent_name]
    agent.step()
    self._consume_features(agent_name)
    self.n_steps = self.n_steps + 1
    return agent.position
''',
'Environment._consume_features': '''
def _consume_features(self, agent_name: str):
    agent = self.__agents[agent_name]
    if not agent.consumes:
        return
    eaten = self.__mdp.consume_features(agent.consumes, agent.position)
    agent.consumed = agent.consumed + eaten
''',
'Environment._check_agents_caught': '''
def _check_agents_caught(self, agent_name: str):
    hunter = self.agents[agent_name]
    return any(
        other.agent_feature_idx in hunter.consumes and other.position == hunter.position
        for other in self.agents.values()
    )
''',
'Environment._get_all_agents_n_steps': '''
def _get_all_agents_n_steps(self, primary_agent:str=None):
    names = list(self.agent_names)
    if primary_agent is not None:
        names.remove(primary_agent)
        names.insert(0, primary_agent)
    return [self.agents[name].n_moves for name in names]
''',
'Environment.reset': '''
def reset(self):
    self.__mdp.reset()
    for name in self.agent_names:
        self.__agents[name].reset()
''',
'Environment.get_agent_pi': '''
def get_agent_pi(self, agent_name: str) -> np.ndarray:
    self._check_agent_name(agent_name)
    agent = self.agents[agent_name]
    if not agent.algorithm.fit_complete:
        raise AttributeError("Agent has not been fit")
    return agent.pi
''',
'Environment.plot': '''
def plot(
    self,
    colours: list = None,
    alphas: list = None,
    agent_markers: Dict[str, str] = {},
    agent_colours: Dict[str, str] = {},
    mdp_plotting_kwargs: Dict = {},
    agent_plotting_kwargs: Dict = {},
    ax: plt.axes = None,
) -> plt.axes:
    ax = self.mdp.plot(colours=colours, alphas=alphas, ax=ax, **mdp_plotting_kwargs)

    for agent_name, agent in self.agents.items():
        options = dict(agent_plotting_kwargs)
        options["color"] = agent_colours.get(agent_name, "black")
        if agent_name in agent_markers:
            options["marker"] = agent_markers[agent_name]
        agent.plot(ax, **options)

    return ax
''',
}),
dict(id='env2', file=E, funcs={
'Environment._set_mdp_and_agents': '''
def _set_mdp_and_agents(
    self, agents: Dict["Agent", Tuple[int, np.ndarray, List[int]]], mdp
):
    self.__mdp = mdp
    self.__agents = {}
    self.agent_names = []
    self.n_agents = len(agents)

    # Remove any agent-related features that may already be present in the MDP
    if mdp.n_agents != 0:
        mdp.remove_agent_features()

    n_expected = mdp.n_features + self.n_agents
    self.agent_names = [agent.name for agent in agents]

    for index, (agent, settings) in enumerate(agents.items()):
        position, reward_function, consumes = settings
        reward_function = self._check_agent_settings(agent.name, position, reward_function, consumes, n_expected)
        attached = agent._attach(mdp, self, index, position, reward_function, consumes)
        self.__agents[attached.name] = attached

def _check_agent_settings(self, name, position, reward_function, consumes, n_expected):
    if not isinstance(reward_function, (np.ndarray, list)):
        raise TypeError(f"Agent {name}: Reward function must be a 1D array or list, got type {reward_function}")
    reward_function = np.array(reward_function)
    if reward_function.ndim != 1:
        raise AttributeError(f"Agent {name}: Reward function array must be 1-dimensional")
    if not isinstance(position, int):
        raise TypeError(f"Agent {name}: Position should be an int")
    if len(reward_function) != n_expected:
        raise AttributeError(f"Agent {name}: reward function has {len(reward_function)} entries, {n_expected} needed")
    for feature in consumes:
        if feature >= len(reward_function):
            raise ValueError(f"Agent {name}: Provided a feature to consume that is out of range")
    return reward_function
''',
'Environment.step_multi': '''
def step_multi(
    self,
    agent_name: str,
    n_steps: Union[int, List[int]] = None,
    n_moves_plan: Tuple[int] = None,
    n_turns_plan: int = 1,
    refit: bool = False,
    progressbar: bool = False,
    stop_on_caught: bool = True,
) -> List[int]:
    self._check_agent_name(agent_name)
    agent = self.agents[agent_name]
    n_agent_steps = self._get_all_agents_n_steps(primary_agent=agent_name)

    n_moves_plan = n_agent_steps if n_moves_plan is None else copy(n_moves_plan)

    if len(n_moves_plan) != len(self.agents):
        raise ValueError("Number of planning moves does not match number of agents.")

    if n_steps is None:
        n_own_steps = agent.n_moves
    elif isinstance(n_steps, int):
        n_own_steps = n_steps
        n_agent_steps = [n_steps, *n_agent_steps[1:]]
    elif isinstance(n_steps, list):
        n_agent_steps = n_steps
        n_own_steps = n_steps[0]

    if any(i <= 0 for i in n_moves_plan):
        raise ValueError("Number of planning moves for all agents must be greater than 0.")

    steps = range(n_own_steps)
    if progressbar:
        steps = progress_bar(steps)

    positions = []
    for i in steps:
        if refit:
            self.fit(agent_name, n_moves=self._plan_for_step(i, n_turns_plan, n_agent_steps, n_moves_plan))

        positions.append(self.step(agent_name))

        if stop_on_caught and self._check_agents_caught(agent_name):
            warnings.warn("Agent was caught, stopping")
            return False

    return positions

def _plan_for_step(self, i, n_turns, n_agent_steps, n_moves_plan):
    plan = []
    for j in range(len(n_moves_plan)):
        current = i if j == 0 else 0
        plan.append(get_n_moves_plan(current, n_turns, n_agent_steps[j], n_moves_plan[j]))
    return plan
''',
}),
dict(id='agents1', file=A, funcs={
'AttachedAgent.position=': '''
def position(self, new_position:int):
    n_states = self._parent_mdp.n_states
    if not 0 <= new_position < n_states:
        raise ValueError(f"Position must be less than the number of states in the parent MDP. Provided position {new_position}, MDP has {n_states} states")
    self.__position = new_position
    if self.__starting_position is None:
        self.__starting_position = new_position
    self.__parent_mdp.update_agent_feature(self.agent_idx, new_position)
''',
'AttachedAgent.get_policy': '''
def get_policy(self):
    q_values = self.algorithm.q_values
    selector = self.action_selector
    self.pi_p = selector.get_pi_p(q_values)
    self.pi = selector.get_pi(q_values)
''',
'AttachedAgent.step': '''
def step(self):
    self._require_fit()
    self.get_policy()
    here = self.position
    action = self.pi[here]
    if action < 0:
        raise ValueError("No valid action for this state. State action values for the current state may not have been estimated yet.")
    self.position = int(self._parent_mdp.get_next_state(here, action))
    self.position_history = self.position_history + [self.position]

def _require_fit(self):
    if not self.__algorithm.fit_complete:
        raise AttributeError("Agent has not been fit yet")
''',
'AttachedAgent.step_proba': '''
def step_proba(self, position:np.ndarray=None) -> np.ndarray:
    n_states = self.__parent_mdp.n_states

    if position is None:
        position = np.zeros(n_states)
        position[self.position] = 1

    assert len(position) == n_states, "Number of positions provided does not equal the number of states in the MDP"
    position = position / np.sum(position)

    if not self.__algorithm.fit_complete:
        raise AttributeError("Agent has not been fit yet")

    self.get_policy()

    if (self.pi_p > 0).sum() == 0:
        warnings.warn('No actions have a choice probability greater than 0')

    sas = self._parent_mdp.sas
    next_states_p = np.zeros(n_states)
    for s in range(n_states):
        if position[s] > 0:
            for action in range(sas.shape[1]):
                next_states_p = next_states_p + position[s] * self.pi_p[s, action] * sas[s, action]

    return next_states_p
''',
'AttachedAgent.reset': '''
def reset(self):
    start = self.__starting_position
    self.position_history = [start]
    self.pi = self.pi_p = None
    self.consumed = np.zeros_like(self.reward_function, dtype=float)
    self.position = start
''',
'AttachedAgent.plot': '''
def plot(self, ax:plt.axes, marker:str="X", *args, **kwargs):
    plot_agent(*args, ax=ax, position=self._parent_mdp.state_to_position(self.position), marker=marker, **kwargs)
''',
}),
dict(id='sel1', file=S, funcs={
'softmax': '''
def softmax(qs, temperature=1):
    largest = qs.max()
    if largest == -np.inf:
        return np.ones_like(qs) / len(qs)
    weights = np.exp((qs - largest) / temperature)
    return weights / weights.sum()
''',
'random_max': '''
def random_max(x:np.ndarray, rng:np.random.RandomState=None):
    rng = np.random if rng is None else rng
    best = np.flatnonzero(x == np.max(x))
    return rng.choice(best)
''',
'ActionSelector.get_pi': '''
def get_pi(self, q_values:np.ndarray, *args, **kwargs) -> np.ndarray:
    q_values, nan_states = self._prepare(q_values)
    pi = self._get_pi(q_values=q_values, *args, **kwargs)
    pi[nan_states] = -1
    assert isinstance(pi, np.ndarray), "Action selector should return pi as a numpy array"
    assert pi.shape == (q_values.shape[0], ), "Returned pi must be 1-dimensional, of shape (n_states, )"
    return pi

def _prepare(self, q_values):
    check_q_values(q_values)
    nan_states = np.isnan(np.nanmean(q_values, axis=1))
    filled = np.where(np.isnan(q_values), -np.inf, q_values)
    return filled, nan_states
''',
'ActionSelector.get_pi_p': '''
def get_pi_p(self, q_values:np.ndarray, *args, **kwargs) -> np.ndarray:
    q_values, nan_states = self._prepare(q_values)
    pi_p = self._get_pi_p(q_values=q_values, *args, **kwargs)
    pi_p[nan_states] = np.nan
    assert isinstance(pi_p, np.ndarray), "Action selector should return pi_p as a numpy array"
    assert pi_p.ndim == 2, "Returned pi_p must be 2-dimensional, of shape (n_states, n_actions)"
    assert pi_p.shape == q_values.shape, 'Pi_p must be the same shape as the Q values used as input'
    return pi_p
''',
'ActionSelector.get_nstates_actions': '''
def get_nstates_actions(self, q_values:np.ndarray) -> Tuple[int, int]:
    if not isinstance(q_values, np.ndarray):
        raise TypeError("Q values must be supplied as a numpy array, got type {0}".format(type(q_values)))
    if q_values.ndim != 2:
        raise AttributeError("Q values must be 2D, supplied array has {0} dimensions".format(q_values.ndim))
    return q_values.shape
''',
'MaxActionSelector._get_pi_p': '''
def _get_pi_p(self, q_values:np.ndarray) -> np.ndarray:
    is_max = q_values == q_values.max(axis=1, keepdims=True)
    self._pi_p = is_max / is_max.sum(axis=1, keepdims=True)
    return self._pi_p
''',
'MaxActionSelector._get_pi': '''
def _get_pi(self, q_values:np.ndarray) -> np.ndarray:
    n_states = self.get_nstates_actions(q_values)[0]
    self._pi = np.zeros(n_states, dtype=int)
    for s, row in enumerate(q_values):
        self._pi[s] = random_max(row, self.rng)
    return self._pi
''',
'SoftmaxActionSelector._get_pi': '''
def _get_pi(self, q_values:np.ndarray) -> np.ndarray:
    probabilities = self._get_pi_p(q_values)
    n_states, n_actions = self.get_nstates_actions(q_values)
    chosen = []
    for s in range(n_states):
        ps = probabilities[s]
        total = np.sum(ps)
        if total == 0:
            ps = np.full(n_actions, 1 / n_actions)
        else:
            ps = ps / total
        chosen.append(self.rng.choice(range(n_actions), p=ps))
    self._pi = np.array(chosen).astype(int)
    return self._pi
''',
}),
dict(id='base1', file=B, funcs={
'Algorithm.fit': '''
def fit(self, mdp:MDP, reward_function:np.ndarray, position:int, n_moves:Tuple[Tuple[int]]=None,  *args, **kwargs):
    reward_function = self._check_reward_function(mdp, reward_function)

    values, q_values = self._fit(mdp, reward_function, position, n_moves, *args, **kwargs)
    self._check_outputs(mdp, values, q_values)

    self.values, self.q_values = values, q_values
    self.fit_complete = True

@staticmethod
def _check_reward_function(mdp, reward_function):
    if not isinstance(reward_function, np.ndarray):
        raise TypeError('Reward function must be a 1D array or list, got type {0}'.format(reward_function))
    reward_function = reward_function.copy()
    if reward_function.ndim != 1:
        raise AttributeError("Reward function array must be 1-dimensional")
    if reward_function.shape[0] != mdp.n_features:
        raise AttributeError("Reward function should have as many entries as the MDP has features")
    return reward_function

@staticmethod
def _check_outputs(mdp, values, q_values):
    assert isinstance(values, np.ndarray), 'Values should be in the form of a numpy array'
    assert values.shape == (mdp.n_states, ), 'Value array should be 1-dimensional with an entry per state'
    assert isinstance(q_values, np.ndarray), 'Q values should be in the form of a numpy array'
    assert q_values.shape == (mdp.n_states, mdp.n_actions), 'Q values need a row per state and a column per action'
''',
'Null._fit': '''
def _fit(self, mdp:MDP, reward_function:np.ndarray, position, n_moves):
    return np.full(mdp.n_states, 1.0), np.full((mdp.n_states, mdp.n_actions), 1.0)
''',
}),
]
