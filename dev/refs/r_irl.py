I='maMDP/algorithms/irl.py'; M='maMDP/algorithms/mcts.py'; O='maMDP/env_io.py'
REFS=[
dict(id='irl1', file=I, funcs={
'zscore_nb': '''
def zscore_nb(x):
    xnew = np.zeros_like(x)
    for i in range(x.shape[1]):
        column = np.where(np.isinf(x[:, i]), np.nan, x[:, i])
        x[:, i] = column
        xnew[:, i] = (column - np.nanmean(column)) / np.nanstd(column)
    return xnew
''',
'demean': '''
def demean(x):
    xnew = x.copy()
    for i in range(x.shape[1]):
        xnew[:, i] -= x[:, i].mean()
    return xnew
''',
'state_visitation_iterator': '''
def state_visitation_iterator(sas:np.ndarray, n_iter:int, pi:np.ndarray, p_zero:np.ndarray) -> np.ndarray:
    n_states, n_actions, _ = sas.shape
    visits = np.zeros(n_states)
    for _ in range(n_iter):
        updated = p_zero.copy()
        for s in range(n_states):
            for a in range(n_actions):
                updated += visits[s] * pi[s, a] * sas[s, a]
        visits = updated
    return visits
''',
'MaxCausalEntIRL._get_state_visitation_frequencies': '''
def _get_state_visitation_frequencies(self, mdp, trajectories, pi, n_iter):
    counts = np.zeros(mdp.n_states)
    for first, *_ in trajectories:
        counts[first] += 1
    self.D_ = state_visitation_iterator(mdp.sas, n_iter, pi, counts / counts.sum())
''',
'MaxCausalEntIRL._maxcausalent_innerloop': '''
def _maxcausalent_innerloop(self, mdp, theta, trajectories):
    self.q_values = self._solve_value_iteration(theta, mdp.features, self.max_iter, self.discount, mdp.sas, self.tol, self.soft)[1]
    pi = self.action_selector.get_pi_p(self.q_values)
    self._get_state_visitation_frequencies(mdp, trajectories, pi, self.max_iter)
    return np.dot(mdp.features, self.D_).astype(float)
''',
'MaxCausalEntIRL._solve_maxcausalent': '''
def _observed_features(self, mdp, trajectories):
    visited_states = np.zeros(mdp.n_states)
    for t in trajectories:
        weight = 1 / len(t)
        for s in t:
            visited_states[s] += weight
    visited_states /= len(trajectories)
    return (mdp.features * visited_states).sum(axis=1).astype(float)

def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
    ignored = list(ignore_features)
    true_F = self._observed_features(mdp, trajectories)
    true_F[ignored] = 0
    if self.theta is None:
        self.theta = np.zeros(mdp.n_features)
    self.theta[ignored] = 0
    self.error_history = []
    pb = range(self.max_iter_irl)
    if show_progress:
        pb = progress_bar(pb)
    for i in pb:
        deltaF = self._maxcausalent_innerloop(mdp, self.theta, trajectories)
        deltaF[ignored] = 0
        error = true_F - deltaF
        self.error_history.append(error)
        if self.learning_rate_decay == 0:
            step = self.learning_rate
        else:
            shrink = np.power(i + 1, -float(self.learning_rate_decay))
            self.learning_rate *= shrink
            step = self.learning_rate * shrink
        self.theta += step * error
        mean_abs_error = np.abs(error).mean()
        if show_progress:
            pb.comment = f'| Error = {mean_abs_error}'
        if mean_abs_error < self.tol:
            print(f"Converged after {i} iterations")
            break
    if not np.mean(error) < self.tol:
        warnings.warn('Solver did not converge', Warning)
''',
'MFFeatureMatching.fit': '''
def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:List[int]=[]):
    if len(trajectories[0]) == 0:
        raise TypeError("Trajectories must be a list of lists - i.e. a list of trajectories, with each trajectory representing a list of states")
    if isinstance(mdp, list):
        if len(trajectories) != len(mdp):
            raise AttributeError("Length of trajectory list ({0}) and MDP list ({1}) do not match".format(len(trajectories), len(mdp)))
        mdps = mdp
    else:
        mdps = [mdp] * len(trajectories)
    theta = np.zeros(mdps[0].n_features)
    for m, t in zip(mdps, trajectories):
        theta += m.features[:, t[1:]].sum(axis=1)
    theta[ignore_features] = 0
    self.theta = theta
    return self.theta
''',
'state_pair_to_action': '''
def state_pair_to_action(mdp, s1, s2):
    likelihood = mdp.sas[s1, :, s2]
    if not np.max(likelihood) > 0:
        raise AttributeError("States are not adjacent")
    return np.argmax(likelihood)
''',
'get_eyeline_features': '''
def get_eyeline_features(mdp, current_state, action):
    states = []
    while True:
        states.append(current_state)
        reached = mdp.sas[current_state, action, :]
        if np.max(reached) <= 0:
            break
        following = np.argmax(reached)
        if following in states:
            break
        current_state = following
    return mdp.features[:, states].sum(axis=1)
''',
'get_trajectory_eyeline_features': '''
def get_trajectory_eyeline_features(mdp, trajectories, normalise=True):
    feature_counts = np.zeros(mdp.n_features)
    for trajectory in trajectories:
        for state, next_state in zip(trajectory[:-1], trajectory[1:]):
            action = state_pair_to_action(mdp, state, next_state)
            feature_counts += get_eyeline_features(mdp, state, action)
    if normalise and np.any(feature_counts != 0):
        feature_counts = feature_counts / np.sum(feature_counts)
    return feature_counts
''',
'get_trajectory_eyeline_features_diff': '''
def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
    chosen = np.zeros(mdp.n_features)
    unchosen = np.zeros(mdp.n_features)
    for trajectory in trajectories:
        for state, next_state in zip(trajectory[:-1], trajectory[1:]):
            chosen_action = state_pair_to_action(mdp, state, next_state)
            for action in range(mdp.n_actions-1):
                seen = get_eyeline_features(mdp, state, action)
                if action == chosen_action:
                    chosen += seen
                else:
                    unchosen += seen
    if not normalise:
        return chosen - unchosen
    for counts in (chosen, unchosen):
        if not np.all(counts == 0):
            counts /= counts.sum()
    return chosen - unchosen
''',
'SimpleActionIRL.fit': '''
def fit(self, mdp, trajectories, reset=True):
    if reset or self.theta is None:
        self.theta = np.zeros(mdp[0].n_features)
    for m, trajectory in zip(mdp, trajectories):
        self.theta += get_trajectory_eyeline_features(m, [trajectory])
    return self.theta
'''}),
dict(id='hyp1', file=I, funcs={
'HyptestIRL._single_move': '''
def _feature_q_values(self, sas, features, exclude_features):
    n_features = features.shape[0]
    V = np.zeros_like(features.T)
    Q = np.full(sas.shape[:2] + (n_features, ), np.nan)
    for f in range(n_features):
        if f in exclude_features:
            continue
        reward_weights = np.zeros(n_features)
        reward_weights[f] = 1
        V[:, f], Q[..., f] = solve_value_iteration(reward_weights, features, self.max_iter, self.discount, sas, self.tol, self.soft)
    return Q

def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
                features:np.ndarray, exclude_features:List=[]) -> Union[np.ndarray, np.ndarray]:
    leading = np.flatnonzero(sas[start, :, next_state])
    if len(leading) == 0:
        raise ValueError(f'State {start} and state {next_state} are not adjacent')
    next_action = leading[0]
    Q = q_values if q_values is not None else self._feature_q_values(sas, features, exclude_features)
    state_Q = Q[start, ...].copy()
    actions = get_actions_states(sas, start)[1]
    if self.normalisation == 'relative':
        raise NotImplementedError
    if self.normalisation == 'z-score':
        state_Q[actions, :] = zscore_nb(state_Q[actions, :])
    return state_Q[next_action], Q
''',
'HyptestIRL._solve_hyptest': '''
def _solve_hyptest(self, mdp:List[MDP], trajectories:List[List[int]], ignore_features:List[int]=[], show_progress:bool=True):
    if len(trajectories) != len(mdp):
        raise ValueError("Must provide same number of trajectories and MDPs, got {0} and {1}".format(len(trajectories), len(mdp)))
    assert all(m.sas.shape == mdp[0].sas.shape for m in mdp)
    assert all(m.features.shape == mdp[0].features.shape for m in mdp)
    n_features = mdp[0].features.shape[0]
    R_ = self.theta if self.theta is not None else np.zeros(n_features)
    learning_rate = np.full(n_features, self.learning_rate, dtype=float)
    Rs, observed_Rs = [], []
    t = range(len(trajectories))
    if show_progress:
        t = progress_bar(t)
    n_states = 1
    for n in t:
        m, trajectory = mdp[n], trajectories[n]
        q_values = None
        for s, s_next in zip(trajectory[:-1], trajectory[1:]):
            R, q_values = self._single_move(s, s_next, m.sas, q_values, m.features, ignore_features)
            delta = R - R_
            lr = learning_rate
            if self.learning_rate_decay > 0:
                abs_delta = np.abs(R) - np.abs(R_)
                lr = learning_rate.copy()
                lr[abs_delta < 0] *= self.asymmetry
                lr[abs_delta >= 0] /= self.asymmetry
                lr = lr * np.power(n_states, -float(self.learning_rate_decay))
            R_ += lr * delta
            Rs.append(R_.copy())
            n_states += 1
        observed_Rs.append(R_.copy())
    self.theta = R_
    self.theta_array = np.stack(Rs)
    self.trajectory_theta = np.stack(observed_Rs)
'''}),
dict(id='mcts1', file=M, funcs={
'rand_choice_nb': '''
def rand_choice_nb(arr, p):
    cumulative = np.cumsum(p / p.sum())
    drawn = np.searchsorted(cumulative, np.random.random(), side="right")
    return arr[drawn]
''',
'get_actions_states': '''
def get_actions_states(sas, current_node):
    actions_states = np.argwhere(sas[current_node])
    return actions_states, actions_states[:, 0], actions_states[:, 1]
''',
'UCB': '''
def UCB(
    V: np.ndarray, N: np.ndarray, states: List[int], C: float, node: int
) -> np.ndarray:
    visits = 1 + N[states]
    exploitation = V[states] / visits
    exploration = np.sqrt((2 * np.log(max(N[node], 1))) / visits)
    return exploitation + C * exploration
''',
'MCTS_next_node': '''
def MCTS_next_node(
    expand: bool, V: np.ndarray, N: np.ndarray, states: List[int], C, current_node
) -> Union[int, bool]:
    if not expand:
        return np.random.choice(states), False
    unexplored = states[N[states] == 0]
    if len(unexplored) > 0:
        return np.random.choice(unexplored), False
    ucb = UCB(V, N, states, C, current_node)
    return states[np.argmax(ucb)], True
''',
'check_agent_overlap': '''
def check_agent_overlap(
    consumes_agents: Tuple[Tuple[int]],
    current_node: np.ndarray,
    caught_cost: float,
    agents_active: np.ndarray,
    agent_values: Tuple[float],
) -> Union[float, np.ndarray, bool]:
    added_reward = 0.0
    for eater in range(consumes_agents.shape[0]):
        for eaten in range(consumes_agents.shape[1]):
            if not consumes_agents[eater, eaten]:
                continue
            if not (agents_active[eater] and agents_active[eaten]):
                continue
            if current_node[eater] != current_node[eaten]:
                continue
            agents_active[eaten] = False
            if eaten == 0:
                return added_reward + caught_cost, agents_active, True
            if eater == 0:
                added_reward += agent_values[eaten]
    return added_reward, agents_active, False
''',
'get_agent_values': '''
def get_agent_values(
    agents: List[int],
    agent_idx: Dict[int, str],
    primary_agent_reward_function: np.ndarray,
) -> Dict[str, float]:
    agent_values = np.zeros(len(agents))
    for feature, agent in agent_idx.items():
        if agent != 0 and agent in agents:
            agent_values[agent] = primary_agent_reward_function[feature]
    return tuple(agent_values)
''',
'get_agent_consumes': '''
def get_agent_consumes(consumes_features: np.ndarray, agent_idx: Dict[int, str]):
    n_agents = len(consumes_features)
    consumes_agents = np.zeros((n_agents, n_agents), dtype=bool)
    for eater in range(n_agents):
        for feature, eaten in agent_idx.items():
            if consumes_features[eater, feature]:
                consumes_agents[eater, eaten] = True
    return consumes_agents
''',
'get_MCTS_action_values': '''
def get_MCTS_action_values(node: int, sas: np.ndarray, V: np.ndarray, N: np.ndarray):
    actions_states = np.argwhere(sas[node, :, :])
    actions, states = actions_states[:, 0], actions_states[:, 1]
    return actions, V[states] / (N[states] + 1), states
'''}),
dict(id='mcts2', file=M, funcs={
'extract_agent_info': '''
def extract_agent_info(
    agent_info: Dict[str, Tuple[int, int, List[int], np.ndarray, int]]
):
    agent_idx = {}
    consumes_features = []
    positions, n_moves, reward_functions = [], [], []
    for n, (position, moves, eats, reward_function, feature_idx) in enumerate(agent_info.values()):
        agent_idx[feature_idx] = n
        positions.append(position)
        n_moves.append(moves)
        consumed = np.zeros(len(reward_function), dtype=bool)
        consumed[eats] = True
        consumes_features.append(consumed)
        reward_functions.append(reward_function)
    return agent_idx, np.array(positions), n_moves, np.stack(consumes_features), np.stack(reward_functions)
''',
'mcts_iteration': '''
def mcts_iteration(
    interactive: bool,
    V: np.ndarray,
    N: np.ndarray,
    sas: np.ndarray,
    sr: np.ndarray,
    features: np.ndarray,
    current_node: np.ndarray,
    cached_q_values: List[Dict[Tuple, np.ndarray]],
    n_moves: List[List[int]], 
    consumes_agents: np.ndarray,
    consumes_features: np.ndarray,
    agent_values: Tuple[float],
    reward_functions: np.ndarray,
    agent_feature_idx: List[int],
    C: float,
    caught_cost: float = -50,
    opponent_policy_method: str = "solve",
    opponent_algorithm: str = "value_iteration",
    opponent_action_selection: str = "max",
    softmax_temperature: float = 1,
    caching: bool = False,
    return_other_agent_states: bool = False,
    verbose: bool = False,
    VI_max_iter: int = 500,
    VI_discount: float = 0.9,
    VI_tol: float = 1e-4
) -> Union[float, List[int]]:
    n_agents = len(current_node)
    n_steps = sum(sum(n) for n in n_moves)
    expand = True
    accumulated_reward = 0
    visited_states = []
    current_node = current_node.copy()
    features = features.copy()
    other_agent_visited_states = [[] for _ in range(n_agents - 1)]
    current_moves = np.zeros(n_agents)
    current_turns = np.zeros(n_agents, dtype=int)
    agents_active = np.ones(n_agents, dtype=np.bool_)
    consumed_features = [()] * features.shape[0]
    agent_preferences = [np.where(rf != 0)[0].tolist() for rf in reward_functions]
    total_steps = 0
    actor = 0

    while total_steps < n_steps:
        moves_this_turn = n_moves[actor][current_turns[actor]]
        if moves_this_turn > 0:
            row = agent_feature_idx[actor]
            features[row, :] = 0
            features[row, current_node[actor]] = 1
            if interactive:
                added_reward, agents_active, caught = check_agent_overlap(
                    consumes_agents, current_node, caught_cost, agents_active, agent_values
                )
                accumulated_reward += added_reward
                if caught:
                    return accumulated_reward, visited_states, cached_q_values, other_agent_visited_states
            states = get_actions_states(sas, current_node[actor])[2]
            if actor == 0:
                rewards = np.dot(reward_functions[0].astype(np.float64), features)
                node, expand = MCTS_next_node(expand, V, N, states, C, current_node[0])
                current_node[0] = node
                visited_states.append(current_node[0])
                accumulated_reward += rewards[current_node[0]]
            elif interactive and agents_active[actor]:
                q_values = None
                key = None
                if caching:
                    key = (
                        tuple(np.delete(current_node, actor)),
                        tuple(consumed_features[f] for f in agent_preferences[actor]),
                    )
                    if key in cached_q_values[actor]:
                        q_values = cached_q_values[actor][key]
                known = q_values is not None
                current_node[actor], q_values = get_opponent_next_state(
                    opponent_policy_method,
                    states,
                    current_node[actor],
                    reward_functions[actor, :],
                    features,
                    sas,
                    sr,
                    opponent_algorithm,
                    opponent_action_selection,
                    softmax_temperature,
                    max_iter=VI_max_iter,
                    discount=VI_discount,
                    tol=VI_tol,
                    q_values=q_values,
                )
                if caching and not known:
                    cached_q_values[actor][key] = q_values
                if return_other_agent_states:
                    other_agent_visited_states[actor - 1].append(current_node[actor])
            if agents_active[actor]:
                here = current_node[actor]
                if caching:
                    for f in np.where(consumes_features[actor, :])[0]:
                        if features[f, here] != 0:
                            consumed_features[f] += (here,)
                features[consumes_features[actor, :], here] = 0
            current_moves[actor] += 1
            total_steps += 1
        if interactive and current_moves[actor] == moves_this_turn:
            current_moves[actor] = 0
            current_turns[actor] += 1
            actor = (actor + 1) % n_agents
    return accumulated_reward, visited_states, cached_q_values, other_agent_visited_states
'''}),
dict(id='mcts3', file=M, funcs={
'get_opponent_next_state': '''
def get_opponent_next_state(
    opponent_policy_method: str,
    states: list,
    current_state: int,
    reward_function: np.ndarray,
    features: np.ndarray,
    sas: np.ndarray,
    sr,
    algorithm: str = "value_iteration",
    action_selection: str = "max",
    softmax_temperature: float = 1,
    max_iter: int = 500,
    discount: float = 0.9,
    tol: float = 1e-4,
    q_values: np.ndarray = None,
) -> Union[int, np.ndarray]:
    if opponent_policy_method == "random":
        next_state = np.random.choice(states)
    elif opponent_policy_method == "solve":
        if q_values is None:
            if algorithm == "sr":
                raise NotImplementedError
            if algorithm != "value_iteration":
                raise ValueError(
                    'Unknown algorithm, must be one of "value_iteration" or "sr"'
                )
            _, q_values = solve_value_iteration(
                reward_function, features, max_iter, discount, sas, tol
            )
        row = q_values[current_state, :]
        if action_selection == "max" or softmax_temperature == 0:
            action = np.random.choice(np.where(row == np.max(row))[0])
        elif action_selection == "softmax":
            action_p = softmax(row, temperature=softmax_temperature)
            action = rand_choice_nb(np.arange(len(action_p)), p=action_p)
        else:
            raise NotImplementedError
        next_state = np.argmax(sas[current_state, action, :])
    else:
        raise NotImplementedError
    assert np.any(
        sas[current_state, :, next_state] > 0
    ), "Next state is not reachable from current state"
    return next_state, q_values
''',
'MCTS.create_agent_info': '''
def create_agent_info(
    self, reward_function: np.ndarray, interactive: bool, mdp: MDP
) -> Union[Dict, Dict]:
    def describe(agent, weights):
        return (agent.position, agent.n_moves, agent.consumes, weights, agent.agent_feature_idx)

    me = self._agent
    agent_info = {me.name: describe(me, reward_function)}
    if not interactive:
        return agent_info, {}
    opponent_info = {
        name: describe(agent, agent.reward_function)
        for name, agent in self._environment.agents.items()
        if name != me.name
    }
    return agent_info, opponent_info
''',
'x': ''}) if False else dict(id='mcts3', file=M, funcs={
'get_opponent_next_state': '''
def get_opponent_next_state(
    opponent_policy_method: str,
    states: list,
    current_state: int,
    reward_function: np.ndarray,
    features: np.ndarray,
    sas: np.ndarray,
    sr,
    algorithm: str = "value_iteration",
    action_selection: str = "max",
    softmax_temperature: float = 1,
    max_iter: int = 500,
    discount: float = 0.9,
    tol: float = 1e-4,
    q_values: np.ndarray = None,
) -> Union[int, np.ndarray]:
    if opponent_policy_method == "random":
        next_state = np.random.choice(states)
    elif opponent_policy_method == "solve":
        if q_values is None:
            if algorithm == "value_iteration":
                q_values = solve_value_iteration(
                    reward_function, features, max_iter, discount, sas, tol
                )[1]
            elif algorithm == "sr":
                raise NotImplementedError
            else:
                raise ValueError(
                    'Unknown algorithm, must be one of "value_iteration" or "sr"'
                )
        row = q_values[current_state, :]
        if action_selection == "max" or softmax_temperature == 0:
            action = np.random.choice(np.where(row == np.max(row))[0])
        elif action_selection == "softmax":
            action_p = softmax(row, temperature=softmax_temperature)
            action = rand_choice_nb(np.arange(len(action_p)), p=action_p)
        else:
            raise NotImplementedError
        next_state = np.argmax(sas[current_state, action, :])
    else:
        raise NotImplementedError
    assert np.any(
        sas[current_state, :, next_state] > 0
    ), "Next state is not reachable from current state"
    return next_state, q_values
''',
'MCTS.create_agent_info': '''
def create_agent_info(
    self, reward_function: np.ndarray, interactive: bool, mdp: MDP
) -> Union[Dict, Dict]:
    def describe(agent, weights):
        return (agent.position, agent.n_moves, agent.consumes, weights, agent.agent_feature_idx)

    me = self._agent
    agent_info = {me.name: describe(me, reward_function)}
    if not interactive:
        return agent_info, {}
    opponent_info = {
        name: describe(agent, agent.reward_function)
        for name, agent in self._environment.agents.items()
        if name != me.name
    }
    return agent_info, opponent_info
''',
'solve_all_value_iteration': '''
def solve_all_value_iteration(
    sas,
    predator_reward_function,
    features,
    prey_index,
    max_iter=None,
    tol=None,
    discount=None,
):
    n_states, n_actions = sas.shape[0], sas.shape[1]
    all_q_values = np.zeros((n_states, n_states, n_actions))
    for prey_state in range(n_states):
        features[prey_index, :] = 0
        features[prey_index, prey_state] = 1
        _, q_values = solve_value_iteration(
            predator_reward_function,
            features,
            max_iter,
            discount,
            sas,
            tol,
        )
        all_q_values[prey_state, :, :] = q_values
    return all_q_values
'''}),
dict(id='io1', file=O, funcs={
'hex_env_to_dict': '''
def _states(mdp, flags, format):
    states = np.where(flags)
    if format == 'index':
        return states[0].astype(int).tolist()
    return np.stack(mdp.state_to_idx(states)).T.squeeze().astype(int).tolist()


def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index') -> Dict:
    mdp = env.mdp
    n_plain = mdp.n_features - len(env.agents)
    if feature_names is None:
        feature_names = mdp.feature_names[:n_plain]
    if len(feature_names) != n_plain:
        raise AttributeError('Number of feature names should equal number of features, excluding agents')

    env_dict = {
        'size': list(mdp.shape),
        'features': {name: _states(mdp, mdp.features[f, :], format) for f, name in enumerate(feature_names)},
        'walls': _states(mdp, mdp.walls, format),
        'type': 'hex',
        'self_transitions': mdp.self_transitions,
        'agents': [],
    }
    for agent_name, agent in env.agents.items():
        info = {}
        if format == 'index':
            info['position'] = agent.position
        elif format == 'coords':
            info['position'] = [[int(i) for i in mdp.state_to_idx(agent.position)]]
        info.update(
            n_moves=agent.n_moves,
            reward_function=agent.reward_function.tolist(),
            consumes=agent.consumes,
            algorithm=agent.algorithm.name,
            algorithm_kwargs=agent.algorithm_kwargs,
            action_selector=agent.action_selector.name,
            action_kwargs=agent.action_kwargs,
        )
        env_dict['agents'].append({agent_name: info})
    return env_dict
''',
'hex_environment_from_dict': '''
def hex_environment_from_dict(env_dict, feature_names=[]):
    if env_dict['type'] != 'hex':
        raise NotImplementedError()

    names = feature_names if len(feature_names) else list(env_dict['features'])
    n_states = np.product(env_dict['size'])
    features = np.zeros((len(env_dict['features']), n_states))
    for n, f in enumerate(names):
        features[n, env_dict['features'][f]] = 1
    walls = np.zeros(n_states)
    walls[env_dict['walls']] = 1
    mdp = HexGridMDP(features=features, walls=walls, shape=tuple(env_dict['size']), 
                     self_transitions=env_dict['self_transitions'])

    algorithms = {'value_iteration': ValueIteration}
    selectors = {'max': MaxActionSelector, 'softmax': SoftmaxActionSelector}
    agent_dict = {}
    for agent in env_dict['agents']:
        (agent_name, info), = agent.items()
        if info['algorithm'] not in algorithms or info['action_selector'] not in selectors:
            raise NotImplementedError
        new_agent = Agent(agent_name, n_moves=info['n_moves'],
                          algorithm=algorithms[info['algorithm']], algorithm_kwargs=info['algorithm_kwargs'],
                          action_selector=selectors[info['action_selector']], action_kwargs=info['action_kwargs'])
        agent_dict[new_agent] = (info['position'], info['reward_function'], info['consumes'])
    return Environment(mdp, agent_dict)
''',
'hex_env_to_json': '''
def hex_env_to_json(env:Environment, feature_names:List, return_string=False, fname=None) -> str:
    json_dict = hex_env_to_dict(env, feature_names)
    if fname is not None:
        with open(fname, 'w') as f:
            json.dump(json_dict, f)
    return json.dumps(json_dict) if return_string else None
'''}),
]
