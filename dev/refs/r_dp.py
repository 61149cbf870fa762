D='maMDP/algorithms/dynamic_programming.py'; P='maMDP/algorithms/policy_learning.py'; SR='maMDP/algorithms/successor_representation.py'; B='maMDP/algorithms/base.py'
REFS=[
dict(id='dp1', file=D, funcs={
'get_state_action_values': '''
def get_state_action_values(s:int, n_actions:int, sas:np.ndarray, reward:np.ndarray, 
                            discount:float, values:np.ndarray) -> np.ndarray:
    target = reward + discount*values
    action_values = np.zeros(n_actions)
    for a in range(n_actions):
        total = 0.0
        for sp in range(sas.shape[2]):
            total += sas[s, a, sp] * target[sp]
        action_values[a] = total
    return action_values
''',
'delta_update': '''
def delta_update(delta:float, old_v:float, new_v:float) -> float:
    change = np.abs(old_v - new_v)
    if change > delta:
        return change
    return delta
''',
'state_value_iterator': '''
def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray, 
                         discount:float, sas:np.ndarray, soft=False) -> Tuple[np.ndarray, float, np.ndarray]:
    n_states, n_actions, _ = sas.shape
    q_values = np.zeros((n_states, n_actions))
    for s in range(n_states):
        if np.isinf(values).any():
            print(values)
            raise ValueError
        previous = values[s]
        action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
        possible = sas[s].sum(axis=-1) > 0
        if not possible.any():
            values[s] = 0
        else:
            usable = action_values[possible]
            if soft:
                values[s] = np.log(np.exp(usable).sum() + 1e-200)
            else:
                values[s] = np.max(usable)
        q_values[s, :] = action_values
        delta = delta_update(delta, previous, values[s])
    return values, delta, q_values
''',
'solve_value_iteration': '''
def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_iter:int, 
                          discount:float, sas:np.ndarray, tol:float, soft=False) -> Tuple[np.ndarray, np.ndarray]:
    assert 0 < discount < 1, 'Discount must be between 0 and 1'
    n_states = sas.shape[0]
    n_actions = sas.shape[1]
    values_ = np.zeros(n_states)
    reward_ = np.dot(reward_function.astype(np.float64), features)
    for _ in range(max_iter):
        values_, delta_, q_values_ = state_value_iterator(values_, 0, reward_, discount, sas, soft)
        if delta_ < tol:
            break
    for s in range(n_states):
        for a in range(n_actions):
            if sas[s, a, :].sum() == 0:
                q_values_[s, a] = -np.inf
    return values_, q_values_
''',
'ValueIteration._fit': '''
def _fit(self, mdp:MDP, reward_function:np.ndarray, position, n_moves) -> Union[np.ndarray, np.ndarray]:
    weights = np.array(reward_function)
    return self._solve_value_iteration(weights, mdp.features, max_iter=self.max_iter, discount=self.discount, sas=mdp.sas, tol=self.tol)
'''}),
dict(id='dp2', file=D, funcs={
'get_state_action_values': '''
def get_state_action_values(s:int, n_actions:int, sas:np.ndarray, reward:np.ndarray, 
                            discount:float, values:np.ndarray) -> np.ndarray:
    returns = reward + discount * values
    return np.array([np.dot(sas[s, a, :], returns) for a in range(n_actions)])
''',
'delta_update': '''
def delta_update(delta:float, old_v:float, new_v:float) -> float:
    return max(delta, abs(new_v - old_v))
''',
'solve_value_iteration': '''
def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_iter:int, 
                          discount:float, sas:np.ndarray, tol:float, soft=False) -> Tuple[np.ndarray, np.ndarray]:
    if discount >= 1 or discount <= 0:
        raise AssertionError('Discount must be between 0 and 1')
    reward_ = np.dot(reward_function.astype(np.float64), features)
    values_ = np.zeros(sas.shape[0])
    delta_ = np.inf
    n_done = 0
    while n_done < max_iter and delta_ >= tol:
        values_, delta_, q_values_ = state_value_iterator(values_, 0.0, reward_, discount, sas, soft)
        n_done += 1
    return values_, mask_impossible(q_values_, sas)
'''}, edits=[(D, '''@njit(cache=True)
def delta_update(''', '''@njit(cache=True)
def mask_impossible(q_values, sas):
    impossible = sas.sum(axis=-1) == 0
    for s in range(q_values.shape[0]):
        for a in range(q_values.shape[1]):
            if impossible[s, a]:
                q_values[s, a] = -np.inf
    return q_values

@njit(cache=True)
def delta_update(''')]),
dict(id='dp3', file=D, edits=[(D,'''@njit(cache=True)
def state_value_iterator''','''def state_value_iterator'''),(D,'''@njit(cache=True)
def solve_value_iteration''','''def solve_value_iteration'''),(D,'''@njit(cache=True)
def get_state_action_values''','''def get_state_action_values''')], funcs={
'get_state_action_values': '''
def get_state_action_values(s:int, n_actions:int, sas:np.ndarray, reward:np.ndarray, 
                            discount:float, values:np.ndarray) -> np.ndarray:
    return sas[s] @ (reward + discount * values)
''',
'state_value_iterator': '''
def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray, 
                         discount:float, sas:np.ndarray, soft=False) -> Tuple[np.ndarray, float, np.ndarray]:
    n_states, n_actions = sas.shape[:2]
    q_values = np.zeros((n_states, n_actions))
    allowed = sas.sum(axis=-1) > 0
    for s in range(n_states):
        if np.any(np.isinf(values)):
            print(values)
            raise ValueError
        old = values[s]
        q_values[s, :] = get_state_action_values(s, n_actions, sas, reward, discount, values)
        best = q_values[s, allowed[s]]
        if best.size == 0:
            new = 0
        elif soft:
            new = np.log(np.sum(np.exp(best)) + 1e-200)
        else:
            new = best.max()
        values[s] = new
        delta = max(delta, np.abs(old - new))
    return values, delta, q_values
''',
'solve_value_iteration': '''
def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_iter:int, 
                          discount:float, sas:np.ndarray, tol:float, soft=False) -> Tuple[np.ndarray, np.ndarray]:
    assert discount < 1 and discount > 0, 'Discount must be between 0 and 1'
    values_ = np.zeros(sas.shape[0])
    reward_ = np.asarray(reward_function, dtype=float) @ features
    for _ in range(max_iter):
        values_, delta_, q_values_ = state_value_iterator(values_, 0, reward_, discount, sas, soft)
        if delta_ < tol:
            break
    q_values_[sas.sum(axis=-1) == 0] = -np.inf
    return values_, q_values_
'''}),
dict(id='pl1', file=P, funcs={
'degdist': '''
def degdist(x, y):
    wrapped = np.mod(x - y + 180, 360)
    return np.abs(wrapped - 180)
''',
'deg_sq_exp_kernel': '''
def deg_sq_exp_kernel(x, y, ls=1, variance=1):
    squared = degdist(x, y) ** 2
    exponent = -(squared / 2 * ls ** 2)
    return np.exp(exponent) * variance
''',
'TDGeneralPolicyLearner._fit_TD_policy': '''
def _trial_reward(self, n_actions, a):
    if self.kernel:
        width = 360 / n_actions
        return deg_sq_exp_kernel(np.arange(n_actions) * width, a * width, ls=self.ls)
    trial_reward = np.zeros(n_actions)
    trial_reward[a] = 1
    return trial_reward

def _fit_TD_policy(self, mdp:List[MDP], trajectories:List[List[int]]):
    if self.Q is None:
        self.Q = np.zeros(mdp[0].n_actions)
    self.n_states = 1  # Used for adjusting learning rate
    for m, trajectory in zip(mdp, trajectories):
        if not len(trajectory):
            continue
        state_action = m._trajectory_to_state_action(trajectory)
        for a in state_action[:, 1].astype(int):
            delta = self._trial_reward(m.n_actions, a) - self.Q
            rate = self.learning_rate
            if self.learning_rate_decay > 0:
                self._adjusted_learning_rate *= np.power(self.n_states, -self.learning_rate_decay)
                rate = self._adjusted_learning_rate
            self.Q += delta * rate
            self.n_states += 1
''',
'TDGeneralPolicyLearner.fit': '''
def fit(self, mdp:Union[MDP, List[MDP]], trajectories:list):
    if not isinstance(trajectories, list) and isinstance(trajectories[0], list):
        raise TypeError("Trajectories must be a list of lists - i.e. a list of trajectories, with each trajectory representing a list of states")
    if not isinstance(mdp, list):
        mdp = [mdp for _ in trajectories]
    elif len(trajectories) != len(mdp):
        raise AttributeError(f"Length of trajectory list ({len(trajectories)}) and MDP list ({len(mdp)}) do not match")
    self._fit_TD_policy(mdp, trajectories)
    self.fit_complete = True
''',
'TDGeneralPolicyLearner.reset': '''
def reset(self):
    self.reset_learning_rate()
    self.fit_complete = False
    self.Q = None if self.original_Q is None else self.original_Q.copy()
'''}),
dict(id='sr1', file=SR, funcs={
'get_sa_sr': '''
def get_sa_sr(sas: np.ndarray, gamma=0.95) -> np.ndarray:
    n_states, n_actions = sas.shape[0], sas.shape[1]
    size = n_states * n_actions
    sathing = np.zeros((size, size))
    for s in range(n_states):
        for a in range(n_actions):
            reached = np.where(sas[s, a, :])[0]
            if len(reached) == 0:
                continue
            first = reached[0] * n_actions
            row = s * n_actions + a
            sathing[row, first:first + n_actions] = 1 / n_actions
    return np.linalg.inv(np.eye(size) - gamma * sathing)
''',
'get_sr_q_values': '''
def get_sr_q_values(
    theta: np.ndarray,
    features: np.ndarray,
    sr: np.ndarray,
    sas: np.ndarray,
    n_states: int,
    n_actions: int,
) -> np.ndarray:
    assert (
        features.shape[-1] == n_states
    ), "Mismatch between features shape and number of states"
    reward = np.dot(theta, features)
    pair_reward = np.zeros(n_states * n_actions)
    for s in range(n_states):
        for a in range(n_actions):
            pair_reward[s * n_actions + a] = reward[s]
    qs = np.dot(sr, pair_reward).reshape((n_states, n_actions))
    for s in range(n_states):
        for a in range(n_actions):
            if np.sum(sas[s, a, :]) == 0:
                qs[s, a] = -np.inf
    return qs
'''}),
dict(id='base2', file=B, funcs={
'Algorithm.fit': '''
def fit(self, mdp:MDP, reward_function:np.ndarray, position:int, n_moves:Tuple[Tuple[int]]=None,  *args, **kwargs):
    self._check_reward_function(mdp, reward_function)
    values, q_values = self._fit(mdp, np.array(reward_function), position, n_moves, *args, **kwargs)
    self._check_values(mdp, values, q_values)
    self.values, self.q_values = values, q_values
    self.fit_complete = True

def _check_reward_function(self, mdp, reward_function):
    if not isinstance(reward_function, np.ndarray):
        raise TypeError('Reward function must be a 1D array or list, got type {0}'.format(reward_function))
    if reward_function.ndim != 1:
        raise AttributeError("Reward function array must be 1-dimensional")
    if reward_function.shape[0] != mdp.n_features:
        raise AttributeError("Reward function should have as many entries as the MDP has features")

def _check_values(self, mdp, values, q_values):
    assert isinstance(values, np.ndarray), 'Values should be in the form of a numpy array'
    assert values.shape == (mdp.n_states,), 'Value array should be 1-dimensional, with as many entries as the MDP has states'
    assert isinstance(q_values, np.ndarray), 'Q values should be in the form of a numpy array'
    assert q_values.shape == (mdp.n_states, mdp.n_actions), 'Q value array should be states by actions'
''',
'Algorithm.reset': '''
def reset(self):
    self.values = self.q_values = None
    self.fit_complete = False
    self._reset()
'''}),
]
