M='maMDP/mdp.py'; G='maMDP/grid_utils.py'
REFS=[
dict(id='mdp1', file=M, edits=[
("""        if  not sas.ndim == 3 or not sas.shape[0] == sas.shape[2]:
            raise TypeError('SAS should be a numpy array of shape (states, actions, states)')

        if np.min(sas) < 0 or np.max(sas) > 1:
            raise AttributeError('SAS should contain probabilities between 0 and 1,'
                                 'min value provided = {0}, max value provided = {1}'.format(np.min(sas), np.max(sas)))

        # If transitions are between 0 and 1 this is not a deterministic MDP
        if np.any((sas > 0) & (sas < 1)):
            self._deterministic = False
        else:
            self._deterministic = True

        # Get adjacency
        self.adjacency = (np.sum(sas, axis=1) > 0).astype(int)
        self.n_states = sas.shape[0]
        self.n_actions = sas.shape[1]
        self.__sas = sas
""","""        self._check_transition_table(sas)

        # If transitions are between 0 and 1 this is not a deterministic MDP
        strictly_between = np.logical_and(sas > 0, sas < 1)
        self._deterministic = not strictly_between.any()

        self.n_states, self.n_actions, _ = sas.shape

        # Get adjacency
        self.adjacency = np.where(sas.sum(axis=1) > 0, 1, 0)
        self.__sas = sas

    def _check_transition_table(self, table):
        if table.ndim != 3 or table.shape[0] != table.shape[2]:
            raise TypeError('SAS should be a numpy array of shape (states, actions, states)')

        lowest, highest = table.min(), table.max()
        if lowest < 0 or highest > 1:
            raise AttributeError(f'SAS should contain probabilities between 0 and 1,'
                                 f'min value provided = {lowest}, max value provided = {highest}')
"""),
("""        # Reset SAS
        sas = self.__original_sas.copy()

        # Add array
        self.__walls = walls

        # Adjust SAS
        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states

        # Assign once complete so that adjacency etc. describe the walled transitions
        self.sas = sas
""","""        # Adjust SAS
        blocked = walls == 1
        open_states = ~blocked
        sas = self.__original_sas * open_states[:, None, None] * open_states[None, None, :]

        # Assign once complete so that adjacency etc. describe the walled transitions
        self.sas = sas
        self.__walls = walls
"""),
("""        self.n_agents += 1

        agent_features = np.zeros((self.n_states))
        agent_features[position] = 1

        self.features = np.vstack([self.features, agent_features[None, :]])
""","""        self.n_agents = self.n_agents + 1

        row = np.zeros((1, self.n_states))
        row[0, position] = 1

        self.features = np.concatenate((self.features, row), axis=0)
"""),
("""        updated_features = self.features

        updated_features[(self.n_features - self.n_agents) + agent_idx, :] = 0
        updated_features[(self.n_features - self.n_agents) + agent_idx, position] = 1

        self.__feature_array = updated_features      
""","""        row = self.n_features - self.n_agents + agent_idx
        new_row = np.zeros(self.n_states)
        new_row[position] = 1
        self.__feature_array[row] = new_row
"""),
("""        for f in feature_idx:
            if self.__feature_array[f, state_id] > 0:
                self.__feature_array[f, state_id] = 0
                consumed[f] += 1

        return consumed
""","""        for f in feature_idx:
            if not self.__feature_array[f, state_id] > 0:
                continue
            consumed[f] += 1
            self.__feature_array[f][state_id] = 0

        return consumed
"""),
("""        if not np.any(possible_states > 0):
            raise ValueError('Action {0} is not possible in state {1}'.format(action, current_state))

        if self._deterministic:
            next_state = np.argmax(possible_states)
        else:
            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)

        return next_state
""","""        if (possible_states <= 0).all():
            raise ValueError(f'Action {action} is not possible in state {current_state}')

        if self._deterministic:
            return possible_states.argmax()

        return self.rng.choice(len(possible_states), p=possible_states)
"""),
("""        sa_pairs = np.zeros((len(trajectory) - 1, 2))

        for n, state in enumerate(trajectory[:-1]): # Exclude the final state because there is no action taken
            sa_pairs[n, 0] = state
            sa_pairs[n, 1] = self._state_pair_to_action(state, trajectory[n+1])[0]
            sa_pairs[n, 1] = np.argmax(self.sas[state, :, trajectory[n+1]])

        return sa_pairs
""","""        sa_pairs = np.zeros((len(trajectory) - 1, 2))

        for n, (state, following) in enumerate(zip(trajectory[:-1], trajectory[1:])):
            action, = self._state_pair_to_action(state, following)
            sa_pairs[n, :] = state, action

        return sa_pairs
"""),
("""        if np.max(possible_actions) > 0:
            if return_max:
                return [np.argmax(possible_actions)]
            else:
                return list(np.where(possible_actions > 0)[0])
        else:
            raise AttributeError("States are not adjacent")
""","""        if not (possible_actions > 0).any():
            raise AttributeError("States are not adjacent")
        if return_max:
            return [possible_actions.argmax()]
        return [a for a in range(self.n_actions) if possible_actions[a] > 0]
"""),
("""        return np.any(self.sas[s1, :, s2] > 0)
""","""        return (self.sas[s1, :, s2] > 0).any()
"""),
("""        return np.where(self.sas[state, ...].any(axis=-1))[0]
""","""        possible = np.any(self.sas[state], axis=1)
        return np.flatnonzero(possible)
"""),
]),
dict(id='mdp2', file=M, edits=[
("""        if walls is not None:
            self.walls = walls
        else:
            self.walls = np.zeros(self.sas.shape[0])

        # Set RNG
        if seed is not None:
            self.rng = np.random.default_rng(seed=seed)
        else:
            self.rng = np.random
""","""        self.rng = np.random if seed is None else np.random.default_rng(seed)
        self.walls = np.zeros(self.n_states) if walls is None else walls
"""),
("""        return values.reshape((self.shape), order='C')
""","""        return np.reshape(values, self.shape)
"""),
("""        return self.features.reshape(((self.n_features, ) +  self.shape), order='C')
""","""        return np.stack([self.flat_to_grid(row) for row in self.features])
"""),
("""        return np.unravel_index(state, self.shape)
""","""        return divmod(state, self.shape[1])
"""),
("""        return np.ravel_multi_index(idx, self.shape)
""","""        x, y = idx
        return x * self.shape[1] + y
"""),
("""        new_walls = self.walls.copy()

        for i in [x, y]:
            if not isinstance(i, tuple) and not isinstance(i, list):
                raise TypeError("X and Y should be provided as tuples or lists")

        if len(x) == 2:
            x = range(*x)
        if len(y) == 2:
            y = range(*y)

        for x_id in x:
            for y_id in y:
                new_walls[self.idx_to_state((x_id, y_id))] = 1

        self.walls = new_walls
""","""        xs, ys = self._expand_range(x), self._expand_range(y)

        new_walls = np.array(self.walls)
        cells = [self.idx_to_state((i, j)) for i in xs for j in ys]
        for cell in cells:
            new_walls[cell] = 1

        self.walls = new_walls

    @staticmethod
    def _expand_range(i):
        if not isinstance(i, (tuple, list)):
            raise TypeError("X and Y should be provided as tuples or lists")
        return range(i[0], i[1]) if len(i) == 2 else i
"""),
("""        n_actions = 4
        if self.self_transitions:
            n_actions += 1

        # Get adjacency matrix
        _, grid_idx = grid_coords(self.grid)
        adjacency = square_adjacency(grid_idx)
        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            for j in range(n_states):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_square(i, j, adjacency, self.grid_coords)
                    sas[i, action, j] = 1
            if self.self_transitions:
                sas[i, -1, i] = 1

        return sas
""","""        n_actions = 5 if self.self_transitions else 4

        # Get adjacency matrix
        adjacency = square_adjacency(self.grid_coords)
        n_states = self.shape[0] * self.shape[1]

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            if self.self_transitions:
                sas[i, n_actions - 1, i] = 1
            for j in range(n_states):
                if adjacency[i, j] != 1:
                    continue
                sas[i, get_action_from_states_square(i, j, adjacency, self.grid_coords), j] = 1

        return sas
"""),
("""        # Get adjacency matrix
        _, grid_idx = grid_coords(self.grid)
        adjacency = hex_adjacency(grid_idx)
        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            for j in range(n_states):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_hex(i, j, adjacency, self.grid_coords)
                    sas[i, action, j] = 1
            if self.self_transitions:
                sas[i, -1, i] = 1

        return sas
""","""        # Get adjacency matrix
        _, grid_idx = grid_coords(self.grid)
        adjacency = hex_adjacency(grid_idx)
        n_states = self.grid.size

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for start in range(n_states):
            for end in np.where(adjacency[start] == 1)[0]:
                action = get_action_from_states_hex(start, end, adjacency, self.grid_coords)
                sas[start, action, end] = 1

        if self.self_transitions:
            for start in range(n_states):
                sas[start, -1, start] = 1

        return sas
"""),
("""        idx = self.state_to_idx(state)
        idx = self.coords[:, idx[0], idx[1]]
        
        return idx
""","""        x, y = self.state_to_idx(state)
        return self.coords[:, x, y]
"""),
("""        # Plot features
        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)

        # Plot walls
        ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)

        return ax
""","""        n_plain = self.n_features - self.n_agents
        ax = plot_grids(self.features_as_grid()[:n_plain], colours, alphas, *args, **kwargs)
        walls = self.flat_to_grid(self.walls)

        return plot_grids(walls[np.newaxis], [wall_colour], [1], ax=ax)
"""),
]),
dict(id='grid1', file=G, edits=[
("""    grid_idx = np.array(np.where(~np.isnan(state_grid))).T
    grid_state_id = list(range(grid_idx.shape[0]))
""","""    grid_idx = np.argwhere(~np.isnan(state_grid))
    grid_state_id = [i for i in range(len(grid_idx))]
"""),
("""    ac = offset_to_cube(x1,y1)
    bc = offset_to_cube(x2,y2)
    f = cube_distance(ac, bc)

    return f
""","""    return cube_distance(offset_to_cube(x1, y1), offset_to_cube(x2, y2))
"""),
("""    return (np.abs(a[0] - b[0]) + np.abs(a[1] - b[1]) + np.abs(a[2] - b[2])) / 2
""","""    total = 0.0
    for i in range(3):
        total += np.abs(a[i] - b[i])
    return total / 2
"""),
("""    z = row - (col + np.bitwise_and(col, 1)) / 2
""","""    z = row - (col + (col & 1)) / 2
"""),
("""    dx, dy = x2-x1, y2-y1

    if dx == 0:
        if dy > 0:
            action = 0
        if dy < 0:
            action = 3
    else:
        if x1 % 2:
            if dx > 0 and dy == 0:
                action = 1
            elif dx < 0 and dy == 0:
                action = 5
            elif dx > 0 and dy < 0:
                action = 2
            elif dx < 0 and dy < 0:
                action = 4
        else:
            if dx > 0 and dy > 0:
                action = 1
            elif dx < 0 and dy > 0:
                action = 5
            elif dx > 0 and dy == 0:
                action = 2
            elif dx < 0 and dy == 0:
                action = 4
    
    return action
""","""    dx, dy = x2-x1, y2-y1

    if dx == 0:
        return 0 if dy > 0 else 3

    # Odd columns are shifted down by one
    upper = 0 if x1 % 2 else 1
    if dy == upper:
        return 1 if dx > 0 else 5
    return 2 if dx > 0 else 4
"""),
("""    if dx == 0:
        if dy > 0:
            action = 0
        if dy < 0:
            action = 2
    elif dx > 0:
        action = 1
    elif dx < 0:
        action = 3

    return action
""","""    moves = {(0, 1): 0, (1, 0): 1, (0, -1): 2, (-1, 0): 3}
    return moves[(dx, dy)]
"""),
("""    adjacency = (hex_dist(grid_idx,grid_idx)==1).astype(int)
    
    return adjacency
""","""    distances = hex_dist(grid_idx, grid_idx)
    return np.where(distances == 1, 1, 0)
"""),
]),
dict(id='grid2', file=G, edits=[
("""    grid_idx = np.array(np.where(~np.isnan(state_grid))).T
    grid_state_id = list(range(grid_idx.shape[0]))
""","""    rows, cols = np.where(np.logical_not(np.isnan(state_grid)))
    grid_idx = np.column_stack((rows, cols))
    grid_state_id = np.arange(grid_idx.shape[0]).tolist()
"""),
("""    dist = np.zeros((len(XA), len(XB)))

    for n, i in enumerate(XA):
        for nn, j in enumerate(XB):
            dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])

    return dist
""","""    n_a, n_b = len(XA), len(XB)
    dist = np.zeros((n_a, n_b))

    for i in range(n_a):
        xa, ya = XA[i]
        for j in range(n_b):
            xb, yb = XB[j]
            dist[i, j] = offset_distance(xa, ya, xb, yb)

    return dist
"""),
("""    x = col
    z = row - (col + np.bitwise_and(col, 1)) / 2
    y = -x-z
    f = np.array([x,y,z])
    return f
""","""    parity = col % 2
    z = row - (col + parity) / 2
    return np.array([col, -col - z, z])
"""),
("""    return (cdist(grid_coords, grid_coords) == 1).astype(int)""","""    differences = np.abs(grid_coords[:, None, :] - grid_coords[None, :, :])
    return (differences.sum(axis=2) == 1).astype(int)"""),
("""    if dx == 0:
        if dy > 0:
            action = 0
        if dy < 0:
            action = 2
    elif dx > 0:
        action = 1
    elif dx < 0:
        action = 3

    return action
""","""    if dy > 0:
        return 0
    if dx > 0:
        return 1
    if dy < 0:
        return 2
    return 3
"""),
]),
]
