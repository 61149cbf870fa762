prop('C04', 'State numbers and grid coordinates are one addressing of cells',
     '''On a grid of any width and height, states are numbered row by row: state s lies at coordinates (s // height, s % height), where the shape is (width, height). Converting states to coordinates and back, or coordinates to states and back, is lossless,
     and every view of the grid uses this addressing: the coordinate table, the coordinate queries, values and features laid out as a grid, the drawing positions of square cells and the states of a raw grid.''',
     ['inputs', 'configurations'], 'all grid shapes, states and coordinates, for square and hexagonal grids',
     'Tests convert a few cells of square-shaped grids, where swapped axes cannot be seen.',
     [('conversions', M + ' GridMDP.state_to_idx, GridMDP.idx_to_state, GridMDP.get_state_coords'), ('views', M + ' GridMDP.flat_to_grid, GridMDP.features_as_grid'), ('numbering', G + ' grid_coords')])
prop('C25', 'Tree search simulates only possible play and counts it right',
     '''A simulation of the tree search starts at the agent's position, follows only possible transitions and makes the planned number of moves per agent, with consumption taking effect within the simulation only.
     The return of a simulation is the sum of the rewards of the states the planning agent enters plus the cost of being caught; it is added, together with one visit, to every state the planning agent entered, as often as it entered it.
     Agents on the same state catch each other according to who consumes whom: a caught agent stays out of the simulation, and a simulation in which the planning agent is caught ends.
     Unvisited successors are tried first, then the one with the highest upper confidence bound. Planning leaves the features and transitions of the MDP as they were.''',
     ['inputs', 'schedules', 'configurations'], 'all MDPs, rewards, positions, plans of moves, consumption relations and random choices of the search',
     'Tests run the search with one seed on one grid and look at the best action; wrong accounting within a simulation changes estimates but rarely the best action.',
     [('simulation', MC + ' mcts_iteration'), ('selection', MC + ' MCTS_next_node, UCB'), ('catching', MC + ' check_agent_overlap'), ('driver', MC + ' run_mcts')])
prop('C26', 'Tree search reports the mean returns of its own simulations',
     '''After fitting, the state values of the tree search are the summed returns, and the action value of each action possible in the agent's position is the summed return of the state it leads to divided by one plus the visits of that state; all other action values are undefined.
     Exactly the requested number of simulations is run, and fitting again starts afresh. Without a plan, the agents take turns, each making its own number of moves, until the requested number of moves is used up.
     Other agents that are solved for go to reachable states and, under greedy choice, take an action of highest value.''',
     ['inputs', 'configurations', 'histories'], 'all MDPs, positions, numbers of simulations, moves per turn and steps',
     'Tests check that some values are returned; how they relate to the simulations, and turn taking with unequal moves, is not covered.',
     [('results', MC + ' MCTS._fit, get_MCTS_action_values'), ('turn taking', MC + ' MCTS._fit'), ('opponents', MC + ' get_opponent_next_state')])
prop('C27', 'The successor representation counts discounted future visits',
     '''The successor representation M of an MDP satisfies M = I + discount * P M, where P are the transitions between state-action pairs under the uniform policy, with one row and one column for each pair.
     The action values it gives are its rows times the rewards of the states, minus infinity for actions that lead nowhere. Neither computation modifies its arguments.''',
     ['inputs'], 'all transition tables, discounts, features and weights', 'Tests compare one small case; transposed or misaligned pairs on other shapes go unnoticed.',
     [('representation', SR + ' get_sa_sr'), ('action values', SR + ' get_sr_q_values')])
prop('C28', 'Resetting a learner makes it a new learner',
     '''After reset, a reward or policy learner holds the starting values it was constructed with (or none), and fitting it gives exactly what a newly constructed learner gives, however often it was fitted and reset before.
     Starting weights and starting action values given by the caller are never modified by fitting or resetting, and a copy of a policy learner learns independently of the original.''',
     ['histories', 'inputs'], 'all sequences of fits and resets, demonstrations and starting values, for the policy learner, causal entropy learning and hypothesis testing',
     'Tests reset once, if at all, without starting values; state that survives a second reset or writes into the caller\'s array is invisible.',
     [('policy learner', PO + ' TDGeneralPolicyLearner'), ('reward learners', IRL + ' BaseIRL, MaxCausalEntIRL, HyptestIRL')])
prop('C29', 'Ignored features never influence what is learned',
     '''In causal entropy learning and in feature matching an ignored feature ends with weight zero and its values have no influence on the other weights, also when starting weights were given and over several steps.
     In hypothesis testing ignoring a feature leaves the weights of the other features as they are without ignoring.''',
     ['inputs', 'configurations'], 'all demonstrations, features, ignored features and starting weights',
     'Tests ignore one feature on one trajectory and look at one weight.',
     [('causal entropy', IRL + ' MaxCausalEntIRL._solve_maxcausalent'), ('matching', IRL + ' MFFeatureMatching.fit'), ('hypothesis testing', IRL + ' HyptestIRL._single_move')])
prop('C30', 'Feature matching sums the features visited after the start',
     '''Feature matching returns, and keeps, as the weight of each feature the sum of that feature over all visited states of all trajectories except the starting state of each; with one MDP per trajectory, every trajectory is counted on its own MDP.
     Earlier fits leave no trace, and trajectories and MDPs are not modified.''',
     ['inputs', 'histories'], 'all trajectories, MDPs and ignored features', 'Tests fit a single trajectory on one grid.',
     [('matching', IRL + ' MFFeatureMatching.fit')])
prop('C31', 'Policy learning tracks the observed actions',
     '''The policy learner holds one value per action, the same in every state. For every observed action in turn these values move towards one for that action and zero for the others (or, when generalising, towards a kernel of the angle between the actions) by the learning rate,
     which decays with the number of observations as configured; the observed action is the one connecting two successive states in the MDP of that trajectory. Without observations the starting values remain.''',
     ['inputs', 'configurations'], 'all trajectories, MDPs, learning rates, decays, starting values, with and without generalisation',
     'Tests check that the most frequent action gets the highest value in one example.',
     [('learning', PO + ' TDGeneralPolicyLearner.fit')])
prop('C32', 'Causal entropy learning steps by observed minus expected features',
     '''Every step of causal entropy learning moves the weights by the current learning rate times the difference between the feature counts of the demonstrations (each trajectory normalised by its length and by their number) and those expected under the policy planned for the current weights,
     starting from the observed starting states, and stops once the mean absolute difference is below the tolerance. The expected visits are the visitation recursion of that policy through the transitions. MDP, policy and starting distribution are left as they were.''',
     ['inputs', 'configurations'], 'all demonstrations, MDPs, starting weights, learning rates, decays, soft and greedy planning',
     'Tests run the learner to the end and look at a sign; single steps and unnormalised or misrouted visits are not observable there.',
     [('step', IRL + ' MaxCausalEntIRL._solve_maxcausalent, MaxCausalEntIRL._maxcausalent_innerloop'), ('visits', IRL + ' state_visitation_iterator')])
prop('C33', 'Trajectories are explained by the actions that connect their states',
     '''The action assigned to a pair of successive states is one that leads from the first to the second with the highest probability; asked for all actions, exactly those that can lead there are given. A trajectory yields one state-action pair per move, in order.
     Pairs of states that no action connects are refused.''',
     ['inputs'], 'all transition tables (deterministic and stochastic), states and trajectories', 'Tests translate one trajectory on a deterministic grid.',
     [('actions', M + ' MDP._state_pair_to_action, MDP._trajectory_to_state_action')])
prop('C34', 'Saving and loading an environment gives the same environment',
     '''An environment on a hexagonal grid turned into a dictionary or a JSON string and read back has the same shape, features, walls, transitions and self-transitions, and the same agents in the same order, with their positions, reward weights, consumed features, moves per turn, algorithms with the options saved for them, and kind of action selection.''',
     ['inputs', 'configurations'], 'all grid shapes, features, walls, positions and weights, with and without self-transitions and feature names; two agents',
     'Tests convert one environment and compare a few entries on a square-shaped grid without walls.',
     [('saving', IO + ' hex_env_to_dict, hex_env_to_json'), ('loading', IO + ' hex_environment_from_dict, hex_environment_from_json')])
prop('C35', 'Line-of-sight learning sums the features ahead of each move',
     '''Fitting simple action learning gives each feature the amount found on the states passed when the observed action is repeated from the state it was taken in (that state included) until the edge is reached or a state is met again, normalised over features;
     trajectories add up, each on its own MDP, and fitting starts afresh unless told to continue. Trajectories that are not connected are refused.''',
     ['inputs', 'histories'], 'all transition tables, features and trajectories; up to three states for the full sweep', 'Tests look at a single straight move on a grid without loops.',
     [('line of sight', IRL + ' SimpleActionIRL.fit, get_trajectory_eyeline_features, get_eyeline_features')])
prop('C09', 'Arrays and lists handed in by the caller are never modified or shared',
     '''Whatever the caller hands to an MDP, an agent or an environment (features, transition tables, walls, reward weights, lists of consumed features) is left exactly as it was by construction, planning, stepping, consumption, wall editing and resets;
     and changing such an array afterwards has no effect on the MDP or the agents built from it.''',
     ['inputs', 'histories'], 'all arrays given and all modelled sequences of operations on general MDPs and grids',
     'Tests build fresh arrays for each case and never look at them again; aliasing shows only when a caller reuses or edits one.',
     [('MDP', M + ' MDP.__init__, MDP.walls, MDP.reset'), ('agents', A + ' Agent._attach'), ('environment', E + ' Environment.__init__, Environment.reset')])
prop('C10', 'Planning, prediction and queries change nothing else',
     '''Fitting an agent, predicting its next state, asking for policies, action values, histories, neighbours or possible actions, drawing a successor state and explaining a trajectory leave unchanged the features, transitions and walls of the MDP,
     the positions, histories, consumption and weights of all agents, and the plans of the other agents.''',
     ['inputs', 'histories'], 'all MDPs, agents, positions and plans, for each such operation before or after planning',
     'Tests check the result of a call, not what else it did; a leaked write shows up only in later operations.',
     [('planning', E + ' Environment.fit'), ('prediction', E + ' Environment.step_proba'), ('queries', M + ' MDP.get_next_state, MDP.state_valid_actions, MDP.is_adjacent')])
prop('C36', 'Drawings show the features, walls, agents and routes where they are',
     '''Drawing an environment draws one layer for each feature of the MDP itself and one for the walls, marks each agent at its current state, and draws routes as arrows from state to state and sequences as numbers from one at their states; state values are drawn at their cells.
     The cell of a state is the one its coordinates name, on square and on hexagonal grids. Axes given by the caller are used and returned, and drawing changes no features.''',
     ['inputs', 'configurations'], 'all features, walls, positions and routes on square grids of any size; on hexagonal grids of small sizes',
     'Tests only check that drawing does not raise; nothing looks at what was drawn.',
     [('square grids', M + ' SquareGridMDP.plot; ' + PL + ' plot_grids, plot_grid_values, plot_trajectory, plot_sequence'), ('hexagonal grids', M + ' HexGridMDP.plot; ' + PL + ' plot_hex_grids'), ('environment', E + ' Environment.plot, Environment.plot_trajectory')])
prop('C37', 'Every name, attribute and call inside the library resolves and fits',
     '''In every function of the library, on whatever path, names are bound before use, attributes of self exist on the class or its subclasses, calls of functions and methods of the library pass arguments their definitions accept,
     results unpacked into several names have that many parts, and names imported from the library exist. So no operation fails because of a misspelt or outdated reference.''',
     ['inputs', 'configurations'], 'all functions and methods of the library, including those no test calls',
     'Tests call a part of the functions on a part of their paths; a stale reference elsewhere is found by the first user to get there.',
     [('library', 'maMDP/**/*.py'), ('known finding', E + ' Environment.step_multi_interactive')], tech='Name, attribute, call-signature and definite-assignment resolution over the syntax trees of all functions')
prop('C38', 'Options reach the component they are given for',
     '''The algorithm options of an agent reach exactly its own algorithm and the selection options its own action selection, with defaults for those not given; agents never share either; the given dictionaries are left alone and kept for saving, and options survive a reset.
     The value-iteration options given to tree search (number of sweeps, discount, tolerance) are those the other agents are planned with, using their own weights.''',
     ['inputs', 'configurations'], 'all option values, agents and orders of agents; for tree search all MDPs, weights and positions with one simulated move per agent',
     'Tests mostly use defaults, under which a dropped or misrouted option cannot be seen.',
     [('agents', A + ' Agent.__init__, Agent._attach'), ('tree search', MC + ' run_mcts, mcts_iteration, get_opponent_next_state')])
prop('C39', 'Hypothesis testing moves weights towards standardised action values',
     '''For every observed move, z-score hypothesis testing plans for each feature alone, standardises the action values of the state over its actions, and moves the weight of that feature towards the standardised value of the action taken by the learning rate,
     raised or lowered by the asymmetry according to whether the evidence is weaker or stronger than the current weight, and decayed with the number of observations. The weights are returned, kept and recorded per trajectory; MDP features and transitions are left alone.''',
     ['inputs', 'configurations'], 'all MDPs, moves, learning rates, starting weights, soft and greedy planning, with and without decay', 'Tests look at the sign of one weight.',
     [('step', IRL + ' HyptestIRL._single_move, HyptestIRL._solve_hyptest')])
prop('C80', 'Value iteration converges to the optimal values',
     '''Run long enough, value iteration returns values within the tolerance of the optimal value function.''',
     ['inputs'], 'all MDPs, rewards, discounts', 'Convergence is a limit over sweeps.',
     [('driver', DP + ' solve_value_iteration')],
     na='A statement about a numerical limit over an unbounded number of floating-point sweeps; no sound static argument in reach bounds it. Each single sweep and the stopping rule are decided by C18/C19.')
prop('C81', 'Tree search approaches optimal action values with more iterations',
     '''As the number of iterations grows, the action values reported by tree search approach the true values and the best action is found with probability approaching one.''',
     ['inputs', 'configurations'], 'all MDPs and opponents', 'A probabilistic limit.',
     [('search', MC + ' run_mcts')],
     na='A probabilistic limit over unboundedly many random iterations; depends on runtime quantities no static argument bounds. The single-iteration bookkeeping is decided separately.')
prop('C82', 'Reward learning recovers a reward function explaining the demonstrations',
     '''Inverse reinforcement learning converges to reward weights under which the demonstrated visits are matched.''',
     ['inputs'], 'all demonstrations and MDPs', 'Convergence of gradient descent with random starting weights.',
     [('learner', IRL + ' MaxCausalEntIRL')],
     na='Convergence of a stochastic-start gradient method over floating-point iterations: a runtime-quantified limit outside static analysis. The quantities entering each update are decided separately.')
