#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

M, A, E, IO, G, PL = ['maMDP/%s.py' % x for x in ('mdp', 'agents', 'environments', 'env_io', 'grid_utils', 'plotting')]
BA, SEL, DP, IRL, MC, PO, SR = ['maMDP/algorithms/%s.py' % x for x in ('base', 'action_selection', 'dynamic_programming', 'irl', 'mcts', 'policy_learning', 'successor_representation')]

P = []


def prop(id, title, statement, over, text, why, mech, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=' '.join(why.split()), mech=mech, na=na, tech=tech))


prop('C01', 'Walls cut off exactly the walled states',
     '''At every moment an MDP's transition table equals the table it was given with every transition into or out of a walled state removed and nothing else changed,
     for the walls in force now: replacing, adding, clearing walls or resetting the MDP never leaves transitions cut by an earlier wall or open through a current one.
     A wall description of the wrong length, of the wrong dimensionality, or with values other than 0 and 1 is refused and leaves the MDP as it was.''',
     ['inputs', 'histories'], 'all transition tables, wall vectors and sequences of wall changes and resets',
     'Tests set one or two walls on one 5x5 grid; they never replace walls by other walls or mix resets, clears and edits over arbitrary tables.',
     [('wall masking of transitions', M + ' MDP.walls setter'), ('wall editing', M + ' GridMDP.add_wall_xy'), ('clearing', M + ' GridMDP.reset_walls'), ('reset', M + ' MDP.reset')])
prop('C02', 'Derived MDP quantities follow the transition table',
     '''The adjacency matrix, the adjacency queries, the list of valid actions of a state and the numbers of states, actions and features always describe the transition and feature tables in force now,
     after construction, after any change of walls and after agents were added. A state is adjacent to another exactly when some action can lead from the one to the other, and an action is valid exactly when it can lead somewhere.
     Tables with probabilities outside [0, 1], or whose dimensions disagree, are refused.''',
     ['inputs', 'histories'], 'all transition and feature tables and all histories of wall and agent changes',
     'Tests look at one deterministic grid right after construction; stale or wrongly derived values for other tables or after later changes are never looked at.',
     [('derived attributes', M + ' MDP.sas setter'), ('queries', M + ' MDP.is_adjacent, MDP.state_valid_actions')])
prop('C03', 'Grid worlds have exactly the moves of their geometry',
     '''On a square or hexagonal grid of any width and height every action leads, with probability one, from a cell to the geometric neighbour in that action's direction, and is unavailable where that neighbour lies outside the grid.
     With self-transitions enabled there is exactly one additional action and it keeps the agent in its cell.''',
     ['inputs', 'configurations'], 'all grid sizes, both grid types, with and without self-transitions',
     'Tests use a handful of grid shapes and compare a few entries; wrap-around or swapped axes on other shapes (non-square, one row wide) stay invisible.',
     [('square transitions', M + ' SquareGridMDP._get_sas'), ('hex transitions', M + ' HexGridMDP._get_sas ; ' + G + ' hex_adjacency')])
prop('C05', 'Agents only move along possible transitions',
     '''The successor of a state under an action is always a state that action can lead to, never a walled one; for stochastic transitions it is drawn with exactly the probabilities of the transition table from the MDP's own random generator.
     An action that leads nowhere, or a negative one, is refused rather than answered with some state.''',
     ['inputs', 'configurations'], 'all transition tables (deterministic, stochastic, with impossible actions), walls, states and actions',
     'Tests sample a few valid moves on deterministic grids; no test takes an impossible action or checks a distribution.',
     [('successor', M + ' MDP.get_next_state'), ('stochastic draw', M + ' MDP.rng')])
prop('C06', 'Consumption takes exactly the consumed features and reset restores them',
     '''When an agent consumes features in a state, precisely the named features of that state become zero and the returned record counts one for each of them that was present; every other feature, state and transition is untouched, and consuming again yields nothing.
     Resetting the MDP restores all features as given, however often features were consumed.''',
     ['inputs', 'histories'], 'all feature tables, states, sets of consumed features and sequences of consumptions and resets',
     'Tests consume one feature once in one state; whole-row or repeated consumption and restoration over histories are not covered.',
     [('consumption', M + ' MDP.consume_features'), ('restoration', M + ' MDP.reset')])
prop('C07', 'Every agent is one feature marking exactly where it is',
     '''An environment adds one feature row per agent, in order, after the features of the MDP; at all times that row is one in the state the agent occupies and zero everywhere else.
     This holds after construction, moves, steps and resets of any of the agents and when the same MDP is used for a new environment, and positions outside the state space are refused without effect.''',
     ['inputs', 'histories'], 'all MDPs, starting positions and interleavings of moves, steps and resets of several agents',
     'Tests check a row after one placement; interleaved moves of several agents, overlapping agents, resets and reuse of the MDP are not covered.',
     [('agent rows', M + ' MDP.add_agent_feature, MDP.update_agent_feature, MDP.remove_agent_features'), ('position', A + ' AttachedAgent.position setter')])
prop('C08', 'Reset returns an environment to its initial state',
     '''After any sequence of steps, moves, consumption and resets, resetting an environment restores features, transitions, walls, agent positions, agent feature rows, position histories and consumption records to what they were right after construction, and forgets policies.
     An episode replayed after a reset therefore behaves as the first one did.''',
     ['histories', 'inputs'], 'all histories of steps, moves, consumption and resets, all MDPs',
     'Tests reset after one kind of change and compare a position; state carried over from longer histories is never compared.',
     [('environment reset', E + ' Environment.reset'), ('agent reset', A + ' AttachedAgent.reset'), ('MDP reset', M + ' MDP.reset')])
prop('C11', 'A step moves one agent once and records it',
     '''One step of an agent moves that agent to a state its policy's action can lead to, extends its own position history by that state, counts one environment step, and consumes exactly the features it is meant to consume at its new position, adding one to its own record for each that was present.
     No other agent's position, history, record or feature row changes.''',
     ['inputs', 'histories'], 'all MDPs, policies, positions, sets of consumed features including other agents, deterministic and stochastic',
     'Tests step one agent on one grid; effects on other agents, on other features and on stochastic MDPs are not looked at.',
     [('environment step', E + ' Environment.step'), ('agent step', A + ' AttachedAgent.step'), ('consumption', M + ' MDP.consume_features')])
prop('C12', 'Unknown agents are refused without side effects',
     '''Every environment operation that takes an agent name refuses a name that no agent of the environment bears, and leaves features, positions, histories, step counts and policies untouched.''',
     ['inputs', 'histories'], 'all names not in the environment, all operations, before and after fitting',
     'Tests call two operations with one wrong name and do not look at the state afterwards.',
     [('name checks', E + ' Environment methods taking agent_name')])
prop('C13', 'Agents act on the best currently known action, or refuse to act',
     '''An agent that was not fit, or that knows no usable action for its state, refuses to act and nothing changes. Otherwise the action it takes is, with the default selector, one with the highest known value in its current state under the action values in force at that moment,
     and it moves to a possible successor of exactly that action.''',
     ['inputs', 'histories'], 'all action value tables (with impossible and unknown actions), positions and orders of fitting and stepping',
     'Tests check only that a step happens after fitting; which action is taken for arbitrary values, and stale policies after refitting, are not covered.',
     [('policy', A + ' AttachedAgent.get_policy, AttachedAgent.step'), ('selection', SEL + ' MaxActionSelector')])
prop('C14', 'Probabilistic steps push a distribution forward exactly',
     '''A probabilistic step maps a distribution over states to the distribution after one step: the sum over states and actions of probability of the state, probability of choosing the action there, and probability of the transition.
     It neither moves the agent nor changes features, transitions or the given distribution, and chained predictions compose.''',
     ['inputs'], 'all distributions, policies and transition tables',
     'Tests start from a single state on a deterministic grid, where overwriting instead of accumulating is invisible.',
     [('push-forward', A + ' AttachedAgent.step_proba')])
prop('C15', 'Planning moves are shared out over turns without loss',
     '''The number of moves an agent may plan ahead is shared out over its turns so that the turn in progress gets its remaining moves first and later turns are filled in order, no turn exceeds the number of moves per turn, and the total is the requested number, or all moves that are left in these turns if they are fewer.
     A current move outside the turn is refused.''',
     ['inputs'], 'all numbers of planning moves, moves per turn and current moves; one, two, three and arbitrarily many turns',
     'Tests list a few cases of one allocation; off-by-one errors for other combinations pass.',
     [('allocation', E + ' get_n_moves_plan')])
prop('C16', 'Multi-step episodes are repeated single steps',
     '''Stepping an agent several times gives exactly the positions, histories and step counts of that many single steps, refits before each step when asked to with the planning moves that are left, and returns the positions visited.
     It stops early only when asked to and the agent meets another one, and inconsistent planning specifications are refused before anything happens; the caller's lists are never modified.''',
     ['inputs', 'histories'], 'all numbers of steps, planning specifications, meeting situations',
     'Tests run a few short episodes and check lengths; planning horizons per step and meetings in mid-episode are not covered.',
     [('multi-step', E + ' Environment.step_multi')])
prop('C17', 'Environments accept exactly the consistent agent specifications',
     '''An environment is built exactly when every agent's reward function is one-dimensional with one weight per feature (agent features included), its starting position is a state and its consumed features exist; anything else is refused.
     An accepted environment reports the given names, order, positions, reward functions, consumed features and moves unchanged.''',
     ['inputs', 'configurations'], 'all agent specifications: lengths, positions, consumed features, types, order of agents',
     'Tests try a few malformed arguments for the first agent only.',
     [('validation', E + ' Environment.__init__'), ('attachment', A + ' Agent._attach')])
prop('C18', 'Value iteration performs exact Bellman backups',
     '''Each sweep of value iteration sets the value of every state in turn to the best (or soft-maximal) expected reward plus discounted value over the actions available there, and to zero where no action is available; it stops when no value changes by more than the tolerance or the sweeps are used up.
     A discount outside the open unit interval is refused.''',
     ['inputs'], 'all transition tables including stochastic and partly impossible ones, rewards, discounts, tolerances and numbers of sweeps',
     'Tests compare one grid with positive rewards, where counting impossible actions as worth zero makes no difference.',
     [('backup', DP + ' state_value_iterator'), ('driver', DP + ' solve_value_iteration')])
prop('C19', 'Action values are one-step lookaheads; impossible actions are worthless',
     '''After value iteration the value of every possible action is its expected reward plus discounted expected value of the successor, and precisely the impossible actions are worth minus infinity; no value is undefined.
     Within an environment each agent is planned for with its own reward weights, position and the environment's current features.''',
     ['inputs', 'configurations'], 'all transition tables, rewards, discounts and environments with several agents',
     'Tests check values on one grid for one agent.',
     [('action values', DP + ' get_state_action_values'), ('fit', A + ' AttachedAgent.fit')])
prop('C20', 'Greedy selection is uniform over the best actions',
     '''For every state the greedy policy assigns equal probability to each action of maximal value and none to others, the probabilities sum to one, and the chosen action is one of the maximal ones, ties being broken uniformly.''',
     ['inputs'], 'all finite and partly minus-infinite action value tables',
     'Tests check one table without ties in interesting places; tie-breaking is a distribution.',
     [('greedy policy', SEL + ' MaxActionSelector')])
prop('C21', 'Softmax selection follows the softmax of the values',
     '''For every state the softmax policy assigns each action a probability proportional to the exponential of its value over the temperature, impossible actions zero, summing to one and unchanged by adding a constant to all values, and actions are drawn with these probabilities.
     Non-positive temperatures are refused.''',
     ['inputs', 'configurations'], 'all action value tables and temperatures',
     'Tests check one table; invariance and the distribution of draws are not settled by samples.',
     [('softmax policy', SEL + ' SoftmaxActionSelector')])
prop('C22', 'States without known values are marked, never guessed',
     '''For a state without any known possible action the policy is marked as unavailable and its probabilities are undefined; for every other state they are defined, sum to one and never favour an unknown action over a known possible one.
     The given values are never modified, and tables without any known value or of the wrong shape are refused.''',
     ['inputs'], 'all action value tables with unknown, impossible and known entries in any arrangement',
     'Tests include one table with unknown rows.',
     [('selection', SEL + ' ActionSelector.get_pi, ActionSelector.get_pi_p')])
prop('C23', 'Random choices come only from the seeded generator',
     '''Every random choice made by a seeded action selector or MDP is a fresh draw from its own generator created once from the seed; no choice uses or reseeds the global generator, and asking for probabilities consumes no random numbers.
     Runs with equal seeds are therefore reproducible and successive draws independent.''',
     ['histories', 'configurations'], 'all seeds, all sequences of choices and queries',
     'Tests never compare two seeded runs, let alone under interleaved other uses of randomness.',
     [('generators', SEL + ' ActionSelector.__init__; ' + M + ' MDP.__init__')])
prop('C24', 'Fitting publishes checked results or nothing',
     '''Fitting an algorithm solves the given MDP once with the given reward function, position and moves, and publishes the values and action values exactly when they have the right type and shape; otherwise it raises and leaves earlier results and the fitted flag as they were.
     Malformed reward functions are refused before solving, and resetting forgets results.''',
     ['inputs', 'programs'], 'all algorithms a user can plug in, all results and reward functions',
     'Tests plug in a few algorithms that return correct shapes.',
     [('contract', BA + ' Algorithm.fit, Algorithm.reset')])

exec(open(os.path.join(HERE, 'dev', 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'dev', 'props2.py')) else None

NOTE = ('Decides the listed obligations for the current source for all sizes and contents of the symbolic inputs of each scenario. An obligation is "proved" when the '
        'value graphs of the code and of the property have the same normal form, and "agree" when no random interpretation of the two graphs separates them (the probabilistic '
        'equality test of random-interpretation value numbering, one-sided error). Scenarios fix the sequence of API calls and small structural numbers (agents, calls). Trusts the models of Python and numpy in sa/, '
        'treats numbers as reals; what leaves the modelled fragment is reported as undecided in the evidence, never as a violation.')
TECH = 'abstract interpretation of the source into gated value graphs, compared by normal form and random interpretation'


def main():
    from rules import registry
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert p['na'] or p['id'] in registry.RULES, p['id']
            files = sorted({w for _, ws in p['mech'] for w in ws.replace(';', ' ').replace(',', ' ').split() if w.endswith('.py')})
            fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                     why_tests_cant=p['why'], anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
    extra = set(registry.RULES) - set(ids)
    if extra:
        print('rules without property:', sorted(extra))
    man = dict(version=1, setup_cmd='python3 -c "import ast, json"',
               checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                            technique=p['tech'] or TECH, level='other', level_note=NOTE) for p in P if not p['na']],
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
               notes='Pure static analysis: no module of /repo is imported or run; every check parses /repo/maMDP afresh.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    print(len(P), 'properties')


main()
