From 882e10a1ec8490b4ba0aa55a30025dc51e628583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:31 +0000
Subject: [PATCH 01/38] fix: base MDP cannot be constructed because wall
 validation needs a grid shape

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..3e27dea 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape == (self.n_states, ):
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From e1657522bd79545bf02a8003a71c08bb15640137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:31 +0000
Subject: [PATCH 02/38] fix: adjacency and determinism are not updated when
 walls change

---
 maMDP/mdp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 3e27dea..29342ca 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -129,14 +129,17 @@ class MDP():
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
         # Reset SAS
-        self.sas = self.__original_sas.copy()
+        sas = self.__original_sas.copy()
 
         # Add array
         self.__walls = walls
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+
+        # Assign once complete so that adjacency etc. describe the walled transitions
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From 792a0a7d31bced39bb70500f38359cdd12bb5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 03/38] fix: reset_walls overwrites the walls array supplied by
 the caller

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 29342ca..fa667bc 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -421,7 +421,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros(self.n_states)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From d7c95c588ded5756f1c116e05b30bcd8b99703fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 04/38] fix: sampling the next state of a stochastic MDP always
 raises

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index fa667bc..1bf5a29 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -222,7 +222,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From a919696a209e7097236113327ee12a4ad2f82d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 05/38] fix: taking an impossible action moves to state 0

---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 1bf5a29..fc97083 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,6 +219,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError('Action {0} is not possible in state {1}'.format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From c9ce295827b20575909423dc7a268828cdf2740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 06/38] fix: valid actions are repeated for stochastic
 transitions

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index fc97083..00733d0 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -303,7 +303,7 @@ class MDP():
             np.ndarray: Returns an array of action indices.
         """
 
-        return np.where(self.sas[state, ...])[0]
+        return np.where(self.sas[state, ...].any(axis=-1))[0]
 
     def observation(self):
         pass
-- 
2.43.0


From 9c0b6ba35040b502547b89064c8d1f9a202e434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 07/38] fix: remove_agent_features drops every feature when
 there are no agents

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 00733d0..d1b318b 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -178,7 +178,7 @@ class MDP():
     def remove_agent_features(self):
         """ Removes agent features """
 
-        self.features = self.features[:-self.n_agents, :]
+        self.features = self.features[:self.n_features - self.n_agents, :]
         self.n_agents = 0
 
     def consume_features(self, feature_idx:List[int], state_id:int) -> np.ndarray:
-- 
2.43.0


From b03d538fb2b7af0fe6ac8e24dd6c3dc899ea7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 08/38] fix: consuming features modifies the feature array
 supplied by the caller

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index d1b318b..806d455 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -95,7 +95,7 @@ class MDP():
                                 'Expected {0} states, found {1}'.format(self.n_states, features.shape[1]))
 
         self.__n_features = features.shape[0]
-        self.__feature_array = features
+        self.__feature_array = features.copy()
         self.__original_feature_array = features.copy()
 
         # Name features
-- 
2.43.0


From e91dfb5b8794354faaac122124e3f1f5ecfa3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 09/38] fix: plotting an MDP without agents shows no features

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 806d455..1ba26d3 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -529,7 +529,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -639,7 +639,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From d52b4d89b43e6b0866447c89202ea1d24fc0d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:20 +0000
Subject: [PATCH 10/38] fix: invalid agent positions raise IndexError or are
 accepted when negative

---
 maMDP/agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..37ac433 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
+        if new_position < 0 or new_position >= self._parent_mdp.n_states:
             raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
-- 
2.43.0


From 71cfe9091b98569f0aab87febb7d8db9801a1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:20 +0000
Subject: [PATCH 11/38] fix: step_proba overwrites instead of accumulating next
 state probabilities

---
 maMDP/agents.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 37ac433..80e44f4 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,7 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From f001a23061c381d4b3480814a8ff89a4e49b5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:20 +0000
Subject: [PATCH 12/38] fix: resetting an agent keeps the features it consumed

---
 maMDP/agents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 80e44f4..9ea0e8d 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -223,6 +223,7 @@ class AttachedAgent():
 
     def reset(self):
         self.position = self.__starting_position
+        self.consumed = np.zeros(len(self.reward_function))
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
-- 
2.43.0


From ffcbcda26f68278188e008dc90a3e4f05d2b63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 13/38] fix: step_multi with refit ignores n_steps when
 planning and fails beyond n_moves

---
 maMDP/environments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..cb9a711 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -342,6 +342,7 @@ class Environment:
         # If an int is given, use this as the number of steps for the primary agent
         elif isinstance(n_steps, int):
             n_steps_primary_agent = n_steps
+            n_agent_steps = [n_steps] + n_agent_steps[1:]
         # If a list is given, take the first value as the number of steps for the primary agent
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
-- 
2.43.0


From f041d1442c7c72baaf3ae51b719ad7ca4fb29edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 14/38] fix: step_multi ignores the per-agent number of steps
 when planning

---
 maMDP/environments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index cb9a711..dc9f801 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -346,6 +346,7 @@ class Environment:
         # If a list is given, take the first value as the number of steps for the primary agent
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
+            n_agent_steps = n_steps
 
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
-- 
2.43.0


From 7a8f4fc4a0dfabc180cede7f16082f552f1f85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:02 +0000
Subject: [PATCH 15/38] fix: reset can leave agent features away from the
 agents' starting positions

---
 maMDP/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index dc9f801..70df0f5 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -514,9 +514,9 @@ class Environment:
         Resets the agents and the MDP to their starting states.
         """
 
+        self.mdp.reset()
         for agent in self.agents.values():
             agent.reset()
-        self.mdp.reset()
 
     def set_agent_position(self, agent_name: str, new_position: int):
         """
-- 
2.43.0


From 74853eae2ba5dd217eb5f5b29c9840699f73c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:49 +0000
Subject: [PATCH 16/38] fix: value iteration counts impossible actions as
 having a value of zero

---
 maMDP/algorithms/dynamic_programming.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..f191a42 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,19 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_action_values = action_values[sas[s, ...].sum(axis=-1) > 0]
+
         # Update action values
-        if not soft:
+        if len(valid_action_values) == 0:
+            # Nothing can be done in this state (e.g. walls)
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = valid_action_values.max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
-            # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(valid_action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From a7e121f47bb9646e5247690be2ea71aece509885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 17/38] fix: policy learning uses the MDP of another trajectory

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..f47862d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 0be485cff8ddc659e6cbf679332aea68916b7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 18/38] fix: resetting the policy learner does not restore its
 initial Q values

---
 maMDP/algorithms/policy_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index f47862d..db149a5 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.Q = deepcopy(self.original_Q)
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = deepcopy(self.original_Q)
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From ccdf153e45ad00fd87cdd012110c6a352fb88e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 19/38] fix: resetting IRL does not restore the initial reward
 function

---
 maMDP/algorithms/irl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..00b0155 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -10,6 +10,7 @@ import warnings
 from abc import abstractmethod, abstractproperty, ABCMeta
 from typing import List, Union
 from scipy.optimize import minimize
+from copy import deepcopy
 
 @njit
 def zscore_nb(x):
@@ -121,8 +122,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = deepcopy(self.original_theta)
 
         # This is used for feature count estimation
         if soft:
@@ -231,7 +232,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = deepcopy(self.original_theta)
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -336,8 +337,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = deepcopy(self.original_theta)
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -485,7 +486,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = deepcopy(self.original_theta)
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
-- 
2.43.0


From 84f5d96bf8a8b515d992e4f3795854ef46462cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 20/38] fix: MaxCausalEntIRL repeatedly normalises the visits
 of earlier trajectories

---
 maMDP/algorithms/irl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 00b0155..b904025 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -175,9 +175,7 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                visited_states[s] += 1 / len(t)
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From a47b78161e4fc1142fcaa1539e9ad944587945f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 21/38] fix: MaxCausalEntIRL ignores every feature unless
 exactly one is to be ignored

---
 maMDP/algorithms/irl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b904025..adf07af 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -183,6 +183,7 @@ class MaxCausalEntIRL(BaseIRL):
         true_F = (mdp.features * visited_states).sum(axis=1).astype(float)
 
         # Remove ignored features
+        ignore_features = list(ignore_features)
         true_F[ignore_features] = 0       
 
         # Initial guess at reward function
-- 
2.43.0


From 1e9a6bee7917b921e14f51db6e7c82b42984f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 22/38] fix: feature matching ignores trajectories instead of
 features

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index adf07af..b7d3d6d 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -287,7 +287,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 377c881a3b05e8584326ca837d96c6f751ec2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 23/38] fix: eyeline features never terminate for actions that
 stay in place

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b7d3d6d..c0d2919 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -534,7 +534,7 @@ def get_eyeline_features(mdp, current_state, action):
     while not complete:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
-        if np.max(sa_next_states) > 0:
+        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) not in states:
             current_state = np.argmax(sa_next_states)
         else:
             complete = True
-- 
2.43.0


From f2f02542585c9553b0c4b22284570ae44c874e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 24/38] fix: inactive agents keep catching and being caught in
 MCTS simulations

---
 maMDP/algorithms/mcts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..e76ebe4 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -224,7 +224,11 @@ def check_agent_overlap(
         agent2 = consumed_agents[n]
 
         # If agents are in the same state
-        if current_node[agent1] == current_node[agent2]:
+        if (
+            agents_active[agent1]
+            and agents_active[agent2]
+            and current_node[agent1] == current_node[agent2]
+        ):
             # set the agent inactive
             agents_active[agent2] = False
             # If Agent 2 is the primary agent, end the iteration
-- 
2.43.0


From 6e526d72bc9f13509366d0b339c35e52e8ea8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 25/38] fix: UCB is NaN for nodes without visits, so the first
 state is always chosen

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index e76ebe4..b8ac1d4 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -141,7 +141,7 @@ def UCB(
     """
 
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        (2 * np.log(max(N[node], 1))) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From 7884e2460790e2e596184a43941b1b1e8a900770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 26/38] fix: interactive MCTS fails when an opponent has no
 preferences

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index b8ac1d4..e990348 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -409,7 +409,7 @@ def mcts_iteration(
                         np.arange(len(current_node)) != current_actor
                     ]
                     feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
+                        consumed_features[f] for f in agent_preferences[current_actor]
                     )
 
                     if (
-- 
2.43.0


From 44fa6ce588557653db5b34470cee89a06e97bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 27/38] fix: MCTS caching fails for agents that consume several
 features

---
 maMDP/algorithms/mcts.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index e990348..5ec4b5b 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -471,11 +471,7 @@ def mcts_iteration(
                     for f in np.where(consumes_features[current_actor, :])[0]:
                         # Check there is something to consume
                         if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
+                            features[f, current_node[current_actor]] != 0
                         ):
                             consumed_features[f] = consumed_features[f] + (
                                 current_node[current_actor],
-- 
2.43.0


From 038394715759309dc33fde580f828382b886aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 28/38] fix: solve_all_value_iteration calls the solver with
 the wrong arguments

---
 maMDP/algorithms/mcts.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 5ec4b5b..b8442ea 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -803,8 +803,6 @@ def solve_all_value_iteration(
 
         # Do value iteration
         _, all_q_values[prey_state, ...] = solve_value_iteration(
-            sas.shape[0],
-            sas.shape[1],
             predator_reward_function,
             features,
             max_iter,
-- 
2.43.0


From 1351328efcdf1252e6e59b483c6ed0b404951add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 29/38] fix: MCTS cannot be fit without specifying the number
 of moves

---
 maMDP/algorithms/mcts.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index b8442ea..87ffd2f 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -950,6 +950,15 @@ class MCTS(Algorithm):
             reward_function, self.interactive, mdp
         )
 
+        # If not specified, agents share n_steps moves by taking turns
+        if n_moves is None:
+            n_moves = [[] for _ in range(1 + len(opponent_info))]
+            remaining = self.n_steps
+            while remaining > 0:
+                for i, info in enumerate([*agent_info.values(), *opponent_info.values()]):
+                    n_moves[i].append(min(info[1], remaining))
+                    remaining -= n_moves[i][-1]
+
         # Run MCTS
         (
             self.V,
-- 
2.43.0


From 925bcee1deeb26cac50486308d25a19e99f45187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 30/38] fix: saving an environment truncates reward weights to
 integers

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..5b47d13 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 550b4d957f200bb1c24019aa9b4ae09dfee3698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 31/38] fix: environments cannot be converted to a dictionary
 without feature names

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 5b47d13..211d137 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From b55a0cd8347c4d4570e1a16d7b936be30fb9e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 32/38] fix: environments loaded from JSON have no features

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 211d137..2c2e7bf 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -105,7 +105,7 @@ def hex_environment_from_dict(env_dict, feature_names=[]):
     else:
         n_features = len(env_dict['features'])
         features = np.zeros((n_features, np.product(env_dict['size'])))
-        for n, f in enumerate(feature_names):
+        for n, f in enumerate(feature_names if len(feature_names) else env_dict['features']):
             # print("CREATING ENV", n, f)
             states = env_dict['features'][f]
             features[n, states] = 1
-- 
2.43.0


From 511deeee75b0353f75b97d58f82af7ba96b8914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:40 +0000
Subject: [PATCH 33/38] fix: state values on square grids are plotted
 transposed relative to features and agents

---
 maMDP/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..1a8bb01 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,7 +96,7 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-- 
2.43.0


From f0252ef4deb7105c4fe1485dc924f869382bf898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:40 +0000
Subject: [PATCH 34/38] fix: grid lines of state value plots ignore the height
 of the grid

---
 maMDP/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index 1a8bb01..c34f742 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -100,7 +100,7 @@ def plot_grid_values(
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0


From d5cc92c2946a1ff3677f49e1fee8e4858540d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:07 +0000
Subject: [PATCH 35/38] fix: MDP keeps its own copy of the walls it is given

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 1ba26d3..1612b39 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -132,7 +132,7 @@ class MDP():
         sas = self.__original_sas.copy()
 
         # Add array
-        self.__walls = walls
+        self.__walls = walls.copy()
 
         # Adjust SAS
         sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-- 
2.43.0


From 05222488448ca94524e5def1abb91b362b669f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:07 +0000
Subject: [PATCH 36/38] fix: agents keep their own list of the features they
 consume

---
 maMDP/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 9ea0e8d..9026094 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -72,7 +72,7 @@ class AttachedAgent():
         self.name = name
         self.n_moves = n_moves
         self.reward_function = reward_function
-        self.consumes = consumes
+        self.consumes = list(consumes)
         self.consumed = np.zeros(len(reward_function))
 
         self.action_selector = action_selector
-- 
2.43.0


From f7bd4624f101bf5fa5fb05bbb4eb84c8a6da6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:07 +0000
Subject: [PATCH 37/38] fix: refuse negative consumed features like other
 features out of range

---
 maMDP/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 70df0f5..5cba8d5 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -141,7 +141,7 @@ class Environment:
                     )
                 )
 
-            if any([i > len(reward_function) - 1 for i in consumes]):
+            if any([i < 0 or i > len(reward_function) - 1 for i in consumes]):
                 raise ValueError(
                     "Agent {0}: Provided a feature to consume that is out of range. Indexes provided = {1}, reward "
                     "function indicates {2} features".format(
-- 
2.43.0


From a9b2084014bc182777ed1f1c794b74957d68aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 38/38] fix: refuse a negative current move when planning moves
 are shared out over turns

---
 maMDP/environments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 5cba8d5..0ea1daa 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -23,9 +23,9 @@ def get_n_moves_plan(
         List[int]: Number of simulated moves to run for each simulated turn.
     """
 
-    if current_move >= n_moves:
+    if current_move < 0 or current_move >= n_moves:
         raise ValueError(
-            f"current_move ({current_move}) must be less than n_moves ({n_moves})"
+            f"current_move ({current_move}) must be at least 0 and less than n_moves ({n_moves})"
         )
 
     # Create an array of 1s and 0s, where 1s represent the planning moves
-- 
2.43.0

