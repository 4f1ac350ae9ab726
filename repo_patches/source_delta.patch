From 15b0d36d2799ff0f29b3634f81fbe2e4c6b484f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 001/174] fix: cast a history to a single state by taking its
 most recent state

---
 skdecide/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..d35c82f 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -558,7 +558,7 @@ class BoundConstraint(Constraint[D.T_memory, D.T_event, D.T_state]):
 
 # (auto)cast-related objects/functions
 cast_dict = {
-    (Memory, Union): lambda obj, src, dst: cast(obj[0], src[0], dst[0]),
+    (Memory, Union): lambda obj, src, dst: cast(obj[-1], src[0], dst[0]),  # the most recent state
     (Union, Memory): lambda obj, src, dst: Memory([cast(obj, src[0], dst[0])]),
     (Memory, Memory): lambda obj, src, dst: Memory([cast(x, src[0], dst[0]) for x in obj]),
     (StrDict, Union): lambda obj, src, dst: cast(next(iter(obj.values())), src[0], dst[0]),
-- 
2.43.0


From dc372ee74ac0e39c811bc6d03a84e0cdbb1400b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 002/174] fix: step history domains (unbounded or of length 1)
 and keep the set history bounded

---
 skdecide/builders/domain/dynamics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..42310fa 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -8,7 +8,7 @@ import functools
 from typing import Optional
 
 from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
-    EnvironmentOutcome, TransitionOutcome, autocastable
+    EnvironmentOutcome, TransitionOutcome, Memory, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
 
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory == Memory:  # history (possibly unbounded)
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
@@ -155,6 +155,9 @@ class Simulation(Environment):
             simulation_domain._step(my_action)
         ```
         """
+        if self.T_memory == Memory and memory is not None:
+            # own copy of the history, bounded as specified (since it will be extended by next steps)
+            memory = Memory(memory, maxlen=self._get_memory_maxlen())
         self._memory = memory
 
     @autocastable
-- 
2.43.0


From c0f805cababb852b34b002b36ebf9d91fb441310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 003/174] fix: answer membership tests on the empty space

---
 skdecide/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/core.py b/skdecide/core.py
index d35c82f..857235f 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -108,6 +108,9 @@ class EmptySpace(Space[T]):
     def get_elements(self) -> Iterable[T]:
         return ()
 
+    def contains(self, x: T) -> bool:
+        return False
+
 
 class SamplableSpace(Space[T]):
     """A space which can be sampled (uniformly randomly)."""
-- 
2.43.0


From 169937102e7c967464ee04cfe088d1d526b6b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 004/174] fix: reset the domain in rollout_episode when no
 starting memory is given

---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From 24957d1a000102573b1256fabbebcc7ccc561a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 005/174] fix: rollout_episode does not take partial
 observations for the domain memory

---
 skdecide/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..b1b230d 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -17,7 +17,7 @@ from typing import Any, Union, Optional, Type, Iterable, Tuple, List, Dict, Call
 from pkg_resources import iter_entry_points, EntryPoint, DistributionNotFound
 
 from skdecide import Domain, Solver, D, Space, EnvironmentOutcome, autocast_all, autocastable
-from skdecide.builders.domain import Goals, Markovian, Renderable, FullyObservable
+from skdecide.builders.domain import Goals, Markovian, Renderable, FullyObservable, Simulation
 from skdecide.builders.solver import Policies
 
 __all__ = ['get_registered_domains', 'get_registered_solvers', 'load_registered_domain', 'load_registered_solver',
@@ -302,6 +302,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    has_full_state = isinstance(domain, Simulation) and isinstance(domain, FullyObservable) and not has_memory
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -330,7 +331,8 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
+            if has_full_state:  # an observation is a memory of the domain only when it is its full (Markovian) state
+                domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From 5c48134c0d5b136aaa5f6b761fc0cb24c5098e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 006/174] fix: run (and save) all the requested episodes when
 rollout saves its results

---
 skdecide/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index b1b230d..43f1824 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -217,6 +217,10 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             now = datetime.datetime.now()
             str_timestamp = now.strftime("%Y%m%dT%H%M%S")
             directory = os.path.join(save_result_directory, str_timestamp)
+            suffix = 1
+            while os.path.exists(directory):  # e.g. several episodes saved within the same second
+                suffix += 1
+                directory = os.path.join(save_result_directory, f'{str_timestamp}_{suffix}')
             os.mkdir(directory)
             try:
                 with open(os.path.join(directory, 'actions.json'), 'w') as f:
@@ -234,7 +238,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    if save_result_directory is not None and num_episodes > 0:
+        return directory  # directory of the last episode
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 54bc6e1095c3cd759d5c526e39142a02abe44a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 007/174] fix: give each result of the same type its own shared
 memory registers

---
 skdecide/domains.py | 1692 +++++++++++++++++++++----------------------
 1 file changed, 846 insertions(+), 846 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..1de9511 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,846 +1,846 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += 1
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From 02d903211bbc0b5dc741cfabd3060b34cc58880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 008/174] fix: a failing shared memory job gives no result
 instead of its own arguments

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 1de9511..e878715 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -685,6 +685,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                 if ipc_conn is not None:
                     pusher.send(b'0')  # send success
             except Exception as e:
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
                 if int(shm_lambdas[i].value) == -1:
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
-- 
2.43.0


From 156bfd847b14c9f939c1ba66abdc21006198ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 009/174] fix: release the parallel domain when a job could not
 be launched

---
 skdecide/domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index e878715..ef80812 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -576,11 +576,14 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched: the domain is still available
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -755,6 +758,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -791,6 +795,8 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched: the domain is still available
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From f974172359d1cf76be03e848e306de03047b4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 010/174] fix: create the domain on demand in
 ParallelSolver.get_domain

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From 19781387b2b3bc7fbed1d58efc665f8a3016b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 011/174] fix: LazyAstar solves from a goal state

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..46eb06e 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)] if parent is None else [(parent, label),
+                                                                 (curnode, None)]
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From 4b12ba19a61003b2ddb6e375a638fcaea51c3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 012/174] fix: LRTAstar solves from a goal state and is defined
 where it has an action

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..47b608d 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
@@ -127,5 +127,5 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
-        cumulated_reward += self.values[current_state]
+        cumulated_reward += self._get_utility(current_state)
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 13c2c099157aadc7b0b13d118d4fb87147b05dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 013/174] fix: SimpleGreedy evaluates each applicable action at
 its own level when values do not depend on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From 3bb9f97c4c68ed98ad7a724e73186b369b1da185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 014/174] fix: POMCP observes the state reached by an action
 and always selects an applicable action

---
 skdecide/hub/solver/pomcp/pomcp.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 0ef4564..a149f40 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -53,6 +53,11 @@ class POMCP(Solver, DeterministicPolicies):
         # Get the next action from the solver's current policy:
         # this corresponds to the top-level Search procedure in the POMCP paper
 
+        # Update each state in the belief with the effects of the last
+        # action taken (if any):
+        if self._act_history[-1] is not None:
+            self._belief = self._update_belief_state(self._belief, self._act_history[-1])
+
         # Since we have now received a new observation, update our
         # belief state with this information; note that obs may
         # depend on the last action taken:
@@ -61,10 +66,6 @@ class POMCP(Solver, DeterministicPolicies):
         # Record the added observation:
         self._obs_history = self._obs_history + (observation,)
 
-        # Then, update each state in the filtered belief with the
-        # effects of the last action taken:
-        self._belief = self._update_belief_state(self._belief, self._act_history[-1])
-        
         # Now, we can make a decision from the new belief state:
         iterations = 0
         while iterations < self._max_iterations:  # or some other cut-off
@@ -106,7 +107,7 @@ class POMCP(Solver, DeterministicPolicies):
         else it's just the action with min expected cost.
         """
         best_action = None
-        best_action_score = self._VLV
+        best_action_score = math.inf
         if w > 0:
             parent = self._tree[(h_act, h_obs)]
         for action in self._domain.get_action_space().get_elements():
@@ -151,7 +152,7 @@ class POMCP(Solver, DeterministicPolicies):
             # simulate outcome of this action:
             new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
             TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-            new_obs = self._domain.get_observation_distribution(state, action).sample()
+            new_obs = self._domain.get_observation_distribution(new_state, action).sample()
             if self._domain.is_goal(new_obs):
                 s_cost = TV.cost
             else:
@@ -173,7 +174,7 @@ class POMCP(Solver, DeterministicPolicies):
         assert action is not None
         new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
         TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-        new_obs = self._domain.get_observation_distribution(state, action).sample()
+        new_obs = self._domain.get_observation_distribution(new_state, action).sample()
         if self._domain.is_goal(new_obs):
             s_cost = TV.cost
         else:
-- 
2.43.0


From b50c398836a863bee42b35d38b079221ff87af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 015/174] fix: graph domains are Markovian single-agent domains
 with next-state distributions

---
 .../hub/solver/graph_explorer/GraphDomain.py  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..b940d21 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,10 +2,10 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import DiscreteDistribution, Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
 import random
-from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
-    FullyObservable, PositiveCosts, UncertainTransitions
+from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTransitions, Actions, \
+    Goals, Markovian, FullyObservable, PositiveCosts, UncertainTransitions
 from skdecide import Domain, DeterministicPlanningDomain, D
 import networkx as nx
 
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
@@ -24,6 +24,8 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
 
 
 class GraphDomainUncertain(Domain,
+                           SingleAgent,
+                           Sequential,
                            UncertainTransitions,
                            Actions,
                            Goals,
@@ -93,11 +95,13 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
 class GraphDomain(Domain,
+                  SingleAgent,
+                  Sequential,
                   DeterministicTransitions,
                   Actions,
                   Goals,
@@ -133,13 +137,13 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
     def is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
@@ -148,7 +152,7 @@ class GraphDomain(Domain,
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
-- 
2.43.0


From 6d1bde06008d73f568d045978abb310a92937a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 016/174] fix: graph explorations expand new states, keep all
 transitions and accept no limit

---
 .../solver/graph_explorer/DFSExploration.py   | 13 +++++++-----
 .../DFS_Uncertain_Exploration.py              |  9 +++++----
 .../graph_explorer/FullSpaceExploration.py    | 20 ++++++++++---------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..7bd1563 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -2,7 +2,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -34,11 +34,12 @@ class DFSExploration(GraphExploration):
         next_state_map[init_state] = {}
         next_state_attributes[init_state] = {}
         paths_dict = {}
+        targets = {init_state} if self.domain.is_goal(init_state) else set()
         while stack:
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
@@ -47,6 +48,7 @@ class DFSExploration(GraphExploration):
                 next_state_attributes[vertex][action] = transition_extractor(vertex, action, next)
                 if self.domain.is_goal(next):
                     nb_path += 1
+                    targets.add(next)
                     if verbose:
                         print(nb_path, " / ", self.max_path)
                         print("nodes  ", nb_nodes, " / ", self.max_nodes)
@@ -63,11 +65,12 @@ class DFSExploration(GraphExploration):
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-               or (nb_edges > self.max_edges and nb_path >= 1):
+            if (self.max_path is not None and nb_path > self.max_path) \
+               or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+               or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           targets, "cost")
 
 
diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..13c7964 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -71,12 +71,13 @@ class DFSExploration(GraphExploration):
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
-            if (nb_states > self.max_nodes) \
-                or (nb_edges > self.max_edges):
+                    if prob != 0:
+                        cost = domain.get_transition_value(s, action, succ)
+                        next_state_map[s][action][succ] = (prob, cost.cost)
+            if (self.max_nodes is not None and nb_states > self.max_nodes) \
+                or (self.max_edges is not None and nb_edges > self.max_edges):
                 break
         return GraphDomainUncertain(next_state_map=next_state_map,
                                     state_terminal=state_terminal,
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..49889e5 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -3,7 +3,7 @@ from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain
 from skdecide.hub.solver.graph_explorer.GraphExploration import GraphExploration
 
 
-from skdecide import DeterministicPlanningDomain, Memory
+from skdecide import DeterministicPlanningDomain
 from typing import Any
 
 
@@ -28,6 +28,7 @@ class FullSpaceExploration(GraphExploration):
         nb_path = 0
         next_state_map[init_state] = {}
         next_state_attributes[init_state] = {}
+        targets = {init_state} if self.domain.is_goal(init_state) else set()
         while stack:
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
@@ -37,26 +38,27 @@ class FullSpaceExploration(GraphExploration):
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
+                    if not self.domain.is_goal(next):
+                        stack.append((next, path+[next]))
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
+                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(vertex,
                                                                                                   action,
                                                                                                   next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
+                                                         "reward": self.domain.get_transition_value(vertex,
                                                                                                     action,
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
-                else:
-                    if next not in next_state_map:
-                        stack.append((next, path+[next]))
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-                or (nb_edges > self.max_edges and nb_path >= 1):
+                    targets.add(next)
+            if (self.max_path is not None and nb_path > self.max_path) \
+               or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+               or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           targets, "cost")
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From fb235f8966c5f8305b683c125da856c54df60559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 017/174] fix: do not use np.int, which numpy does not provide
 any more

---
 .../facility/solvers/facility_lp_solver.py                    | 2 +-
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 .../discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py | 2 +-
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py        | 2 +-
 .../discrete_optimization/tsp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py     | 4 ++--
 .../discrete_optimization/vrp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py    | 2 +-
 skdecide/hub/solver/cgp/pycgp/cgp.py                          | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 72d0c43..321a643 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -172,7 +172,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index ed7ce34..675ad94 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -221,7 +221,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..83e7816 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix.astype(int))
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index ff50f4c..681b633 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -72,7 +72,7 @@ def parse(file_path)->TTPModel:
                 edgeWeightType = line[0]
             elif line.startswith("NODE_COORD_SECTION"):
                 nodes = []
-                nodes_array = np.zeros((numberOfNodes, 3), dtype=np.int)
+                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                 for i in range(numberOfNodes):
                     line = fp.readline()
                     line = line.split()
@@ -88,7 +88,7 @@ def parse(file_path)->TTPModel:
                     nodes += [n]
             elif line.startswith("ITEMS SECTION"):
                 items = []
-                items_array = np.zeros((numberOfItems, 4), dtype=np.int)
+                items_array = np.zeros((numberOfItems, 4), dtype=int)
                 for j in range(numberOfItems):
                     line = fp.readline()
                     line = line.split()
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..d7c1ae1 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 9ba477c..5b83c89 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -37,7 +37,7 @@ class CGP:
 		self.to_evaluate = np.zeros(self.max_graph_length, dtype=bool)
 		self.node_output = np.zeros(self.max_graph_length + self.num_inputs, dtype=np.float64)
 		self.nodes_used = []
-		self.output_genes = np.zeros(self.num_outputs, dtype=np.int)
+		self.output_genes = np.zeros(self.num_outputs, dtype=int)
 		self.nodes = np.empty(0, dtype=self.CGPNode)
 		for i in range(0, self.num_outputs):
 			self.output_genes[i] = self.genome[len(self.genome)-self.num_outputs+i]
-- 
2.43.0


From cbbb07cc3f20762f0b55b47fe4159a76074efa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 018/174] fix: CGP mutations stay feed-forward and clones keep
 their recurrency distance

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 5b83c89..1e5c7f8 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -107,7 +107,7 @@ class CGP:
 		return output
 
 	def clone(self):
-		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library)
+		return CGP(self.genome, self.num_inputs, self.num_outputs, self.num_cols, self.num_rows, self.library, self.recurrency_distance)
 
 	def mutate(self, num_mutationss):
 		for i in range(0, num_mutationss):
@@ -119,7 +119,7 @@ class CGP:
 					self.genome[index] = rnd.randint(0, len(self.library) - 1)
 				else:
 					# mutate connection
-					self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
+					self.genome[index] = rnd.randint(0, self.num_inputs + (index // (self.max_arity + 1) // self.num_rows) * self.num_rows - 1)
 			else:
 				# this is an output node
 				self.genome[index] = rnd.randint(0, self.num_inputs + self.num_cols * self.num_rows - 1)
@@ -134,7 +134,7 @@ class CGP:
 						self.genome[index] = rnd.randint(0, len(self.library) - 1)
 					else:
 						# mutate connection
-						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, (self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows) * self.recurrency_distance))
+						self.genome[index] = rnd.randint(0, min(self.max_graph_length + self.num_inputs - 1, int((self.num_inputs + (index // (self.max_arity + 1) // self.num_rows) * self.num_rows - 1) * self.recurrency_distance)))
 						#self.genome[index] = rnd.randint(0, self.num_inputs + (int(index / (self.max_arity + 1)) - 1) * self.num_rows)
 			else:
 				# this is an output node
-- 
2.43.0


From 3f53711a3a6e01e540975ffd4fb2b2cbf77d29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 019/174] fix: the CGP solver accepts a domain only if all
 parts of its spaces are supported

---
 skdecide/hub/solver/cgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index ed5a984..ae76a84 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -204,11 +204,11 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
 
         valide_action_space = True
         for x in flat_action_space:
-            valide_action_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            valide_action_space = valide_action_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         validate_observation_space = True
         for x in flat_observation_space:
-            validate_observation_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            validate_observation_space = validate_observation_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         return valide_action_space and validate_observation_space
         
-- 
2.43.0


From 447cf0d347602d3351a111bab818557bade67a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 020/174] fix: the observation space of MasterMind contains
 full scores

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..89573e6 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 5b06b657c3ec0a65d71b197e0f425a918c50c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 021/174] fix: data spaces contain their members whose type is
 not kept by serialization

---
 skdecide/hub/space/gym/gym.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/space/gym/gym.py b/skdecide/hub/space/gym/gym.py
index 5c30994..5ea23d5 100644
--- a/skdecide/hub/space/gym/gym.py
+++ b/skdecide/hub/space/gym/gym.py
@@ -254,8 +254,10 @@ class DataSpace(GymSpace[T]):
         super().__init__(gym_space)
 
     def contains(self, x: T) -> bool:
-        # works even when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
-        return super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
+        # works even when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar), the direct
+        # test being needed for the fields whose type is not kept by the serialization (e.g. boxes of 32-bit floats)
+        return super().contains(self.to_unwrapped([x])[0]) \
+            or super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
         # # bug: does not work when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
         # return super().contains(asdict(x))
 
-- 
2.43.0


From c38714f16bf02c754bca1ad1a5b03616c2b04826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 022/174] fix: interval features of Gym states in discrete and
 dictionary spaces

---
 skdecide/hub/domain/gym/gym.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..ddbd067 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,9 +279,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):  # no continuous variables in those spaces
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee1_features(self, state):
@@ -391,9 +392,10 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
-        else:
+        elif not isinstance(space, (gym.spaces.discrete.Discrete, gym.spaces.multi_discrete.MultiDiscrete,
+                                    gym.spaces.multi_binary.MultiBinary)):  # no continuous variables in those spaces
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
     def bee2_features(self, state):
-- 
2.43.0


From 7f70f482c42c1f08fb7a886405a7919d7a332b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 023/174] fix: count binary features of Gym states, and build
 them in dictionary spaces

---
 skdecide/hub/domain/gym/gym.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index ddbd067..95ca574 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -441,10 +441,7 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space, self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -465,7 +462,8 @@ class GymWidthDomain:
             maxlen = len(bin(struct.unpack('!i', struct.pack('!f', float('inf')))[0])[2:])
             for cell in np.nditer(element):
                 # convert float to string of 1s and 0s
-                float_bin = bin(struct.unpack('!i', struct.pack('!f', cell))[0])
+                # (adding 0.0 changes -0.0 into 0.0, which has a standard size)
+                float_bin = bin(struct.unpack('!i', struct.pack('!f', float(cell) + 0.0))[0])
                 # the sign of the float is encoded in the first bit in our translation
                 if float_bin[0] == '-':
                     features.append(True)
@@ -511,7 +509,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From 0f942c5d3661ea4b776f2abf54da56d10bd11822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 024/174] fix: elliptical features of Gym states in tuple and
 dictionary spaces

---
 skdecide/hub/domain/gym/gym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 95ca574..3bad1fc 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -537,7 +537,7 @@ class GymWidthDomain:
                                        xG: D.T_memory[D.T_state]):
         v0 = np.array(self._get_variables(self._gym_env.observation_space, x0))
         vG = np.array(self._get_variables(self._gym_env.observation_space, xG))
-        d = xG.shape[0] # column vector
+        d = len(vG) # column vector
         self._elliptical_features = []
         for i in range(d):
             for j in range(i+1, d):
@@ -580,7 +580,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From 93f71ee587a504c87359906e89d868da4f62a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 025/174] fix: discretize all the dimensions of Gym action
 spaces

---
 skdecide/hub/domain/gym/gym.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 3bad1fc..89acea6 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -622,7 +622,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 if l == -float('inf') or h == float('inf'):
                     actions.append([gym.spaces.box.Box(low=l, high=h).sample() for i in range(self._discretization_factor)])
                 else:
-                    actions.append([l + ((h-l)/(self._discretization_factor - 1))*i for i in range(self._discretization_factor)])
+                    actions.append(list(np.linspace(float(l), float(h), self._discretization_factor)))
             alist = []
             self._generate_box_action_combinations(actions, action_space.shape, action_space.dtype, 0, [], alist)
             return ListSpace(alist)
@@ -635,7 +635,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -644,10 +644,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
+            dkeys = list(action_space.spaces.keys())
             generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
                                   [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace([dict(zip(dkeys, g)) for g in generate(0)])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
@@ -658,16 +659,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist, dtype=dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From 87bf4a5e55bf63b1ff535456e1139589b43db2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 026/174] fix: compare multi-discrete observations of planned
 Gym environments

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 89acea6..755fdf2 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -755,7 +755,7 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
-        elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
+        elif isinstance(space, (gym.spaces.multi_binary.MultiBinary, gym.spaces.multi_discrete.MultiDiscrete)):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
             assert len(e1) == len(e2) == len(space)
-- 
2.43.0


From 4090b2a33b6d1e480fd2fad19fb3acefff2050f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 027/174] fix: AsGymEnv gives observations of its observation
 space

---
 skdecide/hub/domain/gym/gym.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 755fdf2..027d5c3 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -911,9 +911,10 @@ class AsGymEnv(gym.Env):
         - done (boolean): Whether the episode ended, in which case further step() calls will return undefined results.
         - info (dict): Contains auxiliary diagnostic information (helpful for debugging, and sometimes learning).
         """
-        action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
+        if self._unwrap_spaces:
+            action = next(iter(self._domain.get_action_space().from_unwrapped([action])))
         outcome = self._domain.step(action)
-        outcome_observation = next(iter(self._domain.get_observation_space().to_unwrapped([outcome.observation])))
+        outcome_observation = self._unwrap_observation(outcome.observation)
         # Some solvers dealing with OpenAI Gym environments crash when info is None (e.g. baselines solver)
         outcome_info = outcome.info if outcome.info is not None else {}
         return outcome_observation, outcome.value.reward, outcome.termination, outcome_info
@@ -924,7 +925,12 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return self._unwrap_observation(self._domain.reset())
+
+    def _unwrap_observation(self, observation):
+        if self._unwrap_spaces:
+            return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
+        return observation
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From 35f40c06aa1aef25c83ff2a6554d0dc3e234e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 028/174] fix: scheduling tasks can be started in all their
 feasible modes, with the needs at their start

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..ff1c9b8 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -669,11 +669,13 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
-- 
2.43.0


From 65edd9a62a156b793fc7b24a9a5db611e2f1fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 029/174] fix: tasks of duration 0 release their renewable
 resources on completion

---
 skdecide/builders/scheduling/scheduling_domains.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index ff1c9b8..424f066 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,9 +425,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
-                next_state.resource_used_for_task.pop(task)
+                self._release_renewable_resources(next_state, task)
         return next_state
 
+    def _release_renewable_resources(self, state: State, task: int):
+        """Release (in place) the renewable resources used by a task which is now complete."""
+        for res, res_consumption in state.resource_used_for_task.pop(task).items():
+            if self.is_renewable(res):
+                state.resource_used[res] -= res_consumption
+
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
         """In an uncertain scheduling environment, update the status of newly started tasks whose duration is 0
          from ongoing to complete."""
@@ -440,7 +446,7 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
-                    next_state.resource_used_for_task.pop(task)
+                    self._release_renewable_resources(next_state, task)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From 25879f45befdaa44ca41afc8486a961f15912588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 030/174] fix: update the varying consumption of tasks which
 are still ongoing, in each outcome separately

---
 skdecide/builders/scheduling/scheduling_domains.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 424f066..b3fbefd 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -590,7 +590,7 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(started_task)
             next_state.tasks_remaining.remove(started_task)
             next_state.tasks_details[started_task].start = next_state.t
-            next_state.tasks_details[started_task].resources = resource_to_use
+            next_state.tasks_details[started_task].resources = dict(resource_to_use)
             next_state.tasks_details[started_task].sampled_duration = \
                 self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
             for res in resource_to_use:
@@ -622,10 +622,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 9fb2a89d24aa31587970776be1979451aaebdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 031/174] fix: cost of non-renewable resources in scheduling,
 and of renewable ones per time unit elapsed

---
 skdecide/builders/scheduling/scheduling_domains.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index b3fbefd..fcfb276 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -787,20 +787,21 @@ class SchedulingDomain(WithPrecedence,
             mode_cost_val = 0.
             if action.action == SchedulingActionEnum.START:
                 mode_cost_val += self.get_mode_costs()[action.task][action.mode]
+            elapsed_time = next_state.t - memory.t
             renewable_type_cost_val = 0.
             nonrenewable_type_cost_val = 0.
             for res in self.get_resource_types_names():
                 if self.is_renewable(res):
-                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed_time
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
-                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed_time
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From b79fb71cdb9ed56e6e9d2e6d5f7f58f6a98722f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 032/174] fix: scheduling actions are compared by value

---
 .../builders/scheduling/scheduling_domains_modelling.py  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..0ea18f8 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -192,6 +192,15 @@ class SchedulingAction:
         self.time_progress = time_progress
         self.resource_unit_names = resource_unit_names
 
+    def _key(self):
+        return self.task, self.action, self.mode, self.time_progress, frozenset(self.resource_unit_names or ())
+
+    def __eq__(self, other):
+        return isinstance(other, SchedulingAction) and self._key() == other._key()
+
+    def __hash__(self):
+        return hash(self._key())
+
     def __str__(self):
         s = 'Action \n'
         s += "Task : "+str(self.task)+"\n"
-- 
2.43.0


From be3b5103227fbaab9459d84dd418cf297ac0d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 033/174] fix: paused tasks return non-renewable resources as
 declared for the task

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index fcfb276..717a254 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -466,7 +466,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From 2cd34568cdd44bcaa5a5f8e4d4ef0b4e8a912118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 034/174] fix: paused tasks are resumed in their mode, only
 when their resources are available

---
 .../builders/scheduling/scheduling_domains.py | 36 ++++++++++---------
 skdecide/builders/scheduling/task.py          |  3 +-
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 717a254..21a71d1 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -494,13 +494,18 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
-            b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
+            b, resource_to_use = self.check_if_action_can_be_started(next_state,
+                                                                     action=SchedulingAction(
+                                                                         task=resumed_task,
+                                                                         action=action.action,
+                                                                         mode=mode,
+                                                                         time_progress=action.time_progress,
+                                                                         resource_unit_names=action.resource_unit_names))
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
@@ -685,11 +690,8 @@ class SchedulingDomain(WithPrecedence,
         return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
-        possible_task_precedence = [(n, mode)
-                                    for n in state.tasks_paused
-                                    for mode in self.get_task_modes(n).keys()
-                                    if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+        # a paused task was started, so its predecessors are complete, and it goes on in the mode it was started in
+        possible_task_precedence = [(n, state.tasks_mode[n]) for n in state.tasks_paused]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
@@ -697,7 +699,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
@@ -929,11 +932,12 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
-                                                 mode=self.state.tasks_mode[t],
+                                                 mode=m,
                                                  time_progress=False)
-                                for t in task_possible_to_resume]
+                                for t in task_possible_to_resume
+                                for m in task_possible_to_resume[t]]
             if choice == SchedulingActionEnum.TIME_PR:
                 list_action.append(SchedulingAction(task=None,
                                                     action=SchedulingActionEnum.TIME_PR,
@@ -991,7 +995,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
@@ -999,7 +1003,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..245fa01 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,8 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            resumed = self.resumed[i] if i < len(self.resumed) else tt  # still paused
+            time_paused += resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From b94952bc16f2372c646d4cd8e96dbd86fb24af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 035/174] fix: tasks declared as restarting after a pause lose
 their progress

---
 .../builders/scheduling/scheduling_domains.py | 21 ++++++++++++++-----
 skdecide/builders/scheduling/task.py          |  7 +++++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 21a71d1..e6d3e67 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -8,7 +8,7 @@ from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTrans
 from skdecide.builders.scheduling.modes import SingleMode, MultiMode
 from skdecide.builders.scheduling.resource_consumption import VariableResourceConsumption, ConstantResourceConsumption
 from skdecide.builders.scheduling.precedence import WithPrecedence
-from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity
+from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
 from skdecide.builders.scheduling.resource_type import WithResourceTypes, WithResourceUnits, WithoutResourceUnit
 from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
 from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum, State, \
@@ -494,6 +494,7 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
+            restart = self.get_task_resuming_type()[resumed_task] == ResumeType.Restart
             b, resource_to_use = self.check_if_action_can_be_started(next_state,
                                                                      action=SchedulingAction(
                                                                          task=resumed_task,
@@ -506,6 +507,11 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(resumed_task)
             next_state.tasks_paused.remove(resumed_task)
             next_state.tasks_details[resumed_task].resumed.append(next_state.t)
+            if restart:
+                next_state.tasks_progress[resumed_task] = 0.
+                next_state.tasks_details[resumed_task].restarted = next_state.t
+                next_state.tasks_details[resumed_task].n_pauses_before_restart = \
+                    len(next_state.tasks_details[resumed_task].paused)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
@@ -556,8 +562,8 @@ class SchedulingDomain(WithPrecedence,
         resource_to_use = self.get_resource_used(task=started_task,
                                                  mode=action.mode,
                                                  resource_unit_names=action.resource_unit_names,
-                                                 time_since_start=
-                                                 state.tasks_details[started_task].get_task_active_time(state.t))
+                                                 time_since_start=self._get_resuming_time(state, started_task)
+                                                 if action.action == SchedulingActionEnum.RESUME else 0)
         if any(resource_to_use[r] >
                state.resource_availability[r]-state.resource_used[r]
                for r in resource_to_use):
@@ -699,13 +705,18 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.tasks_details[n]
-                                                                          .get_task_active_time(state.t)) >= 0
+                                                                          time=self._get_resuming_time(state, n)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
                 for n, mode in possible_task_with_ressource}
 
+    def _get_resuming_time(self, state: State, task: int) -> int:
+        """Return the execution time (since its start) from which a paused task goes on if it is resumed."""
+        if self.get_task_resuming_type()[task] == ResumeType.Restart:
+            return 0
+        return state.tasks_details[task].get_task_active_time(state.t)
+
     def state_is_overconsuming(self, state: State):
         return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
 
diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index 245fa01..9e65c14 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -30,17 +30,20 @@ class Task:
         self.mode = None
         self.paused = []
         self.resumed = []
+        self.restarted = None  # last time the task was restarted from scratch (after a pause), if any
+        self.n_pauses_before_restart = 0
         self.resources = {}
 
     def get_task_active_time(self, t: Optional[int] = None):
+        """Return the time during which the task was executed until t, without the time before it was last restarted."""
         tt = t
         if self.end is not None:
             tt = min(t, self.end)
         if self.start is None:
             return 0
-        time_since_start = tt - self.start
+        time_since_start = tt - (self.start if self.restarted is None else self.restarted)
         time_paused = 0
-        for i in range(len(self.paused)):
+        for i in range(self.n_pauses_before_restart, len(self.paused)):
             resumed = self.resumed[i] if i < len(self.resumed) else tt  # still paused
             time_paused += resumed - self.paused[i]
         total_active_time = time_since_start - time_paused
-- 
2.43.0


From 4405bab0d9accbffe95d4db70fa3b8fe6465f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 036/174] fix: tasks without declared resuming type are resumed

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index e6d3e67..6a3136d 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -494,7 +494,7 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            restart = self.get_task_resuming_type()[resumed_task] == ResumeType.Restart
+            restart = self.get_task_resuming_type().get(resumed_task) == ResumeType.Restart
             b, resource_to_use = self.check_if_action_can_be_started(next_state,
                                                                      action=SchedulingAction(
                                                                          task=resumed_task,
@@ -713,7 +713,7 @@ class SchedulingDomain(WithPrecedence,
 
     def _get_resuming_time(self, state: State, task: int) -> int:
         """Return the execution time (since its start) from which a paused task goes on if it is resumed."""
-        if self.get_task_resuming_type()[task] == ResumeType.Restart:
+        if self.get_task_resuming_type().get(task) == ResumeType.Restart:
             return 0
         return state.tasks_details[task].get_task_active_time(state.t)
 
-- 
2.43.0


From d893af7def077291f289f6ec355dff054daf8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 037/174] fix: outcomes of completion conditions keep the
 probability of their state and combine all the conditions of a task

---
 .../builders/scheduling/scheduling_domains.py | 55 +++++++------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6a3136d..ae5c258 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,53 +360,36 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, prior_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
                     next_state.tasks_progress[task_id] = 1
                     completed_tmp.append(task_id)
-
-            all_values = []
-            all_models = {}
             for completed_task in completed_tmp:
                 next_state.tasks_complete.add(completed_task)
                 next_state.tasks_ongoing.remove(completed_task)
-                for res in next_state.resource_used_for_task[completed_task]:
-                    res_consumption = next_state.resource_used_for_task[completed_task][res]
-                    if self.is_renewable(res):
-                        next_state.resource_used[res] -= res_consumption
-                next_state.resource_used_for_task.pop(completed_task)
+                self._release_renewable_resources(next_state, completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
-                if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
-                    for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
-                        for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
-                            all_values.append({'task': completed_task,
-                                               'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][0],
-                                               'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
-
-            combinations = list(product(*all_models.values()))
-            # for comb in combinations:
-            #     next_state_2 = next_state.copy()
-            #     proba = 1.
-            #     for i in comb:
-            #         next_state_2._current_conditions.add(all_values[i]['cond'])
-            #         proba *= all_values[i]['prob']
-            #     states_and_proba += [(next_state_2, proba)]
-            for comb in combinations:
-                do_copy = len(comb) > 0
-                next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
-                for i in comb:
-                    next_state_2._current_conditions.add(all_values[i]['cond'])
-                    proba *= all_values[i]['prob']
-                states_and_proba += [(next_state_2, proba)]
+            states_and_proba += [(outcome, prior_proba * proba)
+                                 for outcome, proba in self._get_condition_outcomes(next_state, completed_tmp)]
         return DiscreteDistribution(states_and_proba)
 
+    def _get_condition_outcomes(self, state: State, completed_tasks: Iterable[int]) -> List[Tuple[State, float]]:
+        """Return the possible outcomes (with their probabilities) of adding to a state the on-completion conditions of
+        the tasks which have just been completed."""
+        added_conditions = self.get_task_on_completion_added_conditions()
+        tests = [test.get_values() for task in completed_tasks for test in added_conditions.get(task, [])]
+        outcomes = []
+        for combination in product(*tests):
+            outcome = state.copy() if len(tests) > 0 else state
+            proba = 1.
+            for condition, condition_proba in combination:
+                outcome._current_conditions.add(condition)
+                proba *= condition_proba
+            outcomes.append((outcome, proba))
+        return outcomes
+
     def update_complete_tasks_simulation(self, state: State):
         """In a simulated scheduling environment, update the status of newly completed tasks in the state from ongoing to complete
         and update resource availability. This function will also log in task_details the time it was complete"""
-- 
2.43.0


From 027c9a5740317e9ef49aabd74875b5408c16dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 038/174] fix: conditional tasks are added as soon as the
 completion of a task meets their conditions

---
 .../builders/scheduling/scheduling_domains.py | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index ae5c258..c12792c 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
@@ -135,8 +135,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks(next_state, action)
         next_state = self.update_start_tasks(next_state, action)
         next_state = self.update_complete_dummy_tasks(next_state, action)
-        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_time(next_state, action)
+        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_resource_availability(next_state, action)  # maybe this should be done after self.update_time too ??
 
         return next_state
@@ -420,22 +420,27 @@ class SchedulingDomain(WithPrecedence,
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
         """In an uncertain scheduling environment, update the status of newly started tasks whose duration is 0
          from ongoing to complete."""
-        next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
+        states_and_proba = list(states.get_values())
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            states_and_proba = []
+            for next_state, prior_proba in states.get_values():
+                completed_tasks = []
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
                     self._release_renewable_resources(next_state, task)
-        return next_states
+                    completed_tasks.append(task)
+                states_and_proba += [(outcome, prior_proba * proba)
+                                     for outcome, proba in self._get_condition_outcomes(next_state, completed_tasks)]
+        return DiscreteDistribution(states_and_proba)
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(DiscreteDistribution([(state, 1.)]), action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
@@ -749,15 +754,13 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
-            for next_state, _ in next_states.get_values():
-                all_available_tasks = self.get_available_tasks(next_state)
-                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-                    next_state.tasks_progress).union(next_state.tasks_complete)
-                new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
-                for task in new_tasks:
-                    next_state.tasks_remaining.add(task)
-            return next_states
+        for next_state, _ in next_states.get_values():
+            all_available_tasks = self.get_available_tasks(next_state)
+            all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
+                next_state.tasks_progress).union(next_state.tasks_complete)
+            new_tasks = all_available_tasks.difference(all_considered_tasks)
+            for task in new_tasks:
+                next_state.tasks_remaining.add(task)
         return next_states
 
     def update_conditional_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From 03affc7e4fc5308d8e6d11ad025f1bddcc405617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 039/174] fix: an inplace scheduling environment starts each
 episode from the initial state

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index c12792c..1ecf4af 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -157,6 +157,10 @@ class SchedulingDomain(WithPrecedence,
         s.resource_used = {r: 0 for r in s.resource_availability}
         return s
 
+    def _state_reset(self) -> D.T_state:
+        """Return a copy of the (cached) initial state, which the episode can modify in the inplace mode."""
+        return self._get_initial_state().copy()
+
     def _get_action_space_(self) -> D.T_agent[Space[D.T_event]]:
         """
         To be implemented if needed one day.
-- 
2.43.0


From b8725a5deb80b7c46f549a27e8fa3c645b1b9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 040/174] fix: stochastic RCPSP keeps the non-renewable
 resources it is given

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..d240fc1 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -206,6 +206,14 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
     def _get_resource_types_names(self) -> List[str]:
         return self.resource_names
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        if self.resource_renewable is None:
+            return super()._get_resource_renewability()
+        return self.resource_renewable
+
+    def is_renewable(self, resource: str):
+        return self.get_resource_renewability()[resource]
+
     def __init__(self,
                  resource_names: List[str]=None,
                  task_ids: List[int]=None,
-- 
2.43.0


From 090dfea0ee7a7a8b2a3a96858a5ea808f985d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 041/174] fix: original availability of resources in the
 stochastic calendar RCPSP

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index d240fc1..f3a7e16 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -334,6 +334,8 @@ class SMRCPSPCalendar(D):
         self.successors = successors
         self.max_horizon = max_horizon
         self.resource_availability = resource_availability
+        self.original_resource_availability = {r: max(self.resource_availability[r])
+                                               for r in self.resource_availability}
         self.resource_renewable = resource_renewable
         self.duration_distribution = duration_distribution
         self.initialize_domain()
-- 
2.43.0


From 0eab341da776c0041b220cc47fa9b00fd249d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 042/174] fix: result storage: adding to an empty storage
 failed, best multi-objective solution could be dominated

---
 .../result_storage/result_storage.py             | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..a6fd9ae 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,20 +53,26 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
-        if self.maximize and fitness > self.max \
+        if self.size_heap == 0:
+            # first solution stored
+            self.min = fitness
+            self.max = fitness
+            if self.best_solution is None:
+                self.best_solution = solution
+        elif self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
         if self.maximize and fitness >= self.min or \
                 (not self.maximize and fitness <= self.max):
             if self.size_heap >= self.nb_best_score and self.limit_store:
                 heappushpop(self.heap, fitness)
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
             else:
                 heappush(self.heap, fitness)
                 self.size_heap += 1
-                self.min = min(fitness, self.min)
-                self.max = max(fitness, self.max)
+            # (min/max keep their first argument unless the second one is strictly better:
+            # with multiobjective fitness, an incomparable one should not replace the best one)
+            self.min = min(self.min, fitness)
+            self.max = max(self.max, fitness)
 
     def finalize(self):
         self.heap = sorted(self.heap, reverse=self.maximize)
-- 
2.43.0


From 67af965da50bf382fb69dcd69a740528cc133d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 043/174] fix: result storage: last/random best multi-objective
 solution could be dominated

---
 .../result_storage/result_storage.py          | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index a6fd9ae..2783a13 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -81,21 +81,20 @@ class ResultStorage:
         f = max if self.maximize else min
         return f(self.list_solution_fits, key=lambda x: x[1])
 
-    def get_last_best_solution(self):
+    def get_indexes_best_solutions(self):
         f = max if self.maximize else min
         best = f(self.list_solution_fits, key=lambda x: x[1])[1]
-        sol = max([i
-                   for i in range(len(self.list_solution_fits))
-                   if self.list_solution_fits[i][1] == best])
-        return self.list_solution_fits[sol]
+        fits = [fit for _, fit in self.list_solution_fits]
+        # equal multiobjective fitnesses are only incomparable, they might be dominated by others
+        return [i for i in range(len(fits))
+                if fits[i] == best and not any(fits[i] < fit if self.maximize else fits[i] > fit
+                                               for fit in fits)]
+
+    def get_last_best_solution(self):
+        return self.list_solution_fits[max(self.get_indexes_best_solutions())]
 
     def get_random_best_solution(self):
-        f = max if self.maximize else min
-        best = f(self.list_solution_fits, key=lambda x: x[1])[1]
-        sol = random.choice([i
-                            for i in range(len(self.list_solution_fits))
-                            if self.list_solution_fits[i][1] == best])
-        return self.list_solution_fits[sol]
+        return self.list_solution_fits[random.choice(self.get_indexes_best_solutions())]
 
     def get_random_solution(self):
         s = [l for l in self.list_solution_fits
-- 
2.43.0


From d3db27b4505b4aac1fdc263eabebf386d40cf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 044/174] fix: super pareto front of minimisation results was
 computed in the maximisation direction

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From 70f7b1d006cb3ebcc2da11d3fe0bea87dc8d5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 045/174] fix: local search stored solutions altered by later
 moves, and minimisation results in the maximisation direction

---
 .../generic_tools/ls/hill_climber.py             | 16 ++++++++++------
 .../generic_tools/ls/simulated_annealing.py      | 11 +++++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..9f9f4dd 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -37,14 +37,16 @@ class HillClimber:
         objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
         cur_variable = initial_variable.copy()
         if self.store_solution:
-            store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(), objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
-            store = ResultStorage(list_solution_fits=[(initial_variable,
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(),
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -70,20 +72,21 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                # before backtracking, which might modify nv in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
@@ -123,8 +126,9 @@ class HillClimberPareto(HillClimber):
               pickle_name="tsp")->ResultLS:
         objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
         pareto_front = ParetoFront(list_solution_fits=
-                                   [(initial_variable, objective)],
+                                   [(initial_variable.copy(), objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..a0dba0b 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -53,14 +53,16 @@ class SimulatedAnnealing:
         cur_objective = objective
         cur_best_objective = objective
         if self.store_solution:
-            store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(), objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
-            store = ResultStorage(list_solution_fits=[(initial_variable,
+            store = ResultStorage(list_solution_fits=[(initial_variable.copy(),
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
@@ -89,6 +91,9 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                # before backtracking, which might modify nv in place
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -98,8 +103,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 84760baebeee46ca54441ad0c3ec742a12c3d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 046/174] fix: RCPSP solutions kept an obsolete schedule when
 copied after a modification or when their modes were modified

---
 .../rcpsp/rcpsp_model.py                      | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..1eaf71f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -56,7 +55,7 @@ class RCPSPSolution(Solution):
             if self.rcpsp_schedule is not None:
                 self.standardised_permutation = self.generate_permutation_from_schedule()
                 self.rcpsp_permutation = deepcopy(self.standardised_permutation)
-                self._schedule_to_recompute = False
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if rcpsp_schedule is None:
             if not isinstance(problem, Aggreg_RCPSPModel):
@@ -75,24 +74,30 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in {"rcpsp_permutation", "rcpsp_modes"}:
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        # the copy of a modified solution has to be rescheduled too
+        sol._schedule_to_recompute = sol._schedule_to_recompute or self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        # the copy of a modified solution has to be rescheduled too
+        sol._schedule_to_recompute = sol._schedule_to_recompute or self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 7a99ab4ca3b9893877396cf63c8215d1cd80a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 047/174] fix: RCPSP satisfy judged the obsolete schedule of a
 modified solution

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 1eaf71f..61dbdd6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -545,6 +545,8 @@ class RCPSPModel(Problem):
                             2)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
@@ -725,6 +727,8 @@ class RCPSPModelCalendar(RCPSPModel):
                                   name_ressource_to_index=self.name_ressource_to_index)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
-- 
2.43.0


From ab6793302c55330c2381cbd0d495913148f13af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 048/174] fix: infeasible RCPSP schedules were scored as
 feasible depending on the order of the successors

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 61dbdd6..f76730a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -263,7 +263,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = self.problem.n_jobs + 2
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
@@ -393,7 +393,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = completed_tasks[act_id].end
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = self.problem.n_jobs + 2
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
-- 
2.43.0


From e6e24ecaf50298d2b4f3965992072650ac010591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 049/174] fix: scheduling with calendars consumed the calendars
 of the problem (arrays) or could not be scored (lists)

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index f76730a..e14ef34 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -123,7 +123,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:makespan+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:makespan])
             else:
                 resource_avail_in_time[res] = np.full(makespan, self.problem.resources[res], dtype=int).tolist()
         for act_id in self.problem.mode_details.keys():
@@ -149,7 +149,7 @@ class RCPSPSolution(Solution):
         for res in list(self.problem.resources.keys()):
             mean_avail[res] = np.mean(resource_avail_in_time[res])
 
-        mean_resource_reserve = np.mean([mean_avail[res] / self.problem.resources[res] for res in list(self.problem.resources.keys())])
+        mean_resource_reserve = np.mean([mean_avail[res] / np.max(self.problem.resources[res]) for res in list(self.problem.resources.keys())])
         # print('mean_avail: ', mean_avail)
         # print('original_avail: ', self.problem.resources)
         # print('val: ', mean_resource_reserve)
@@ -166,7 +166,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if  isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:new_horizon+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
         # 3
@@ -284,7 +284,7 @@ class RCPSPSolution(Solution):
         resource_avail_in_time = {}
         for res in list(self.problem.resources.keys()):
             if isinstance(self.problem, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.problem.resources[res][:new_horizon+1]
+                resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
         # 3
-- 
2.43.0


From 648132b9142957ea876c2098b27b2891a342de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 050/174] fix: mean resource reserve counted consumed
 non-renewable resources as available again

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index e14ef34..48c1a42 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -140,8 +140,8 @@ class RCPSPSolution(Solution):
                 for t in range(start_time, end_time):
                     for res in resource_avail_in_time.keys():
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][mode][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_time:
-                            for tt in range(end_time + 1, makespan):
+                        if res in self.problem.non_renewable_resources and t == end_time - 1:
+                            for tt in range(end_time, makespan):
                                 resource_avail_in_time[res][tt] -= \
                                 self.problem.mode_details[act_id][mode][res]
         # print('resource_avail_in_time: ', resource_avail_in_time)
-- 
2.43.0


From 27d8339efaa1c06f52c8f0a07e14b46d169eeda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 051/174] fix: non-renewable resources of activities without
 duration were ignored when scheduling

---
 .../rcpsp/rcpsp_model.py                      | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 48c1a42..aef4372 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -241,12 +241,13 @@ class RCPSPSolution(Solution):
                 for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']):  # 15
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_t:
-                            for tt in range(end_t+1, new_horizon):
-                                resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                                if resource_avail_in_time[res][tt] < 0:
-                                    unfeasible_non_renewable_resources = True
-                                    # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
+                for res in self.problem.non_renewable_resources:
+                    # (out of the loop on t so that activities without duration consume too)
+                    for tt in range(end_t+1, new_horizon):
+                        resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
+                            # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
@@ -367,12 +368,13 @@ class RCPSPSolution(Solution):
                 for t in range(current_min_time, current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']):  # 15
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_t:
-                            for tt in range(end_t+1, new_horizon):
-                                resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                                if resource_avail_in_time[res][tt] < 0:
-                                    unfeasible_non_renewable_resources = True
-                                    # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
+                for res in self.problem.non_renewable_resources:
+                    # (out of the loop on t so that activities without duration consume too)
+                    for tt in range(end_t+1, new_horizon):
+                        resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                        if resource_avail_in_time[res][tt] < 0:
+                            unfeasible_non_renewable_resources = True
+                            # print('resource', res, 'exhausted', resource_avail_in_time[res][tt], 'initial avail: ', self.problem.resources[res])
                         # print(res, ' resource_avail_in_time[res]: ', resource_avail_in_time[res])
 
                 activity_end_times[act_id] = current_min_time + self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']  # 18
-- 
2.43.0


From 902692c771890f1fea7efd10f0b3e28eac6789c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 052/174] fix: partial rescheduling moved running tasks and
 gave back non-renewable resources of completed tasks

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index aef4372..5b5522e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -308,6 +308,9 @@ class RCPSPSolution(Solution):
         all_activities = [x for x in list(self.problem.resources.keys()) if x not in list(completed_tasks)]
         # print('all_activities: ', all_activities)
         perm_extended = [x for x in perm_extended if x not in list(completed_tasks)]
+        # running tasks keep their start times: they are placed before the others
+        perm_extended = [x for x in perm_extended if x in scheduled_tasks_start_times] \
+            + [x for x in perm_extended if x not in scheduled_tasks_start_times]
         # print('perm_extended - removed completed_tasks: ', perm_extended)
 
         # fix modes in case specified mode not in mode details for the activites
@@ -319,6 +322,12 @@ class RCPSPSolution(Solution):
                 if i != 0 and i != len(modes_extended)-1:
                     self.rcpsp_modes[i-1] = modes_extended[i]
 
+        # non-renewable resources of the completed tasks are consumed for good
+        for act_id in completed_tasks:
+            for res in self.problem.non_renewable_resources:
+                need = self.problem.mode_details[act_id][modes_extended[act_id-1]][res]
+                resource_avail_in_time[res] = [x - need for x in resource_avail_in_time[res]]
+
         # print('modes_extended: ', modes_extended)
         # print('start SGS')
         while len(perm_extended) > 0 and not unfeasible_non_renewable_resources:
-- 
2.43.0


From e69fb945ce77fc08fe8dfb0cf5aec933f57cc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 053/174] fix: permutation swaps never moved the last element
 and failed on one element

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..94d75b8 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -178,7 +178,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From d48da46edf4eec71992d1758ffd19910990696ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 054/174] fix: undoing several swaps did not restore the
 permutation; swapped solutions kept their obsolete schedule

---
 .../generic_tools/mutations/permutation_mutations.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 94d75b8..3997595 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,13 +142,16 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        # the solution has to know that it was modified
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From 59812e10265be1013729c08f89a2164aea16516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 055/174] fix: partial shuffle modified the permutation of the
 original solution

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 3997595..b6a3983 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -116,7 +116,7 @@ class PermutationPartialShuffleMutation(Mutation):
         random.shuffle(self.range_int_total)
         int_to_move = self.range_int_total[:self.n_to_move]
         random.shuffle(self.range_int)
-        new = getattr(solution, self.attribute)
+        new = list(previous)
         for k in range(self.n_to_move):
             #prevs += [new[int_to_move[k]]]
             new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
-- 
2.43.0


From 33eb9451d51b14dfa336b2e3c1e3d24feb8e80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 056/174] fix: 2-opt mutation failed on permutations of one
 element

---
 .../generic_tools/mutations/permutation_mutations.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index b6a3983..39efb33 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -234,8 +234,8 @@ class TwoOptMutation(LocalMove):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        i = random.randint(0, self.length-2)
-        j = random.randint(i+1, self.length-1)
+        i = random.randint(0, max(0, self.length-2))
+        j = random.randint(min(i+1, self.length-1), self.length-1)
         two_opt_move = TwoOptMove(self.attribute, [(i, j)])
         new_sol = two_opt_move.apply_local_move(solution)
         return (new_sol, two_opt_move)
-- 
2.43.0


From 9f7ab9788b6f47f169fcd4d33c5b58ea1f54b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 057/174] fix: bit-flipped solutions were not told that they
 were modified

---
 .../generic_tools/mutations/mutation_bool.py                    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
index 7bcae2f..7c7bc26 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mutation_bool.py
@@ -19,6 +19,8 @@ class BitFlipMove(LocalMove):
         l = getattr(solution, self.attribute)
         for index in self.list_index_flip:
             l[index] = (1-l[index])
+        # the solution has to know that it was modified
+        setattr(solution, self.attribute, l)
         return solution
     
     def backtrack_local_move(self, solution: Solution) -> Solution:
-- 
2.43.0


From e27ae9a2eb5904520b7f215d5ccfb120a96a28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 058/174] fix: knapsack solutions kept obsolete value and
 weight after a change of items taken or of problem

---
 .../knapsack/knapsack_model.py                    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..0caed65 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -21,9 +21,16 @@ class KnapsackSolution(Solution):
 
     def __init__(self, problem, list_taken, value=None, weight=None):
         self.problem = problem
+        self.list_taken = list_taken
         self.value = value
         self.weight = weight
-        self.list_taken = list_taken
+
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "list_taken":
+            # stored value and weight are obsolete
+            self.value = None
+            self.weight = None
 
     def copy(self):
         return KnapsackSolution(problem=self.problem, 
@@ -38,8 +45,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
@@ -99,7 +104,7 @@ class KnapsackModel(Problem):
         return objectives
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None or self.force_recompute_values:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             val = self.evaluate_value(knapsack_solution)
         else:
             val = knapsack_solution.value
@@ -121,7 +126,7 @@ class KnapsackModel(Problem):
                    knapsack_solution.weight - self.max_capacity)
 
     def satisfy(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             self.evaluate(knapsack_solution)
         return knapsack_solution.weight <= self.max_capacity
 
-- 
2.43.0


From 97350ecfafbceddaded5fc074ce1db5e53ffa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 059/174] fix: equal knapsack solutions had different hashes

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 0caed65..a02f0e4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -54,7 +54,7 @@ class KnapsackSolution(Solution):
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.list_taken))
 
     def __eq__(self, other):
         return self.list_taken == other.list_taken
-- 
2.43.0


From 0ff3163abea876f277b32997cd72a3d4d1181101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 060/174] fix: multi-objective knapsack had no objective
 register (TypeError)

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index a02f0e4..5704fcc 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -159,7 +159,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 58f7da1d57b94b0f769bcae7b796093d3575ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 061/174] fix: knapsack mutations reported the score of the
 previous solution or without the objectives of the model

---
 .../knapsack/mutation/mutation_knapsack.py    | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..3c9206a 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -48,10 +48,9 @@ class KnapsackMutationSingleBitFlip(Mutation):
             else:
                 new_weight = solution.weight + self.problem.list_items[i].weight
                 new_value = solution.value + self.problem.list_items[i].value
-            obj = {'value': new_value,
-                   'weight_violation': max(0, new_weight - self.problem.max_capacity)}
-        else:
-            obj = self.problem.evaluate(solution)
+            new_sol.value = new_value
+            new_sol.weight = new_weight
+        obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
@@ -118,13 +117,10 @@ class MutationKnapsack(Mutation):
             index = np.random.choice(not_used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
             sol = move.apply_local_move(variable)
-            return sol, move, {'value': sol.value,
-                               'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)}
+            return sol, move, self.knapsack_model.evaluate(sol)
         else:
             if come_from_outside:
-                return variable, LocalMoveDefault(variable, variable), {'value': variable.value,
-                                                                        'weight_violation': max(0,
-                                                                                                variable.weight - self.knapsack_model.max_capacity)}
+                return variable, LocalMoveDefault(variable, variable), self.knapsack_model.evaluate(variable)
             return self.switch_off(variable, True)
 
     def switch_off(self, variable: KnapsackSolution, come_from_outside=False):
@@ -135,13 +131,10 @@ class MutationKnapsack(Mutation):
             index = np.random.choice(used, size=1, p=proba)[0]
             move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
             sol = move.apply_local_move(variable)
-            return sol, move, {'value': sol.value,
-                               'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)}
+            return sol, move, self.knapsack_model.evaluate(sol)
         else:
             if come_from_outside:
-                return variable, LocalMoveDefault(variable, variable), {'value': variable.value,
-                                                                        'weight_violation': max(0,
-                                                                                                variable.weight - self.knapsack_model.max_capacity)}
+                return variable, LocalMoveDefault(variable, variable), self.knapsack_model.evaluate(variable)
             return self.switch_on(variable, come_from_outside=True)
 
     def mutate(self, variable: KnapsackSolution) -> KnapsackSolution:
-- 
2.43.0


From a9bf5d3e3555026ad26da5e83a7282bd7df765dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 062/174] fix: knapsack mutation divided by zero with items
 without weight or value

---
 .../knapsack/mutation/mutation_knapsack.py                    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 3c9206a..d3ae92e 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -98,7 +98,9 @@ class MutationKnapsack(Mutation):
         self.knapsack_model = knapsack_model
         self.nb_items = knapsack_model.nb_items
         self.list_items = knapsack_model.list_items
-        self.profit_per_capacity = [self.list_items[i].value / self.list_items[i].weight for i in range(self.nb_items)]
+        # (strictly positive so that the probabilities are defined for items without value or weight)
+        self.profit_per_capacity = [max(self.list_items[i].value, 1e-6) / max(self.list_items[i].weight, 1e-6)
+                                    for i in range(self.nb_items)]
         self.sum = np.sum(self.profit_per_capacity)
         self.profit_per_capacity /= self.sum
         self.sorted_by_utility = np.argsort(self.profit_per_capacity)
-- 
2.43.0


From d9ebc80c7f2186d2a9aaaf18ff7a8c34e022beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 063/174] fix: genetic mutation of integers produced values out
 of range

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py | 3 ++-
 .../builders/discrete_optimization/generic_tools/ea/nsga.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index e4d6414..d98fca5 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -282,7 +282,8 @@ class Ga():
                 # print('DEAP-GA - self.arrity: ', self.arrity)
 
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0,
+                                       up=[arrity-1 for arrity in self.arrities], indpb=self._mut_rate)
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index ca6deed..1285a8a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -245,7 +245,8 @@ class Nsga():
                 self._toolbox.register("mutate", tools.mutShuffleIndexes, indpb=self._mut_rate)  # Choice of mutation operator
             elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0,
+                                       up=[arrity-1 for arrity in self.arrities], indpb=self._mut_rate)
 
         # No choice of selection: In NSGA, only 1 selection: Non Dominated Sorted Selection
         self._toolbox.register("select", tools.selNSGA3, ref_points=ref_points)
-- 
2.43.0


From dc79360ab3c943feb081933a83a205f16bb72814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 064/174] fix: genetic algorithm failed without objectives or
 with small populations and ignored the weight of a single objective

---
 .../discrete_optimization/generic_tools/ea/ga.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index d98fca5..22f0166 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -183,6 +183,12 @@ class Ga():
             self._objective_handling = objective_handling
 
         self._objectives = objectives
+        if self._objectives is None:
+            # use the objectives of the problem
+            self._objectives, objective_weights = \
+                problem.get_objective_register().get_list_objective_and_default_weight()
+        elif isinstance(self._objectives, str):
+            self._objectives = [self._objectives]
         if (isinstance(self._objectives, List) and len(self._objectives) > 1) \
                 and self._objective_handling == ObjectiveHandling.SINGLE:
             print('Many objectives specified but single objective handling, using the first objective in the dictionary')
@@ -287,7 +293,7 @@ class Ga():
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
-            self._toolbox.register("select", tools.selTournament, tournsize=int(self._tournament_size*self._pop_size))
+            self._toolbox.register("select", tools.selTournament, tournsize=max(1, int(self._tournament_size*self._pop_size)))
         elif self._selection_type == DeapSelection.SEL_RANDOM:
             self._toolbox.register("select", tools.selRandom)
         elif self._selection_type == DeapSelection.SEL_BEST:
@@ -308,11 +314,11 @@ class Ga():
         # encoding_name = self._encoding_name
         objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
         if self._objective_handling == ObjectiveHandling.SINGLE:
-            if (self._objectives is None) or (self._objectives[0] not in list(objective_values.keys())):
+            if self._objectives[0] not in list(objective_values.keys()):
                 default_key = list(objective_values.keys())[0]
-                val = self._objectives[0] * objective_values[default_key]
+                val = self._objective_weights[0] * objective_values[default_key]
             else:
-                val = objective_values[self._objectives[0]]
+                val = self._objective_weights[0] * objective_values[self._objectives[0]]
         elif self._objective_handling == 'aggregate':
             val = sum([objective_values[self._objectives[i]] * self._objective_weights[i]
                        for i in range(len(self._objectives))])
-- 
2.43.0


From 0bcd2efa56be7769c5993d8cc690a9809192c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 065/174] fix: genetic algorithms returned another solution
 than the one evaluated when searching for modes

---
 .../discrete_optimization/generic_tools/do_problem.py       | 4 ++++
 .../builders/discrete_optimization/generic_tools/ea/ga.py   | 3 +--
 .../builders/discrete_optimization/generic_tools/ea/nsga.py | 3 +--
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py     | 6 ++++++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
index 37d0e35..916d64f 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/do_problem.py
@@ -119,6 +119,10 @@ class Problem:
     def get_solution_type(self):
         ...
 
+    def get_solution_from_encoding(self, int_vector, encoding_name)->Solution:
+        # Solution whose score is given by evaluate_from_encoding (if the problem defines it)
+        return self.get_solution_type()(**{encoding_name: int_vector, 'problem': self})
+
     @abstractmethod
     def get_objective_register(self)->ObjectiveRegister:
         ...
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index 22f0166..ce51bb4 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -357,8 +357,7 @@ class Ga():
         best_vector = hof[0]
 
         s_pure_int = [i for i in best_vector]
-        kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
-        problem_sol = self.problem.get_solution_type()(**kwargs)
+        problem_sol = self.problem.get_solution_from_encoding(s_pure_int, self._encoding_variable_name)
 
         result_storage = ResultStorage(list_solution_fits=[(problem_sol,
                                                             self.aggreg_from_sol(problem_sol))],
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index 1285a8a..759a8de 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -307,8 +307,7 @@ class Nsga():
         sols = []
         for s in pop:
             s_pure_int = [i for i in s]
-            kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
-            problem_sol = self.problem.get_solution_type()(**kwargs)
+            problem_sol = self.problem.get_solution_from_encoding(s_pure_int, self._encoding_variable_name)
             fits = self.evaluate_sol(problem_sol)
             #fits = TupleFitness(np.array(s.fitness.values), len(s.fitness.values))
             sols.append((problem_sol, fits))
diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 5b5522e..56b3bce 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -873,6 +873,12 @@ class MultiModeRCPSPModel(RCPSPModel):
         objectives = self.evaluate(rcpsp_sol)
         return objectives
 
+    def get_solution_from_encoding(self, int_vector, encoding_name):
+        if encoding_name == 'rcpsp_modes':
+            # modes are numbered from 1 in solutions, see evaluate_from_encoding
+            int_vector = [x+1 for x in int_vector]
+        return super().get_solution_from_encoding(int_vector, encoding_name)
+
     def copy(self):
         mm = MultiModeRCPSPModel(resources=self.resources,
                                  non_renewable_resources=self.non_renewable_resources,
-- 
2.43.0


From 2fbdc434a94b1841473a54644467584d992db572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 066/174] fix: alternating genetic algorithm never changed of
 encoding, ignored its parameters and returned the last solution instead of
 the best

---
 .../generic_tools/ea/alternating_ga.py        | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
index 72f3cab..8b7e103 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
@@ -70,6 +70,23 @@ class AlternatingGa():
         for i in range(len(self.encodings)):
             self.problem.set_fixed_attributes(self.encodings[i], self.problem.get_dummy_solution())
 
+        # Objective of the GAs (the weights default to 1, see Ga)
+        objectives, weights = self.objectives, self.objective_weights
+        if objectives is None:
+            objectives, weights = self.problem.get_objective_register().get_list_objective_and_default_weight()
+        elif isinstance(objectives, str):
+            objectives = [objectives]
+        if weights is None or len(weights) != len(objectives):
+            weights = [1 for i in range(len(objectives))]
+        evaluate, _ = build_evaluate_function_aggregated(
+            self.problem,
+            ParamsObjectiveFunction(objective_handling=self.objective_handling or ObjectiveHandling.SINGLE,
+                                    objectives=objectives,
+                                    weights=weights,
+                                    sense_function=ModeOptim.MAXIMIZATION))
+        problem_sol = None
+        best_objective = None
+
         while count_evals < self.max_evals:
 
             ga_solver = Ga(problem=self.problem,
@@ -77,15 +94,28 @@ class AlternatingGa():
                            objective_handling=self.objective_handling,
                            objectives=self.objectives,
                            objective_weights=self.objective_weights,
-                           mutation=self.mutations[current_encoding_index],
-                           max_evals=self.sub_evals[current_encoding_index])
+                           mutation=self.mutations[current_encoding_index] if self.mutations is not None else None,
+                           crossover=self.crossovers[current_encoding_index] if self.crossovers is not None else None,
+                           selection=self.selections[current_encoding_index] if self.selections is not None else None,
+                           pop_size=self.pop_size,
+                           max_evals=self.sub_evals[current_encoding_index],
+                           mut_rate=self.mut_rate,
+                           crossover_rate=self.crossover_rate,
+                           tournament_size=self.tournament_size,
+                           deap_verbose=self.deap_verbose)
             tmp_sol = ga_solver.solve().get_best_solution()
             count_evals += self.sub_evals[current_encoding_index]
 
             # TODO: implement function below (1 in rcpsp domains, 1 in rcpsp solutions)
             self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
 
-        problem_sol = tmp_sol
+            # keep the best solution found
+            objective = evaluate(tmp_sol)
+            if best_objective is None or objective > best_objective:
+                problem_sol = tmp_sol.copy()
+                best_objective = objective
+
+            current_encoding_index = (current_encoding_index + 1) % len(self.encodings)
 
         result_storage = ResultStorage(list_solution_fits=[(problem_sol,
                                                             self.aggreg_from_sol(problem_sol))],
-- 
2.43.0


From 56b2081678d32bcb7380e252c142e9863ae3a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 067/174] fix: 2D points could not be defined (TypeError when
 importing the TSP modules)

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..22f5fcb 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,7 +202,7 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class Point2D(NamedTuple):
     x: float
     y: float
 
-- 
2.43.0


From 5b099c14486c409b7b35e2b264c50b69157c5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 068/174] fix: TSP satisfy rejected valid tours and gave no
 answer on the others

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 22f5fcb..b88d80a 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,8 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        return var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index \
+            and sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From 9c32cbf36084a11558d4a7d5188509d4afcac0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 069/174] fix: lengths of TSP edges were misplaced in the numba
 evaluation

---
 .../builders/discrete_optimization/tsp/tsp_model.py   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index b88d80a..d561cc0 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -225,7 +225,8 @@ class TSPModel2D(TSPModel):
             self.evaluate_function_2d = build_evaluate_function(self)
 
     def evaluate_function(self, var_tsp: SolutionTSP):
-        return self.evaluate_function_2d(solution=var_tsp.permutation)
+        lengths, obj = self.evaluate_function_2d(solution=var_tsp.permutation)
+        return list(lengths), obj
     
     def evaluate_function_indexes(self, index_1, index_2)->float:
         return length(self.list_points[index_1], self.list_points[index_2])
@@ -262,17 +263,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
                                     (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From eca31ea1def6c4694189d61f9866ef5b61ed2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 070/174] fix: the encodings and the length of TSP solutions
 diverged when one of them or the problem was changed

---
 .../discrete_optimization/tsp/tsp_model.py    | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index d561cc0..4bf0473 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -12,10 +12,8 @@ from copy import deepcopy
 
 
 class SolutionTSP(Solution):
-    permutation_from0: Union[List[int], np.array]
     start_index: int
     end_index: int
-    permutation: Union[List[int], np.array]
     lengths: List[float] # to store the details of length of the tsp if you want.
     length: float # to store the length of the tsp, in case your mutation computes it :)
 
@@ -35,7 +33,6 @@ class SolutionTSP(Solution):
         self.permutation = permutation
         self.lengths = lengths
         self.length = length
-        self.permutation_from0 = permutation_from0
         self.problem = problem
         if self.start_index is None:
             self.start_index = problem.start_index
@@ -43,23 +40,41 @@ class SolutionTSP(Solution):
             self.end_index = problem.end_index
         # convert perm
         if self.permutation is None:
-            self.permutation = self.problem.convert_perm_from0_to_original_perm(self.permutation_from0)
-        if self.permutation_from0 is None:
-            self.permutation_from0 = self.problem.convert_original_perm_to_perm_from0(self.permutation)
+            self.permutation = self.problem.convert_perm_from0_to_original_perm(permutation_from0)
+            self.lengths = lengths
+            self.length = length
         # print('problem__:', problem)
         # print('permutation_from0__:', self.permutation_from0)
         # TODO: Think about moving this into another function (to prevent unecessary calls to evaluate()
         if self.length is None:
             self.problem.evaluate(self)
 
+    @property
+    def permutation(self) -> Union[List[int], np.array]:
+        return self._permutation
+
+    @permutation.setter
+    def permutation(self, permutation):
+        self._permutation = permutation
+        self.lengths = None
+        self.length = None
+
+    # the same permutation, on the indexes of the nodes that are neither the start nor the end.
+    @property
+    def permutation_from0(self) -> List[int]:
+        return self.problem.convert_original_perm_to_perm_from0(self.permutation)
+
+    @permutation_from0.setter
+    def permutation_from0(self, permutation_from0):
+        self.permutation = self.problem.convert_perm_from0_to_original_perm(permutation_from0)
+
     def copy(self):
         return SolutionTSP(problem=self.problem,
                            start_index=self.start_index,
                            end_index=self.end_index,
                            permutation=list(self.permutation),
-                           lengths=list(self.lengths),
-                           length=self.length,
-                           permutation_from0=deepcopy(self.permutation_from0))
+                           lengths=list(self.lengths) if self.lengths is not None else None,
+                           length=self.length)
 
     def lazy_copy(self):
         return SolutionTSP(problem=self.problem,
@@ -67,8 +82,7 @@ class SolutionTSP(Solution):
                            end_index=self.end_index,
                            permutation=self.permutation,
                            lengths=self.lengths,
-                           length=self.length,
-                           permutation_from0=self.permutation_from0)
+                           length=self.length)
 
     def __str__(self):
         return "perm :"+str(self.permutation)+"\nobj="+str(self.length)
@@ -77,10 +91,7 @@ class SolutionTSP(Solution):
         self.__init__(problem=new_problem,
                       start_index=self.start_index,
                       end_index=self.end_index,
-                      permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
-                      permutation_from0=deepcopy(self.permutation_from0))
+                      permutation=list(self.permutation))
 
 class Point:
     ...
-- 
2.43.0


From bfa3b29c69eb54e4b950c91ea450b2613ab2671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 071/174] fix: 2-opt mutation of TSP failed without a number of
 tests or on small tours, and could report an infinite length

---
 .../tsp/mutation/mutation_tsp.py                      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..dfe4270 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,7 +72,7 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = min(nb_test, self.node_count-1) if nb_test is not None else None
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
@@ -112,9 +112,10 @@ class Mutation2Opt(Mutation):
         return i_before, i, j, j_after
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
-        it = random.randint(0, self.length_permutation-2)
-        jt = random.randint(it+1, self.length_permutation-1)
-        point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
+        if variable.length is None or variable.lengths is None:
+            self.tsp_model.evaluate(variable)
+        it = None
+        jt = None
         min_change = float('inf')
         range_its = range(self.length_permutation) if self.test_all \
             else random.sample(range(self.length_permutation), min(self.nb_test, self.length_permutation))
@@ -144,6 +145,8 @@ class Mutation2Opt(Mutation):
                     it = i
                     jt = j
                     min_change = change
+        if it is None:
+            return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         fitness = variable.length+min_change
         i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
-- 
2.43.0


From 819bd4dc93e4dac73b6748475f3e089e82b312fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 072/174] fix: intersection mutation of TSP lost the lengths of
 the last edges and did not report objectives

---
 .../tsp/mutation/mutation_tsp.py               | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index dfe4270..ede90b7 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -206,6 +206,8 @@ class Mutation2OptIntersection(Mutation2Opt):
             self.i_j_pairs = None
 
     def mutate_and_compute_obj(self, variable: SolutionTSP):
+        if variable.length is None or variable.lengths is None:
+            self.tsp_model.evaluate(variable)
         reset_end = False
         if True:
             reset_end = True
@@ -213,7 +215,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -235,18 +237,8 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
-        if False:
-            print(len(variable.lengths))
-            print(len(lengths))
-            print(variable.lengths)
-            print(min_change)
-            print("original perm ; ", variable.permutation)
-            print("New : ", permut)
-            print("original lengths ; ", variable.lengths)
-            print("New : ", lengths)
-            print("original , ", sum(variable.lengths), variable.length)
-            print("New : ", sum(lengths), fitness)
-            print(len(permut))
+        if jt < self.length_permutation-1:
+            lengths += variable.lengths[jt+2:]
         if reset_end:
             self.i_j_pairs = None
         if min_change < 0 or not self.return_only_improvement:
-- 
2.43.0


From ea3d33c838354dc00e842d5056771fa24241a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 073/174] fix: swap mutation of TSP counted twice the edge
 between neighbours

---
 .../tsp/mutation/mutation_tsp.py               | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index ede90b7..4a3e6e8 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -267,21 +267,17 @@ class SwapTSPMove(LocalMove):
         i1, i2 = self.swap
         v1, v2 = current[i1], current[i2]
         current[i1], current[i2] = v2, v1
+        if solution.length is None or solution.lengths is None:
+            self.tsp_model.evaluate(solution)
+            return solution
         i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
-        previous = solution.lengths[i1], solution.lengths[i1+1], solution.lengths[i2], solution.lengths[i2+1]
+        indexes_changed = {i1, i1+1, i2, i2+1}
+        previous = [solution.lengths[i] for i in indexes_changed]
         solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
         solution.lengths[i1+1] = self.tsp_model.evaluate_function_indexes(current[i1], current[i1+1])
         solution.lengths[i2] = self.tsp_model.evaluate_function_indexes(current[i2-1], current[i2])
         solution.lengths[i2+1] = self.tsp_model.evaluate_function_indexes(current[i2], j_after)
-        if False:
-            print(i_before, current[i1])
-            print(current[i1], current[i1+1])
-            print(current[i2-1], current[i2])
-            print(current[i2], j_after)
-            print(solution.lengths[i1]+solution.lengths[i1+1]+solution.lengths[i2]+solution.lengths[i2+1]+\
-                  -sum(previous))
-        solution.length = solution.length+solution.lengths[i1]+solution.lengths[i1+1]+solution.lengths[i2]+solution.lengths[i2+1]+\
-                          - sum(previous)
+        solution.length = solution.length + sum(solution.lengths[i] for i in indexes_changed) - sum(previous)
         return solution
 
     def backtrack_local_move(self, solution: SolutionTSP) -> SolutionTSP:
@@ -298,6 +294,8 @@ class MutationSwapTSP(Mutation):
         self.length_permutation = tsp_model.length_permutation
 
     def mutate(self, solution: SolutionTSP)->Tuple[SolutionTSP, LocalMove]:
+        if self.length_permutation <= 1:
+            return solution, LocalMoveDefault(solution, solution)
         i = random.randint(0, self.length_permutation-2)
         j = random.randint(i+1, min(self.length_permutation-1, i+1+3))
         two_opt_move = SwapTSPMove("permutation", self.tsp_model, (i, j))
-- 
2.43.0


From b900da986db1b27209ea360bd6bbbb2276a2bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 074/174] fix: importing the TSP tools changed the current
 directory

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..6bcace3 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -8,7 +8,6 @@ import numpy as np
 import matplotlib.pyplot as plt
 from skdecide.builders.discrete_optimization.tsp.tsp_model import Point2D, length
 this_path = os.path.dirname(os.path.abspath(__file__))
-os.chdir(this_path)
 
 
 def length_1(point1, point2):
-- 
2.43.0


From d1b959c941e266536f2c2aa8f5331815c1acebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 075/174] fix: distances between TSP points were truncated or
 computed on points instead of indexes in the OR-tools solver

---
 .../discrete_optimization/tsp/solver/solver_ortools.py       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 83e7816..5ee0a92 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
@@ -38,8 +38,7 @@ class TSP_ORtools(SolverDO):
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-                return int(10**6*self.tsp_model.evaluate_function_indexes(self.list_points[from_node], 
-                                                                          self.list_points[to_node]))
+                return int(10**6*self.tsp_model.evaluate_function_indexes(from_node, to_node))
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.node_count,
                                                1, 
-- 
2.43.0


From 32db05878b180381dea29288b5bbde43267eb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 076/174] fix: parsers could not be imported without the data
 files, which are not shipped

---
 .../discrete_optimization/coloring/coloring_parser.py        | 3 ++-
 .../discrete_optimization/facility/facility_parser.py        | 3 ++-
 .../discrete_optimization/knapsack/knapsack_parser.py        | 3 ++-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py    | 5 +++--
 skdecide/builders/discrete_optimization/vrp/vrp_parser.py    | 3 ++-
 5 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_parser.py b/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
index c7fd8d0..43015b2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_parser.py
@@ -4,7 +4,8 @@ import os
 from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
 from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/coloring/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] \
+    if os.path.isdir(path_to_data) else []
 
 
 def parse(input_data):
diff --git a/skdecide/builders/discrete_optimization/facility/facility_parser.py b/skdecide/builders/discrete_optimization/facility/facility_parser.py
index 4301421..e413c84 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_parser.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_parser.py
@@ -4,7 +4,8 @@ import os
 import sys
 sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../"))
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/facility/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] \
+    if os.path.isdir(path_to_data) else []
 
 
 def parse(input_data):
diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
index dd7cb22..dc118ac 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_parser.py
@@ -5,7 +5,8 @@ import os
 import sys
 from skdecide.builders.discrete_optimization.generic_tools.path_tools import abspath_from_file
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/knapsack/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] \
+    if os.path.isdir(path_to_data) else []
 
 
 def parse_input_data(input_data, force_recompute_values: bool=False)->KnapsackModel:
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index 681b633..520b0e8 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -4,8 +4,9 @@ sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../"))
 from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPModel
 folder_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data/")
 folder_data_gecco = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data_gecco/")
-list_files = [f for f in list(os.listdir(folder_data)) if f.endswith("ttp")]
-list_files_gecco = [f for f in list(os.listdir(folder_data_gecco)) if f.endswith("txt")]
+list_files = [f for f in os.listdir(folder_data) if f.endswith("ttp")] if os.path.isdir(folder_data) else []
+list_files_gecco = [f for f in os.listdir(folder_data_gecco) if f.endswith("txt")] \
+    if os.path.isdir(folder_data_gecco) else []
 
 def get_data_available():
     return [os.path.join(folder_data, f) for f in list_files]+\
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_parser.py b/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
index f923f51..6169db0 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_parser.py
@@ -4,7 +4,8 @@ import os
 from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
 from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem, BasicCustomer, Customer2D, VrpProblem2D
 path_to_data = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../data/vrp/")
-files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)]
+files_available = [os.path.join(path_to_data, f) for f in os.listdir(path_to_data)] \
+    if os.path.isdir(path_to_data) else []
 
 from collections import namedtuple
 from typing import Union
-- 
2.43.0


From 2f4b6dd1578b62e798ec0b88d6181966ff3422bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 077/174] fix: coloring solutions kept obsolete numbers of
 colors and violations after a change of colors or of problem

---
 .../coloring/coloring_model.py                     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..55e8afd 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -25,6 +25,13 @@ class ColoringSolution(Solution):
         # if self.colors_from0 is None:
         #     self.colors_from0 = self.problem.convert_original_node_list_to_list_from0(self.colors)
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "colors":
+            # stored numbers of colors and violations are obsolete
+            self.nb_color = None
+            self.nb_violations = None
+
     def copy(self):
         return ColoringSolution(problem=self.problem,
                                 colors=list(self.colors),
@@ -51,10 +58,7 @@ class ColoringSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      colors=list(self.colors),
-                      # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      colors=list(self.colors))
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
@@ -85,7 +89,7 @@ class ColoringProblem(Problem):
         #     counter += 1
 
     def evaluate(self, variable: ColoringSolution) -> Dict[str, float]:
-        if variable.nb_color is None:
+        if variable.nb_color is None or variable.nb_violations is None:
             variable.nb_color = len(set(variable.colors))
             variable.nb_violations = self.count_violations(variable)
         return {"nb_colors": variable.nb_color, "nb_violations": variable.nb_violations}
-- 
2.43.0


From b5e23625213a471c096a1c8e1827eb7ae7ec728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 078/174] fix: only the capacity of the last facility was
 checked

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From 54a519920a8714be175d884470571d59af587b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 079/174] fix: facility solutions kept obsolete details after a
 change of facilities or of problem

---
 .../discrete_optimization/facility/facility_model.py     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 6fe6432..72fb367 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -27,6 +27,12 @@ class FacilitySolution(Solution):
         self.facility_for_customers = facility_for_customers
         self.dict_details = dict_details
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "facility_for_customers":
+            # stored details are obsolete
+            self.dict_details = None
+
     def copy(self):
         return FacilitySolution(self.problem, facility_for_customers=list(self.facility_for_customers),
                                 dict_details=deepcopy(self.dict_details))
@@ -38,8 +44,7 @@ class FacilitySolution(Solution):
     
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      facility_for_customers=list(self.facility_for_customers))
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
-- 
2.43.0


From 8e2eb058569aa33a07f4387d138bc61525ad1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 080/174] fix: vehicle routing solutions kept obsolete lengths
 and loads after a change of paths or of problem

---
 .../builders/discrete_optimization/vrp/vrp_model.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..1e87bd3 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -42,6 +42,14 @@ class VrpSolution(Solution):
         self.lengths = lengths
         self.capacities = capacities
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "list_paths":
+            # stored lengths and capacities are obsolete
+            self.length = None
+            self.lengths = None
+            self.capacities = None
+
     def __str__(self):
         return "\n".join([str(self.list_paths[i]) for i in range(len(self.list_paths))])
 
@@ -49,8 +57,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From a0f6505214cb30ee5d8a1b013088c95c56b9dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 081/174] fix: vehicle routing satisfy accepted routes which
 miss or repeat customers

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 1e87bd3..61ed530 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -103,7 +103,9 @@ class VrpProblem(Problem):
 
     def satisfy(self, variable: VrpSolution) -> bool:
         d = self.evaluate(variable)
-        return d["capacity_violation"] == 0
+        customers_to_visit = [i for i in range(self.customer_count)
+                              if i not in self.start_indexes and i not in self.end_indexes]
+        return d["capacity_violation"] == 0 and sorted(c for path in variable.list_paths for c in path) == customers_to_visit
 
     def get_attribute_register(self) -> EncodingRegister:
         dict_encoding = {"list_paths": {"name": "list_paths", "type": [TypeAttribute.LIST_INTEGER]}}
-- 
2.43.0


From ebab6dcdb52efa3fe56c3282c082bff73f4be9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 082/174] fix: multi-skill models ignored the limit of one unit
 per task, and the source and sink tasks

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..9d00e03 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -593,7 +593,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +609,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,7 +644,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
-- 
2.43.0


From f0df08e747a5b4fe8cdf0299a08b811472411821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 083/174] fix: multi-skill scheduling consumed the availability
 of the problem given as arrays

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9d00e03..500b3c7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -131,7 +131,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     # 1, 2
     resource_avail_in_time = {}
     for res in problem.resources_set:
-        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
+        resource_avail_in_time[res] = list(problem.resources_availability[res][:new_horizon + 1])
     worker_avail_in_time = {}
     for i in problem.employees:
         worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
-- 
2.43.0


From bb998c46482c613bcdf52bad9330935e3078297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 084/174] fix: multi-skill schedules reported other modes than
 those scheduled

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 500b3c7..6b4a552 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From f94a2a037c6056323c880b4082dab5656c7d1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 085/174] fix: a task without duration was in conflict with the
 work of its units at the same time

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 6b4a552..a042718 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -344,7 +344,7 @@ def intersect(i1, i2):
     else:
         s = max(i1[0], i2[0])
         e = min(i1[1], i2[1])
-        return [s, e]
+        return [s, e] if s < e else None
 
 # Multiskill project scheduling
 class MS_RCPSPModel(Problem):
-- 
2.43.0


From 6fd866265f4b93266fa73771ea2c89423389eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 086/174] fix: multi-skill satisfy failed on solutions out of
 the horizon or without the units they need

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index a042718..736dc89 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -470,6 +470,8 @@ class MS_RCPSPModel(Problem):
         # check the skills :
         if len(rcpsp_sol.schedule) != self.nb_tasks:
             return False
+        if rcpsp_sol.schedule[self.sink_task]["end_time"] > self.horizon * self.horizon_multiplier:
+            return False
         for task in self.tasks:
             mode = rcpsp_sol.modes[task]
             required_skills = {s: self.mode_details[task][mode][s]
@@ -479,8 +481,9 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
+                                      if skill in rcpsp_sol.employee_usage[task][emp]
+                                      and skill in self.employees[emp].dict_skill]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
-- 
2.43.0


From ec71893d98f3abcb7f1e0bf6183352784f359944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 087/174] fix: multi-skill solutions kept an obsolete schedule
 after a change of their encodings or of problem

---
 .../rcpsp_multiskill/rcpsp_multiskill.py       | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 736dc89..9c48ff0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -102,6 +102,19 @@ class MS_RCPSPSolution_Variant(MS_RCPSPSolution):
         if self.schedule is None:
             self.do_recompute()
 
+    def __setattr__(self, key, value):
+        super().__setattr__(key, value)
+        if key == "modes_vector" and value is not None:
+            super().__setattr__("modes_vector_from0", [x-1 for x in value])
+        elif key == "modes_vector_from0" and value is not None:
+            super().__setattr__("modes_vector", [x+1 for x in value])
+        if key in {"priority_list_task", "priority_worker_per_task", "modes_vector", "modes_vector_from0"}:
+            self._schedule_to_recompute = True
+
+    def change_problem(self, new_problem: Problem):
+        super().change_problem(new_problem)
+        self._schedule_to_recompute = True
+
     def do_recompute(self):
         rcpsp_schedule, modes_extended, employee_usage, modes_dict = sgs_multi_skill(solution=self)
         self.schedule = rcpsp_schedule
@@ -708,6 +721,11 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             pass
         return super().evaluate_function(rcpsp_sol)
 
+    def satisfy(self, rcpsp_sol: MS_RCPSPSolution) -> bool:
+        if getattr(rcpsp_sol, "_schedule_to_recompute", False):
+            rcpsp_sol.do_recompute()
+        return super().satisfy(rcpsp_sol)
+
     def set_fixed_attributes(self, encoding_str: str, sol: MS_RCPSPSolution_Variant):
         att = self.get_attribute_register().dict_attribute_to_type[encoding_str]['name']
         if att == 'modes_vector':
-- 
2.43.0


From 2c0c364065fb04f5f6eb7a776575160102e954c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 088/174] fix: fixing the modes of a multi-skill problem from
 0-based modes shifted them

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9c48ff0..a04b0e3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -732,7 +732,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
+            modes_corrected = [x + 1 for x in sol.modes_vector_from0]
             self.set_fixed_modes(modes_corrected)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
-- 
2.43.0


From 1c33d853225039a970bc6c56c06418f81cc18529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 089/174] fix: copies of employees lost their salary

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index a04b0e3..c0e2d74 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -347,7 +347,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From 72458fd56bb3592fc9e693f34366c38d04ddb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 090/174] fix: solutions of multi-skill problems read from
 files did not refer to the employees of the problem

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index c833eda..fd2c3e5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -173,7 +173,7 @@ def parse_results(input_data):
             hour = int(words[0])
             for j in range(1, len(words)):
                 w = words[j].split("-")
-                ressource_id = w[0]
+                ressource_id = int(w[0])
                 task_id = int(w[1])
                 assignation[task_id] = ressource_id
                 schedule[task_id] = hour
-- 
2.43.0


From d4ff95d8e5d8e5d9164e046ab6782a44f92124a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 091/174] fix: non-renewable resources of tasks without
 duration were ignored in multi-skill scheduling

---
 .../rcpsp_multiskill/rcpsp_multiskill.py          | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index c0e2d74..07fd97a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -260,12 +260,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                            current_min_time + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):  # 15
                 for res in resource_avail_in_time.keys():  # 16
                     resource_avail_in_time[res][t] -= problem.mode_details[act_id][modes_extended[act_id - 1]][res]  # 17
-                    if res in problem.non_renewable_resources and t == end_t:
-                        for tt in range(end_t + 1, new_horizon):
-                            resource_avail_in_time[res][tt] -= \
-                            problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-                            if resource_avail_in_time[res][tt] < 0:
-                                unfeasible_non_renewable_resources = True
+            for res in problem.non_renewable_resources:
+                # (out of the loop on t so that activities without duration consume too)
+                for tt in range(end_t + 1, new_horizon):
+                    resource_avail_in_time[res][tt] -= \
+                        problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                    if resource_avail_in_time[res][tt] < 0:
+                        unfeasible_non_renewable_resources = True
             if worker_ids is not None:
                 priority_list_this_task = solution.priority_worker_per_task[act_id-2]
                 worker_used = []
@@ -304,7 +305,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
         rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
     if unfeasible_non_renewable_resources or unfeasible_in_horizon:
         rcpsp_schedule_feasible = False
-        last_act_id = max(problem.successors.keys())
+        last_act_id = problem.sink_task
         if last_act_id not in rcpsp_schedule.keys():
             rcpsp_schedule[last_act_id] = {}
             rcpsp_schedule[last_act_id]['start_time'] = 99999999
-- 
2.43.0


From e70320ee922b38c9e87066294a56f23a6be6a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 092/174] fix: comparing results on test problems modified the
 stored solutions

---
 .../generic_tools/result_storage/resultcomparator.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index db93e63..e853ced 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -42,8 +42,10 @@ class ResultComparator:
                 for scenario in self.test_problems:
                     # res.list_solution_fits[0][0].change_problem(scenario)
                     # val = scenario.evaluate(res.list_solution_fits[0][0])[obj]
-                    res.get_best_solution().change_problem(scenario)
-                    val = scenario.evaluate(res.get_best_solution())[obj]
+                    # (on a copy: the stored solution keeps its problem)
+                    sol = res.get_best_solution().copy()
+                    sol.change_problem(scenario)
+                    val = scenario.evaluate(sol)[obj]
                     self.reevaluated_results[self.list_result_storage.index(res)][obj].append(val)
         print('reevaluated_results: ', self.reevaluated_results)
 
-- 
2.43.0


From 6fdb11236515d71384eaa7c0445597bcced9e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 093/174] fix: result storage: best multi-objective solution of
 those given could be kept although dominated by a later one

---
 .../generic_tools/result_storage/result_storage.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 2783a13..6285dcf 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -44,6 +44,11 @@ class ResultStorage:
         if len(self.heap) > 0:
             self.min = min(self.heap)
             self.max = max(self.heap)
+            # (as the best solution below: there might be several incomparable bests with multiobjective fitness)
+            if self.maximize:
+                self.max = max(fit for _, fit in self.list_solution_fits)
+            else:
+                self.min = min(fit for _, fit in self.list_solution_fits)
             if self.best_solution is None:
                 f = min if not self.maximize else max
                 self.best_solution = f(self.list_solution_fits, key=lambda x: x[1])[0]
-- 
2.43.0


From f8fdd9d23015a1a7e39365824e000ba2dae60c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 094/174] fix: non-renewable resources of activities without
 duration at the horizon were ignored when scheduling

---
 .../discrete_optimization/rcpsp/rcpsp_model.py      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 56b3bce..3e2f77a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -169,6 +169,8 @@ class RCPSPSolution(Solution):
                 resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
+        non_renewable_left = {res: np.max(self.problem.resources[res])
+                              for res in self.problem.non_renewable_resources}
         # 3
         minimum_starting_time = {}
         for act in list(self.problem.successors.keys()):
@@ -242,6 +244,10 @@ class RCPSPSolution(Solution):
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
                 for res in self.problem.non_renewable_resources:
+                    # (also for activities without duration starting at the horizon)
+                    non_renewable_left[res] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                    if non_renewable_left[res] < 0:
+                        unfeasible_non_renewable_resources = True
                     # (out of the loop on t so that activities without duration consume too)
                     for tt in range(end_t+1, new_horizon):
                         resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
@@ -288,6 +294,8 @@ class RCPSPSolution(Solution):
                 resource_avail_in_time[res] = list(self.problem.resources[res][:new_horizon+1])
             else:
                 resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
+        non_renewable_left = {res: np.max(self.problem.resources[res])
+                              for res in self.problem.non_renewable_resources}
         # 3
         minimum_starting_time = {}
         for act in list(self.problem.successors.keys()):
@@ -327,6 +335,7 @@ class RCPSPSolution(Solution):
             for res in self.problem.non_renewable_resources:
                 need = self.problem.mode_details[act_id][modes_extended[act_id-1]][res]
                 resource_avail_in_time[res] = [x - need for x in resource_avail_in_time[res]]
+                non_renewable_left[res] -= need
 
         # print('modes_extended: ', modes_extended)
         # print('start SGS')
@@ -378,6 +387,10 @@ class RCPSPSolution(Solution):
                     for res in resource_avail_in_time.keys():  # 16
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][modes_extended[act_id-1]][res]  # 17
                 for res in self.problem.non_renewable_resources:
+                    # (also for activities without duration starting at the horizon)
+                    non_renewable_left[res] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
+                    if non_renewable_left[res] < 0:
+                        unfeasible_non_renewable_resources = True
                     # (out of the loop on t so that activities without duration consume too)
                     for tt in range(end_t+1, new_horizon):
                         resource_avail_in_time[res][tt] -= self.problem.mode_details[act_id][modes_extended[act_id - 1]][res]
-- 
2.43.0


From d217baf4e35ee17c6f4a4da199c4a71bea9bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:23 +0000
Subject: [PATCH 095/174] fix: the RCPSP checkers failed on overused
 non-renewable resources when every activity takes no time

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 3e2f77a..da12c88 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -612,7 +612,7 @@ class RCPSPModel(Problem):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
@@ -793,7 +793,7 @@ class RCPSPModelCalendar(RCPSPModel):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res][0]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
-- 
2.43.0


From 0ad6305b706f9b71b702f4633c4f86758816243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 096/174] fix: swap mutation of TSP reported no length for
 tours of one node not evaluated yet

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 4a3e6e8..8fcf96a 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -304,6 +304,8 @@ class MutationSwapTSP(Mutation):
         
     def mutate_and_compute_obj(self, solution: SolutionTSP)->Tuple[SolutionTSP, LocalMove, Dict[str, float]]:
         sol, move = self.mutate(solution)
+        if sol.length is None:
+            self.tsp_model.evaluate(sol)
         return sol, move, {"length": sol.length}
 
 
-- 
2.43.0


From 9746db22fab8bb51c228edb4b91e038f1fc9eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 097/174] fix: genetic algorithms failed with encodings given
 with their arities

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py  | 2 +-
 .../builders/discrete_optimization/generic_tools/ea/nsga.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index ce51bb4..19fcc67 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -143,7 +143,7 @@ class Ga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index 759a8de..ed8de7a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -117,7 +117,7 @@ class Nsga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
-- 
2.43.0


From 9844f8630e41fff0ef2b2e14418234702f0c76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 098/174] fix: NSGA could not score its solutions when no
 weight was given

---
 .../generic_tools/ea/nsga.py                     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index ed8de7a..8f78d17 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -46,14 +46,6 @@ class Nsga():
                                    TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapMutation.MUT_UNIFORM_INT,
                                    TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES}
         self._default_selection = DeapSelection.SEL_TOURNAMENT
-        self.params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ,
-                                                                 objectives=objectives,
-                                                                 weights=objective_weights,
-                                                                 sense_function=ModeOptim.MAXIMIZATION)
-        self.evaluate_sol, _ = build_evaluate_function_aggregated(problem=problem,
-                                                                  params_objective_function=
-                                                                  self.params_objective_function)
-
         self.problem = problem
         if pop_size is not None:
             self._pop_size = pop_size
@@ -161,6 +153,14 @@ class Nsga():
                   'Setting all weights to default 1 value.')
             self._objective_weights = [1 for i in range(len(self._objectives))]
 
+        self.params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ,
+                                                                 objectives=self._objectives,
+                                                                 weights=self._objective_weights,
+                                                                 sense_function=ModeOptim.MAXIMIZATION)
+        self.evaluate_sol, _ = build_evaluate_function_aggregated(problem=problem,
+                                                                  params_objective_function=
+                                                                  self.params_objective_function)
+
         if selection is None:
             self._selection_type = self._default_selection
         else:
-- 
2.43.0


From 5c912f0050b3d2b7a3e35e0d68a094d48e5b9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 099/174] fix: genetic algorithms failed with the 2-opt
 mutation, which was not declared as a mutation

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 39efb33..4d2fe38 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -210,7 +210,7 @@ class TwoOptMove(LocalMove):
         return solution
 
 
-class TwoOptMutation(LocalMove):
+class TwoOptMutation(Mutation):
     @staticmethod
     def build(problem: Problem, solution: Solution, 
               **kwargs):
-- 
2.43.0


From 1d17336d5b4e48e0fc32ee9d8a3e76be99be91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 100/174] fix: multi-skill schedule generation with one unit
 per task takes the preferred unit

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 07fd97a..9b16a25 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -227,7 +227,8 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                    if problem.one_unit_per_task_max:
                        good = False
                        ws = []
-                       for worker in worker_ids:
+                       for worker in [w for w in solution.priority_worker_per_task[act_id-2]
+                                      if w in worker_ids]:
                            if any(s not in problem.employees[worker].dict_skill for s in required_skills) or \
                                    any(problem.employees[worker].dict_skill[s].skill_value<required_skills[s]
                                        for s in required_skills):
-- 
2.43.0


From 2073042b8459dcefc5e1aada2d4d2b026bf0a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 101/174] fix: multi-skill schedule generation does not occupy
 units which bring no skill to the task

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9b16a25..ef7d744 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -273,7 +273,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                 worker_used = []
                 current_skills = {s: 0. for s in required_skills}
                 for w in priority_list_this_task:
-                    if w in worker_ids:
+                    if w in worker_ids and any(s in problem.employees[w].dict_skill for s in required_skills):
                         worker_used += [w]
                         for s in problem.employees[w].dict_skill:
                             if s in current_skills:
-- 
2.43.0


From b5f22de44ea4119d7113b3b9a6eb4d8c7f6586ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 102/174] fix: skills as calendar resources do not pile up at
 the last time

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index ef7d744..dcb3a24 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -424,12 +424,11 @@ class MS_RCPSPModel(Problem):
             skills_availability = {s: [0]*len(self.resources_availability[self.resources_list[0]])
                                    for s in self.skills_set}
         for emp in self.employees:
-            for j in range(len(self.employees[emp].calendar_employee)):
+            for j in range(len(next(iter(skills_availability.values()), []))):
                 if self.employees[emp].calendar_employee[min(j,
                                                              len(self.employees[emp].calendar_employee)-1)]:
                     for s in self.employees[emp].dict_skill:
-                        skills_availability[s][min(j,
-                                                   len(skills_availability[s])-1)] += self.employees[emp].dict_skill[s].skill_value
+                        skills_availability[s][j] += self.employees[emp].dict_skill[s].skill_value
         res_availability = deepcopy(self.resources_availability)
         for s in skills_availability:
             res_availability[s] = [int(x) for x in skills_availability[s]]
-- 
2.43.0


From 3852f85e09faad346a24c8268567f7e56f973819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 103/174] fix: critical path goes through tight precedence arcs
 only

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..16e7902 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -115,7 +115,8 @@ class CPM(SolverDO):
         while cur_node is not self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From 408de3d48136fa211e80557dfc1438090c82b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 104/174] fix: critical path schedulers do not consume the
 availability arrays of the problem

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index 16e7902..43ddbb3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -137,7 +137,7 @@ class CPM(SolverDO):
         resource_avail_in_time = {}
         for res in list(self.rcpsp_model.resources.keys()):
             if isinstance(self.rcpsp_model, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
+                resource_avail_in_time[res] = list(self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1])
             else:
                 resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
         # 3
@@ -287,7 +287,7 @@ class CPM(SolverDO):
         resource_avail_in_time = {}
         for res in list(self.rcpsp_model.resources.keys()):
             if isinstance(self.rcpsp_model, RCPSPModelCalendar):
-                resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
+                resource_avail_in_time[res] = list(self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1])
             else:
                 resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
         # 3
-- 
2.43.0


From 7b52f2879cef0318b180aa4d673d247d5a9163b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 105/174] fix: executor of priority lists reports the modes of
 the tasks, not shifted by one

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..d10fb98 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -439,7 +439,7 @@ class Executor(PileSolverRCPSP):
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-                            rcpsp_modes=[modes_dict[i+1]
+                            rcpsp_modes=[modes_dict[i+2]
                                          for i in range(self.n_jobs)],
                             rcpsp_schedule_feasible=True)
         result_storage = ResultStorage(list_solution_fits=[(sol,
-- 
2.43.0


From 34a4e14b04371242f381caac2b2d8c978c7413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 106/174] fix: time loop scheduler checks availability over the
 whole duration of a task

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index 43ddbb3..0360310 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -327,7 +327,7 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
-                                    break
+                                        break
                             if not valid:
                                 break
                         if valid:
-- 
2.43.0


From 8b67f81896a202d0c546cf62d5557591820fdcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 107/174] fix: multi-skill CP solver on projects without
 resources

---
 .../rcpsp_multiskill/solvers/cp_solvers.py    | 49 +++++++++----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index f21cc0d..25ae105 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -71,9 +71,8 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         n_res = len(resources_list)
         # print('n_res: ', n_res)
         keys = []
-        if not no_ressource:
-            instance["n_res"] = n_res
-            keys += ["n_res"]
+        instance["n_res"] = n_res
+        keys += ["n_res"]
         if model_type == "multi-calendar":
             instance["exact_skills_need"] = exact_skills_need
             keys += ["exact_skills_need"]
@@ -119,15 +118,14 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         instance['dur'] = dur
         keys += ["dur"]
 
-        if not no_ressource:
-            rreq = []
-            index = 0
-            for res in resources_list:
-                rreq.append([])
-                for task in sorted_tasks:
-                    for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
-                        rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
-                index += 1
+        rreq = []
+        index = 0
+        for res in resources_list:
+            rreq.append([])
+            for task in sorted_tasks:
+                for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
+                    rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
+            index += 1
 
         skills_set = sorted(list(self.rcpsp_model.skills_set))
         nb_units = len(self.rcpsp_model.employees)
@@ -143,6 +141,8 @@ class CP_MS_MRCPSP_MZN(CPSolver):
             if no_ressource:
                 instance["max_time"] = self.rcpsp_model.horizon
                 keys += ["max_time"]
+                instance["ressource_capacity_time"] = []
+                keys += ["ressource_capacity_time"]
             else:
                 one_ressource = list(self.rcpsp_model.resources_availability.keys())[0]
                 instance["max_time"] = min(len(self.rcpsp_model.resources_availability[one_ressource])-1,
@@ -179,21 +179,20 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         print("Employee position CP ", self.employees_position)
 
         # print('rreq: ', rreq)
-        if not no_ressource:
-            instance["rreq"] = rreq
-            keys += ["rreq"]
+        instance["rreq"] = rreq
+        keys += ["rreq"]
 
-            rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
-            # print('rcap: ', rcap)
-            instance["rcap"] = rcap
-            keys += ["rcap"]
-            # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
-            rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
-                     for res in resources_list]
+        rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
+        # print('rcap: ', rcap)
+        instance["rcap"] = rcap
+        keys += ["rcap"]
+        # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
+        rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
+                 for res in resources_list]
 
-            # print('rtype: ', rtype)
-            instance["rtype"] = rtype
-            keys += ["rtype"]
+        # print('rtype: ', rtype)
+        instance["rtype"] = rtype
+        keys += ["rtype"]
 
         succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
         # print('succ: ', succ)
-- 
2.43.0


From ee75ce01113531ab44d43b99d689d1d78be3935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 108/174] fix: multi-skill CP model: tasks without duration,
 makespans beyond the sum of durations

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 3a983f0..36891e6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -90,9 +90,8 @@ constraint
     if add_calendar_constraint_unit then
         forall(i in Act)(
              forall(w in Units)(
-                 let{var TIME_ARR0: st=start[i],
-                     var TIME_ARR0: end=start[i]+adur[i]} in (
-                        unit_used[w, i] <= min(t in st..end-1)(ressource_unit_capacity_time0[w, t])
+                 forall(t in TIME_ARR0 where ressource_unit_capacity_time0[w, t]=0)(
+                        (start[i] <= t /\ t < start[i]+adur[i]) -> not unit_used[w, i]
                      )
              )
       )
@@ -168,7 +167,7 @@ array[Act] of var min(mdur)..max(mdur): adur = [let {var {mdur[m] | m in mode[i]
 array[Res,Act] of var min_mrreq..max_mrreq: arreq = array2d(Res, Act,
                                                             [let {var {mrreq[k,m] | m in mode[i]}: x} in x |
                                                              k in Res, i in Act]);
-var 0..UB: objective;
+var 0..max_time: objective;
 
 %---------------------------------------------------------------------------%
 % Constraints
-- 
2.43.0


From c007c5bca7b1c084e0c232540f88c991822c9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 109/174] fix: knapsack dynamic programming with items heavier
 than the capacity, or not numbered from 0

---
 .../knapsack/solvers/dyn_prog_knapsack.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..7a96ab0 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -26,7 +26,6 @@ class KnapsackDynProg(SolverDO):
         start_by_most_promising = args.get('greedy_start', False)
         stop_after_n_item = args.get('stop_after_n_item', False)
         max_items = args.get('max_items', self.knapsack_model.nb_items+1)
-        max_items = min(self.knapsack_model.nb_items+1, max_items)
         max_time_seconds = args.get('max_time_seconds', None)
         verbose = args.get('verbose', False)
         if max_time_seconds is None:
@@ -41,6 +40,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -102,6 +102,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -113,8 +114,8 @@ class KnapsackDynProg(SolverDO):
             weight = self.knapsack_model.list_items[index_item].weight
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
-            ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            ind = np.arange(self.capacity+1)-weight
+            vec_2 = np.where(ind >= 0, vec_1[np.maximum(ind, 0)]+value, vec_1)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
@@ -126,7 +127,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
-- 
2.43.0


From 557bbd95de125b9f984986aeeb78e873e5125f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 110/174] fix: greedy knapsack with items heavier than the
 capacity, or not numbered from 0

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,9 +26,9 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From e02232c8894be0427e178ceef6a9d117a41b7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 111/174] fix: constraint solvers of knapsack with items not
 numbered from 0

---
 .../knapsack/solvers/cp_solvers.py                  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
-- 
2.43.0


From 4046e6daf980c7c2921e1f544fcb14f4553052d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 112/174] fix: integer programs of knapsack with items in any
 order of indices

---
 .../knapsack/solvers/lp_solvers.py             | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..d89713c 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 8cba0cb520bfda33ffe3ecba73920d37bb59b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 113/174] fix: integer programs of graph coloring with nodes
 not named 0 to n-1

---
 .../coloring/solvers/coloring_lp_solvers.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..e4ba15c 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -52,7 +52,7 @@ class ColoringLP(MilpSolver):
         nb_colors = self.start_solution.nb_color
         color_model = Model("color")
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -171,7 +171,7 @@ class ColoringLP_MIP(ColoringLP):
                                 sense=mip.MINIMIZE,
                                 solver_name=self.solver_name)
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
-- 
2.43.0


From c9cda97796f4a641bcbaff3b1c4cd1898220eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 114/174] fix: list of all the cliques of a graph

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From 1d5c26263c2b37ec2e70679d6c7b9e645e19180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 115/174] fix: greedy coloring with the DSATUR strategy

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From 59b3049e06b263a1e3bfa789a090c276727381db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 116/174] fix: facility solvers starting from the greedy
 solution

---
 .../facility/solvers/facility_cp_solvers.py                 | 2 +-
 .../facility/solvers/facility_lp_solver.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index a349ff1..e0ceb0f 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -85,7 +85,7 @@ class FacilityCP(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
         else:
             if verbose:
                 print("Get dummy solution")
diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..8affdd2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -212,7 +212,7 @@ class LP_Facility_Solver(MilpSolver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -382,7 +382,7 @@ class LP_Facility_Solver_CBC(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -559,7 +559,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
-- 
2.43.0


From c46e9615718b3364da908b0d084d2910a1f0d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 117/174] fix: facility constraint model: set-up cost of
 facilities serving only customers without demand

---
 .../discrete_optimization/facility/minizinc/facility_int.mzn    | 2 +-
 .../facility/minizinc/facility_int_lns.mzn                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
index 84dd880..4d7e849 100644
--- a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
+++ b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int.mzn
@@ -15,7 +15,7 @@ constraint forall(f in FACILITIES)
                                    else 0 
                                    endif)==capacity_used_by_facility[f]);
 constraint forall(f in FACILITIES)(capacity_used_by_facility[f]<=capacity[f]);
-constraint forall(f in FACILITIES)(used_facility[f]==1 <-> capacity_used_by_facility[f]>0);
+constraint forall(f in FACILITIES)(used_facility[f]==1 <-> exists(c in CUSTOMERS)(facility_for_customer[c]==f));
 
 var int: objective;
 var int: setup_cost;
diff --git a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
index c1ff434..af2a800 100644
--- a/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
+++ b/skdecide/builders/discrete_optimization/facility/minizinc/facility_int_lns.mzn
@@ -15,7 +15,7 @@ constraint forall(f in FACILITIES)
                                    else 0
                                    endif)==capacity_used_by_facility[f]);
 constraint forall(f in FACILITIES)(capacity_used_by_facility[f]<=capacity[f]);
-constraint forall(f in FACILITIES)(used_facility[f]==1 <-> capacity_used_by_facility[f]>0);
+constraint forall(f in FACILITIES)(used_facility[f]==1 <-> exists(c in CUSTOMERS)(facility_for_customer[c]==f));
 
 var int: objective;
 var int: setup_cost;
-- 
2.43.0


From aa3557979ec253be18f1f8d6097881a80c99460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 118/174] fix: vehicle routing graph with the supported
 versions of networkx

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index d7c1ae1..be765ea 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From c07e4e6333c6c482ffbd1cdd99a5c61e6b21ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 119/174] fix: conditions of a partial schedule read by the
 scheduling solvers

---
 .../discrete_optimization/rcpsp/rcpsp_model.py         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index da12c88..97d3587 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -488,7 +488,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -496,6 +500,10 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together  # (t1, t2) : t2 starts when t1 starts
+        self.start_at_end = start_at_end  # (t1, t2) : t2 starts when t1 ends
+        self.start_after_nunit = start_after_nunit  # (t1, t2, delta) : t2 starts at least delta after the start of t1
+        self.start_at_end_plus_offset = start_at_end_plus_offset  # (t1, t2, delta) : at least delta after its end
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From fae920727e31cdff0b0b1820c8943ade34a6a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 120/174] fix: constraint models with imposed modes

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index ffc5bde..53f84be 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -334,7 +334,7 @@ class CP_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -587,7 +587,7 @@ class CP_MRCPSP_MZN_NOBOOL(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -732,7 +732,7 @@ class CP_MRCPSP_MZN_MODES:
         if p_s is not None:
             constraint_strings = []
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 92b3f7be83ab6a66b43bc517e4d52761a41cb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 121/174] fix: single mode constraint model of projects without
 slack

---
 .../rcpsp/minizinc/rcpsp_single_mode_mzn.mzn                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
index de2ca8a..35d7b50 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
@@ -41,7 +41,7 @@ array [Tasks]      of set of int: suc;  % The task successors
 
 % Planning horizon
 int: t_max = sum(i in Tasks)(d[i]);     % End time of the planning horizon
-set of int: Times = 0..t_max-1;     % Possible start times
+set of int: Times = 0..t_max;     % Possible start times
 
 %-----------------------------------------------------------------------------%
 % Model variables.
-- 
2.43.0


From 91f4cc58d09a3a130c48b3a51e9c5a0e43b554b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 122/174] fix: best solution stored by the integer programs of
 scheduling

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..96905e3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -190,8 +190,6 @@ class LP_RCPSP(MilpSolver):
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -390,8 +388,6 @@ class LP_MRCPSP(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -634,8 +630,6 @@ class LP_MRCPSP_GUROBI(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
-- 
2.43.0


From d90b7ba17a65a1ecd2c56023e61b1b23fb76314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 123/174] fix: constraint models of scheduling with their own
 type of solution and only the last one kept

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py   | 10 +++++-----
 .../rcpsp_multiskill/solvers/cp_solvers.py             |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index 53f84be..a1345fc 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -143,8 +143,8 @@ class CP_RCPSP_MZN(CPSolver):
                 else:
                     starts += [result[i, "s"]]
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["s"]]
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["s"]]
             else:
                 starts = [result["s"]]
 
@@ -379,9 +379,9 @@ class CP_MRCPSP_MZN(CPSolver):
                     mruns += [result[i, "mrun"]]
 
         else:
-            if isinstance(result, RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
+            if isinstance(result.solution, RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
             else:
                 starts = [result["start"]]
                 mruns = [result["mrun"]]
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index 25ae105..dafc69e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -273,10 +273,10 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                 # array_skill = result[i, "array_skills_required"]
                 # print("Objective : ", result[i, "objective"])
         else:
-            if isinstance(result, MS_RCPSPSolCP):
-                starts += [result.dict["start"]]
-                mruns += [result.dict["mrun"]]
-                units_used += [result.dict["unit_used"]]
+            if isinstance(result.solution, MS_RCPSPSolCP):
+                starts += [result.solution.dict["start"]]
+                mruns += [result.solution.dict["mrun"]]
+                units_used += [result.solution.dict["unit_used"]]
             else:
                 starts += [result["start"]]
                 mruns += [result["mrun"]]
-- 
2.43.0


From 108705689818a03e1435f78792e1b37987dcf5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 124/174] fix: multi-skill constraint model with imposed modes

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index dafc69e..ddb9870 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -224,7 +224,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From 4d2a5267e296d3cc63616ed687b933031eeae7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 125/174] fix: constraint model of projects that wait for
 resources of a calendar

---
 .../discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn | 2 +-
 .../rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn           | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
index 4ed6366..b4e28a0 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
@@ -33,7 +33,7 @@ predicate cumulative_time_calendar(array[int] of var int: s,
         int: late  = max([ ub(s[i]) + ub(d[i]) | i in Tasks ])
     } in (
         forall( t in early..late ) (
-            b[t+1] >= sum( i in Tasks ) (
+            (if t+1 in index_set(b) then b[t+1] else 0 endif) >= sum( i in Tasks ) (
                 bool2int(s[i] <= t /\ t < s[i] + d[i]) * r[i]
             )
         )
diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
index 13ffdcb..aa2d268 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
@@ -61,9 +61,8 @@ int: max_mrreq = max(k in Res, m in Mod)(mrreq[k,m]);
 %---------------------------------------------------------------------------%
 % Variables
 
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
-
 int: max_time;
+int: UB = max_time; % tasks may have to wait for resources to be available
 set of int: TIME_ARR = 1..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
 
-- 
2.43.0


From 1ec8d06d3acd90c93c92aac9d7ccb59e4a796f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 126/174] fix: random neighbourhoods of large neighbourhood
 searches with the supported versions of python

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py  | 4 ++--
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                   | 4 ++--
 .../rcpsp/solver/rcpsp_lp_lns_solver.py                   | 8 ++++----
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py    | 4 ++--
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py    | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index d89713c..89fd601 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -126,7 +126,7 @@ class LPKnapsackGurobi(SolverDO):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                               int(fraction_decision_fixed*len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize()
@@ -341,7 +341,7 @@ class LPKnapsack(MilpSolver):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                                int(fraction_decision_fixed * len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize(max_seconds=parameter_gurobi.TimeLimit,
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 321a643..44a2841 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -38,7 +38,7 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time-self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -103,7 +103,7 @@ class ConstraintHandlerByPart_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time - self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index c63b245..b5ff15a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -115,7 +115,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         milp_solver.model.start = start
 
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -169,7 +169,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -229,7 +229,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -291,7 +291,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index 675ad94..9808e85 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -117,14 +117,14 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.schedule[x]["end_time"] >= max_time-20]
         # last_jobs = []
         nb_jobs = self.problem.n_jobs_non_dummy + 2
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
         list_strings = []
         self.employees_position = sorted(self.problem.employees)
-        task_to_fix = set(random.sample(current_solution.schedule.keys(),
+        task_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_task_to_fix_employee * nb_jobs)))
         employee_to_not_fix = set(random.sample(range(1, len(self.employees_position)+1),
                                                 min(5, int(1. * len(self.employees_position)))))
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 8d7d4da..324f9e7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -127,7 +127,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.schedule
                      if current_solution.schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.nb_tasks
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
-- 
2.43.0


From 01be7dad10dabbb03562067d67d21051ae09eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 127/174] fix: large neighbourhood search for knapsack with
 items numbered freely

---
 .../knapsack/solvers/knapsack_lns_solver.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..6c4fb0e 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -60,9 +60,10 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
-            start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
-                lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
+            c = self.problem.index_to_index_list[key]
+            start += [(x_var[key], dict_f_start[c])]
+            if c in subpart_item:
+                lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[c],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
             milp_solver.model.solver.update()
-- 
2.43.0


From e508d08027a69672bd6d64d14c66165829705491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 128/174] fix: best objective of large neighbourhood searches
 that maximise

---
 .../builders/discrete_optimization/generic_tools/lns_mip.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..e2c2121 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -87,7 +87,7 @@ class LNS_MILP(SolverDO):
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
             best_solution = None
             constraint_iterable = {"empty": []}
             store_lns = None
-- 
2.43.0


From 064ab857fb9b9d8b632706a8d2c518854a073f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 129/174] fix: calendar dispatching of projects without
 calendars

---
 .../discrete_optimization/rcpsp/solver/rcpsp_pile.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index d10fb98..3046c31 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -238,12 +238,16 @@ class PileSolverRCPSP_Calendar(SolverDO):
                     if task in schedule:
                         schedule[task]["end_time"] = partial_solution.end_times[task]
 
-        current_ressource_available = {r: list(self.resources[r])+[self.resources[r][-1]]*100 for r in self.resources}
+        # Without calendar, the availability of resources is constant.
+        calendars = {r: list(self.resources[r]) if self.with_calendar
+                     else [self.resources[r]]*(self.rcpsp_model.horizon+1)
+                     for r in self.resources}
+        current_ressource_available = {r: calendars[r]+[calendars[r][-1]]*100 for r in self.resources}
         # if self.with_calendar:
         #    current_ressource_available = {r: current_ressource_available[r][0]
         #                                   for r in current_ressource_available}
 
-        current_ressource_non_renewable = {nr: list(self.resources[nr])+[self.resources[nr][-1]]*100
+        current_ressource_non_renewable = {nr: calendars[nr]+[calendars[nr][-1]]*100
                                            for nr in self.non_renewable}
         # if self.with_calendar:
         #     current_ressource_non_renewable = {r: current_ressource_non_renewable[r][0]
-- 
2.43.0


From abe2314d762f196041f2c6d271cde58c9f67a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 130/174] fix: constraint model of multi-skill projects with
 calendars of resources

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 36891e6..02d2455 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -199,6 +199,11 @@ constraint forall(i in Act, j in succ[i])(start[i] + adur[i] <= start[j]);
 constraint forall(k in RRes)(
     cumulative(start, adur, [arreq[k,i] | i in Act], rcap[k])
 );
+    % Times when a resource is less available than at most
+    %
+constraint forall(k in RRes, t in TIME_ARR0 where ressource_capacity_time0[k, t] < rcap[k])(
+    sum(i in Act)(bool2int(start[i] <= t /\ t < start[i]+adur[i])*arreq[k, i]) <= ressource_capacity_time0[k, t]
+);
 
 
 
-- 
2.43.0


From bdd4029dac5b9b1fd67e200aa84f39bfc7499db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 131/174] fix: resources of multi-skill schedules whose tasks
 are moved earlier

---
 .../rcpsp_multiskill/solvers/lns_post_process_rcpsp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
index c5da336..6c20f2a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py
@@ -52,7 +52,8 @@ def sgs_variant(solution: MS_RCPSPSolution,
     resource_avail_in_time = {}
     new_horizon = problem.horizon
     for res in problem.resources_set:
-        resource_avail_in_time[res] = problem.resources_availability[res][:new_horizon + 1]
+        if res not in problem.non_renewable_resources:
+            resource_avail_in_time[res] = list(problem.resources_availability[res][:new_horizon + 1])
     worker_avail_in_time = {}
     for i in problem.employees:
         worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)
@@ -70,7 +71,12 @@ def sgs_variant(solution: MS_RCPSPSolution,
         else:
             min_time = 0
         new_starting_time = solution.schedule[task]["start_time"]
+        needs = problem.mode_details[task][solution.modes[task]]
         for t in range(min_time, solution.schedule[task]["start_time"]+1):
+            if any(resource_avail_in_time[res][time] < needs.get(res, 0)
+                   for res in resource_avail_in_time
+                   for time in range(t, t + solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"])):
+                continue
             if all(all(worker_avail_in_time[emp][time]
                        for time in range(t,
                                          t+ solution.schedule[task]["end_time"]-solution.schedule[task]["start_time"]))
@@ -81,6 +87,8 @@ def sgs_variant(solution: MS_RCPSPSolution,
         new_proposed_schedule[task] = {"start_time": new_starting_time,
                                        "end_time": new_starting_time+duration}
         for t in range(new_starting_time, new_starting_time+duration):
+            for res in resource_avail_in_time:
+                resource_avail_in_time[res][t] -= needs.get(res, 0)
             for emp in employee_used:
                 worker_avail_in_time[emp][t] = False
     new_solution = MS_RCPSPSolution(problem=problem,
-- 
2.43.0


From 4235ad7bf74d0d8cf418ad25d5c05095fdaa33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 132/174] fix: integer program of multi-skill projects with
 short calendars

---
 .../rcpsp_multiskill/solvers/lp_model.py                   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
index df3efac..8c8d1c1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
@@ -295,6 +295,10 @@ class LP_Solver_MRSCPSP(MilpSolver):
         max_duration = sum([int(max([self.rcpsp_model.mode_details[key][mode]['duration']
                             for mode in self.rcpsp_model.mode_details[key]]))
                             for key in sorted_tasks])+10
+        # Nothing takes place after the horizon, or after the end of a calendar
+        max_duration = min([max_duration, self.rcpsp_model.horizon]
+                           + [len(x)-1 for x in self.rcpsp_model.resources_availability.values()]
+                           + [len(x.calendar_employee)-1 for x in self.rcpsp_model.employees.values()])
         # c = [6, 8]
         renewable = {r: self.rcpsp_model.resources_availability[r]
                      for r in self.rcpsp_model.resources_availability
@@ -377,7 +381,8 @@ class LP_Solver_MRSCPSP(MilpSolver):
                             self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
                                                   - self.start_times[task][mode][t] <= 0)
                             if any(not self.rcpsp_model.employees[employee].calendar_employee[tt]
-                                   for tt in range(t, t+self.rcpsp_model.mode_details[task][mode]["duration"])):
+                                   for tt in range(t, min(t+self.rcpsp_model.mode_details[task][mode]["duration"],
+                                                          max_duration+1))):
                                 # print((employee, task, mode, t, s), "will be 0")
                                 # print(self.rcpsp_model.employees[employee].calendar_employee)
                                 self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)] == 0)
-- 
2.43.0


From feaf7884f424fab627a5f6449f880aeb82159ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 133/174] fix: integer program of multi-skill projects where an
 employee uses several skills on a task

---
 .../rcpsp_multiskill/solvers/lp_model.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
index 8c8d1c1..9146c9d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lp_model.py
@@ -355,6 +355,8 @@ class LP_Solver_MRSCPSP(MilpSolver):
                                        * self.modes[task][mode]
                                        for mode in self.modes[task]) == self.durations[task])
         self.employee_usage = tree()
+        # an employee who works on a task may use several skills there
+        self.employee_busy = {}
         task_in_employee_usage = set()
         for employee in self.rcpsp_model.employees:
             skills_employee = [skill
@@ -370,12 +372,18 @@ class LP_Solver_MRSCPSP(MilpSolver):
                     if len(required_skills) == 0:
                         # this employee will be useless anyway, pass
                         continue
+                    for t in range(max_duration+1):
+                        self.employee_busy[(employee, task, mode, t)] = \
+                            self.model.add_var(name="busy_{},{},{},{}".format(employee, task, mode, t),
+                                               var_type=BINARY)
                     for s in required_skills:
                         for t in range(max_duration+1):
                             self.employee_usage[(employee, task, mode, t, s)] = \
                                 self.model.add_var(name="employee_{}{}{}{}{}".format(employee, task, mode, t, s),
                                                    var_type=BINARY)
                             task_in_employee_usage.add(task)
+                            self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
+                                                  - self.employee_busy[(employee, task, mode, t)] <= 0)
                             self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
                                                   - self.modes[task][mode] <= 0)
                             self.model.add_constr(self.employee_usage[(employee, task, mode, t, s)]
@@ -401,8 +409,8 @@ class LP_Solver_MRSCPSP(MilpSolver):
 
         # can't work on overlapping tasks.
         for emp, t in product(employees, times):
-            self.model.add_constr(xsum(self.employee_usage[x]
-                                       for x in self.employee_usage
+            self.model.add_constr(xsum(self.employee_busy[x]
+                                       for x in self.employee_busy
                                        if x[0] == emp and
                                        x[3] <= t < x[3]+int(self.rcpsp_model.mode_details[x[1]][x[2]]["duration"])) <= 1)
         # ressource usage limit
-- 
2.43.0


From 11dedd97228527acda561d0688a0c88a824879d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 134/174] fix: answer of constraint models of projects without
 any schedule

---
 .../builders/discrete_optimization/rcpsp/solver/cp_solvers.py | 4 ++--
 .../rcpsp_multiskill/solvers/cp_solvers.py                    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index a1345fc..785a62e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -145,7 +145,7 @@ class CP_RCPSP_MZN(CPSolver):
         else:
             if isinstance(result.solution, RCPSPSolCP):
                 starts += [result.solution.dict["s"]]
-            else:
+            elif result.solution is not None:
                 starts = [result["s"]]
 
         for start_times in starts:
@@ -382,7 +382,7 @@ class CP_MRCPSP_MZN(CPSolver):
             if isinstance(result.solution, RCPSPSolCP):
                 starts += [result.solution.dict["start"]]
                 mruns += [result.solution.dict["mrun"]]
-            else:
+            elif result.solution is not None:
                 starts = [result["start"]]
                 mruns = [result["mrun"]]
         for start_times, mrun in zip(starts, mruns):
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index ddb9870..2be79ee 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -277,7 +277,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                 starts += [result.solution.dict["start"]]
                 mruns += [result.solution.dict["mrun"]]
                 units_used += [result.solution.dict["unit_used"]]
-            else:
+            elif result.solution is not None:
                 starts += [result["start"]]
                 mruns += [result["mrun"]]
                 units_used += [result["unit_used"]]
-- 
2.43.0


From 81b006f5901df64b5bb0799875c684b7d5fc0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 135/174] fix: start of the large neighbourhood search of
 projects with calendars

---
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 44a2841..658176d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -9,7 +9,7 @@ from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSol
 from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
 from skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers import CP_RCPSP_MZN, CP_MRCPSP_MZN, CPSolver
 from skdecide.builders.discrete_optimization.generic_tools.lns_cp import ConstraintHandler, SolverDO, LNS_CP
-from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel
+from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSPModelCalendar
 import random
 from enum import Enum
 import numpy as np
@@ -399,8 +399,10 @@ class LNS_CP_RCPSP_SOLVER(SolverDO):
         #                                                                 plus_delta=5)
         self.constraint_handler = build_neighbor_operator(option_neighbor=option_neighbor,
                                                           rcpsp_model=self.rcpsp_model)
+        initial_method = InitialMethodRCPSP.PILE_CALENDAR if isinstance(self.rcpsp_model, RCPSPModelCalendar) \
+            else InitialMethodRCPSP.PILE
         self.initial_solution_provider = InitialSolutionRCPSP(problem=self.rcpsp_model,
-                                                              initial_method=InitialMethodRCPSP.PILE,
+                                                              initial_method=initial_method,
                                                               params_objective_function=params_objective_function)
         self.lns_solver = LNS_CP(problem=self.rcpsp_model,
                                  cp_solver=self.solver,
-- 
2.43.0


From 18e62f21373420bc0f9d0f88e618c8e9985c8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 136/174] fix: resources counted in the modes of a schedule, in
 the solver that ignores calendars at first

---
 .../rcpsp/solver/calendar_solver_iterative.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
index 7c91130..1fe561f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/calendar_solver_iterative.py
@@ -29,23 +29,25 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
         ressource_arrays_usage[r] = np.zeros((len(problem_calendar.resources[r]),
                                               len(solution.rcpsp_schedule)))
     sorted_keys_schedule = sorted(solution.rcpsp_schedule.keys())
+    modes = [1] + list(solution.rcpsp_modes) + [1]
+    mode_details = {j: problem_calendar.mode_details[j][modes[j-1]] for j in sorted_keys_schedule}
     for ji in range(len(sorted_keys_schedule)):
         j = sorted_keys_schedule[ji]
-        for r in problem_calendar.mode_details[j][1]:
+        for r in mode_details[j]:
             if r == "duration":
                 continue
             if r is None:
                 continue
             if r == "None":
                 continue
-            if problem_calendar.mode_details[j][1][r] == 0:
+            if mode_details[j][r] == 0:
                 continue
             if solution.rcpsp_schedule[j]["end_time"] == solution.rcpsp_schedule[j]["start_time"]:
                 continue
             ressource_arrays_usage[r][int(solution.rcpsp_schedule[j]["start_time"]):
                                       int(solution.rcpsp_schedule[j]["end_time"]), ji] = 1
             ressource_arrays[r][int(solution.rcpsp_schedule[j]["start_time"]):
-                                int(solution.rcpsp_schedule[j]["end_time"])] += problem_calendar.mode_details[j][1][r]
+                                int(solution.rcpsp_schedule[j]["end_time"])] += mode_details[j][r]
     index_ressource = {}
     task_concerned = {}
     constraints = {}
@@ -64,11 +66,11 @@ def get_ressource_breaks(problem_calendar, problem_no_calendar, solution: RCPSPS
             current_start = solution.rcpsp_schedule[t]["start_time"]
             first_possible_start_future = next((st for st in range(current_start, len(problem_calendar.resources[r]))
                                                if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                                >= mode_details[t][r]),
                                                None)
             first_possible_start_before = next((st for st in range(current_start, -1, -1)
                                                if problem_calendar.resources[r][st]
-                                                >= problem_calendar.mode_details[t][1][r]),
+                                                >= mode_details[t][r]),
                                                None)
             #if first_possible_start_before is not None:
             #    first_possible_start_before = \
-- 
2.43.0


From fa6594bb3f8cd46710146c621aaa981949b8d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 137/174] fix: local search offered for multi-skill models that
 have no encoding to search

---
 .../rcpsp_multiskill/rcpsp_multiskill_solvers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py
index dcd7055..32d540a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_solvers.py
@@ -40,7 +40,7 @@ solvers_compatibility = {LP_Solver_MRSCPSP: [MS_RCPSPModel, MS_RCPSPModel_Varian
                          SolverWithCalendarIterative: [MS_RCPSPModel, MS_RCPSPModel_Variant],
                          CP_MS_MRCPSP_MZN: [MS_RCPSPModel, MS_RCPSPModel_Variant],
                          LNS_CP_MS_RCPSP_SOLVER: [MS_RCPSPModel, MS_RCPSPModel_Variant],
-                         LS_RCPSP_Solver: [MS_RCPSPModel, MS_RCPSPModel_Variant],
+                         LS_RCPSP_Solver: [MS_RCPSPModel_Variant],
                          GA_MSRCPSP_Solver: [MS_RCPSPModel_Variant]}
 
 
-- 
2.43.0


From c081b6b118f62f92802633efe9023f9218bc6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 138/174] fix: endless rebuilding of schedules that stay
 infeasible, in the multi-skill solver with calendars

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index aa78546..9fcea5f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -170,7 +170,7 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
                                        for n in self.graph.nodes_name}
 
     def build_other_solution(self, result_storage: ResultStorage) -> ResultStorage:
-        for sol in result_storage.list_solution_fits:  # [-min(2, len(result_storage.list_solution_fits)):]:
+        for sol in list(result_storage.list_solution_fits):  # [-min(2, len(result_storage.list_solution_fits)):]:
             if "satisfy" not in sol[0].__dict__.keys():
                 rb, constraints, constraint_emp = get_ressource_breaks(self.problem_calendar, sol[0])
                 sol[0].satisfy = not(any(len(rb[r]) > 0 for r in rb))
-- 
2.43.0


From c4db245cae6bd1c3ea5294e425ea44a464709875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 139/174] fix: priorities of employees that are not numbered
 from one, in the permutation encoding of multi-skill projects

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index dcb3a24..867fe1b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -758,11 +758,12 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
 
     def convert_fixed_priority_worker_per_task_from_permutation(self, permutation):
         priority_worker_per_task_corrected = []
+        workers = sorted(self.employees)
         for i in range(self.n_jobs_non_dummy):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            tmp_corrected = [workers[int(x) - 1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -790,13 +791,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = \
+                self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From 38984f11e2f6d3fbc216e21087341c4c3f044de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 140/174] fix: number of steps reported at the end of an
 episode

---
 skdecide/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 43f1824..9259f2b 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -196,7 +196,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             if outcome_formatter is not None:
                 logger.debug('Result: {}'.format(outcome_formatter(outcome)))
             if outcome.termination:
-                logger.debug(f'Episode {i_episode + 1} terminated after {step + 1} steps.')
+                logger.debug(f'Episode {i_episode + 1} terminated after {step} steps.')
                 break
             if max_framerate is not None:
                 wait = 1 / max_framerate - (time.perf_counter() - old_time)
@@ -346,7 +346,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             if outcome_formatter is not None:
                 logger.debug('Result: {}'.format(outcome_formatter(outcome)))
             if outcome.termination:
-                logger.debug(f'Episode {i_episode + 1} terminated after {step + 1} steps.')
+                logger.debug(f'Episode {i_episode + 1} terminated after {step} steps.')
                 break
             if max_framerate is not None:
                 wait = 1 / max_framerate - (time.perf_counter() - old_time)
-- 
2.43.0


From 60c4a6eda17fbf8dd93ac1ce866b106cdb4bf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 141/174] fix: keep the line endings of domains.py as they were

---
 skdecide/domains.py | 1706 +++++++++++++++++++++----------------------
 1 file changed, 853 insertions(+), 853 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index ef80812..33fe62d 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,853 +1,853 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        mi = None
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if mi is not None:
-                self._active_domains[mi] = False  # nothing was launched: the domain is still available
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += shm_sizes[res_name]
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        mi = None
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if mi is not None:
-                self._active_domains[mi] = False  # nothing was launched: the domain is still available
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        mi = None
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched: the domain is still available
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        mi = None
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # nothing was launched: the domain is still available
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From fccc692bea2752ab9e2b66118e85a9d91bb2c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 142/174] fix: horizon of the multi-mode integer program, one
 time step too short when the starting solution is infeasible

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index 96905e3..e369049 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -267,7 +267,7 @@ class LP_MRCPSP(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), range(sum(p)+1))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = range(int(makespan+1))
@@ -469,7 +469,7 @@ class LP_MRCPSP_GUROBI(MilpSolver):
            for suc in self.rcpsp_model.successors[task]:
                S.append([task, suc])
         # print('S: ', S)
-        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(sum(p))))
+        (R, self.J, self.T) = (range(len(c)), range(len(p)), list(range(sum(p)+1)))
         # we have a better self.T to limit the number of variables :
         if self.start_solution.rcpsp_schedule_feasible:
             self.T = list(range(int(makespan+1)))
-- 
2.43.0


From ae2cc86e9d2eb67c9ce19d614f23113080adb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 143/174] fix: duration distributions, bounds and samples
 ignored the progress they were asked for

---
 skdecide/builders/scheduling/task_duration.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/scheduling/task_duration.py b/skdecide/builders/scheduling/task_duration.py
index b42e9d2..531eb1b 100644
--- a/skdecide/builders/scheduling/task_duration.py
+++ b/skdecide/builders/scheduling/task_duration.py
@@ -44,7 +44,7 @@ class UncertainMultivariateTaskDuration(SimulatedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying multiivariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                        multivariate_settings: Optional[Dict[str, int]] = None) -> Distribution:
@@ -65,7 +65,7 @@ class UncertainUnivariateTaskDuration(UncertainMultivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1,
                                         progress_from: Optional[float]=0.,
@@ -81,7 +81,7 @@ class UncertainBoundedTaskDuration(UncertainUnivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -113,14 +113,14 @@ class UniformBoundedTaskDuration(UncertainBoundedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate uniform bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
         """Return the Distribution of the duration of the given task in the given mode.
         The distribution is uniform between the defined lower and upper bounds."""
-        lb = self.get_task_duration_lower_bound(task, mode)
-        ub = self.get_task_duration_upper_bound(task, mode)
+        lb = self.get_task_duration_lower_bound(task, mode, progress_from)
+        ub = self.get_task_duration_upper_bound(task, mode, progress_from)
         n_vals = ub - lb + 1
         p = 1.0 / float(n_vals)
         values = [(x, p) for x in range(lb, ub+1)]
@@ -140,7 +140,7 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -150,12 +150,12 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return max(duration_vals)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return min(duration_vals)
 
 
@@ -178,12 +178,12 @@ class DeterministicTaskDuration(EnumerableTaskDuration):
                                         multivariate_settings: Optional[Dict[str, int]] = None):
         """Return the Distribution of the duration of the given task in the given mode.
         Because the duration is deterministic, the distribution always returns the same duration."""
-        return DiscreteDistribution([(self.get_task_duration(task, mode), 1)])
+        return DiscreteDistribution([(self.get_task_duration(task, mode, progress_from), 1)])
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
-- 
2.43.0


From 7158f3344b3a2a916d5378f58dbb172e7ee8cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 144/174] fix: a time lag with a minimum only could not be
 created

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..e9aa0e8 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float('inf')
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From 34debc2517736efbeee78f2a9b5c75cab9d5ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 145/174] fix: policy evaluation failed on outcomes of
 probability zero

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..14d359a 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert prob == 0 or state in preds[succ]
     return policy_dict, preds, succs
 
 
@@ -55,6 +55,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From 86188cd1559f70ea18c459268d9660553feec7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 146/174] fix: a copied RCPSP model has its own resources

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 97d3587..f708a6e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -698,7 +698,7 @@ class RCPSPModel(Problem):
             ax[i].legend()
 
     def copy(self):
-        return RCPSPModel(resources=self.resources,
+        return RCPSPModel(resources=deepcopy(self.resources),
                           non_renewable_resources=self.non_renewable_resources,
                           mode_details=deepcopy(self.mode_details),
                           successors=deepcopy(self.successors),
@@ -840,7 +840,7 @@ class SingleModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        return SingleModeRCPSPModel(resources=self.resources,
+        return SingleModeRCPSPModel(resources=deepcopy(self.resources),
                                     non_renewable_resources=self.non_renewable_resources,
                                     mode_details=deepcopy(self.mode_details),
                                     successors=deepcopy(self.successors),
@@ -901,7 +901,7 @@ class MultiModeRCPSPModel(RCPSPModel):
         return super().get_solution_from_encoding(int_vector, encoding_name)
 
     def copy(self):
-        mm = MultiModeRCPSPModel(resources=self.resources,
+        mm = MultiModeRCPSPModel(resources=deepcopy(self.resources),
                                  non_renewable_resources=self.non_renewable_resources,
                                  mode_details=deepcopy(self.mode_details),
                                  successors=deepcopy(self.successors),
-- 
2.43.0


From 9e2b36ca5125a108567cbab074416c791a2f3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 147/174] fix: percentiles of uncertain RCPSP values stay in
 their range

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index f708a6e..2b8255c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1118,7 +1118,8 @@ class UncertainRCPSPModel:
                     if method_robustification.method_base == MethodBaseRobustification.PERCENTILE:
                         model.mode_details[activity][mode][detail] = \
                             max(int(self.probas[activity][mode][detail]["prob-distribution"].isf(q=1-
-                                                                                                 method_robustification.percentile/100)), 1)
+                                                                                                 method_robustification.percentile/100)),
+                                self.probas[activity][mode][detail]["prob-distribution"].support()[0])
                     if method_robustification.method_base == MethodBaseRobustification.SAMPLE:
                         model.mode_details[activity][mode][detail] = \
                             self.probas[activity][mode][detail]["prob-distribution"].rvs(size=1)[0]
-- 
2.43.0


From ee780d692767cf19e37855880b742f099bc4f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 148/174] fix: integer means of uncertain RCPSP values are not
 rounded below

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 2b8255c..85e381b 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1108,7 +1108,7 @@ class UncertainRCPSPModel:
                 for detail in self.probas[activity][mode]:
                     if method_robustification.method_base == MethodBaseRobustification.AVERAGE:
                         model.mode_details[activity][mode][detail] = \
-                            int(self.probas[activity][mode][detail]["prob-distribution"].mean())
+                            int(round(self.probas[activity][mode][detail]["prob-distribution"].mean(), 6))
                     if method_robustification.method_base == MethodBaseRobustification.WORST_CASE:
                         model.mode_details[activity][mode][detail] = \
                             self.probas[activity][mode][detail]["prob-distribution"].support()[1]
-- 
2.43.0


From aa96b912471f75ab7e1cbf7b7b28935f920e3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 149/174] fix: helper RCPSP models score infeasible orders

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 85e381b..b158d06 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1148,6 +1148,11 @@ class RCPSP_H_Model(SingleModeRCPSPModel):
         rcpsp_sol.rcpsp_schedule = self.rcpsp_pre_helper_correction(rcpsp_sol)
         obj_makespan, obj_mean_resource_reserve = self.evaluate_function(rcpsp_sol)
         cumulated_helper_gap = 0
+        if rcpsp_sol.rcpsp_schedule_feasible is False:
+            # the schedule is incomplete
+            return {'makespan': obj_makespan,
+                    'mean_resource_reserve': obj_mean_resource_reserve,
+                    'cumulated_helper_gap': cumulated_helper_gap}
         for main_act_id in self.pre_helper_activities.keys():
             pre_gap = rcpsp_sol.rcpsp_schedule[main_act_id]['start_time'] - \
                       rcpsp_sol.rcpsp_schedule[self.pre_helper_activities[main_act_id][0]]['end_time']
@@ -1169,6 +1174,9 @@ class RCPSP_H_Model(SingleModeRCPSPModel):
         return objectives
 
     def rcpsp_pre_helper_correction(self, rcpsp_sol: RCPSPSolution):
+        if rcpsp_sol.rcpsp_schedule_feasible is False:
+            # the schedule is incomplete
+            return rcpsp_sol.rcpsp_schedule
         corrected_sol = rcpsp_sol.copy()
 
         # sort pre_helper activities by start time decreasing
-- 
2.43.0


From 58492c46c4bc6a6e9fd9b4db84a6bf054151d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 150/174] fix: the seed of the helper task generator decides
 the precedences too

---
 .../discrete_optimization/rcpsp/rcpsp_data_generator.py        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_data_generator.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_data_generator.py
index 7c1b379..8930d7a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_data_generator.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_data_generator.py
@@ -1,6 +1,5 @@
 from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSP_H_Model, SingleModeRCPSPModel, MultiModeRCPSPModel, MRCPSP_H_Model
 import numpy as np
-import random
 
 
 def generate_rcpsp_with_helper_tasks_data(rcpsp_model: RCPSPModel, original_duration_multiplier,
@@ -104,7 +103,7 @@ def generate_rcpsp_with_helper_tasks_data(rcpsp_model: RCPSPModel, original_dura
     for main_act_id in assisted_activities:
         the_index = assisted_activities.index(main_act_id)
         for main_act_id_2 in assisted_activities[the_index+1:]:
-            if random.random() < probability_of_cross_helper_precedences:
+            if np.random.random() < probability_of_cross_helper_precedences:
                 post_act_id = post_helper_activities[main_act_id][0]
                 pre_act_id = pre_helper_activities[main_act_id_2][0]
                 print('adding cross helper precedence between helper activities: ', post_act_id, 'and', pre_act_id)
-- 
2.43.0


From 593fa6be8582bd1fde64040d7367a455f704dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 151/174] fix: A* finds optimal plans from every root without
 clearing its graph

---
 cpp/src/hub/solver/astar.hh | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index de06afb..e621cb7 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -61,18 +61,24 @@ public :
                 return;
             }
             Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+
+            // Forget the distances from the root nodes of previous searches
+            for (const auto& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity(); // we won't change the real key (Node::state) so we are safe
+            }
             root_node.gscore = 0;
             root_node.fscore = _heuristic(_domain, root_node.state);
 
             // Priority queue used to sort non-goal unsolved tip nodes by increasing cost-to-go values (so-called OPEN container)
-            std::priority_queue<Node*, std::vector<Node*>, NodeCompare> open_queue;
-            open_queue.push(&root_node);
+            // (it contains copies of the f-scores because those of the nodes can change while they are in the queue)
+            std::priority_queue<QueueElement, std::vector<QueueElement>, QueueElementCompare> open_queue;
+            open_queue.push(std::make_pair(root_node.fscore, &root_node));
 
             // Set of states for which the g-value is optimal (so-called CLOSED container)
             std::unordered_set<Node*> closed_set;
 
             while (!open_queue.empty()) {
-                auto best_tip_node = open_queue.top();
+                Node* best_tip_node = open_queue.top().second;
                 open_queue.pop();
 
                 // Check that the best tip node has not already been closed before
@@ -89,12 +95,12 @@ public :
                 if (_goal_checker(_domain, best_tip_node->state) || best_tip_node->solved) {
                     if (_debug_logs) spdlog::debug("Closing a goal state: " + best_tip_node->state.print());
                     auto current_node = best_tip_node;
-                    if (!(best_tip_node->solved)) { current_node->fscore = 0; } // goal state
+                    if (!(best_tip_node->solved)) { current_node->best_value = 0; } // goal state
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
-                        parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
+                        parent_node->best_value = std::get<2>(current_node->best_parent) + current_node->best_value;
                         parent_node->solved = true;
                         current_node = parent_node;
                     }
@@ -133,10 +139,10 @@ public :
 
                     if ((i.second) || (tentative_gscore < neighbor.gscore)) {
                         neighbor.gscore = tentative_gscore;
-                        neighbor.fscore = tentative_gscore + _heuristic(_domain, neighbor.state);
+                        neighbor.fscore = tentative_gscore + (neighbor.solved ? neighbor.best_value : _heuristic(_domain, neighbor.state));
                         neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
                         _execution_policy.protect([&open_queue, &neighbor]{
-                            open_queue.push(&neighbor);
+                            open_queue.push(std::make_pair(neighbor.fscore, &neighbor));
                         });
                         if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
                                                        ", gscore=" + StringConverter::from(neighbor.gscore) +
@@ -175,7 +181,7 @@ public :
         if (si == _graph.end()) {
             throw std::runtime_error("SKDECIDE exception: no best action found in state " + s.print());
         }
-        return si->fscore;
+        return si->best_value;
     }
 
 private :
@@ -190,13 +196,15 @@ private :
         std::tuple<Node*, Action, double> best_parent;
         double gscore;
         double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        double best_value; // cost-to-go, computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s)
             : state(s),
               gscore(std::numeric_limits<double>::infinity()),
               fscore(std::numeric_limits<double>::infinity()),
+              best_value(std::numeric_limits<double>::infinity()),
               best_action(nullptr),
               solved(false) {}
         
@@ -205,9 +213,11 @@ private :
         };
     };
 
-    struct NodeCompare {
-        bool operator()(Node*& a, Node*& b) const {
-            return (a->fscore) > (b->fscore); // smallest element appears at the top of the priority_queue => cost optimization
+    typedef std::pair<double, Node*> QueueElement;
+
+    struct QueueElementCompare {
+        bool operator()(const QueueElement& a, const QueueElement& b) const {
+            return (a.first) > (b.first); // smallest element appears at the top of the priority_queue => cost optimization
         }
     };
 
-- 
2.43.0


From 4c5e07902b8056d10acff6b2e391032429724664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 152/174] fix: BFWS and IW find valid plans from every root
 without clearing their graph

---
 cpp/src/hub/solver/bfws.hh | 8 ++++++--
 cpp/src/hub/solver/iw.hh   | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hub/solver/bfws.hh b/cpp/src/hub/solver/bfws.hh
index 2e47b53..8046d33 100644
--- a/cpp/src/hub/solver/bfws.hh
+++ b/cpp/src/hub/solver/bfws.hh
@@ -137,6 +137,10 @@ public :
                 return;
             }
             Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+            // Forget the distances from the root nodes of previous searches
+            for (const auto& n : _graph) {
+                const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity(); // we won't change the real key (Node::state) so we are safe
+            }
             root_node.gscore = 0;
             root_node.heuristic = _heuristic(_domain, root_node.state);
             root_node.novelty = novelty(heuristic_features_map, root_node.heuristic, root_node);
@@ -170,7 +174,7 @@ public :
 
                     while (current_node != &root_node) {
                         Node* parent_node = std::get<0>(current_node->best_parent);
-                        parent_node->best_action = &std::get<1>(current_node->best_parent);
+                        parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                         parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                         parent_node->solved = true;
                         current_node = parent_node;
@@ -277,7 +281,7 @@ private :
         double heuristic;
         double gscore;
         double fscore;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
         Node(const State& s, Domain& d,
diff --git a/cpp/src/hub/solver/iw.hh b/cpp/src/hub/solver/iw.hh
index 55cdffd..54487ce 100644
--- a/cpp/src/hub/solver/iw.hh
+++ b/cpp/src/hub/solver/iw.hh
@@ -230,7 +230,7 @@ private :
         double fscore; // not in A*'s meaning but rather to store cost-to-go once a solution is found
         std::size_t novelty;
         std::size_t depth;
-        Action* best_action; // computed only when constructing the solution path backward from the goal state
+        std::unique_ptr<Action> best_action; // computed only when constructing the solution path backward from the goal state
         bool pruned; // true if pruned by the novelty test (used only to report nb of pruned states)
         bool solved; // set to true if on the solution path constructed backward from the goal state
 
@@ -294,6 +294,11 @@ private :
                     return std::make_pair(false, false);
                 }
                 Node& root_node = const_cast<Node&>(*(si.first)); // we won't change the real key (Node::state) so we are safe
+                // Forget the distances and depths from the root nodes of previous searches
+                for (const auto& n : _graph) {
+                    const_cast<Node&>(n).gscore = std::numeric_limits<double>::infinity(); // we won't change the real key (Node::state) so we are safe
+                    const_cast<Node&>(n).depth = std::numeric_limits<std::size_t>::max();
+                }
                 root_node.depth = 0;
                 root_node.gscore = 0;
                 bool states_pruned = false;
@@ -349,7 +354,7 @@ private :
 
                             while (current_node != &root_node) {
                                 Node* parent_node = std::get<0>(current_node->best_parent);
-                                parent_node->best_action = &std::get<1>(current_node->best_parent);
+                                parent_node->best_action = std::make_unique<Action>(std::get<1>(current_node->best_parent));
                                 parent_node->fscore = std::get<2>(current_node->best_parent) + current_node->fscore;
                                 parent_node->solved = true;
                                 current_node = parent_node;
-- 
2.43.0


From d4c43e7904b8433988eeb75bef33952668248e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 153/174] fix: AO* recognizes a goal it was first asked to
 solve

---
 cpp/src/hub/solver/aostar.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 80e4e85..9a10e8a 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -60,10 +60,15 @@ public :
             auto start_time = std::chrono::high_resolution_clock::now();
 
             auto si = _graph.emplace(s);
-            if (si.first->solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
+            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
+            if (root_node.solved) { // problem already solved from this state (was present in _graph and already solved)
+                return;
+            }
+            if (_goal_checker(_domain, s)) { // nothing to solve, but other states can lead to this one
+                root_node.solved = true;
+                root_node.best_value = 0.0;
                 return;
             }
-            StateNode& root_node = const_cast<StateNode&>(*(si.first)); // we won't change the real key (StateNode::state) so we are safe
             std::priority_queue<StateNode*, std::vector<StateNode*>, StateNodeCompare> q; // contains only non-goal unsolved tip nodes
             q.push(&root_node);
 
-- 
2.43.0


From 5ac0d885129bf02b2f24a7aa3828825e16e6fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 154/174] fix: AO* cycle detection does not mistake several
 paths for a cycle

---
 cpp/src/hub/solver/aostar.hh | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 9a10e8a..9ae90db 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -122,9 +122,13 @@ public :
                     });
                 }
 
+                if (_detect_cycles) {
+                    for (const auto& fs : frontier) {
+                        check_not_own_ancestor(*fs);
+                    }
+                }
+
                 // Back-propagate value function from best tip node
-                std::unique_ptr<std::unordered_set<StateNode*>> explored_states; // only for detecting cycles
-                if (_detect_cycles) explored_states = std::make_unique<std::unordered_set<StateNode*>>(frontier);
                 while (!frontier.empty()) {
                     std::unordered_set<StateNode*> new_frontier;
                     std::for_each(ExecutionPolicy::policy, frontier.begin(), frontier.end(), [this, &new_frontier](const auto& fs){
@@ -155,14 +159,6 @@ public :
                         });
                     });
                     frontier = new_frontier;
-                    if (_detect_cycles) {
-                        for (const auto& ps : new_frontier) {
-                            if (explored_states->find(ps) != explored_states->end()) {
-                                throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + ps->state.print() + "]");
-                            }
-                            explored_states->insert(ps);
-                        }
-                    }
                 }
 
                 // Recompute best partial graph
@@ -267,6 +263,25 @@ private :
 
     typedef typename SetTypeDeducer<StateNode, State>::Set Graph;
     Graph _graph;
+
+    // Throws if the given state can be reached from itself
+    // (an ancestor met several times from its descendants does not make a cycle)
+    void check_not_own_ancestor(const StateNode& s) const {
+        std::unordered_set<const StateNode*> ancestors;
+        std::list<const StateNode*> open(1, &s);
+        while (!open.empty()) {
+            const StateNode* cs = open.front();
+            open.pop_front();
+            for (const auto& a : cs->parents) {
+                if (a->parent == &s) {
+                    throw std::logic_error("SKDECIDE exception: cycle detected in the MDP graph! [with state " + s.state.print() + "]");
+                }
+                if (ancestors.insert(a->parent).second) {
+                    open.push_back(a->parent);
+                }
+            }
+        }
+    }
 };
 
 } // namespace skdecide
-- 
2.43.0


From 151fb918e5478aef3bb33f74b56271f1aa0cc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 155/174] fix: ILAO* recognizes a goal it was first asked to
 solve

---
 cpp/src/hub/solver/ilaostar.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 10a8a64..fbd2191 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -70,6 +70,11 @@ public :
 
             if (root_node.solved || _goal_checker(_domain, s)) { // problem already solved from this state (was present in _graph and already solved)
                 if (_debug_logs) spdlog::debug("Found goal state " + s.print());
+                if (!root_node.solved) { // other states can lead to this goal
+                    root_node.goal = true;
+                    root_node.solved = true;
+                    root_node.best_value = 0.0;
+                }
                 return;
             }
 
-- 
2.43.0


From 98c29e5ce4c5c481f258dc6f6ccd8d487a957f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 156/174] fix: ILAO* runs value iteration on states entering
 the best solution graph before checking convergence

---
 cpp/src/hub/solver/ilaostar.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index fbd2191..5d294ec 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -9,6 +9,7 @@
 #ifndef SKDECIDE_ILAOSTAR_HH
 #define SKDECIDE_ILAOSTAR_HH
 
+#include <algorithm>
 #include <functional>
 #include <memory>
 #include <unordered_set>
@@ -86,10 +87,17 @@ public :
 
                 // compute best solution graph for value iteration
                 compute_best_solution_graph(root_node);
-                // perform value iteration on the best solution graph
-                value_iteration();
-                // recompute best solution graph after value iteration updates
-                compute_best_solution_graph(root_node);
+                bool stable_graph = false;
+                while (!stable_graph) {
+                    std::unordered_set<StateNode*> previous_graph = _best_solution_graph;
+                    // perform value iteration on the best solution graph
+                    value_iteration();
+                    // recompute best solution graph after value iteration updates
+                    compute_best_solution_graph(root_node);
+                    // the values of states entering the graph did not converge yet
+                    stable_graph = std::all_of(_best_solution_graph.begin(), _best_solution_graph.end(),
+                                               [&previous_graph](StateNode* n){ return previous_graph.find(n) != previous_graph.end(); });
+                }
                 // compute unexpanded tip node reachability from every state in best policy
                 compute_reachability();
                 // compute mean first passage time to goal states from states in best policy
-- 
2.43.0


From 0c79fe19bfbd4111eb7abb18ea56d5c8647c1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 157/174] fix: ILAO* discounts the passage times of its error
 bound

---
 cpp/src/hub/solver/ilaostar.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 5d294ec..18b7477 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -405,7 +405,7 @@ private :
         double first_passage_time = 0;
 
         for (const auto& o : s.best_action->outcomes) {
-            first_passage_time += std::get<0>(o) * (1.0 + (std::get<2>(o)->first_passage_time));
+            first_passage_time += std::get<0>(o) * (1.0 + (_discount * std::get<2>(o)->first_passage_time));
         }
 
         if (_debug_logs) spdlog::debug("Mean first passage time : " +
@@ -415,7 +415,7 @@ private :
     }
 
     void compute_mfpt() {
-        // Compute mean first passage time from s to any goal state.
+        // Compute (discounted) mean first passage time from s to any goal state.
         // We don't use exact computation with matrix inversion because
         // we are going to multiply the resuling value (which will be >> 1)
         // with the residual (which is << 1) thus approximating the mean
-- 
2.43.0


From 2a51225c4dd68404cc29c8cbf78516544461ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 158/174] fix: LRTDP recognizes a goal it was first asked to
 solve

---
 cpp/src/hub/solver/lrtdp.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index a093083..a33186e 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -84,6 +84,11 @@ public :
 
             if (root_node.solved || _goal_checker(_domain, s, nullptr)) { // problem already solved from this state (was present in _graph and already solved)
                 if (_debug_logs) spdlog::debug("Found goal state " + s.print());
+                if (!root_node.solved) { // other states can lead to this goal
+                    root_node.goal = true;
+                    root_node.solved = true;
+                    root_node.best_value = 0.0;
+                }
                 return;
             }
 
-- 
2.43.0


From d73e71cdfcbc6614a3de26550054f24a9ef59d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 159/174] fix: LRTDP trials do not update goal states

---
 cpp/src/hub/solver/lrtdp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index a33186e..4b2e466 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -444,11 +444,11 @@ private :
                 if (cs->goal) {
                     if (_debug_logs) spdlog::debug("Found goal state " + cs->state.print() +
                                                    ExecutionPolicy::print_thread());
-                    found_goal = true;
+                    found_goal = true; // nothing to do from a goal
+                } else {
+                    update(cs, thread_id);
+                    cs = pick_next_state(cs->best_action);
                 }
-
-                update(cs, thread_id);
-                cs = pick_next_state(cs->best_action);
             }, cs->mutex);
         }
 
-- 
2.43.0


From 63961ce0b333f78fd60c98bb2725d255d272b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 160/174] fix: LRTDP does not label as solved states it could
 not check within its depth limit

---
 cpp/src/hub/solver/lrtdp.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index 4b2e466..831e0d7 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -398,9 +398,7 @@ private :
             }, cs->mutex);
         }
 
-        auto e_time = elapsed_time(start_time);
-        rv = rv && ((e_time < _time_budget) ||
-                    ((e_time >= _time_budget) && open.empty()));
+        rv = rv && open.empty(); // all the states below s were checked within the time and depth limits
 
         if (rv) {
             while (!closed.empty()) {
-- 
2.43.0


From cc020456a23ba3f7b8c6ef41fbb1c3e454ba967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 161/174] fix: LRTDP forgets its current state when it is
 cleared

---
 cpp/src/hub/solver/lrtdp.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index 831e0d7..d2a0c30 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -67,6 +67,7 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr; // was owned by _graph
     }
 
     // solves from state s using heuristic function h
-- 
2.43.0


From bc0fc7de4c4f69e2aaf4744771ccbb491c484126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 162/174] fix: parallel A* keeps the best of several actions
 leading to the same state

---
 cpp/src/hub/solver/astar.hh | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cpp/src/hub/solver/astar.hh b/cpp/src/hub/solver/astar.hh
index e621cb7..7cf8702 100644
--- a/cpp/src/hub/solver/astar.hh
+++ b/cpp/src/hub/solver/astar.hh
@@ -137,12 +137,20 @@ public :
                     double transition_cost = _domain.get_transition_cost(best_tip_node->state, a, neighbor.state);
                     double tentative_gscore = best_tip_node->gscore + transition_cost;
 
-                    if ((i.second) || (tentative_gscore < neighbor.gscore)) {
-                        neighbor.gscore = tentative_gscore;
-                        neighbor.fscore = tentative_gscore + (neighbor.solved ? neighbor.best_value : _heuristic(_domain, neighbor.state));
-                        neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
-                        _execution_policy.protect([&open_queue, &neighbor]{
-                            open_queue.push(std::make_pair(neighbor.fscore, &neighbor));
+                    bool better_path = false;
+                    _execution_policy.protect([&better_path, &tentative_gscore, &neighbor]{
+                        better_path = (tentative_gscore < neighbor.gscore); // true if the neighbor is new
+                    });
+
+                    if (better_path) {
+                        double cost_to_go = (neighbor.solved ? neighbor.best_value : _heuristic(_domain, neighbor.state));
+                        _execution_policy.protect([&best_tip_node, &a, &transition_cost, &tentative_gscore, &cost_to_go, &open_queue, &neighbor]{
+                            if (tentative_gscore < neighbor.gscore) { // another action could have found a better path meanwhile
+                                neighbor.gscore = tentative_gscore;
+                                neighbor.fscore = tentative_gscore + cost_to_go;
+                                neighbor.best_parent = std::make_tuple(best_tip_node, a, transition_cost);
+                                open_queue.push(std::make_pair(neighbor.fscore, &neighbor));
+                            }
                         });
                         if (_debug_logs) spdlog::debug("Update neighbor node: " + neighbor.state.print() +
                                                        ", gscore=" + StringConverter::from(neighbor.gscore) +
-- 
2.43.0


From 97ddfde2c15a8b100aaab91d0212eb74b692958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 163/174] fix: parallel AO* does not mix up the actions it
 expands

---
 cpp/src/hub/solver/aostar.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/aostar.hh b/cpp/src/hub/solver/aostar.hh
index 9ae90db..5581800 100644
--- a/cpp/src/hub/solver/aostar.hh
+++ b/cpp/src/hub/solver/aostar.hh
@@ -90,10 +90,12 @@ public :
                     auto applicable_actions = _domain.get_applicable_actions(best_tip_node->state).get_elements();
                     std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &best_tip_node](auto a){
                         if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-                        _execution_policy.protect([&best_tip_node, &a]{
+                        ActionNode* action_node = nullptr;
+                        _execution_policy.protect([&best_tip_node, &a, &action_node]{
                             best_tip_node->actions.push_back(std::make_unique<ActionNode>(a));
+                            action_node = best_tip_node->actions.back().get();
                         });
-                        ActionNode& an = *(best_tip_node->actions.back());
+                        ActionNode& an = *action_node;
                         an.parent = best_tip_node;
                         auto next_states = _domain.get_next_state_distribution(best_tip_node->state, a).get_values();
                         for (auto ns : next_states) {
-- 
2.43.0


From 9c85f090aa17c7dda829335f5c35388e4ca22f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 164/174] fix: parallel ILAO* does not mix up the actions it
 expands

---
 cpp/src/hub/solver/ilaostar.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index 18b7477..b591992 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -228,10 +228,12 @@ private :
         
         std::for_each(ExecutionPolicy::policy, applicable_actions.begin(), applicable_actions.end(), [this, &s](auto a){
             if (_debug_logs) spdlog::debug("Current expanded action: " + a.print() + ExecutionPolicy::print_thread());
-            _execution_policy.protect([&s, &a]{
+            ActionNode* action_node = nullptr;
+            _execution_policy.protect([&s, &a, &action_node]{
                 s.actions.push_back(std::make_unique<ActionNode>(a));
+                action_node = s.actions.back().get();
             });
-            ActionNode& an = *(s.actions.back());
+            ActionNode& an = *action_node;
             auto next_states = _domain.get_next_state_distribution(s.state, a).get_values();
 
             for (auto ns : next_states) {
-- 
2.43.0


From 442b7a7ddc74e528ef2c4aeac7a87a5a3a033421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 165/174] fix: parallel LRTDP knows the value of a new state
 before other threads use it

---
 cpp/src/hub/solver/lrtdp.hh | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cpp/src/hub/solver/lrtdp.hh b/cpp/src/hub/solver/lrtdp.hh
index d2a0c30..70341f1 100644
--- a/cpp/src/hub/solver/lrtdp.hh
+++ b/cpp/src/hub/solver/lrtdp.hh
@@ -264,8 +264,20 @@ private :
 
             for (auto ns : next_states) {
                 std::pair<typename Graph::iterator, bool> i;
-                _execution_policy.protect([this, &i, &ns]{
+                bool known = false;
+                _execution_policy.protect([this, &ns, &known]{
+                    known = (_graph.find(ns.state()) != _graph.end());
+                });
+                bool goal = !known && _goal_checker(_domain, ns.state(), thread_id);
+                double value = (known || goal) ? 0.0 : _heuristic(_domain, ns.state(), thread_id);
+                _execution_policy.protect([this, &i, &ns, &goal, &value]{
                     i = _graph.emplace(ns.state());
+                    if (i.second) { // new node, whose value must be known as soon as other threads can find it in the graph
+                        StateNode& new_node = const_cast<StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
+                        new_node.goal = goal;
+                        new_node.solved = goal;
+                        new_node.best_value = value;
+                    }
                 });
                 StateNode& next_node = const_cast<StateNode&>(*(i.first)); // we won't change the real key (StateNode::state) so we are safe
                 an.outcomes.push_back(std::make_tuple(ns.probability(), _domain.get_transition_cost(s->state, a, next_node.state, thread_id), &next_node));
@@ -273,13 +285,9 @@ private :
                 if (_debug_logs) spdlog::debug("Current next state expansion: " + next_node.state.print() + ExecutionPolicy::print_thread());
 
                 if (i.second) { // new node
-                    if (_goal_checker(_domain, next_node.state, thread_id)) {
+                    if (next_node.goal) {
                         if (_debug_logs) spdlog::debug("Found goal state " + next_node.state.print() + ExecutionPolicy::print_thread());
-                        next_node.goal = true;
-                        next_node.solved = true;
-                        next_node.best_value = 0.0;
                     } else {
-                        next_node.best_value = _heuristic(_domain, next_node.state, thread_id);
                         if (_debug_logs) spdlog::debug("New state " + next_node.state.print() +
                                                        " with heuristic value " + StringConverter::from(next_node.best_value) +
                                                        ExecutionPolicy::print_thread());
-- 
2.43.0


From 9ca23c30a5296614f1d77885bed3a08dd73a35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 166/174] fix: parallel ILAO* loses no residual and no change
 of its states

---
 cpp/src/hub/solver/ilaostar.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hub/solver/ilaostar.hh b/cpp/src/hub/solver/ilaostar.hh
index b591992..910d0ee 100644
--- a/cpp/src/hub/solver/ilaostar.hh
+++ b/cpp/src/hub/solver/ilaostar.hh
@@ -364,7 +364,10 @@ private :
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update(*s));
+                double state_residual = update(*s);
+                _execution_policy.protect([&residual, &state_residual]{
+                    residual = std::max((double) residual, state_residual);
+                });
             });
         }
 
@@ -394,7 +397,9 @@ private :
         while (changes) {
             changes = false;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &changes](auto& s){
-                changes = update_reachability(*s) || changes;
+                if (update_reachability(*s)) {
+                    changes = true;
+                }
             });
         }
 
@@ -429,7 +434,10 @@ private :
         while (residual > _epsilon) {
             residual = 0;
             std::for_each(ExecutionPolicy::policy, _best_solution_graph.begin(), _best_solution_graph.end(), [this, &residual](auto& s){
-                residual = std::max((double) residual, update_mfpt(*s));
+                double state_residual = update_mfpt(*s);
+                _execution_policy.protect([&residual, &state_residual]{
+                    residual = std::max((double) residual, state_residual);
+                });
             });
         }
         if (_debug_logs) spdlog::debug("Mean first passage time computation converged with residual " +
-- 
2.43.0


From 3c5cfbbe84d03f8549fed91a69d26ca54d1a4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 167/174] fix: MCTS does not roll out from terminal states

---
 cpp/src/hub/solver/mcts.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 6a1f2ea..04eb784 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -767,14 +767,15 @@ public :
                     std::size_t d) const {
         try {
             typename Tsolver::Domain::State current_state;
+            bool termination = false;
 
-            solver.execution_policy().protect([&solver, &n, &current_state](){
+            solver.execution_policy().protect([&solver, &n, &current_state, &termination](){
                 if (solver.debug_logs()) { spdlog::debug("Launching default rollout policy from state " + n.state.print() +
                                                          Tsolver::ExecutionPolicy::print_thread()); }
                 current_state = n.state;
+                termination = n.terminal;
             }, n.mutex);
 
-            bool termination = false;
             std::size_t current_depth = d;
             double reward = 0.0;
             double gamma_n = 1.0;
-- 
2.43.0


From a444f029ac4f806168ded046375f4f3f8632f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 168/174] fix: MCTS forgets its current state and its executed
 actions when it is cleared

---
 cpp/src/hub/solver/mcts.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/hub/solver/mcts.hh b/cpp/src/hub/solver/mcts.hh
index 04eb784..6a3af4c 100644
--- a/cpp/src/hub/solver/mcts.hh
+++ b/cpp/src/hub/solver/mcts.hh
@@ -1019,6 +1019,8 @@ public :
     // previous search results)
     void clear() {
         _graph.clear();
+        _current_state = nullptr;
+        _action_prefix.clear();
     }
 
     // solves from state s
-- 
2.43.0


From 0542c0f025f34f821a1a662d88a56eaa9aeb66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 169/174] fix: RIW forgets its executed actions when it is
 cleared

---
 cpp/src/hub/solver/riw.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index c33a378..6db1f05 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -193,6 +193,7 @@ public :
     void clear() {
         _graph.clear();
         _min_reward = std::numeric_limits<double>::max();
+        _rollout_policy = RolloutPolicy();
     }
 
     // solves from state s
-- 
2.43.0


From 367771267c17a02ec407ecb0e14a4c146e763d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 170/174] fix: RIW does not prune states reached again at a
 lower depth

---
 cpp/src/hub/solver/riw.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 6db1f05..1ce2839 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -670,7 +670,7 @@ private :
                     }
                     _execution_policy.protect([&feature_tuples, &cv, &k, &novel_depth, &n, &nn, &nov]()->void {
                         auto it = feature_tuples[k-1].insert(std::make_pair(cv, (std::size_t) n.depth));
-                        novel_depth = novel_depth || it.second || (nn && (it.first->second > n.depth)) || (!nn && (it.first->second == n.depth));
+                        novel_depth = novel_depth || it.second || (nn && (it.first->second > n.depth)) || (!nn && (it.first->second >= n.depth));
                         it.first->second = std::min(it.first->second, (std::size_t) n.depth);
                         if(it.second) {
                             nov = std::min(nov, k);
-- 
2.43.0


From 88503877703b5ab0a1d03d0055fa25cc868bb15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 171/174] fix: RIW keeps the value of a solved state reached
 from another one

---
 cpp/src/hub/solver/riw.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hub/solver/riw.hh b/cpp/src/hub/solver/riw.hh
index 1ce2839..236b3ac 100644
--- a/cpp/src/hub/solver/riw.hh
+++ b/cpp/src/hub/solver/riw.hh
@@ -795,8 +795,10 @@ private :
         }
 
         void update_node(Node& node, bool solved) {
+            if (!node.solved) { // otherwise already evaluated, then reached again from another parent
+                node.value = 0;
+            }
             node.solved = solved;
-            node.value = 0;
             std::unordered_set<Node*> frontier;
             if (_min_reward_changed) {
                 // need for backtracking all leaf nodes in the graph
-- 
2.43.0


From c8874f2a00589d2a4ad1288192ac670f6b1118f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 172/174] fix: C++ planner wrappers answer
 is_policy_defined_for instead of raising NotImplementedError

---
 skdecide/hub/solver/aostar/aostar.py     | 5 +++++
 skdecide/hub/solver/astar/astar.py       | 5 +++++
 skdecide/hub/solver/bfws/bfws.py         | 5 +++++
 skdecide/hub/solver/ilaostar/ilaostar.py | 5 +++++
 skdecide/hub/solver/iw/iw.py             | 5 +++++
 skdecide/hub/solver/lrtdp/lrtdp.py       | 5 +++++
 skdecide/hub/solver/mcts/mcts.py         | 5 +++++
 skdecide/hub/solver/riw/riw.py           | 5 +++++
 8 files changed, 40 insertions(+)

diff --git a/skdecide/hub/solver/aostar/aostar.py b/skdecide/hub/solver/aostar/aostar.py
index fbf2996..f6a4f09 100644
--- a/skdecide/hub/solver/aostar/aostar.py
+++ b/skdecide/hub/solver/aostar/aostar.py
@@ -106,6 +106,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/astar/astar.py b/skdecide/hub/solver/astar/astar.py
index 4c4e731..6fd26eb 100644
--- a/skdecide/hub/solver/astar/astar.py
+++ b/skdecide/hub/solver/astar/astar.py
@@ -97,6 +97,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/bfws/bfws.py b/skdecide/hub/solver/bfws/bfws.py
index b5a0b57..ed9b8c4 100644
--- a/skdecide/hub/solver/bfws/bfws.py
+++ b/skdecide/hub/solver/bfws/bfws.py
@@ -110,6 +110,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/ilaostar/ilaostar.py b/skdecide/hub/solver/ilaostar/ilaostar.py
index cfb779a..e08c6a2 100644
--- a/skdecide/hub/solver/ilaostar/ilaostar.py
+++ b/skdecide/hub/solver/ilaostar/ilaostar.py
@@ -103,6 +103,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/iw/iw.py b/skdecide/hub/solver/iw/iw.py
index 72dfcca..a47227b 100644
--- a/skdecide/hub/solver/iw/iw.py
+++ b/skdecide/hub/solver/iw/iw.py
@@ -103,6 +103,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/lrtdp/lrtdp.py b/skdecide/hub/solver/lrtdp/lrtdp.py
index 07857d7..3c0d310 100644
--- a/skdecide/hub/solver/lrtdp/lrtdp.py
+++ b/skdecide/hub/solver/lrtdp/lrtdp.py
@@ -121,6 +121,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/mcts/mcts.py b/skdecide/hub/solver/mcts/mcts.py
index e66f926..c321d64 100644
--- a/skdecide/hub/solver/mcts/mcts.py
+++ b/skdecide/hub/solver/mcts/mcts.py
@@ -154,6 +154,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
diff --git a/skdecide/hub/solver/riw/riw.py b/skdecide/hub/solver/riw/riw.py
index ec8d460..da78ebe 100644
--- a/skdecide/hub/solver/riw/riw.py
+++ b/skdecide/hub/solver/riw/riw.py
@@ -119,6 +119,11 @@ try:
         ) -> bool:
             return self._solver.is_solution_defined_for(observation)
 
+        def _is_policy_defined_for(
+            self, observation: D.T_agent[D.T_observation]
+        ) -> bool:
+            return self._is_solution_defined_for(observation)
+
         def _get_next_action(
             self, observation: D.T_agent[D.T_observation]
         ) -> D.T_agent[D.T_concurrency[D.T_event]]:
-- 
2.43.0


From f7aee1d89422d11e7cb35f38d891f350b02b8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 173/174] fix: rollout_episode runs all the episodes requested

---
 skdecide/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 9259f2b..bc74377 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -308,6 +308,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
     has_full_state = isinstance(domain, Simulation) and isinstance(domain, FullyObservable) and not has_memory
+    observations, actions, values = [], [], []
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -358,4 +359,4 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if has_goal and verbose:
             logger.info(f'The goal was{"" if domain.is_goal(observation) else " not"} reached '
                         f'in episode {i_episode + 1}.')
-        return observations, actions, values
+    return observations, actions, values  # of the last episode
-- 
2.43.0


From 1c0c493bd6410ad11c682ce591b4a0621321d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 174/174] fix: LNS_MILP counts iterations that find only worse
 solutions as iterations without improvement

---
 .../builders/discrete_optimization/generic_tools/lns_mip.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index e2c2121..cd6c91e 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -108,13 +108,15 @@ class LNS_MILP(SolverDO):
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
-            if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
+            elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                 if fit < best_objective:
                     current_nb_iteration_no_improvement = 0
                 else:
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
+            else:
+                current_nb_iteration_no_improvement += 1
             if skip_first_iteration and iteration == 0:
                 store_lns = result_store
             for s, f in result_store.list_solution_fits:
-- 
2.43.0

