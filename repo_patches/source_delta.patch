From 6768bdfe06d60a03a8c62074426d0fffc5690e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 01/90] fix: reset without a seed must continue the seeded
 random sequence

reset(seed=None) reseeded every component with fresh entropy, so only the first
episode after reset(seed=s) was reproducible.
---
 src/gym_electric_motor/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..b87023b 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From efb77b32178e18b4dc17d4f94df275c85d435d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 02/90] fix: seed the wrappers' own random generator together
 with the inner system

PhysicalSystemWrapper.seed only forwarded the seed, so the noise of a
StateNoiseProcessor was never reproducible.
---
 .../physical_system_wrappers/physical_system_wrapper.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..70fe925 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -107,8 +107,9 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        RandomComponent.seed(self, seed)
         if isinstance(self._physical_system, RandomComponent):
-            self._physical_system.seed(seed)
+            self._physical_system.seed(self.seed_sequence.spawn(1)[0])
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From dd8bdb3e97f7a684d1a93a219176ba03e37aaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 03/90] fix: draw the AC supply phase from the seeded generator
 and keep the user's dict

The random phase came from numpy's global generator, so seeding the environment did
not make it reproducible; it was also written into the caller's supply_parameter,
which turned it into a fixed phase for the next supply built from the same dict.
---
 .../physical_systems/voltage_supplies.py      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..2025aeb 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -4,6 +4,8 @@ import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
+from ..random_component import RandomComponent
+
 
 class VoltageSupply:
     """Base class for all VoltageSupplies to be used in a SCMLSystem.
@@ -123,7 +125,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +136,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -146,9 +149,9 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +159,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +170,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +183,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -190,9 +195,9 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +206,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 2454a6def712cd2efabbafea11db99dcd4e6444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 04/90] fix: return the initial motor states in the order of
 the motor's ODE state

The values were returned in dictionary order, so the default order of the synchronous
motors (i_sq before i_sd) and any partial or reordered user dictionary put the values
into the wrong states.
---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..2564daf 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..b0b2ab9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -180,7 +180,7 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From 523fd74b555048cc69b97d463c0a98c19947f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 05/90] fix: draw random initial states of motors and loads
 from the episode's generator

Gaussian initial states used the same constant random state in every episode, the
three-phase motors never advanced their generator at reset, and the induction
motors drew the field angle from numpy's global generator.
---
 .../electric_motors/doubly_fed_induction_motor.py               | 2 +-
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 1 +
 .../electric_motors/squirrel_cage_induction_motor.py            | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py       | 1 +
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 6 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..bc83a0b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 2564daf..52cdf10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index b0b2ab9..1b146f4 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -177,6 +177,7 @@ class InductionMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..a120898 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index 3aeb428..66b25eb 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -124,6 +124,7 @@ class SynchronousMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, **__):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
             return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..4b88f28 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -148,7 +148,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 473a64c94827e01c15e7053d0fa1ff1e7fa5d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 06/90] fix: do not change class attributes or the user's dict
 from load and motor instances

A ConstantSpeedLoad or a randomly initialized load overwrote the class-level default
initial states (and the dict passed by the user), and every DFIM instance extended the
class-level voltage and current lists of the induction motors.
---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 .../physical_systems/mechanical_loads/mechanical_load.py      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index bc83a0b..7bd06d8 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 4b88f28..e9119c9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -95,6 +95,9 @@ class MechanicalLoad(RandomComponent):
         load_initializer = load_initializer or {}
         self._initializer = self._default_initializer.copy()
         self._initializer.update(load_initializer)
+        if "states" in self._initializer:
+            # Copy the states, because they are updated at each reset
+            self._initializer["states"] = dict(self._initializer["states"])
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From c7048f58e85bbfd45735e0ec7df360e3ad3a4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 07/90] fix: a seeded induction motor must not start from the
 last unseeded initial state

The random flux limits are calculated from the initial currents of the previous
episode, so reset(seed=s) depended on the episodes before it.
---
 .../physical_systems/electric_motors/induction_motor.py    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 1b146f4..acd23e2 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -175,6 +175,13 @@ class InductionMotor(ThreePhaseMotor):
         self._update_model()
         self._update_limits(_limit_values, _nominal_values)
 
+    def seed(self, seed=None):
+        # Docstring of superclass
+        # The flux limits of an episode depend on the last initial states. After seeding, start from the initializer.
+        self._initial_states.update(self._default_initializer["states"])
+        self._initial_states.update(self._initializer["states"] or {})
+        return super().seed(seed)
+
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
         self.next_generator()
-- 
2.43.0


From c6e91ea71442f23f7743d002e03410fe1342a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 08/90] fix: random references must not depend on the length of
 earlier episodes

The Wiener process drew its initial reference from the generator left over by the
last episode and the switched generator's sub generators were advanced once per
switch, so seeded episodes depended on how long the earlier ones had been.
---
 .../reference_generators/switched_reference_generator.py     | 5 +++++
 .../wiener_process_reference_generator.py                    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..6483e4b 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,8 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # The number of resets of the sub generators depends on the length of the last episode. Therefore, reseed them.
+        self._seed_sub_generators()
         self._reset_reference()
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
@@ -89,6 +91,9 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def seed(self, seed=None):
         super().seed(seed)
+        self._seed_sub_generators()
+
+    def _seed_sub_generators(self):
         for sub_generator in self._sub_generators:
             if isinstance(sub_generator, RandomComponent):
                 seed = self._seed_sequence.spawn(1)[0]
diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..3a6b038 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
 
     def reset(self, initial_state=None, initial_reference=None):
         if initial_reference is None:
+            # Draw the initial reference from the new episode's generator, not from the one of the last episode
+            self.next_generator()
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
                 self._initial_range[0], self._initial_range[1], 1
-- 
2.43.0


From 9423c4f9b6d1b1b8f89a691cc70c4ddf73b188a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 09/90] fix: reference names of the constant reference
 generator must be a list

As a plain string the name was split into its characters by the
MultipleReferenceGenerator and by every consumer iterating over the names.
---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From f878c712c341192dd5052acf3a7bac3d5e49ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 10/90] fix: propagate the sampling time to the half bridges of
 4QC and B6 converters

---
 .../physical_systems/converters.py            | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..330bd24 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -333,6 +333,16 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -460,6 +470,16 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -796,6 +816,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -868,6 +898,16 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From 006c2f1a14cdc123eca7c7c2b94966219b0eb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 11/90] fix: reset the switching state of the finite two
 quadrant converter

---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 330bd24..999a3cc 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -267,6 +267,11 @@ class FiniteTwoQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(3)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_state = self._reset_action
+        return super().reset()
+
     def convert(self, i_out, t):
         # Docstring in base class
         # Converter switches slightly (tau / 1000 seconds) before interlocking time due to inaccuracy of the solvers.
-- 
2.43.0


From 5b0ccdc29d17417e9bcb5f9ae066f81d1118895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 12/90] fix: report phase currents of synchronous motors at the
 reported rotor angle

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..8173ae8 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -516,10 +516,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -648,10 +648,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
-- 
2.43.0


From 23de3722410a207ec01ac6121e9420ac127c1ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 13/90] fix: report field-oriented and rotor currents of
 induction motors at the angles of the reported state

---
 .../physical_systems/physical_systems.py              | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 8173ae8..0319b11 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -803,6 +803,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -983,7 +984,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+        i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1004,7 +1006,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+            i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
@@ -1025,6 +1028,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
@@ -1087,7 +1092,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 012752f471e73eb5e2babd207af9f15ef70371dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 14/90] fix: simulate interlocking steps of the externally
 excited synchronous motor

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 0319b11..1342621 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -629,12 +629,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 4d3298af030f71bdff48ae70f49823d939b0b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 15/90] fix: evaluate the multi-step Euler method from the
 current time on

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From b06902b6f5754eae600bcf2aa209a0b4d024b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 16/90] fix: do not hand out the same derivative array for
 every evaluation of the system equation

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 1342621..a314e05 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # Return a copy, because the solvers keep the derivatives of several evaluations
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From 9b5a8917bedad195750cfaaa98f372e4ca1b748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 17/90] fix: restart multistep ode integrators when the system
 inputs change

---
 src/gym_electric_motor/physical_systems/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 88a863a..d47a961 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -178,6 +178,9 @@ class ScipyOdeSolver(OdeSolver):
         super().set_f_params(*args)
         self._ode.set_f_params(*args)
         self._ode.set_jac_params(*args)
+        if self._integrator in ("vode", "zvode", "lsoda"):
+            # Restart the multistep methods, because they continue steps calculated with the previous parameters
+            self._ode.set_initial_value(self._ode.y, self._ode.t)
 
     def integrate(self, t):
         # Docstring of superclass
-- 
2.43.0


From 3d03f9e0769552e235d14565725ea4b6125a8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 18/90] fix: the product merge of the constraint monitor must
 accept the violation degrees

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index b87023b..221bfdc 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -815,7 +815,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From 3dc2bf540e1c281a08ff46465ce2abf2f3b61c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 19/90] fix: monitor plain callables passed as constraints of
 the environment

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 221bfdc..818aefa 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From 9c73285bff87aa7f9642b5caf4abbc81d57f9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 20/90] fix: keep the simulation interval per environment
 instance

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 818aefa..61c5e11 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,7 +231,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From e8737edac81762efdf6f16aa3d0b1fe1258d6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 21/90] fix: make the Ornstein-Uhlenbeck load usable and
 reproducible

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From 94709d1875c345c950fbf4b1f541644e457d8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 22/90] fix: the Ornstein-Uhlenbeck load must return the
 derivative of the speed

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 61568a9..5b3b5f2 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -30,7 +30,7 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
+        diff = self.theta * (self.mu - omega) + self.sigma / np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
-- 
2.43.0


From 12019739768af3f3d878d2de9eb10cbb54fcc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 23/90] fix: remove the angle from the reset state of the
 cos-sin processor

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From b7a944f222fecd24c713f94e0ec06186af458b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 24/90] fix: sum up the physical currents in the current sum
 processor

---
 .../physical_system_wrappers/current_sum_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..7dadb8f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -62,4 +62,5 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         Returns:
             float: The summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        currents = state[self._current_indices] * self._physical_system.limits[self._current_indices]
+        return np.sum(currents) / self._limits[-1]
-- 
2.43.0


From 38ebba9344061fd17e0dfc999668816a0a03e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 25/90] fix: default reset action of the dead time processor
 for multi-discrete action spaces

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From e9c93b2586aca6258219b52588164360daa9360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 26/90] fix: delay the value of the action instead of the
 caller's array

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..d582525 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import copy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,6 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        # Store a copy, because the caller may reuse the action array during the dead time
+        self._action_deque.appendleft(copy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From 1361b44c50fa9f9b57b054a9d2f496a3205388e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 27/90] fix: allow copying and pickling of physical system
 wrappers

---
 .../physical_system_wrappers/physical_system_wrapper.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index 70fe925..c115652 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -112,6 +112,9 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
             self._physical_system.seed(self.seed_sequence.spawn(1)[0])
 
     def __getattr__(self, name):
+        if name == "_physical_system":
+            # Not set yet during copying and unpickling
+            raise AttributeError(name)
         return getattr(self._physical_system, name)
 
     def simulate(self, action):
-- 
2.43.0


From 4d3207c8308f6d1a68f0f1ae275ac07656886c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 28/90] fix: state noise shortcut 'all' selects all states

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..1090057 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if isinstance(self._states, str) and self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From acd21bacda10f95280444f4c1081f98227fc4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 29/90] fix: coordinate transformations must not scale the
 caller's angle array

---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index a314e05..4799eb3 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -362,7 +362,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(self._electrical_motor.t_23(abc_quantities), epsilon_el)
         return dq_quantity
 
@@ -379,7 +379,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_a, quantity_b, quantity_c): The quantities in the abc-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.t_32(self._electrical_motor.q(dq_quantities, epsilon_el))
 
     def alphabeta_to_dq_space(self, alphabeta_quantities, epsilon_el, normed_epsilon=False):
@@ -395,7 +395,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(alphabeta_quantities, epsilon_el)
         return dq_quantity
 
@@ -412,7 +412,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_alpha, quantity_beta): The quantities in the alphabeta-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.q(dq_quantities, epsilon_el)
 
 
-- 
2.43.0


From 1e0c861bd75753c8dd69ad0421e9b520066d229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 30/90] fix: take the supply voltage of interlocking segments
 at the time of the segment

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 4799eb3..d503594 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -176,7 +176,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
-            u_sup = self._supply.get_voltage(self._t, i_sup)
+            u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
             u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
@@ -184,7 +184,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
             i_in = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
 
         i_sup = self._converter.i_sup(i_in)
-        u_sup = self._supply.get_voltage(self._t, i_sup)
+        u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
         u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
-            u_sup = self._supply.get_voltage(self._t, i_sup)
+            u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
             u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
             i_in = self.dq_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]), eps)
 
         i_sup = self._converter.i_sup(i_in)
-        u_sup = self._supply.get_voltage(self._t, i_sup)
+        u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
         u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
-            u_sup = self._supply.get_voltage(self._t, i_sup)
+            u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
-        u_sup = self._supply.get_voltage(self._t, i_sup)
+        u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
         u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
@@ -783,7 +783,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
-            u_sup = self._supply.get_voltage(self._t, i_sup)
+            u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
             u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
             i_in = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
 
         i_sup = self._converter.i_sup(i_in)
-        u_sup = self._supply.get_voltage(self._t, i_sup)
+        u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
         u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
@@ -991,7 +991,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
-            u_sup = self._supply.get_voltage(self._t, i_sup)
+            u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
             u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
@@ -1011,7 +1011,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
-        u_sup = self._supply.get_voltage(self._t, i_sup)
+        u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
         u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
-- 
2.43.0


From ddb09c1b6b079b934d74ae302626a63c483c8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 31/90] fix: permanently excited dc motors must not share one
 input buffer

---
 .../electric_motors/dc_permanently_excited_motor.py      | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
index 6727bc7..07bbe06 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
@@ -61,9 +61,6 @@ class DcPermanentlyExcitedMotor(DcMotor):
         "random_params": (None, None),
     }
 
-    # placeholder for omega, currents and u_in
-    _ode_placeholder = np.zeros(2 + len(CURRENTS_IDX), dtype=np.float64)
-
     def torque(self, state):
         # Docstring of superclass
         return self._motor_parameter["psi_e"] * state[self.I_IDX]
@@ -80,8 +77,10 @@ class DcPermanentlyExcitedMotor(DcMotor):
 
     def electrical_ode(self, state, u_in, omega, *_):
         # Docstring of superclass
-        self._ode_placeholder[:] = [omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]]
-        return np.matmul(self._model_constants, self._ode_placeholder)
+        return np.matmul(
+            self._model_constants,
+            np.array([omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]], dtype=np.float64),
+        )
 
     def electrical_jacobian(self, state, u_in, omega, *_):
         mp = self._motor_parameter
-- 
2.43.0


From 7577ac2f31ac6b28fcde151b8fbf64602a7f973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 32/90] fix: end the interlocking time of finite converters
 within the simulation step

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index d503594..ad6d046 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -497,7 +497,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -507,7 +507,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -628,7 +628,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
@@ -639,7 +639,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -784,7 +784,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -794,7 +794,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -992,7 +992,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1012,7 +1012,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._ode_solver.t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From f90e2429682ea6f94731443ee2328612f112c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 33/90] fix: accept the documented limits and nominal values of
 single phases

---
 .../physical_systems/electric_motors/electric_motor.py     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 52cdf10..c072018 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -126,10 +126,13 @@ class ElectricMotor(RandomComponent):
         motor_parameter = motor_parameter or {}
         self._motor_parameter = self._default_motor_parameter.copy()
         self._motor_parameter = update_parameter_dict(self._default_motor_parameter, motor_parameter)
+        # The limits and nominal values of single phases are optional. Missing ones (0) are filled in later.
+        kinds = ("IO_VOLTAGES", "IO_CURRENTS", "ROTOR_VOLTAGES", "ROTOR_CURRENTS")
+        io_quantities = dict.fromkeys((name for kind in kinds for name in getattr(self, kind, ())), 0)
         limit_values = limit_values or {}
-        self._limits = update_parameter_dict(self._default_limits, limit_values)
+        self._limits = update_parameter_dict({**io_quantities, **self._default_limits}, limit_values)
         nominal_values = nominal_values or {}
-        self._nominal_values = update_parameter_dict(self._default_nominal_values, nominal_values)
+        self._nominal_values = update_parameter_dict({**io_quantities, **self._default_nominal_values}, nominal_values)
         motor_initializer = motor_initializer or {}
         self._initializer = update_parameter_dict(self._default_initializer, motor_initializer)
         self._initial_states = {}
-- 
2.43.0


From e0de1939bfd7e7dd5b9c2f65cf531e499a6021ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 34/90] fix: keep offset and amplitude of periodic references
 within one-sided limit margins

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From b0434e3280442a72b2105426546ed94d4a12d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 35/90] fix: accept numpy numbers as limit margins and
 parameter ranges of references

---
 .../reference_generators/subepisoded_reference_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
index 6cf31d8..dcf4d23 100644
--- a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
@@ -1,3 +1,5 @@
+import numbers
+
 import numpy as np
 from gymnasium.spaces import Box
 
@@ -51,7 +53,7 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
             upper_margin = (ps.nominal_state[rs] / ps.limits[rs])[0] * ps.state_space.high[rs]
             lower_margin = (ps.nominal_state[rs] / ps.limits[rs])[0] * ps.state_space.low[rs]
             self._limit_margin = lower_margin[0], upper_margin[0]
-        elif type(self._limit_margin) in [float, int]:
+        elif isinstance(self._limit_margin, numbers.Real):
             upper_margin = self._limit_margin * ps.state_space.high[rs]
             lower_margin = self._limit_margin * ps.state_space.low[rs]
             self._limit_margin = lower_margin[0], upper_margin[0]
@@ -113,7 +115,7 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
         If float or int is passed this value will be returned. Otherwise a uniform distributed value
         between value_range[0] and value_range[1] is returned.
         """
-        if type(value_range) in [int, float]:
+        if isinstance(value_range, numbers.Real):
             return value_range
         elif type(value_range) in [list, tuple, np.ndarray]:
             return (value_range[1] - value_range[0]) * self._random_generator.uniform() + value_range[0]
-- 
2.43.0


From ea7e283bfa4a56618805eecc0766c09b4d08e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 36/90] fix: 'all' in the constraints observes the limits of
 all states

---
 src/gym_electric_motor/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 8f66ba8..0c33fbf 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -59,10 +59,10 @@ class LimitConstraint(Constraint):
 
     def set_modules(self, ps):
         self._limits = ps.limits
-        if "all_states" in self._observed_state_names:
-            self._observed_state_names = ps.state_names
         if self._observed_state_names is None:
             self._observed_state_names = []
+        if "all_states" in self._observed_state_names or "all" in self._observed_state_names:
+            self._observed_state_names = ps.state_names
         self._observed_states = set_state_array(dict.fromkeys(self._observed_state_names, 1), ps.state_names).astype(
             bool
         )
-- 
2.43.0


From fa302f92de8685d0083ad54f43b58e6676ecb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 37/90] fix: a configured mean of zero must be used for the
 gaussian initial states

---
 .../physical_systems/electric_motors/electric_motor.py        | 4 +++-
 .../physical_systems/mechanical_loads/mechanical_load.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index c072018..386629b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -241,7 +241,9 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
                 initial_value = truncnorm.rvs(
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index e9119c9..c3ec0d1 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -141,7 +141,9 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From e213f76215d7e0bc02140a9ed6086a573b09499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 38/90] fix: a load used with a second motor must not keep the
 inertia of the first rotor

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index c3ec0d1..1c5c1bd 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -195,7 +195,7 @@ class MechanicalLoad(RandomComponent):
         Args:
             j_rotor(float): The moment of inertia of the rotor shaft of the motor.
         """
-        self._j_total += j_rotor
+        self._j_total = self._j_load + j_rotor
 
     def mechanical_ode(self, t, mechanical_state, torque):
         """
-- 
2.43.0


From a50306271ef6f84e7e27690455dda83d611f3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 39/90] fix: gaussian initial states with an interval of zero
 width

---
 .../physical_systems/electric_motors/electric_motor.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 386629b..41de322 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -246,14 +246,17 @@ class ElectricMotor(RandomComponent):
                     mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
+                # The distribution is not defined on intervals without width (e.g. a flux limit of zero)
+                fixed = lower_bound == upper_bound
                 initial_value = truncnorm.rvs(
                     a,
-                    b,
+                    np.where(fixed, a + 1, b),
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
                     random_state=self.random_generator,
                 )
+                initial_value = np.where(fixed, lower_bound, initial_value)
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 456dcbee66656b3dfe4ef020cc888c4d26bbbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 40/90] fix: torque limits of synchronous motors with a direct
 inductance larger or smaller than usual

---
 .../electric_motors/permanent_magnet_synchronous_motor.py      | 3 ++-
 .../electric_motors/synchronous_reluctance_motor.py            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..b098d4c 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,8 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            # the d-current of maximal torque supports the permanent magnets with the reluctance torque
+            i_d_opt = -_p / 2 - np.sign(mp["l_q"] - mp["l_d"]) * np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..8bfcb83 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,8 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        # the torque is positive for equal signs of the currents if l_d > l_q and for different signs otherwise
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From 7d61b2950a643c0da9093285f797e96e6d290ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 41/90] fix: constant initial fluxes of induction machines must
 not be refused at random

---
 .../electric_motors/doubly_fed_induction_motor.py        | 3 +--
 .../physical_systems/electric_motors/induction_motor.py  | 9 +++++++++
 .../electric_motors/squirrel_cage_induction_motor.py     | 3 +--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7bd06d8..a566e28 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -153,8 +153,7 @@ class DoublyFedInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index acd23e2..8fa0aad 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -255,6 +255,15 @@ class InductionMotor(ThreePhaseMotor):
             )
         )
 
+    def _initial_field_angle(self):
+        """Magnetic field angle at which the limits of the initial fluxes are determined"""
+        if self._initializer["random_init"] is None:
+            # The field angle is given by the constant initial fluxes
+            psi_ralpha, psi_rbeta = (self._initializer["states"].get(flux, 0.0) for flux in self.FLUXES)
+            return np.arctan2(psi_rbeta, psi_ralpha)
+        # draw a sample magnetic field angle from [-pi,pi]
+        return 2 * np.pi * self.random_generator.random() - np.pi
+
     def _flux_limit(self, omega=0, eps_mag=0, u_q_max=0.0, u_rq_max=0.0):
         """Calculate Flux limits for given current and magnetic-field angle
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index a120898..313fec9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -145,8 +145,7 @@ class SquirrelCageInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From c9aa080a7f7a70d439cb9059b03b5cea3540dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 42/90] fix: mechanical loads without an own inertia

---
 .../mechanical_loads/polynomial_static_load.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
index 108faa0..3d81a12 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
@@ -80,7 +80,8 @@ class PolynomialStaticLoad(MechanicalLoad):
         self._b = self._load_parameter["b"]
         self._c = self._load_parameter["c"]
         # Speed value at which the linear behavior switches to constant
-        self._omega_lim = self._a / self._j_total * self.tau_decay
+        # (The total inertia of a load without an own inertia is not known before the rotor is attached)
+        self._omega_lim = self._a / self._j_total * self.tau_decay if self._j_total else 0.0
         # Slope for the linear growth of the constant load part around zero speed
         self._omega_linear_factor = self._j_total / self.tau_decay
 
-- 
2.43.0


From 92c2cc628bf645058c2aa5129998220f1437cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 43/90] fix: gaussian initial speeds with an interval of zero
 width

---
 .../physical_systems/mechanical_loads/mechanical_load.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 1c5c1bd..614c1b9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -147,14 +147,17 @@ class MechanicalLoad(RandomComponent):
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
+                # The distribution is not defined on intervals without width
+                fixed = lower_bound == upper_bound
                 initial_value = truncnorm.rvs(
                     a,
-                    b,
+                    np.where(fixed, a + 1, b),
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
                     random_state=self.random_generator,
                 )
+                initial_value = np.where(fixed, lower_bound, initial_value)
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
             else:
-- 
2.43.0


From 55a9d7a13a50a368fb8caf20b87398081409020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 44/90] fix: angle advance of field oriented actions with
 nested dead times

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index d582525..c1e78d5 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -22,8 +22,8 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
 
     @property
     def dead_time(self):
-        """int: The number of delayed steps."""
-        return self._steps
+        """int: The number of delayed steps including those of inner DeadTimeProcessors."""
+        return self._steps + getattr(self._physical_system, "dead_time", 0)
 
     def __init__(self, steps=1, reset_action=None, physical_system=None):
         """Args:
-- 
2.43.0


From cd1d6e51a1de50a8c97ae5907d8416864dc5408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 45/90] fix: stator voltages of field oriented actions of the
 DFIM refer to the flux angle

---
 .../dq_to_abc_action_processor.py                     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..3189569 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -120,9 +120,8 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         return gymnasium.spaces.Box(-1, 1, shape=(4,))
 
     def __init__(self, physical_system=None):
-        super().__init__('epsilon', physical_system=physical_system)
-        self._flux_angle_name = 'psi_abs'
-        self._flux_angle_index = None
+        self._epsilon_index = None
+        super().__init__('psi_angle', physical_system=physical_system)
 
     def simulate(self, action):
         """Dq to abc space transformation function for doubly fed induction motor environments.
@@ -133,10 +132,12 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
             The next state of the physical system.
         """
         advanced_angle = self._advance_angle(self._state)
+        # The flux angle is advanced by the rotation of the rotor. Hence, the angle between flux and rotor is not.
+        rotor_flux_angle = self._state[self._angle_index] - self._state[self._epsilon_index]
         dq_action_stator = action[:2]
         dq_action_rotor = action[2:]
         abc_action_stator = self._transformation(dq_action_stator, advanced_angle)
-        abc_action_rotor = self._transformation(dq_action_rotor, self._state[self._flux_angle_index] - advanced_angle)
+        abc_action_rotor = self._transformation(dq_action_rotor, rotor_flux_angle)
         abc_action = np.concatenate((abc_action_stator, abc_action_rotor))
         normalized_state = self._physical_system.simulate(abc_action)
         self._state = normalized_state * self._physical_system.limits
@@ -144,7 +145,7 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
 
     def set_physical_system(self, physical_system):
         super().set_physical_system(physical_system)
-        self._flux_angle_index = physical_system.state_names.index('psi_angle')
+        self._epsilon_index = physical_system.state_names.index('epsilon')
         return self
     
 @DqToAbcActionProcessor.register_transformation(['EESM'])
-- 
2.43.0


From 18ae32f1e017d4c2a3dac1598124aeb6e0a5654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 46/90] fix: missing initial states of induction machines start
 with their default values

---
 .../physical_systems/electric_motors/electric_motor.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 41de322..76408d5 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -138,6 +138,9 @@ class ElectricMotor(RandomComponent):
         self._initial_states = {}
         if self._initializer["states"] is not None:
             self._initial_states.update(self._initializer["states"])
+        # States, that are not configured, start with their default values
+        for state, value in self._default_initializer["states"].items():
+            self._initial_states.setdefault(state, value)
         # intialize limits, in general they're not needed to be changed
         # during  training or episodes
         initial_limits = initial_limits or {}
-- 
2.43.0


From 3edf6a3a907629905f8ec948879391a634553c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 47/90] fix: the mean reward plot keeps the episodes before its
 first rendering

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..a7cbfaf 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -15,12 +15,11 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._episode_length = 0
         self._label = "Mean Reward Per Step"
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
@@ -31,6 +30,7 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         super().reset_data()
         self._reward_data = []
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
 
     def _set_y_data(self):
         mean_reward = self._reward_sum / self._episode_length
-- 
2.43.0


From 9662aecb0027045f7416374274436a0d23029dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 48/90] fix: a reset without steps does not crash the mean
 reward plot

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index a7cbfaf..badca94 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -33,7 +33,8 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._y_data.append(self._reward_data)
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # There is no mean reward for an episode without steps
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
@@ -44,6 +45,10 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reset = True
 
     def _scale_y_axis(self):
-        if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
+        if (
+            len(self._reward_data) > 1
+            and self._reward_range[0] <= self._reward_range[1]
+            and self._axis.get_ylim() != tuple(self._reward_range)
+        ):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From 9d5f5bc5ee388d8b90e9c397aad3d81f74b45494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 49/90] fix: episode plots do not count steps of an episode
 that was not recorded

---
 .../motor_dashboard_plots/episode_length_plot.py             | 4 ++++
 .../motor_dashboard_plots/mean_episode_reward_plot.py        | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..aed37c0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -24,6 +24,10 @@ class EpisodeLengthPlot(EpisodePlot):
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._episode_length = 0
+
     def reset_data(self):
         super().reset_data()
         self._episode_lengths = []
diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index badca94..01444c2 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -26,6 +26,11 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reward_sum += reward
         self._episode_length = k
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._reward_sum = 0
+        self._episode_length = 0
+
     def reset_data(self):
         super().reset_data()
         self._reward_data = []
-- 
2.43.0


From edcc7ac6fb2084c7956948a28c298dbf937a70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 50/90] fix: the violation plot can be reset

---
 .../cumulative_constraint_violation_plot.py                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..8fe1d03 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -10,15 +10,18 @@ class CumulativeConstraintViolationPlot(StepPlot):
         self._violations = [0]
         self._label = "Cum. No. of Constraint Violations"
         self._x_data.append(0)
+        self._y_data.append(self._violations)
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._y_data.append(self._violations)
         self._lines.append(self._axis.plot(self._x_data, self._violations)[0])
 
     def reset_data(self):
         super().reset_data()
+        self._no_of_violations = 0
         self._violations = [0]
+        self._x_data.append(0)
+        self._y_data.append(self._violations)
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 4732bc40af413ac1acef57dd57a7640f916c015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 51/90] fix: the reward plot shows the rewards after a reset of
 the figures

---
 .../visualization/motor_dashboard_plots/reward_plot.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..1d5591f 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -22,8 +22,6 @@ class RewardPlot(TimePlot):
     def set_env(self, env):
         super().set_env(env)
         self._reward_range = env.reward_range
-        self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
-        self._y_data = [self._reward_data]
         min_limit = self._reward_range[0]
         max_limit = self._reward_range[1]
         spacing = 0.1 * (max_limit - min_limit)
@@ -33,6 +31,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data.append(self._reward_data)
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From 49476a5ed3ccfc33e94b10ac235ddcd210c8b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 52/90] fix: plots with a single line or an unreferenced state
 can be scaled to their data

---
 .../visualization/motor_dashboard_plots/base_plots.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..73ff647 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,11 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in y_data)
+            y_max = max(np.nanmax(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From 62c80a0be875c46ac05f79a571ecae52288c41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 53/90] fix: the console printer summarizes the episode that
 has finished

---
 .../visualization/console_printer.py           | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..c888afc 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -36,12 +36,19 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._cum_reward = 0
         self._done = False
         self._episode = 0
+        self._finished_episode = None
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
         self._reset = False
 
     def on_reset_begin(self):
         """Gets called on environment reset. Handles internal value reset and External reset printing"""
         self._reset = True
+        # Save the data of the finished episode, because it may be rendered after the first steps of the next one
+        self._finished_episode = (self._episode, self._done, self._k, self._cum_reward)
+        self._episode += 1
+        self._done = False
+        self._k = 0
+        self._cum_reward = 0
 
     def on_reset_end(self, state, reference):
         self._reference = reference
@@ -68,15 +75,14 @@ class ConsolePrinter(ElectricMotorVisualization):
     def render(self):
         if self._print_freq > 0:
             if self._reset:
+                episode, done, no_of_steps, cum_reward = self._finished_episode
                 print(
-                    f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    f"\nEpisode {episode} ",
+                    "Constraint Violation! " if done else "External Reset. ",
+                    f"Number of steps: {no_of_steps: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
                 self._reset = False
-                self._episode += 1
 
             if self._print_freq == 2 and (self._k % self._update_freq) == 0:
                 print(
-- 
2.43.0


From f71d09fcb7d33d5b8d2c8dd8c2d06ead3c1abbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 54/90] fix: current controllers return the clipped voltages

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 1c2d86565767b8f61591d2a23bc748e372d1d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 55/90] fix: squared clipping scales to the circle of the
 maximum length

---
 .../stages/clipping_stages/combined_clipping_stage.py       | 6 ++++--
 .../stages/clipping_stages/squared_clipping_stage.py        | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..7f5ce6c 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,11 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         relative_maximum = 1 - self._margin
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
         )
 
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..b4bab89 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -51,11 +51,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
-- 
2.43.0


From 5cdbcba0ad8feaac21ad8664b6d9c55eb17721c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 56/90] fix: squared clipping considers the margin

---
 .../stages/clipping_stages/squared_clipping_stage.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index b4bab89..7ea52fb 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -81,6 +81,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From 70b79cc7b7bbd81aa3a6c34e3d9367aaea1a53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 57/90] fix: combined clipping applies the margin once

---
 .../stages/clipping_stages/combined_clipping_stage.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 7f5ce6c..f0a9b9e 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -84,7 +84,8 @@ class CombinedClippingStage(ClippingStage):
         state_space = env.observation_space[0]
         lower_action_limit = state_space.low[action_indices] * limits
         upper_action_limit = state_space.high[action_indices] * limits
-        self._limit_squred_clipping = limits[squared_clipped_state]
+        # The margin of the squared clipped states is considered when clipping
+        self._limit_squred_clipping = env.limits[action_indices][squared_clipped_state]
         self._action_range_absolute = (
             lower_action_limit[absoulte_clipped_states],
             upper_action_limit[absoulte_clipped_states],
-- 
2.43.0


From cb98b7cd3dd1741c1238bbcba69d68fcc8abc852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 58/90] fix: torque controllers of motors with squared clipping
 can be tuned

---
 .../stages/clipping_stages/squared_clipping_stage.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index 7ea52fb..802a452 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,8 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        relative_maximum = 1 - self._margin
+        return -relative_maximum * self._limits, relative_maximum * self._limits
 
     def __init__(self, control_task="CC"):
         """
-- 
2.43.0


From d2ca8ac13a743c3801be1915be389058a2009415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 59/90] fix: the operation point selection of the PermExDc
 motor uses its resistance

---
 src/gem_controllers/parameter_reader.py                     | 6 ++++--
 .../stages/operation_point_selection/permex_dc_ops.py       | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..9bfca39 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..1011024 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,8 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        induced_voltage = self._magnetic_flux * abs(state[self._omega_index])
+        return np.maximum(self._voltage_limit - induced_voltage, 0.0) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
@@ -89,3 +90,4 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
         self._omega_index = env.state_names.index("omega")
+        self._resistance = reader.r_reader[motor](env)
-- 
2.43.0


From 87e0f6e4cff045adeb607ac8283abab819cfceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 60/90] fix: the speed controller resets its clipping stage

---
 src/gem_controllers/pi_speed_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/pi_speed_controller.py b/src/gem_controllers/pi_speed_controller.py
index e0115fa..979a079 100644
--- a/src/gem_controllers/pi_speed_controller.py
+++ b/src/gem_controllers/pi_speed_controller.py
@@ -148,3 +148,4 @@ class PISpeedController(gc.GemController):
         """Reset all components of the speed control stage and the underlying control stages"""
         self._torque_controller.reset()
         self._speed_control_stage.reset()
+        self._clipping_stage.reset()
-- 
2.43.0


From 522aa8936c0b7fd39c482efabf0158625dcaa141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 61/90] fix: PID speed controllers can be tuned

---
 src/gem_controllers/stages/base_controllers/pid_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..04dd99e 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -64,5 +64,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 536ace66a11ab5f189ef77022b2b25b14b00c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 62/90] fix: the PID controller forgets the last error at a
 reset

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 04dd99e..70df9c1 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        # Docstring of superclass
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
-- 
2.43.0


From f35a10572522746aecc302c7942164bc7f969dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 63/90] fix: three point speed controllers can be tuned

---
 .../stages/base_controllers/three_point_controller.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..57dba63 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -146,9 +146,10 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
+        speed_index = [env.state_names.index("omega")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = speed_index
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From bc30130b1e7580c34449ee9f259ff1f5cc4eee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 64/90] fix: the angle advance uses the sampling time of the
 environment

---
 src/gem_controllers/stages/abc_transformation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..c153ec8 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -73,6 +73,7 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
+        self.tau = env.physical_system.tau
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From 270cbbe1fcf3874e0c453bfe16e6929a7bdf7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 65/90] fix: the emf feedforward acts on externally and
 permanently excited DC motors

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 9bfca39..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From 737a7119fc67f184d4cd8264cbaf799f3278d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 66/90] fix: three point current controllers can be tuned

---
 .../stages/base_controllers/three_point_controller.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index 57dba63..6a1c6d5 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,7 +93,7 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, *_, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
-- 
2.43.0


From 008d8f4ad9b05d3018ad734789a5ad053665df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 67/90] fix: P speed controllers can be tuned

---
 src/gem_controllers/stages/base_controllers/p_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..64aa374 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -93,7 +93,7 @@ class PController(BaseController):
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
-- 
2.43.0


From ac8ff7ea0da8063e0e9b1489e1bd0914f762496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 68/90] fix: controllers of induction machines do not share a
 flux controller

---
 .../stages/operation_point_selection/scim_ops.py             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..93652da 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,7 +19,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
@@ -40,7 +40,8 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        # Every operation point selection needs its own flux controller
+        self.psi_controller = PIController(control_task="FC") if psi_controller is None else psi_controller
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 3062e4c0224322b2e30e60c96fe4dd6b70a2bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 69/90] fix: lookup tables of the operation point selections do
 not use the removed np.complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..6361fb2 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(0, self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..14a9d1e 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(0, self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 0804e28b771717a5388b45384de37dcb4943a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 70/90] fix: the emf feedforward of induction machines uses the
 electrical speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..78c63b8 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,8 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_el = self.omega_el(state)
+        omega_s = omega_el + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +39,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), omega_el * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From e3cb74efd1d97f8cf93a4a2c7d1f58df8797e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 71/90] fix: the angle advance of the controllers uses the
 electrical speed

---
 src/gem_controllers/stages/abc_transformation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index c153ec8..026293f 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -38,6 +38,7 @@ class AbcTransformation(Stage):
         self.omega_idx = None
         self.angle_idx = None
         self._output_len = None
+        self._p = 1
 
     def __call__(self, state, reference):
         """
@@ -58,7 +59,7 @@ class AbcTransformation(Stage):
 
     def _angle_advance(self, state):
         """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx] * self._p
 
     def tune(self, env, env_id, **_):
         """
@@ -74,6 +75,7 @@ class AbcTransformation(Stage):
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
         self.tau = env.physical_system.tau
+        self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From 9e296301ccf2a2396dbb7db9717454e2d8f14ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 72/90] fix: the angle advance of the controllers considers the
 dead time of the environment

---
 src/gem_controllers/stages/abc_transformation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 026293f..493840b 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -76,9 +76,6 @@ class AbcTransformation(Stage):
         self.omega_idx = env.state_names.index("omega")
         self.tau = env.physical_system.tau
         self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        self._advance_factor = 0.5 + getattr(env.physical_system, "dead_time", 0)
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0


From d35148797353b6e64ef2a60450c26c517ab9ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 73/90] fix: the operation point selection of synchronous
 reluctance motors yields the demanded torque

---
 .../stages/operation_point_selection/pmsm_ops.py      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 14a9d1e..f9d185b 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -302,9 +302,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # each half of the table consists of the fluxes within the current limit
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
@@ -331,6 +331,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         psi_max_ = self.modulation_control(state)
         psi_max = min(psi_opt, psi_max_)
 
+        sign = np.sign(reference[0])
+
         # get the maximum reference for a given flux from the mtpf characteristic
         psi_max_idx = self._get_psi_idx_mtpf(psi_max)
         t_max = np.abs(self.mtpf[psi_max_idx, 1])
@@ -363,7 +365,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         # invert the i_q if necessary
-        i_q = self.invert * i_q
+        if self.invert == -1:
+            i_q = -sign * np.abs(i_q)
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From 1cdb657aa41ab823b3c87253aeb5e45c97a47f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 74/90] fix: controllers can be made for the environments that
 gem.make returns

---
 src/gem_controllers/gem_controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..8c0d49d 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -62,6 +62,8 @@ class GemController:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
         cls.should_plot = should_plot
+        # The environments of gem.make are wrapped by gymnasium. The modules are properties of the unwrapped environment.
+        env = env.unwrapped
 
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
-- 
2.43.0


From 16ea206de867993864e6c6f2f564cc6b0d113bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 75/90] fix: the plot option of a controller does not change
 the controllers made before

---
 src/gem_controllers/gem_controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8c0d49d..c62d7bd 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,9 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    #: Flag, if the references of the underlying control circuits are added to the plots of the environment
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,7 +64,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
         # The environments of gem.make are wrapped by gymnasium. The modules are properties of the unwrapped environment.
         env = env.unwrapped
 
@@ -91,6 +93,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
-- 
2.43.0


From 0ee6a1da9470166f928a9ef790cd2bb735408063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:43 +0000
Subject: [PATCH 76/90] fix: the first episode of a controlled environment is
 not longer than the maximum length

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index c62d7bd..75e41f6 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -168,11 +168,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From 9f0c8679f57ccb6087713dab8f79cbbe4638c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 77/90] fix: references can be added to plots that have not
 been rendered yet

---
 src/gem_controllers/reference_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..2223aab 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -46,7 +46,8 @@ class ReferencePlotter:
             references(np.ndarray): Array of all reference values of the subordinate stages.
         """
 
-        if not self._maximum_reference_set:
+        # The axes do not exist before the first rendering
+        if not self._maximum_reference_set and all(plot._axis is not None for plot in self._referenced_plots):
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-- 
2.43.0


From cdb5c8b3eb351ea86fb6bd27ce1999c577a2a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 78/90] fix: the references are only plotted if plot_references
 is set

---
 src/gem_controllers/gem_adapter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..e72fa80 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -94,7 +94,7 @@ class GymElectricMotorAdapter(GemController):
             self._reference_plotter.update_plots(self._controller.references)
         return action
 
-    def tune(self, env, env_id, tune_controller=True, **kwargs):
+    def tune(self, env, env_id, tune_controller=True, plot_references=True, **kwargs):
         """
         Function to set the parameters of the controller stages.
 
@@ -102,6 +102,7 @@ class GymElectricMotorAdapter(GemController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be tuned for.
             env_id(str): ID of the ElectricMotorEnvironment.
             tune_controller(bool): Flag, if the controller should be tuned.
+            plot_references(bool): Flag, if the references of the subordinate stages should be plotted.
         """
 
         self._input_stage.tune(env, env_id)
@@ -112,7 +113,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=plot_references,
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From c552967981a65dd6222e3c1835de5b3b3be42740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 79/90] fix: controllers can be made for environments whose
 visualizations are no dashboards

---
 src/gem_controllers/reference_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 2223aab..581ab2c 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -24,7 +24,8 @@ class ReferencePlotter:
         """
         if plot_references:
             for visualization in env.visualizations:
-                for time_plot in visualization._time_plots:
+                # Only the dashboards have got plots
+                for time_plot in getattr(visualization, "_time_plots", []):
                     if isinstance(time_plot, StatePlot):
                         if time_plot.state in referenced_states:
                             self._referenced_plots.append(time_plot)
-- 
2.43.0


From c761e43df3b0057e51095f473e245b26d7a1d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:42 +0000
Subject: [PATCH 80/90] fix: flux of the operating points of salient PMSMs

The linear coefficient of the flux polynomial contains l_d, not l_q. The flux of
the chosen currents exceeded the voltage limit in field weakening.
---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index f9d185b..24be28d 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,7 +272,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From 4a713e9ed27b341b317144fbd7fe4364785f6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 81/90] fix: operation point selection of PMSMs with equal
 inductances

For l_d == l_q there is just one current per torque (a scalar), that np.where
cannot be indexed with.
---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 24be28d..bb2aed2 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -73,7 +73,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Different current vectors are determined for each reference and the smallest magnitude is selected
             i = np.power(i_d, 2) + np.power(i_q, 2)
-            min_idx = np.where(i == np.amin(i))[0][0]
+            min_idx = np.argmin(i)
             if self.l_d == self.l_q:
                 i_q_ret = i_q
                 i_d_ret = i_d
-- 
2.43.0


From ae615bf22b8f016a9baaaadd54f2c197ce3798dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 82/90] fix: flux polynomial of the operating points of EESMs

The flux equation has the q current 2 T / (3 p ...) and the linear coefficient
contains l_d, not l_q (as for the PMSM). The chosen currents did not have the
flux they were tabulated for.
---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 6361fb2..551af14 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
-- 
2.43.0


From 64047ee4f3fdb597aa803ceedea363661750f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 83/90] fix: impossible operating points of EESMs

The last root of the flux polynomial is complex if the torque is not possible with
the flux and the excitation current, and its real part solves nothing. Only real
roots (those with the smallest currents) are operating points.
---
 .../stages/operation_point_selection/eesm_ops.py         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 551af14..a759297 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -125,9 +125,14 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         if torque == 0 and i_e == 0:
             return 0, 0
         else:
-            i_d = np.real(np.roots(self.poly(i_e, psi, torque))[-1])
+            sol = np.roots(self.poly(i_e, psi, torque))
+            # Without a real solution the torque is not possible with this flux and excitation current
+            i_d = np.real(sol[np.isclose(np.imag(sol), 0, atol=1e-3)])
             i_q = 2 * torque / (3 * self.p * (self.l_m * i_e + (self.l_d - self.l_q) * i_d))
-            return i_d, i_q
+            if np.size(i_d) == 0:
+                return np.nan, np.nan
+            idx = np.argmin(i_d**2 + i_q**2)
+            return i_d[idx], i_q[idx]
 
     def _calculate_luts(self):
         """
-- 
2.43.0


From 77c3fda295b75184bff6faadab1dd06da1846d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 84/90] fix: torque limit of EESMs in field weakening

The torque has to be limited to the greatest one of the reduced flux. With that of
the optimal flux the tables were left (nan currents and actions).
---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index a759297..6adc74a 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -256,7 +256,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(psi)
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From 2099b51351d9b18c57d733e9d934dc5f78bcb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 85/90] fix: current state and observation of the environment
 after a reset

They were those of the last step of the previous episode (or None), and the current
observation did not regard the state filter.
---
 src/gym_electric_motor/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 61c5e11..319f4a8 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -111,6 +111,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
     workspace = Workspace()
     env_id = None
     current_state = None
+    current_observation = None
     current_reference = None
     current_next_reference = None
 
@@ -316,6 +317,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._call_callbacks("on_reset_end", state, reference)
 
         observation = (state[self.state_filter], next_ref)
+        self.current_state = state
+        self.current_observation = observation
         info = {}
         return observation, info
 
@@ -351,7 +354,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._terminated = violation_degree >= 1.0
         ref_next = self.reference_generator.get_reference_observation(state)
 
-        self.current_observation = (state, ref_next)
+        self.current_observation = (state[self.state_filter], ref_next)
 
         self._call_callbacks(
             "on_step_end",
-- 
2.43.0


From acd2cc3eedcc41e6b12b5f5cc742bbc271c4c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:19 +0000
Subject: [PATCH 86/90] fix: values of the StateObserver

The environments that gem.make returns have no current_state, the names are those of the
filtered states and the references were not among the values.
---
 src/gym_electric_motor/observers/observer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/observers/observer.py b/src/gym_electric_motor/observers/observer.py
index eb489ae..aa98ab3 100644
--- a/src/gym_electric_motor/observers/observer.py
+++ b/src/gym_electric_motor/observers/observer.py
@@ -1,5 +1,7 @@
 import abc
 
+import numpy as np
+
 from ..core import ElectricMotorEnvironment
 
 
@@ -43,9 +45,9 @@ class StateObserver(Observer):
         state_names = self.state_names
 
         if state in state_names:
-            state_value = self.env.current_state[state_names.index(state)]
-            if state_value is not None:
-                return (state, state_value)
+            observation = self.env.unwrapped.current_observation
+            if observation is not None:
+                return (state, np.concatenate(observation)[state_names.index(state)])
             else:
                 raise ValueError(f"State '{state}' is None")
         else:
-- 
2.43.0


From 5697200685cd128e97e06caae07ee53e0e1d485a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:05:10 +0000
Subject: [PATCH 87/90] fix: own action space of each converter

---
 src/gym_electric_motor/physical_systems/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 999a3cc..2a7a12d 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 from gymnasium.spaces import Box, Discrete, MultiDiscrete
 
@@ -37,6 +39,8 @@ class PowerElectronicConverter:
         :param tau: Discrete time step of the system in seconds
         :param interlocking_time: Interlocking time of the transistors in seconds
         """
+        # Each converter samples its actions from a space of its own
+        self.action_space = copy.deepcopy(self.action_space)
         self._tau = tau
         self._interlocking_time = interlocking_time
         self._action_start_time = 0.0
-- 
2.43.0


From d10882d79d3cae2ce1b06ba308db3fb0e0f573c2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:06:33 +0000
Subject: [PATCH 88/90] fix: supply current of averaged half bridges with
 interlocking time

---
 src/gym_electric_motor/physical_systems/converters.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2a7a12d..511ed3d 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -447,11 +447,9 @@ class ContTwoQuadrantConverter(ContDynamicallyAveragedConverter):
 
     def i_sup(self, i_out):
         # Docstring in base class
-        interlocking_current = 1 if i_out[0] < 0 else 0
-        return (
-            self._current_action[0]
-            + self._interlocking_time / self._tau * (interlocking_current - self._current_action[0])
-        ) * i_out[0]
+        # The interlocking changes the share of the time at the supply the same way as the output voltage
+        share = self._current_action[0] - np.sign(i_out[0]) * self._interlocking_time / self._tau
+        return min(max(share, self.voltages.low[0]), self.voltages.high[0]) * i_out[0]
 
 
 class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
-- 
2.43.0


From 3237674ccf44f578dc1d1c76c227a35e73e2f2bd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 89/90] fix: default supply voltage of the finite series dc
 motor environments

---
 .../envs/gym_dcm/series_dc_motor_env/finite_cc_series_dc_env.py | 2 +-
 .../envs/gym_dcm/series_dc_motor_env/finite_tc_series_dc_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_cc_series_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_cc_series_dc_env.py
index 7e1726f..08c36ef 100644
--- a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_cc_series_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_cc_series_dc_env.py
@@ -142,7 +142,7 @@ class FiniteCurrentControlDcSeriesMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         physical_system = DcMotorSystem(
-            supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
+            supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
             converter=initialize(
                 ps.PowerElectronicConverter,
                 converter,
diff --git a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_tc_series_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_tc_series_dc_env.py
index 06e67f3..cb6e064 100644
--- a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_tc_series_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/finite_tc_series_dc_env.py
@@ -143,7 +143,7 @@ class FiniteTorqueControlDcSeriesMotorEnv(ElectricMotorEnvironment):
         """
 
         physical_system = DcMotorSystem(
-            supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
+            supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
             converter=initialize(
                 ps.PowerElectronicConverter,
                 converter,
-- 
2.43.0


From 69266901ae3ab84012ae18e79300b05f9ffbc1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:42 +0000
Subject: [PATCH 90/90] fix: y-axis of the plot of the constraint violations

---
 .../cumulative_constraint_violation_plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 8fe1d03..8621355 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -35,5 +35,5 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def _scale_y_axis(self):
         # Read the limit before writing, because reading is fast, but writing is slow
-        if self._axis.get_xlim() != (-1, self._no_of_violations + 1):
+        if self._axis.get_ylim() != (-1, self._no_of_violations + 1):
             self._axis.set_ylim(-1, self._no_of_violations + 1)
-- 
2.43.0

