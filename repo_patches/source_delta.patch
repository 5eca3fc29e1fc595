From db740e143cb6854a24819dc2fd04621992cfe7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 001/183] fix: Agent.copy gives the copy its own solution array
 (in-place edits corrupted history/global best)

---
 mealpy/utils/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..1f8f7da 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,7 +28,7 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        agent = Agent(np.array(self.solution), self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-- 
2.43.0


From 623dd06131aa9cb0cf67a5fab0ec4387f7062ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 002/183] fix: BeesA dance no longer edits the parent bee's
 position in place

---
 mealpy/swarm_based/BeesA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..1de145b 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -215,8 +215,9 @@ class OriginalBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
-        position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
-        return self.correct_solution(position)
+        pos_new = position.copy()
+        pos_new[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
+        return self.correct_solution(pos_new)
 
     def evolve(self, epoch):
         """
@@ -329,8 +330,9 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
-        position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
-        return self.correct_solution(position)
+        pos_new = position.copy()
+        pos_new[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
+        return self.correct_solution(pos_new)
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From 61ee0458b9fffdae5101659ce40032401e32fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 003/183] fix: THRO training no longer edits stored horses in
 place

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..82cd73e 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 4a99ce1beb5623900668b391a3bcfd7bc2f7756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 004/183] fix: AAA accepted colonies no longer share the moving
 position array

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..4f1877a 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From dbdaa9a21f341018f4a938f52889a5265747df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 005/183] fix: SBO.OriginalSBO stores the new position together
 with its target

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From a7754f7970dccacbe9a0eab85077772a7dac519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 006/183] fix: FOA corrects the initial smell position and does
 not re-transform given positions

---
 mealpy/swarm_based/FOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..c89c03d 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
-- 
2.43.0


From f155447f5e33351ffe3779cd16d91de9905d88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 007/183] fix: ArchOA evaluates the corrected position it
 stores

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From bc45c86df1101a66f767a4844ebb6268c1d871c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 008/183] fix: TSeedA evaluates the corrected seed it stores

---
 mealpy/bio_based/TSeedA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..fe1b4d3 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 191f8f2da44d57d181feaaf5961b02643dc1fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 009/183] fix: TWO variants no longer alias the old population
 and evaluate the corrected position

---
 mealpy/physics_based/TWO.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..cf460a8 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -95,7 +95,7 @@ class OriginalTWO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -193,7 +193,7 @@ class OppoTWO(OriginalTWO):
             epoch (int): The current iteration
         """
         ## Apply force of others solution on each individual solution
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -205,14 +205,15 @@ class OppoTWO(OriginalTWO):
                     delta_x = 1 / 2 * acceleration + np.power(self.alpha, epoch) * self.beta * \
                               (self.problem.ub - self.problem.lb) * self.generator.normal(0, 1, self.problem.n_dims)
                     pos_new += delta_x
-            self.pop[idx].solution = pos_new
+            pop_new[idx].solution = pos_new
         ## Amend solution and update fitness value
         for idx in range(self.pop_size):
             pos_new = self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims) / (epoch) * (self.g_best.solution - pop_new[idx].solution)
             conditions = np.logical_or(pop_new[idx].solution < self.problem.lb, pop_new[idx].solution > self.problem.ub)
             conditions = np.logical_and(conditions, self.generator.random(self.problem.n_dims) < 0.5)
-            pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = np.where(conditions, pos_new, pop_new[idx].solution)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -278,7 +279,7 @@ class LevyTWO(OriginalTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -292,7 +293,7 @@ class LevyTWO(OriginalTWO):
                     pos_new +=delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -304,7 +305,8 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -374,7 +376,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -392,7 +394,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -406,7 +408,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                     pos_new += delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -418,7 +420,8 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
-- 
2.43.0


From 02c17f64013833bae337411bf6bdd015d17b99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 010/183] fix: GA mutation works on a copy of the child
 (parents were edited in place)

---
 mealpy/evolutionary_based/GA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..dec9568 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -247,6 +247,7 @@ class BaseGA(Optimizer):
         Returns:
             np.array: The mutated vector of the child
         """
+        child = np.array(child)
 
         if self.mutation_multipoints:
             if self.mutation == "swap":
@@ -430,6 +431,7 @@ class SingleGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        child = np.array(child)
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -682,6 +684,7 @@ class MultiGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        child = np.array(child)
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
                 idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-- 
2.43.0


From e1cdcebcd84ca5d6d2956b55823458f8f8bb9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 011/183] fix: ICA revolution works on a copy of the country
 position

---
 mealpy/human_based/ICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..274f1ae 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -93,6 +93,7 @@ class OriginalICA(Optimizer):
         idx_list = self.generator.choice(range(0, self.problem.n_dims), n_revoluted, replace=False)
         if len(idx_list) == 0:
             idx_list = np.append(idx_list, self.generator.integers(0, self.problem.n_dims))
+        solution = solution.copy()
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
-- 
2.43.0


From 7720dc4b95e82f1979e40ebd6debc41dce1e25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 012/183] fix: SHADE, JADE, LSHADEcnEpSin and PSS draw from the
 seeded generator

---
 mealpy/evolutionary_based/DE.py    |  2 +-
 mealpy/evolutionary_based/SHADE.py |  4 ++--
 mealpy/math_based/PSS.py           |  4 ++--
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..d57e1b6 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..29cda9c 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,9 +75,9 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..84c4f4b 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From 800b73589751f8a7149bcbc5cc7a62e23fab10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 013/183] fix: nfe_counter restarts at zero in every solve

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..34cd057 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -59,7 +59,7 @@ class Optimizer:
 
         if self.name is None: self.name = self.__class__.__name__
         self.sort_flag = False
-        self.nfe_counter = 1  # The first one is tested in Problem class
+        self.nfe_counter = 0
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
@@ -175,6 +175,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
-- 
2.43.0


From a83b7b0cd274733d98e69ef788d9a2bf013a45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 014/183] fix: ABFO step sizes no longer accumulate over solves

---
 mealpy/swarm_based/BFO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..220313f 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -249,8 +249,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -267,7 +267,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.step_start - (self.step_start - self.step_end) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
-- 
2.43.0


From 5d484a04755670801a683e4bf5212ce937c86d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 015/183] fix: BeesA radius and derived counts are set when
 solving starts

---
 mealpy/swarm_based/BeesA.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 1de145b..29f0fe6 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -205,13 +205,15 @@ class OriginalBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "selected_site_ratio", "elite_site_ratio", "selected_site_bee_ratio", 
                              "elite_site_bee_ratio", "dance_radius", "dance_reduction"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
         self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
         self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
-        self.sort_flag = True
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
@@ -324,6 +326,8 @@ class ProbBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "recruited_bee_ratio", "dance_radius", "dance_reduction"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
-- 
2.43.0


From 406df198008c2c961155db2f2ea4edea7a8e40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 016/183] fix: DBO previous positions are reset in every solve

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..c1c79a7 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1)
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 0e40233b6f7560f5d280e48354d67d7bb94d949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 017/183] fix: ORCA keeps its best agent and resets its radius
 in every solve

---
 mealpy/swarm_based/ORCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..6316e02 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,9 +59,11 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
-        self.n_removes = int(self.p_percent * pop_size)
+
+    def initialize_variables(self):
+        self.R = self.R0
+        self.n_removes = int(self.p_percent * self.pop_size)
 
     def evolve(self, epoch: int):
         """
@@ -107,7 +109,7 @@ class OriginalOrcaOA(Optimizer):
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-        self.pop = pop_new
+        self.pop = [self.pop[0]] + pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
         self.R = self.R0 * (1. - epoch / self.epoch)
-- 
2.43.0


From 8c1544efbdc10d5cc557cb36078bb1c60cb3691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 018/183] fix: SAP_DE starts every solve from the configured
 pop_size

---
 mealpy/evolutionary_based/DE.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index d57e1b6..5848aa8 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -487,6 +487,10 @@ class SAP_DE(Optimizer):
         self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        # The population size changes while solving, each run starts again from the configured value
+        self.pop_size = self.fixed_pop_size = self.parameters["pop_size"]
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From f0ef179ee982e728092484b47d1059bea8954452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 019/183] fix: starting solutions given as lists are converted,
 and agents with extra attributes are complete in every mode

---
 mealpy/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 34cd057..d06837e 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,10 +132,12 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
-                if self.mode in self.AVAILABLE_MODES:
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
+                if self.mode in self.AVAILABLE_MODES and type(self).generate_agent is Optimizer.generate_agent:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
                 else:
+                    # Optimizers with their own agents need generate_agent() to fill in the additional attributes
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
                 raise ValueError("Invalid starting_solutions. It should be a list of positions or 2D matrix of positions only.")
-- 
2.43.0


From bd9a9e4999d749e17284b2c242f0db9396329576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 020/183] fix: thread and process modes draw the initial
 positions in order from the seeded generator

---
 mealpy/optimizer.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d06837e..c01b124 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -348,22 +348,12 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        else:
-            pop = [self.generate_agent() for _ in range(0, pop_size)]
-        return pop
+        if self.mode in self.PARALLEL_MODES and type(self).generate_agent is Optimizer.generate_agent:
+            # The positions are drawn here in order: workers sharing (thread) or copying (process) the random state
+            # would give an arbitrary order of draws or the same agents again. Only the evaluation is parallel.
+            pop = [self.generate_empty_agent() for _ in range(0, pop_size)]
+            return self.update_target_for_population(pop)
+        return [self.generate_agent() for _ in range(0, pop_size)]
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         """
-- 
2.43.0


From cb695621ae5f290497bcef26ae638e93e0177d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 021/183] fix: history keeps its own copies of the current best
 and worst agents

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index c01b124..ad9a9c1 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -615,11 +615,11 @@ class Optimizer:
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
             return sorted_pop, better
-- 
2.43.0


From 46354496fa22f3931be0e5616830b195410df522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 022/183] fix: comparing equal fitness gives the same answer
 for max problems as for min problems

---
 mealpy/optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ad9a9c1..d5090df 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -433,14 +433,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness > target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x > fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
@@ -563,7 +563,7 @@ class Optimizer:
         if idx == 0:
             return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()
         else:
-            return agent_y.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_x.copy()
+            return agent_x.copy() if agent_x.target.fitness > agent_y.target.fitness else agent_y.copy()
 
     ### Survivor Selection
     @staticmethod
-- 
2.43.0


From d66702fc0bfb556933f53d83c090870a43034024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 023/183] fix: solve() does not write the seed into the
 caller's problem dictionary

---
 mealpy/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d5090df..482cb39 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -167,8 +167,7 @@ class Optimizer:
             problem.set_seed(seed)
             self.problem = problem
         elif type(problem) == dict:
-            problem["seed"] = seed
-            self.problem = Problem(**problem)
+            self.problem = Problem(**{**problem, "seed": seed})
         else:
             raise ValueError("problem needs to be a dict or an instance of Problem class.")
         self.generator = np.random.default_rng(seed)
-- 
2.43.0


From ff2c88b7be4724e8dfacfe8f3aef1c8b0b14565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 024/183] fix: Termination(termination={...}) uses the given
 criteria

---
 mealpy/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/termination.py b/mealpy/utils/termination.py
index 95ad04a..8033193 100644
--- a/mealpy/utils/termination.py
+++ b/mealpy/utils/termination.py
@@ -73,7 +73,7 @@ class Termination:
     def __set_keyword_arguments(self, kwargs):
         if type(kwargs) == dict:
             if type(kwargs.get("termination")) == dict:
-                for key, value in kwargs.items():
+                for key, value in kwargs["termination"].items():
                     setattr(self, key, value)
             for key, value in kwargs.items():
                 setattr(self, key, value)
-- 
2.43.0


From 8f5483147addad865420137ef5cb11a32e2a7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 025/183] fix: Tuner.execute accepts Problem instances, as
 documented

---
 mealpy/tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..3cc8899 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -396,7 +396,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = problem.minmax if isinstance(problem, Problem) else problem.get("minmax", "min")
+        ascending = True if minmax == "min" else False
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From e8e46fb5daedb92a0b5ed582b846a22fb4956e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 026/183] fix: Tuner selects the best parameters for max
 problems (it selected the worst)

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 3cc8899..cdf3622 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -427,8 +427,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From d22282f8ef51bd9543ba5c2ba27ca0df9fe70d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 027/183] fix: ParameterGrid[i] works with numpy 2 and follows
 the iteration order

---
 mealpy/tuner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index cdf3622..cdb318f 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -131,17 +131,18 @@ class ParameterGrid:
             ## My version: Don't sort the values and don't reverse here. Keep it as it is
             keys, values_lists = zip(*sub_grid.items())
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = np.prod(sizes)
 
             if ind >= total:
                 # Try the next grid
                 ind -= total
             else:
                 out = {}
-                for key, v_list, n in zip(keys, values_lists, sizes):
+                # The last parameter cycles most frequently, as in __iter__
+                for key, v_list, n in zip(keys[::-1], values_lists[::-1], sizes[::-1]):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in keys}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From ae773035277a8646c42fd8ad2e74b4f9e82fa836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 028/183] fix: Multitask accepts one termination/mode per
 algorithm (deepcopy of a generator failed)

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..4e44746 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,7 +101,7 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-- 
2.43.0


From d0b71f458d30733b8c57ee6deb67c85f21447948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 029/183] fix: Multitask accepts n*m terminations/modes, one
 per algorithm and problem

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 4e44746..23a5854 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -105,7 +105,7 @@ class Multitask:
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [list(values[idx * self.m_problems: (idx + 1) * self.m_problems]) for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From 66c0bba96215519e7be280fa1064c1f56f4842fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 030/183] fix: n_jobs=1 runs sequentially in Tuner and
 Multitask, as documented

---
 mealpy/multitask.py | 2 +-
 mealpy/tuner.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 23a5854..91e7624 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -173,7 +173,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index cdb318f..44f887f 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -389,7 +389,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From f540ca148b61c97098a4a4e27a080bb2ccd644cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 031/183] fix: IntegerVar.generate reaches the upper bound
 (rounding errors excluded it, e.g. ub=-5)

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..5e0248e 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,8 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        # Bounds are rounded, floating-point errors would exclude the upper bound (a float is truncated to int)
+        return self.generator.integers(self.round(self.lb + 0.5), self.round(self.ub + 0.5 + self.eps))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From f2fc081a8e5b42215327ad2ef5a5a520244caba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 032/183] fix: PermutationVar.correct leaves permutations
 unchanged, so decode(encode(x)) == x

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 5e0248e..2782c89 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -334,7 +334,8 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        # The rank of each element: a permutation of indices is left unchanged, so decode(encode(x)) == x
+        return np.argsort(np.argsort(x))
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From 4ea9e0647b5b6ad28d9b53615bf8a2e303af460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 033/183] fix: StringVar with repeated labels never decodes to
 'unknown'

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 2782c89..4afc2fb 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -237,7 +237,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -247,7 +247,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From 642f6b9b0478312d2b4d4dead99c1557fb904b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 034/183] fix: TransferBinaryVar and TransferBoolVar use the
 given lower bound

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 4afc2fb..9402331 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -374,7 +374,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -432,7 +432,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From 74d72e53c56959674eb11bfd1486f1c2d708e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 035/183] fix: OriginalBCO accepts its own default
 n_chemotaxis=1

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..b8775cf 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From 748c40c3c05eae5d14d079f7a64f29febc00651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 036/183] fix: OriginalDOA uses the bounds of the dimension it
 changes (IndexError when pop_size > n_dims)

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..b94fa2d 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -139,7 +139,7 @@ class OriginalDOA(Optimizer):
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From b30f90df031dd5a0f97fdffbd529d877802d42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 037/183] fix: DevSSpiderA collects the new agents in every
 mode

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..129dd6e 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -139,7 +139,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 29a676efcdc81d143340e1927483ae34a2e2c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 038/183] fix: OriginalSOO starts a new list for its second
 phase (swarm, thread and process modes failed)

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From 07872fa1c256a858fcfa544e67649e2df2ec02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 039/183] fix: OriginalTS stays where it is when no neighbour
 is admissible (ValueError on discrete problems)

---
 mealpy/math_based/TS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..0581071 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -105,6 +105,11 @@ class OriginalTS(Optimizer):
             list_candidates.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
+        if len(list_candidates) == 0:
+            # Every neighbour equals the current solution or is tabu (e.g. discrete variables): stay there
+            if len(self.pop) == 0:
+                self.pop.append(self.g_best.copy())
+            return
         list_candidates = self.update_target_for_population(list_candidates)
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
-- 
2.43.0


From 9b4a159bb8be71acaafff071eb715b1143fad819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 040/183] fix: get_optimizer_by_name does not list the abstract
 Optimizer base class

---
 mealpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..179b7cb 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -123,13 +123,13 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
             for cls_name, cls_obj in inspect.getmembers(obj):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
+    cls.pop("Optimizer", None)
     if verbose:
         if not flag:
             print(f"Mealpy doesn't support optimizer named: {name}.\n"
                   f"Please see the supported Optimizer name from here:\n"
                   f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
             return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
         for name, optimizer in cls.items():
             print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
-- 
2.43.0


From 967a0ba00f2abb89a6f9d289b67f0f4b505dec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 041/183] fix: intermediate updates of the global best no
 longer rewrite the history of the previous epoch

---
 mealpy/optimizer.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 482cb39..8f0d6b5 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -53,6 +53,7 @@ class Optimizer:
         self.epoch, self.pop_size = None, None
         self.mode, self.n_workers, self.name = None, None, None
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.running_best_worst = None
         self.problem, self.logger, self.history = None, None, None
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
@@ -176,6 +177,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.running_best_worst = None
         self.nfe_counter = 0
 
     def check_mode_and_workers(self, mode, n_workers):
@@ -612,28 +614,21 @@ class Optimizer:
         """
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
+        # The best and worst so far: from the last save, or from later calls with save=False
+        last_best, last_worst = self.running_best_worst or (self.history.list_global_best[-1], self.history.list_global_worst[-1])
+        better = self.get_better_agent(c_best, last_best, self.problem.minmax)
+        worse = self.get_better_agent(c_worst, last_worst, self.problem.minmax, reverse=True)
         if save:
-            ## Save current best
+            ## Save current best, global best, current worst and global worst
             self.history.list_current_best.append(c_best.copy())
-            better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
-            ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
-            worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            self.running_best_worst = None
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
-            global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            ## The history entries belong to the previous epoch, they are not changed
+            self.running_best_worst = (better, worse)
+        return sorted_pop, better
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From d2480e23d44592b8aa95faf7d2606d39ae2d4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 042/183] fix: OriginalSA and GaussianSA keep the perturbed
 solution inside the bounds

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From 0f8fd496742cae103c92dffaf00ee3e16ac70d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 043/183] fix: OriginalBCO evaluates the corrected swimming
 position it stores

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index b8775cf..b81dd58 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
-- 
2.43.0


From 216d7af1b67f0ae5dccd28ac4e5d90fe849e19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 044/183] fix: ETLBO corrects the solutions that replace
 duplicates

---
 mealpy/human_based/TLO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..092d9be 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -122,6 +122,7 @@ class ETLBO(Optimizer):
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
             pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
+            pos_new = self.correct_solution(pos_new)
             self.pop[idx] = self.generate_agent(pos_new)
 
 
-- 
2.43.0


From f70d478cdbee0f6a3e4d0ab3fe15d0aefb044008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 045/183] fix: OriginalBRO corrects the new solution of a dead
 soldier

---
 mealpy/human_based/BRO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..c4b88b2 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -223,6 +223,7 @@ class OriginalBRO(DevBRO):
                 self.pop[vic].damage = 0
             else:
                 pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
-- 
2.43.0


From 0a3efb8ad6d2ae8461e411c5ae5d16b7ad0785d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 046/183] fix: OriginalCA corrects the solutions drawn from the
 belief space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..17d3515 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -75,7 +75,7 @@ class OriginalCA(Optimizer):
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
-- 
2.43.0


From 550c0077798d22e3cb041489db54a5cb4b7a6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 047/183] fix: OriginalCSA corrects the new nests

---
 mealpy/swarm_based/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From 4eedb86c7a17105f93211b1eee57ce576124c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 048/183] fix: OriginalOrcaPA corrects the adjusted position

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 6316e02..cdae738 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -255,7 +255,7 @@ class OriginalOrcaPA(Optimizer):
                 if self.generator.random() < self.p2:
                     # Assign the minimum boundary value (lb) for some dimensions
                     cond = self.generator.random(self.problem.n_dims) < self.p2
-                    pos_new = np.where(cond, self.problem.lb, pop_chase[idx].solution)
+                    pos_new = self.correct_solution(np.where(cond, self.problem.lb, pop_chase[idx].solution))
                     self.pop[idx] = self.generate_agent(pos_new)
                 else:
                     self.pop[idx] = pop_chase[idx].copy()
-- 
2.43.0


From 58d078ac9221bdc1e6bb58b789db4593e55b80e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 049/183] fix: correct_solution() let NaN coordinates through
 to the objective function

---
 mealpy/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8f0d6b5..0312b45 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -381,6 +381,9 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        nan = np.isnan(solution)
+        if np.any(nan):     # Clipping keeps NaN, such coordinates (0/0, inf - inf) are drawn again inside the bounds
+            solution = np.where(nan, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From 43c8e73bf23967018fc67d452fa4475015bb969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 050/183] fix: OriginalVCS.amend_solution() never replaced the
 coordinates out of bounds

---
 mealpy/bio_based/VCS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/VCS.py b/mealpy/bio_based/VCS.py
index 99be716..ccb28b4 100644
--- a/mealpy/bio_based/VCS.py
+++ b/mealpy/bio_based/VCS.py
@@ -205,7 +205,7 @@ class OriginalVCS(DevVCS):
         super().__init__(epoch, pop_size, lamda, sigma, **kwargs)
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
-        condition = np.clip(solution, self.problem.lb, self.problem.ub)
+        condition = np.logical_and(self.problem.lb <= solution, solution <= self.problem.ub)
         rand_pos = self.generator.uniform(self.problem.lb, self.problem.ub)
         return np.where(condition, solution, rand_pos)
 
-- 
2.43.0


From 0f4e0e7f4d3caa08d28faf667d98cbca14d1b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 051/183] fix: opposite positions of OGWO and IOBL_GWO were
 evaluated without correction

---
 mealpy/swarm_based/GWO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..2ea0ebe 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,9 +1020,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
@@ -1098,7 +1098,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1142,7 +1142,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From 69b0c04e88c6a14312aeca5be77e97ed08095cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 052/183] fix: OriginalPO evaluated solutions without the
 problem's correction

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..b4fad22 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -171,7 +171,7 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            self.pop[k].solution = self.correct_solution(pos_new)
 
         # Party Switching Phase
         for k in range(self.pop_size):
-- 
2.43.0


From 27fed67a77c5d3c7a9513277969e08bdc4a5fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 053/183] fix: OriginalTSeedA crashed when a tree produces one
 seed (pop_size < 20)

---
 mealpy/bio_based/TSeedA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index fe1b4d3..4e3f3ab 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
-- 
2.43.0


From 0f1a81bf074eee28b38363e957c74b6b98924e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 054/183] fix: OriginalSHO sampled more hyenas than the
 population has

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..42bd420 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -97,6 +97,7 @@ class OriginalSHO(Optimizer):
                         N += 1
                         break
                     N += 1
+                N = min(N, self.pop_size)
                 circle_list = []
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
-- 
2.43.0


From 4eab19e5e829c074bd6d6c74f466829b267d39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 055/183] fix: OriginalSquirrelSA crashed at the end of winter

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..6a1961c 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -176,7 +176,7 @@ class OriginalSquirrelSA(Optimizer):
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From 6c95166b33b8d541e1aae5a6246508b754006a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 056/183] fix: DevGSKA and OriginalGSKA crashed with small
 populations (empty group of best/middle/worst)

---
 mealpy/human_based/GSKA.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..a57c277 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -102,11 +102,11 @@ class DevGSKA(Optimizer):
                     pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
             else:  # junior gaining and sharing
                 if self.generator.uniform() <= self.kr:
-                    id1 = int(self.pb * self.pop_size)
-                    id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    id1 = min(max(1, int(self.pb * self.pop_size)), self.pop_size - 2)
+                    id2 = min(max(id1 + 1, int(id1 + self.pop_size * (1 - 2 * self.pb))), self.pop_size - 1)
+                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}) or [idx])
+                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}) or [idx])
+                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}) or [idx])
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -232,11 +232,11 @@ class OriginalGSKA(Optimizer):
                                           self.pop[idx].solution[j] - self.pop[rand_idx].solution[j])
                 else:  # senior gaining and sharing
                     if self.generator.uniform() <= self.kr:
-                        id1 = int(self.pb * self.pop_size)
-                        id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        id1 = min(max(1, int(self.pb * self.pop_size)), self.pop_size - 2)
+                        id2 = min(max(id1 + 1, int(id1 + self.pop_size * (1 - 2 * self.pb))), self.pop_size - 1)
+                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}) or [idx])
+                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}) or [idx])
+                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}) or [idx])
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From 8aa43bfdd3529316f58518a9a4ba566f56e79674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 057/183] fix: OriginalNRO assigned a vector to one coordinate

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From 08f75a65d32d57839a68a264a0e029144cec46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 058/183] fix: OppoTWO lost one agent when pop_size is odd

---
 mealpy/physics_based/TWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index cf460a8..268598a 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -171,10 +171,11 @@ class OppoTWO(OriginalTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        list_idx = self.generator.choice(range(0, self.pop_size), int(self.pop_size/2), replace=False)
-        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, int(self.pop_size/2))]
+        n_temp = self.pop_size - int(self.pop_size/2)
+        list_idx = self.generator.choice(range(0, self.pop_size), n_temp, replace=False)
+        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, n_temp)]
         pop_oppo = []
-        for idx in range(len(pop_temp)):
+        for idx in range(self.pop_size - n_temp):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
             pos_opposite = self.correct_solution(pos_opposite)
             agent = self.generate_empty_agent(pos_opposite)
-- 
2.43.0


From ae2d7b22096a5fa522da0c0c671f7f4c022d2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 059/183] fix: OriginalWCA crashed on rivers without streams,
 and when costs are mixed in sign or all zero

---
 mealpy/system_based/WCA.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..d7f3431 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,14 +96,15 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
-        if np.sum(num_child_in_river_list) < n_stream:
-            num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
+        cost_total = np.sum(np.abs(cost_river_list))
+        ratio_list = np.abs(cost_river_list) / cost_total if cost_total > 0 else np.ones(self.nsr) / self.nsr
+        num_child_in_river_list = np.round(ratio_list * n_stream).astype(int)
         streams = {}
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            n_child = min(num_child_in_river_list[i], n_stream - len(idx_already_selected))
+            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), n_child, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
@@ -133,9 +134,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From c915c11121a62bc702622f36379620a668a3d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 060/183] fix: OriginalFOA and DevFOA crashed on negative upper
 bounds (scale < 0)

---
 mealpy/swarm_based/FOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index c89c03d..f64adca 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 8e48bf363dab1cc9f147b0091dcde639ba21452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 061/183] fix: DevHS crashed on negative upper bounds (scale <
 0)

---
 mealpy/music_based/HS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
-- 
2.43.0


From 1b5ac387d332f9a6ac14ebea5e8c96be44a39f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 062/183] fix: OriginalSRSR crashed on negative upper bounds
 (scale < 0)

---
 mealpy/swarm_based/SRSR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..7f46129 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -138,8 +138,8 @@ class OriginalSRSR(Optimizer):
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-        if self.SIF > np.max(self.problem.ub):
-            self.SIF = np.max(self.problem.ub) * self.generator.uniform()
+        if self.SIF > np.max(np.abs(self.problem.ub)):
+            self.SIF = np.max(np.abs(self.problem.ub)) * self.generator.uniform()
 
         # ========================================================================================= %%
         #            Phase 2 (Exploration): Moving Slave Robots Toward Master Robot                   %
-- 
2.43.0


From 7901f6f4c9eff4b6a5a31fffdde5eb2a776a1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 063/183] fix: ImprovedBSO and OriginalBSO crashed when
 pop_size is not a multiple of m_clusters

---
 mealpy/human_based/BSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..71476c1 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -97,7 +97,7 @@ class ImprovedBSO(Optimizer):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
 
@@ -209,7 +209,7 @@ class OriginalBSO(ImprovedBSO):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
             if self.generator.uniform() < self.p2:  # p_6b
-- 
2.43.0


From 06851eca47ee336c3ecb9ab82b85d205dba46fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 064/183] fix: OriginalEHO crashed when pop_size is not a
 multiple of n_clans

---
 mealpy/swarm_based/EHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..89af2c5 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -87,7 +87,7 @@ class OriginalEHO(Optimizer):
         """
         # Clan updating operator
         pop_new = []
-        for idx in range(0, self.pop_size):
+        for idx in range(0, self.n_clans * self.n_individuals):
             clan_idx = int(idx / self.n_individuals)
             pos_clan_idx = int(idx % self.n_individuals)
             if pos_clan_idx == 0:  # The best in clan, because all clans are sorted based on fitness
-- 
2.43.0


From 6d0dff9749885cc66cbe0369bfe0f3ba8dd09bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 065/183] fix: OriginalBFO lost one agent when pop_size is odd

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 220313f..0df7d47 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,7 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
+            self.pop = cells[0:self.pop_size - self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
-- 
2.43.0


From 7dd210f9bd4c90f4fb79da06e956a603bbe5cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 066/183] fix: ABFO never refilled the population after
 removing duplicates

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 0df7d47..85486fb 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -314,7 +314,7 @@ class ABFO(Optimizer):
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From 538d43ea4066e8a361726d68c0b541a8a82ff4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 067/183] fix: OriginalMA crashed when pop_size is odd

---
 mealpy/evolutionary_based/MA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 5915507..396de5f 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -151,7 +151,7 @@ class OriginalMA(Optimizer):
         return best
 
     def create_child__(self, idx, pop_copy):
-        ancient = pop_copy[idx + 1] if idx % 2 == 0 else pop_copy[idx - 1]
+        ancient = pop_copy[(idx + 1) % self.pop_size] if idx % 2 == 0 else pop_copy[idx - 1]
         if idx == self.pop_size - 1:
             ancient = pop_copy[0]
         bitstring_new = self.crossover__(pop_copy[idx].bitstring, ancient.bitstring)
@@ -176,7 +176,7 @@ class OriginalMA(Optimizer):
             children.append(self.pop[idx_offspring].copy())
         pop = []
         for idx in range(0, self.pop_size):
-            ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
+            ancient = children[(idx + 1) % self.pop_size] if idx % 2 == 0 else children[idx - 1]
             if idx == self.pop_size - 1:
                 ancient = children[0]
             bitstring_new = self.crossover__(children[idx].bitstring, ancient.bitstring)
-- 
2.43.0


From 334f2edf9435c658f64c728bb3650e66846e86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 068/183] fix: BaseGA crashed when pop_size is odd

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index dec9568..e1fa6b7 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -308,7 +308,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int(np.ceil(self.pop_size/2))):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
-- 
2.43.0


From 0be0459ebd8a2ff1d9e36dceb86662e2755bba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 069/183] fix: roulette selection of two parents in GA never
 ended when one agent holds the whole wheel

---
 mealpy/evolutionary_based/GA.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index e1fa6b7..87537f8 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -136,8 +136,12 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
             id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
+            for _ in range(100):
+                if id_c2 != id_c1:
+                    break
                 id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            else:   # One agent holds the whole wheel, drawing again would never end
+                id_c2 = (id_c1 + int(self.generator.integers(1, len(list_fitness)))) % len(list_fitness)
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
@@ -162,8 +166,12 @@ class BaseGA(Optimizer):
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
             id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
+            for _ in range(100):
+                if id_c2 != id_c1:
+                    break
                 id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            else:   # One agent holds the whole wheel, drawing again would never end
+                id_c2 = (id_c1 + int(self.generator.integers(1, len(list_fitness)))) % len(list_fitness)
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
-- 
2.43.0


From 727b0edb6877d3b4b6daad9fa2c753db2aa4a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 070/183] fix: k-way tournament returned fewer agents than
 requested in small populations

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 0312b45..c4f3768 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -695,7 +695,7 @@ class Optimizer:
             list: List of the selected indexes
         """
         if 0 < k_way < 1:
-            k_way = int(k_way * len(pop))
+            k_way = max(int(k_way * len(pop)), output)
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From 2578a023bc97323985fb00bed9bf9bb7b7083cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 071/183] fix: roulette wheel selection crashed on NaN or
 infinite fitness

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index c4f3768..7ff818b 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -673,7 +673,7 @@ class Optimizer:
         """
         if isinstance(list_fitness, (list, tuple, np.ndarray)):
             list_fitness = np.array(list_fitness).ravel()
-        if np.ptp(list_fitness) == 0:
+        if not np.all(np.isfinite(list_fitness)) or np.ptp(list_fitness) == 0:
             return int(self.generator.integers(0, len(list_fitness)))
         if np.any(list_fitness < 0):
             list_fitness = list_fitness - np.min(list_fitness)
-- 
2.43.0


From a4fc9f462ec7656f0b586e233a2a015f885a59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 072/183] fix: CHIO followed the worst immune individual in
 maximization problems

---
 mealpy/human_based/CHIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..3aa3ae8 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -100,7 +100,7 @@ class OriginalCHIO(Optimizer):
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -215,7 +215,7 @@ class DevCHIO(OriginalCHIO):
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From 0b70c3e5da0dc98b69fc00a5f9c029ddb7bd4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 073/183] fix: CHIO crashed when nobody is susceptible or
 immune

---
 mealpy/human_based/CHIO.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3aa3ae8..78df67e 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,10 +95,14 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        continue
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
@@ -214,6 +218,8 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
-- 
2.43.0


From 5b528f80e35af44a950b71944b38826ec07036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 074/183] fix: DevSMO crashed when the groups differ in size

---
 mealpy/swarm_based/SMO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..406ca4f 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -123,7 +123,7 @@ class DevSMO(Optimizer):
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}) or [idx], size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -157,7 +157,7 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(list(set(range(len(group))) - {idx}) or [idx])
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
-- 
2.43.0


From f0b04b4803651c18cb1a912d560f4c757edeef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 075/183] fix: OriginalICA crashed when one empire takes more
 colonies than are left

---
 mealpy/human_based/ICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 274f1ae..102ffc8 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -117,7 +117,7 @@ class OriginalICA(Optimizer):
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = min(int(round(prob_empires_list[i] * colony_count)), colony_count - len(idx_already_selected))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
-- 
2.43.0


From 4b0dcf22e818e94d45dfaf652dcf2c1d67e83594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 076/183] fix: OriginalICA crashed after an empire without
 colonies collapsed

---
 mealpy/human_based/ICA.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 102ffc8..3b62df6 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -172,7 +172,7 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + (self.zeta * np.mean(fit_list) if len(colonies) > 0 else 0)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
@@ -186,7 +186,10 @@ class OriginalICA(Optimizer):
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
             self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
-            self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
+        elif idx_empire != idx_weakest_empire:  # The empire collapses, the others keep consecutive indices
+            self.empires[idx_empire].append(self.pop_empires[idx_weakest_empire])
+            self.pop_empires.pop(idx_weakest_empire)
+            self.empires.pop(idx_weakest_empire)
+            self.empires = dict(enumerate(self.empires.values()))
 
         self.pop = self.pop_empires + self.pop_colonies
-- 
2.43.0


From b8d1a69efc986fd39c130509ec0a61ddbcd15d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 077/183] fix: OriginalTSeedA, one seed per tree without numpy

---
 mealpy/bio_based/TSeedA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index 4e3f3ab..1ced385 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,8 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
+            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = [rdx_list] if n_seeds == 1 else rdx_list
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
-- 
2.43.0


From 13978c99d69cdbb42c0ef211e0e9c45ccbb5a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 078/183] fix: OriginalNRO, scalar Levy step in problems of one
 dimension

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..47b4ebe 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = np.atleast_1d(self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1))
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From 80eed4be6194081a3857987be93bfdcf1bafbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 079/183] fix: WHO herd social memory kept the uncorrected
 position with the corrected one's target

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From a7deee222d187de200a6a359b0394e4970501b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 080/183] fix: PSS threw the starting solutions of the user
 away

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 29cda9c..069af89 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:    # The starting solutions of the user
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From fa20b2a5359bc77f1f5079ea48532ccee0b08727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 081/183] fix: TPO threw the starting solutions of the user
 away

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..befa3e7 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -93,9 +93,13 @@ class DevTPO(Optimizer):
 
     def initialization(self):
         self.pop_total = []
+        pop_start = self.pop                # The starting solutions of the user (if any), each one is a leaf of its branch
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if pop_start is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:
+                leafs = [pop_start[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 06ab81cd7731ba68fa183e68d9fa8ff8612746cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 082/183] fix: BBO: values derived from the parameters follow
 set_parameters()

---
 mealpy/bio_based/BBO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/bio_based/BBO.py b/mealpy/bio_based/BBO.py
index 9d59bc2..25fe9ad 100644
--- a/mealpy/bio_based/BBO.py
+++ b/mealpy/bio_based/BBO.py
@@ -59,6 +59,8 @@ class OriginalBBO(Optimizer):
         self.n_elites = self.validator.check_int("n_elites", n_elites, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "p_m", "n_elites"])
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.mu = (self.pop_size + 1 - np.array(range(1, self.pop_size + 1))) / (self.pop_size + 1)
         self.mr = 1 - self.mu
 
-- 
2.43.0


From f309861e71fc931991fc3be77605c24da7daa454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 083/183] fix: VCS: values derived from the parameters follow
 set_parameters()

---
 mealpy/bio_based/VCS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/VCS.py b/mealpy/bio_based/VCS.py
index ccb28b4..a775c54 100644
--- a/mealpy/bio_based/VCS.py
+++ b/mealpy/bio_based/VCS.py
@@ -69,10 +69,12 @@ class DevVCS(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.sigma = self.validator.check_float("sigma", sigma, (0, 5.0))
-        self.n_best = int(self.lamda * self.pop_size)
         self.set_parameters(["epoch", "pop_size", "lamda", "sigma"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_best = int(self.lamda * self.pop_size)
+
     def calculate_xmean__(self, pop):
         """
         Calculate the mean position of list of solutions (population)
-- 
2.43.0


From 2284d569a08610a845074a16c5334ab9cea53691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 084/183] fix: ES: values derived from the parameters follow
 set_parameters()

---
 mealpy/evolutionary_based/ES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 59394e2..169c5f8 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -67,10 +67,10 @@ class OriginalES(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "lamda"])
-        self.n_child = int(self.lamda * self.pop_size)
         self.sort_flag = True
     
     def initialize_variables(self):
+        self.n_child = int(self.lamda * self.pop_size)
         self.distance = 0.05 * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
-- 
2.43.0


From 841ae8b3de20bec795500df8a194eaaf6d7d167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 085/183] fix: Elite GA: values derived from the parameters
 follow set_parameters()

---
 mealpy/evolutionary_based/GA.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 87537f8..584766b 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -536,20 +536,22 @@ class EliteSingleGA(SingleGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
 
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -765,20 +767,22 @@ class EliteMultiGA(MultiGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
 
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 02fe3ddaf019e50e06cbcd2aa23a315196b2babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 086/183] fix: BSO: values derived from the parameters follow
 set_parameters()

---
 mealpy/human_based/BSO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 71476c1..df4caab 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -69,9 +69,11 @@ class ImprovedBSO(Optimizer):
         self.p4 = self.validator.check_float("p4", p4, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "m_clusters", "p1", "p2", "p3", "p4"])
         self.sort_flag = False
-        self.m_solution = int(self.pop_size / self.m_clusters)
         self.pop_group, self.centers = None, None
 
+    def initialize_variables(self):
+        self.m_solution = int(self.pop_size / self.m_clusters)
+
     def find_cluster__(self, pop_group):
         centers = []
         for idx in range(0, self.m_clusters):
-- 
2.43.0


From 0e6fa2ff5cc213735772fa073b1b14898140f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 087/183] fix: ILA: values derived from the parameters follow
 set_parameters()

---
 mealpy/human_based/ILA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/human_based/ILA.py b/mealpy/human_based/ILA.py
index cb7c745..e994579 100644
--- a/mealpy/human_based/ILA.py
+++ b/mealpy/human_based/ILA.py
@@ -85,6 +85,14 @@ class OriginalILA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "n_models", "p_s1", "p_s2", "b_min", "b_max"])
         self.sort_flag = False
 
+        # Initialize population
+        self.experts = None
+        self.fitness = None
+        self.pop_prev = None
+        self.current_best = None
+        self.current_n_g = None
+
+    def initialize_variables(self):
         # Iteration tracking
         self.n_g_max = max(1, self.pop_size // 2)
         self.n_t1 = int(self.p_s1 * self.epoch)
@@ -93,13 +101,6 @@ class OriginalILA(Optimizer):
         # Calculate iterations per model for Stage 1
         self.t_m = max(1, self.n_t1 // self.n_models) if self.n_models > 0 else 1
 
-        # Initialize population
-        self.experts = None
-        self.fitness = None
-        self.pop_prev = None
-        self.current_best = None
-        self.current_n_g = None
-
     def before_main_loop(self):
         self.experts = np.array([agent.solution for agent in self.pop])
         self.fitness = np.array([agent.target.fitness for agent in self.pop])
-- 
2.43.0


From ba035203ff2fd58c8c81917ef0b4a7e3eed09852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 088/183] fix: LCO: values derived from the parameters follow
 set_parameters()

---
 mealpy/human_based/LCO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index 714526e..cc3d0d1 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -61,9 +61,11 @@ class OriginalLCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.r1 = self.validator.check_float("r1", r1, [1.0, 3.0])
         self.set_parameters(["epoch", "pop_size", "r1"])
-        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 8f504635fb90403cae340b52f3354bdca4f92b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 089/183] fix: HGSO: values derived from the parameters follow
 set_parameters()

---
 mealpy/physics_based/HGSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..812fbbe 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -56,7 +56,6 @@ class OriginalHGSO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [10, 10000])
         self.n_clusters = self.validator.check_int("n_clusters", n_clusters, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "n_clusters"])
-        self.n_elements = int(self.pop_size / self.n_clusters)
         self.sort_flag = False
         self.T0 = 298.15
         self.K = 1.0
@@ -68,6 +67,7 @@ class OriginalHGSO(Optimizer):
         self.l3 = 1E-2
 
     def initialize_variables(self):
+        self.n_elements = int(self.pop_size / self.n_clusters)
         self.H_j = self.l1 * self.generator.uniform()
         self.P_ij = self.l2 * self.generator.uniform()
         self.C_j = self.l3 * self.generator.uniform()
-- 
2.43.0


From d6460713a8abd789975673af1213b08b078279c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 090/183] fix: COA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/COA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..27d3c88 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -67,9 +67,11 @@ class OriginalCOA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.n_coyotes = self.validator.check_int("n_coyotes", n_coyotes, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "n_coyotes"])
-        self.n_packs = int(pop_size / self.n_coyotes)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_packs = int(self.pop_size / self.n_coyotes)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From 3bc54516136f54e193e258445a195784ac3da53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 091/183] fix: CSA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/CSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index d0fd6f6..a938a50 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -62,9 +62,11 @@ class OriginalCSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.p_a = self.validator.check_float("p_a", p_a, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "p_a"])
-        self.n_cut = int(self.p_a * self.pop_size)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_cut = int(self.p_a * self.pop_size)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From d64982af14d079afd1ad8fb68c52b05923d49d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 092/183] fix: EHO: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/EHO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 89af2c5..f7bcb58 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -70,9 +70,11 @@ class OriginalEHO(Optimizer):
         self.beta = self.validator.check_float("beta", beta, (0, 1.0))
         self.n_clans = self.validator.check_int("n_clans", n_clans, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "alpha", "beta", "n_clans"])
-        self.n_individuals = int(self.pop_size / self.n_clans)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_individuals = int(self.pop_size / self.n_clans)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From 4a3c6eb4e8d9670717687a6d5f47e05c9d38a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 093/183] fix: FFA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/FFA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..4557ca4 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -201,9 +201,11 @@ class MLFA_GD(Optimizer):
         self.k_rw = self.validator.check_int("k_rw", k_rw, [1, 1000])
         self.set_parameters(["epoch", "pop_size", "m_females", "beta0", "gama", "alpha", "k_rw"])
         self.sort_flag = False
-        self.n_sub = pop_size // 2
         self.males = self.females = self.males_pbest = None
 
+    def initialize_variables(self):
+        self.n_sub = self.pop_size // 2
+
     def chaotic_map(self, k):
         """
         Generates k chaotic variants using the Logistic map.
-- 
2.43.0


From 1fd3448eed3eb52e1c3cd3d7d0f419efb236bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 094/183] fix: MSA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/MSA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/MSA.py b/mealpy/swarm_based/MSA.py
index 86075dc..81c5366 100644
--- a/mealpy/swarm_based/MSA.py
+++ b/mealpy/swarm_based/MSA.py
@@ -75,12 +75,14 @@ class OriginalMSA(Optimizer):
         self.max_step_size = self.validator.check_float("max_step_size", max_step_size, [0, self.epoch])
         self.set_parameters(["epoch", "pop_size", "n_best", "partition", "max_step_size"])
         self.sort_flag = True
+        # you can change this ratio so as to get much better performance
+        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
+
+    def initialize_variables(self):
         # np1 in paper
         self.n_moth1 = int(np.ceil(self.partition * self.pop_size))
         # np2 in paper, we actually don't need this variable
         self.n_moth2 = self.pop_size - self.n_moth1
-        # you can change this ratio so as to get much better performance
-        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From 56e12b0a9509e214f5d288973f7d1c7a809185e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 095/183] fix: NMRA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/NMRA.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..81b5a25 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -56,6 +56,8 @@ class OriginalNMRA(Optimizer):
         self.pb = self.validator.check_float("pb", pb, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def evolve(self, epoch):
@@ -144,6 +146,8 @@ class ImprovedNMRA(Optimizer):
         self.pm = self.validator.check_float("pm", pm, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb", "pm"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-- 
2.43.0


From 9fa93c69db34144842b72486e2073e9d2aa56711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 096/183] fix: SFO: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/SFO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..4f80a8a 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -71,6 +71,8 @@ class OriginalSFO(Optimizer):
         self.epsilon = self.validator.check_float("epsilon", epsilon, (0, 0.1))
         self.set_parameters(["epoch", "pop_size", "pp", "AP", "epsilon"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
@@ -198,6 +200,8 @@ class ImprovedSFO(Optimizer):
         self.pp = self.validator.check_float("pp", pp, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
-- 
2.43.0


From bca9cf6749768bb6239aacffb96354035b6572d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 097/183] fix: SSA: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/SSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSA.py b/mealpy/swarm_based/SSA.py
index cf06322..5b570a8 100644
--- a/mealpy/swarm_based/SSA.py
+++ b/mealpy/swarm_based/SSA.py
@@ -69,9 +69,11 @@ class DevSSA(Optimizer):
         self.PD = self.validator.check_float("PD", PD, (0, 1.0))
         self.SD = self.validator.check_float("SD", SD, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "ST", "PD", "SD"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         self.n1 = int(self.PD * self.pop_size)
         self.n2 = int(self.SD * self.pop_size)
-        self.sort_flag = True
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         condition = np.logical_and(self.problem.lb <= solution, solution <= self.problem.ub)
-- 
2.43.0


From f70492f5856bb5c921227d5168893f3111901375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 098/183] fix: BFO: swim length and elimination probability
 follow set_parameters()

---
 mealpy/swarm_based/BFO.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 85486fb..4b8cddb 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -96,9 +96,9 @@ class OriginalBFO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
-        self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
+        self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
-        self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
+        self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.d_attract = self.validator.check_float("d_attract", d_attract, (0, 1.0))
         self.w_attract = self.validator.check_float("w_attract", w_attract, (0, 1.0))
         self.h_repels = self.validator.check_float("h_repels", h_repels, (0, 1.0))
@@ -152,7 +152,7 @@ class OriginalBFO(Optimizer):
                 self.pop = self.evaluate__(idx, self.pop)
                 sum_nutrients += self.pop[idx].cost
 
-                for m in range(0, self.swim_length):
+                for m in range(0, self.Ns):
                     delta_i = self.generator.uniform(self.problem.lb, self.problem.ub)
                     unit_vector = delta_i / np.sqrt(np.abs(np.dot(delta_i, delta_i.T)))
                     pos_new = self.pop[idx].solution + self.step_size * unit_vector
@@ -166,7 +166,7 @@ class OriginalBFO(Optimizer):
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
             self.pop = cells[0:self.pop_size - self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
             for idc in range(self.pop_size):
-                if self.generator.random() < self.p_eliminate:
+                if self.generator.random() < self.Ped:
                     self.pop[idc] = self.generate_agent()
 
 
@@ -238,10 +238,10 @@ class ABFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.C_s = self.Ped = self.validator.check_float("C_s", C_s, (0, 2.0))
-        self.C_e = self.Ped = self.validator.check_float("C_e", C_e, (0, 1.0))
-        self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
-        self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
+        self.C_s = self.validator.check_float("C_s", C_s, (0, 2.0))
+        self.C_e = self.validator.check_float("C_e", C_e, (0, 1.0))
+        self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
+        self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.N_adapt = self.validator.check_int("N_adapt", N_adapt, [0, 4])
         self.N_split = self.validator.check_int("N_split", N_split, [5, 50])
         self.set_parameters(["epoch", "pop_size", "C_s", "C_e", "Ped", "Ns", "N_adapt", "N_split"])
@@ -280,7 +280,7 @@ class ABFO(Optimizer):
         """
         for idx in range(0, self.pop_size):
             step_size = self.update_step_size__(self.pop, idx)
-            for m in range(0, self.swim_length):  # Ns
+            for m in range(0, self.Ns):  # Ns
                 delta_i = (self.g_best.solution - self.pop[idx].solution) + (self.pop[idx].local_solution - self.pop[idx].solution)
                 delta = np.sqrt(np.abs(np.dot(delta_i, delta_i.T)))
                 unit_vector = self.generator.uniform(self.problem.lb, self.problem.ub) if delta == 0 else (delta_i / delta)
@@ -302,7 +302,7 @@ class ABFO(Optimizer):
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
             nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
-            if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
+            if self.pop[idx].nutrients < nut_min or self.generator.random() < self.Ped:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
         new_set = set()
-- 
2.43.0


From 10cf890b4c4a0c1339df09b97d02ca540ed70212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 099/183] fix: PO reported the square of its pop_size as
 parameter, which set_parameters() could not take back

---
 mealpy/human_based/PO.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index b4fad22..dd3492e 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -66,15 +66,19 @@ class OriginalPO(Optimizer):
         """
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
-        self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
-        self.pop_size = self.pop_n ** 2
+        self.pop_size = self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
         self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
+        self.pop_size = self.pop_n ** 2
         self.sort_flag = False
         self.lam = None
         self.pop_prev = None
         self.leaders_idx, self.winners_idx = None, None
 
+    def initialize_variables(self):
+        self.pop_n = self.parameters["pop_size"]
+        self.pop_size = self.pop_n ** 2
+
     def before_main_loop(self):
         self.lam = self.lamda_max
         self.pop_prev = self.pop.copy()
-- 
2.43.0


From 6f86b15665242f213b1bd16d2c3e9da5ea4b21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 100/183] fix: SSpiderO: the order of fp_min and fp_max does
 not matter with set_parameters() either

---
 mealpy/swarm_based/SSpiderO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index 6606cd2..b8a1d4d 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -69,6 +69,9 @@ class OriginalSSpiderO(Optimizer):
         self.fp_min, self.fp_max = min((fp_min, fp_max)), max((fp_min, fp_max))
         self.set_parameters(["epoch", "pop_size", "fp_min", "fp_max"])
 
+    def initialize_variables(self):
+        self.fp_min, self.fp_max = min((self.fp_min, self.fp_max)), max((self.fp_min, self.fp_max))
+
     def initialization(self):
         fp_temp = self.fp_min + (self.fp_max - self.fp_min) * self.generator.uniform()  # Female Aleatory Percent
         self.n_f = int(self.pop_size * fp_temp)  # number of female
-- 
2.43.0


From bef5baa8f926034f0506837728739973a0333bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 101/183] fix: Improved LCO: values derived from the parameters
 follow set_parameters()

---
 mealpy/human_based/LCO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index cc3d0d1..fd6c040 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -231,9 +231,11 @@ class ImprovedLCO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.set_parameters(["epoch", "pop_size"])
-        self.pop_len = int(self.pop_size / 2)
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.pop_len = int(self.pop_size / 2)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 8fa98f2b2f8c955f3b2c8f5b43d53769ff0551ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 102/183] fix: TLO: values derived from the parameters follow
 set_parameters()

---
 mealpy/human_based/TLO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index 092d9be..cc3d1f6 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -256,9 +256,11 @@ class ImprovedTLO(OriginalTLO):
         super().__init__(epoch, pop_size, **kwargs)
         self.n_teachers = self.validator.check_int("n_teachers", n_teachers, [2, int(np.sqrt(self.pop_size)-1)])
         self.set_parameters(["epoch", "pop_size", "n_teachers"])
+        self.sort_flag = False
+
+    def initialize_variables(self):
         self.n_students = self.pop_size - self.n_teachers
         self.n_students_in_team = int(self.n_students / self.n_teachers)
-        self.sort_flag = False
 
     def initialization(self):
         if self.pop is None:
-- 
2.43.0


From 1717d2f6c88047a9458f652febf8bc785c6358c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 103/183] fix: EO: values derived from the parameters follow
 set_parameters()

---
 mealpy/physics_based/EO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/EO.py b/mealpy/physics_based/EO.py
index f9b3c33..a2313a9 100644
--- a/mealpy/physics_based/EO.py
+++ b/mealpy/physics_based/EO.py
@@ -154,6 +154,8 @@ class ModifiedEO(OriginalEO):
         """
         super().__init__(epoch, pop_size, **kwargs)
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.pop_len = int(self.pop_size / 3)
 
     def evolve(self, epoch):
-- 
2.43.0


From a880ebe280d0538abf7fb01d31d53050f43452c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 104/183] fix: BFO: values derived from the parameters follow
 set_parameters()

---
 mealpy/swarm_based/BFO.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 4b8cddb..46b2c71 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,19 +95,21 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
         self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
-        self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
+        self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.d_attract = self.validator.check_float("d_attract", d_attract, (0, 1.0))
         self.w_attract = self.validator.check_float("w_attract", w_attract, (0, 1.0))
         self.h_repels = self.validator.check_float("h_repels", h_repels, (0, 1.0))
         self.w_repels = self.validator.check_float("w_repels", w_repels, (2.0, 20.0))
         self.set_parameters(["epoch", "pop_size", "Ci", "Ped", "Nc", "Ns", "d_attract", "w_attract", "h_repels", "w_repels"])
-        self.half_pop_size = int(self.pop_size / 2)
         self.is_parallelizable = False
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.half_pop_size = int(self.pop_size / 2)
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
@@ -146,7 +148,7 @@ class OriginalBFO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        for j in range(0, self.chem_steps):
+        for j in range(0, self.Nc):
             for idx in range(0, self.pop_size):
                 sum_nutrients = 0.0
                 self.pop = self.evaluate__(idx, self.pop)
@@ -155,7 +157,7 @@ class OriginalBFO(Optimizer):
                 for m in range(0, self.Ns):
                     delta_i = self.generator.uniform(self.problem.lb, self.problem.ub)
                     unit_vector = delta_i / np.sqrt(np.abs(np.dot(delta_i, delta_i.T)))
-                    pos_new = self.pop[idx].solution + self.step_size * unit_vector
+                    pos_new = self.pop[idx].solution + self.Ci * unit_vector
                     pos_new = self.correct_solution(pos_new)
                     agent = self.generate_agent(pos_new)
                     if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From ede3942d0dc94b81a5410ed6c54b70012aa1602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 105/183] fix: BFO truncated the step size Ci, so that its
 default 0.01 became 0

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 46b2c71..a618237 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From 534a90399ad131622e4662be1e521517d2678ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 106/183] fix: PO truncated the real-valued parameter lamda_max
 to an integer

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index dd3492e..5ebdbb8 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -67,7 +67,7 @@ class OriginalPO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
         self.pop_size = self.pop_n ** 2
         self.sort_flag = False
-- 
2.43.0


From 3706b750e213d49d02b16a5e9c0b9aa869af1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 107/183] fix: SSpiderO: a run does not edit the parameters
 fp_min and fp_max

---
 mealpy/swarm_based/SSpiderO.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index b8a1d4d..f087d18 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -64,16 +64,13 @@ class OriginalSSpiderO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
-        fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
-        self.fp_min, self.fp_max = min((fp_min, fp_max)), max((fp_min, fp_max))
+        self.fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
+        self.fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "fp_min", "fp_max"])
 
-    def initialize_variables(self):
-        self.fp_min, self.fp_max = min((self.fp_min, self.fp_max)), max((self.fp_min, self.fp_max))
-
     def initialization(self):
-        fp_temp = self.fp_min + (self.fp_max - self.fp_min) * self.generator.uniform()  # Female Aleatory Percent
+        fp_min, fp_max = min((self.fp_min, self.fp_max)), max((self.fp_min, self.fp_max))
+        fp_temp = fp_min + (fp_max - fp_min) * self.generator.uniform()  # Female Aleatory Percent
         self.n_f = int(self.pop_size * fp_temp)  # number of female
         self.n_m = self.pop_size - self.n_f  # number of male
         # Probabilities of attraction or repulsion Proper tuning for better results
-- 
2.43.0


From 109be45bba45c9ec4a1521ca7b7482c4f6c35626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 108/183] fix: Tuner.export_figures failed for a grid of one
 parameter

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 44f887f..dae6db9 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -310,7 +310,7 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                group_paras = groups.groupby(selected_paras) if len(selected_paras) > 0 else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -336,7 +336,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From 8d9c99b0b1bd94e4362e40cf4589c0a80766e297 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 109/183] fix: improved_ms() sorted as if minimizing, kept
 stale targets and shrank odd populations

---
 mealpy/optimizer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 7ff818b..cb83168 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -800,7 +800,7 @@ class Optimizer:
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
         pop_len = int(len(pop) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop = self.get_sorted_population(pop, self.problem.minmax)[0]
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
@@ -809,6 +809,8 @@ class Optimizer:
             agent = pop_s1[idx].copy()
             pos_new = pop_s1[idx].solution * (1 + self.generator.normal(0, 1, self.problem.n_dims))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
         pop_s1 = self.greedy_selection_population(pop_s1, pop_new, self.problem.minmax)  ## Greedy method --> improved exploitation
@@ -817,14 +819,16 @@ class Optimizer:
         pos_s1_list = [agent.solution for agent in pop_s1]
         pos_s1_mean = np.mean(pos_s1_list, axis=0)
         pop_new = []
-        for idx in range(0, pop_len):
+        for idx in range(0, len(pop_s2)):
             agent = pop_s2[idx].copy()
             pos_new = (g_best.solution - pos_s1_mean) - self.generator.random() * \
                       (self.problem.lb + self.generator.random() * (self.problem.ub - self.problem.lb))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         ## Keep the diversity of populatoin and still improved the exploration
-        pop_s2 = self.update_target_for_population(pop_new)
+        pop_new = self.update_target_for_population(pop_new)
         pop_s2 = self.greedy_selection_population(pop_s2, pop_new, self.problem.minmax)
 
         ## Construct a new population
-- 
2.43.0


From 7433feb48549010de2bd64c20a617e4db66c1c7e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 110/183] fix: exploration and exploitation were not a number
 when the diversity was zero in all epochs

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index cb83168..ee92818 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -310,7 +310,7 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
-        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / (div_max if div_max > 0 else 1.))
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
         self.history.list_current_best = self.history.list_current_best[1:]
-- 
2.43.0


From 8f8190a80b40177b5c0ba9536afbcb64bae0d388 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 111/183] fix: QSA failed when maximizing and the second or
 third best fitness was not positive

---
 mealpy/human_based/QSA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..202f7f3 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
@@ -130,7 +130,7 @@ class DevQSA(Optimizer):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-005:
+        if min(t1, t2, t3) > 1.0e-005:
             cv = t1 / (t2 + t3)
         else:
             cv = 1.0 / 2
@@ -324,7 +324,7 @@ class LevyQSA(DevQSA):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             cv = t1 / (t2 + t3)
         else:
             cv = 1 / 2
-- 
2.43.0


From cfa8d1dfa4a21caa4b27c974cc4e590ca5465245 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 112/183] fix: get_optimizer_by_name() found no optimizer by
 its class name

---
 mealpy/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index 179b7cb..c3e6538 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -109,10 +109,11 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
     Get an optimizer class by name
 
     Args:
-        name (str): the classname of the optimizer (e.g, OriginalGA, OriginalWOA), don't pass the module name (e.g, ABC, WOA, GA)
+        name (str): the classname of the optimizer (e.g, OriginalGA, OriginalWOA), or the module name (e.g, ABC, WOA, GA)
         verbose (bool): whether to print the optimizer information
 
     Returns:
+        optimizer (Optimizer): the actual optimizer class if a classname is given, otherwise
         dict_optimizers (dict): key is the string optimizer class name, value is the actual optimizer class
     """
     cls = {}
@@ -124,6 +125,8 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
     cls.pop("Optimizer", None)
+    if not flag and name in get_all_optimizers(verbose=False):
+        return get_optimizer_by_class(name, verbose=verbose)
     if verbose:
         if not flag:
             print(f"Mealpy doesn't support optimizer named: {name}.\n"
-- 
2.43.0


From 4ade6289bb1900985735dff935031f13d798f2fe Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 113/183] fix: EHO failed in the swarm and parallel modes when
 pop_size is not a multiple of n_clans

---
 mealpy/swarm_based/EHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index f7bcb58..bda0c1f 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -106,7 +106,7 @@ class OriginalEHO(Optimizer):
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-            self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
+            self.pop = self.greedy_selection_population(self.pop[:len(pop_new)], pop_new, self.problem.minmax)
         self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
         # Separating operator
         for idx in range(0, self.n_clans):
-- 
2.43.0


From de1b4e0b7ee77ccb6b5edf982d5658f49c917a4b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 114/183] fix: EVO failed on problems whose encoded solutions
 are integers

---
 mealpy/physics_based/EVO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/EVO.py b/mealpy/physics_based/EVO.py
index 8aef286..17bc52d 100644
--- a/mealpy/physics_based/EVO.py
+++ b/mealpy/physics_based/EVO.py
@@ -81,8 +81,8 @@ class OriginalEVO(Optimizer):
             eb = np.mean(fit_list)
             sl = (fit_list[idx] - self.g_best.target.fitness) / (self.g_worst.target.fitness - self.g_best.target.fitness + self.EPSILON)
 
-            pos_new1 = self.pop[idx].solution.copy()
-            pos_new2 = self.pop[idx].solution.copy()
+            pos_new1 = self.pop[idx].solution.astype(float)
+            pos_new2 = self.pop[idx].solution.astype(float)
             if self.compare_fitness(eb, self.pop[idx].target.fitness, self.problem.minmax):
                 if self.generator.random() > sl:
                     a1_idx = self.generator.integers(self.problem.n_dims)
-- 
2.43.0


From 9cbac465e2f8848c0555d1bc5ee433d8305acd0a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 115/183] fix: GA variants failed on problems with one or two
 variables

---
 mealpy/evolutionary_based/GA.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 584766b..d2f3208 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -220,11 +220,11 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims-1))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            idxs = self.generator.choice(range(1, max(3, self.problem.n_dims-1)), 2, replace=False)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
@@ -256,6 +256,8 @@ class BaseGA(Optimizer):
             np.array: The mutated vector of the child
         """
         child = np.array(child)
+        if self.problem.n_dims == 1 and self.mutation in ("swap", "inversion", "scramble"):
+            return child    # nothing to exchange
 
         if self.mutation_multipoints:
             if self.mutation == "swap":
@@ -440,6 +442,8 @@ class SingleGA(BaseGA):
             np.array: The mutated vector of the child
         """
         child = np.array(child)
+        if self.problem.n_dims == 1 and self.mutation in ("swap", "inversion", "scramble"):
+            return child    # nothing to exchange
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -695,6 +699,8 @@ class MultiGA(BaseGA):
             np.array: The mutated vector of the child
         """
         child = np.array(child)
+        if self.problem.n_dims == 1 and self.mutation == "swap":
+            return child    # nothing to exchange
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
                 idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-- 
2.43.0


From b66c789fcda66d85a17beddbcfbb06dc249e6944 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 116/183] fix: CleverBookBeesA never searched along the last
 variable and failed with a single one

---
 mealpy/swarm_based/BeesA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 29f0fe6..5e29211 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
-- 
2.43.0


From 087f6f949d3294262f547a6210fc57f5b18b3ff2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 117/183] fix: ImprovedNMRA failed on problems with one
 variable

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 81b5a25..b796164 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -151,7 +151,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims / 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From bf1e5c0e3e84aaae5e7f73b3caa529bd7d757850 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 118/183] fix: AAA failed on problems with one or two variables

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 4f1877a..401bf2f 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -156,7 +156,7 @@ class OriginalAAA(Optimizer):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, self.problem.n_dims < 3)
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
-- 
2.43.0


From 38054bae58562ee9554e258fb4b93b9f83a42e66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 119/183] fix: DOA failed on problems with one variable

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index b94fa2d..1213c1f 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -135,7 +135,7 @@ class OriginalDOA(Optimizer):
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
                 k = self.generator.integers(2, km + 1)
-                in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
+                in_indices = self.generator.choice(self.problem.n_dims, size=min(k, self.problem.n_dims), replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-- 
2.43.0


From 83aa4e7697ae8b29f7929e794eaba142edc54082 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 120/183] fix: LSHADEcnEpSin failed on problems with one
 variable

---
 mealpy/sota_based/LSHADEcnEpSin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 84c4f4b..b4382db 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
-- 
2.43.0


From 1e21c068a35fe7aa6c30863c92ea560acc62f2ae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 121/183] fix: CRO failed on problems with one variable

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f7e4596 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,7 +119,7 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
-        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
+        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=len(pos1) < 2)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
         return self.correct_solution(pos_new)
-- 
2.43.0


From f0ff292cf9ddb36ee82a8b2b1134e784a792db75 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 122/183] fix: HCO never ended when no better solution could be
 generated in its initialization

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..f06e371 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -110,7 +110,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(1000):   # there may be no such solution
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
-- 
2.43.0


From 7c5d94e8320f371fd5fa84e63bb02edf4ee36713 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 123/183] fix: ICA failed when the costs of the initial empires
 are all zero

---
 mealpy/human_based/ICA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 3b62df6..ceba0fb 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -111,7 +111,8 @@ class OriginalICA(Optimizer):
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        cost_sum = np.sum(cost_empires_list_normalized)
+        prob_empires_list = np.abs(cost_empires_list_normalized / cost_sum) if cost_sum != 0 else np.ones(self.empire_count) / self.empire_count
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
-- 
2.43.0


From 6cad83c8a82494422658b91c3d420170b9d275f9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 124/183] fix: log_to and log_file were ignored by all but the
 first run of an optimizer class in a process

---
 mealpy/utils/logger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/logger.py b/mealpy/utils/logger.py
index b0ff2d4..cdaaa13 100644
--- a/mealpy/utils/logger.py
+++ b/mealpy/utils/logger.py
@@ -48,6 +48,12 @@ class Logger:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
             handler = logging.StreamHandler()
             handler.setFormatter(formatter)
-        if not logger.hasHandlers():
+        # The logger outlives the run: replace what an earlier run has attached to it
+        for old in list(logger.handlers):
+            if getattr(old, "created_by_mealpy", False):
+                logger.removeHandler(old)
+                old.close()
+        handler.created_by_mealpy = True
+        if self.log_to == "file" or not logger.hasHandlers():
             logger.addHandler(handler)
         return logger
-- 
2.43.0


From 55e2fa84c49fd2e80b1b88cc4fcaaddc85f48d7d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 125/183] fix: charts were drawn into the current figure of the
 user, which was then closed

---
 mealpy/utils/visualize/linechart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5b4536e..9d419f5 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -70,6 +70,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
                 y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data))
     y = data
+    plt.figure()
     plt.title(title)
     plt.xlabel(x_label)
     plt.ylabel(y_label)
@@ -90,6 +91,7 @@ def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_
 def _draw_multi_line_(data=None, title=None, list_legends=None, list_styles=None, list_colors=None,
                       x_label="#Iteration", y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data[0]))
+    plt.figure()
     for idx, y in enumerate(data):
         plt.plot(x, y, label=list_legends[idx], markerfacecolor=list_colors[idx], linestyle=list_styles[idx])
 
@@ -190,6 +192,7 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
     if list_colors is None:
         list_colors = LIST_COLORS[:len(data)]
 
+    plt.figure()
     if n_dimensions == 1:
         x = np.arange(0, len(data[0]))
         for idx, y in enumerate(data):
-- 
2.43.0


From 359826057591b92d350228180e85fb7e89ff321a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 126/183] fix: save_trajectory_chart failed with an IndexError
 when the population has shrunk

---
 mealpy/utils/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/history.py b/mealpy/utils/history.py
index 625aece..c10b1e0 100644
--- a/mealpy/utils/history.py
+++ b/mealpy/utils/history.py
@@ -177,8 +177,9 @@ class History:
             raise ValueError(f"Trajectory chart for more than 2 dimensions is not supported.")
         if len(list_agent_idx) < 1 or len(list_agent_idx) > 10:
             raise ValueError(f"Trajectory chart for more than 10 agents is not supported.")
-        if list_agent_idx[-1] > len(self.list_population[0]) or list_agent_idx[0] < 1:
-            raise ValueError(f"Can't draw trajectory chart, the index of selected agents should be in range of [1, {len(self.list_population[0])}]")
+        n_agents = min(len(pop) for pop in self.list_population)      # some optimizers reduce their population
+        if list_agent_idx[-1] > n_agents or list_agent_idx[0] < 1:
+            raise ValueError(f"Can't draw trajectory chart, the index of selected agents should be in range of [1, {n_agents}]")
         if selected_dimensions[-1] > len(self.list_population[0][0].solution) or selected_dimensions[0] < 1:
             raise ValueError(f"Can't draw trajectory chart, the index of selected dimensions should be in range of [1, {len(self.list_population[0][0].solution)}]")
 
-- 
2.43.0


From 79962cae0072d94cb208bab53b27ddd7a054a395 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 127/183] fix: AO variants failed with a division by zero for
 one epoch

---
 mealpy/swarm_based/AO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/AO.py b/mealpy/swarm_based/AO.py
index 5152d10..9dd38d3 100644
--- a/mealpy/swarm_based/AO.py
+++ b/mealpy/swarm_based/AO.py
@@ -79,7 +79,7 @@ class OriginalAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max((1 - self.epoch) ** 2, 1))  # Eq.(15)        Quality function
         pop_new = []
         for idx in range(0, self.pop_size):
             x_mean = np.mean(np.array([agent.solution for agent in self.pop]), axis=0)
@@ -182,7 +182,7 @@ class AAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max((1 - self.epoch) ** 2, 1))  # Eq.(15)        Quality function
         pop_new = []
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From b25ce2872334e5d48bf7f0fd3464f2a125a20c56 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:33:25 +0000
Subject: [PATCH 128/183] fix: OriginalDandelionO failed with a division by
 zero for one epoch

---
 mealpy/swarm_based/DandelionO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DandelionO.py b/mealpy/swarm_based/DandelionO.py
index fb00f9a..a972066 100644
--- a/mealpy/swarm_based/DandelionO.py
+++ b/mealpy/swarm_based/DandelionO.py
@@ -72,7 +72,7 @@ class OriginalDandelionO(Optimizer):
         alpha = self.generator.random() * ((epoch / self.epoch)**2 - 2.0 * epoch / self.epoch + 1)
 
         # Eq. (11) Local search domain factor k
-        aa = 1.0 / (self.epoch ** 2 - 2 *self.epoch + 1)
+        aa = 1.0 / max((self.epoch - 1) ** 2, 1)
         bb = -2 * aa
         cc = 1 - aa - bb
         kk = 1 - self.generator.random() * (cc + aa*epoch**2 + bb * epoch)
-- 
2.43.0


From a045d7e45f9b2dace5332656695e373a21786382 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 129/183] fix: FBIO gave the better agents the probabilities of
 the worse ones in maximization problems

---
 mealpy/human_based/FBIO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/FBIO.py b/mealpy/human_based/FBIO.py
index c87f824..e60a095 100644
--- a/mealpy/human_based/FBIO.py
+++ b/mealpy/human_based/FBIO.py
@@ -84,7 +84,8 @@ class DevFBIO(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
-        list_fitness = np.array([agent.target.fitness for agent in self.pop])
+        # The better agents have the smaller costs, also in maximization problems
+        list_fitness = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         prob = self.probability__(list_fitness)
 
         # Step A2
@@ -231,7 +232,8 @@ class OriginalFBIO(DevFBIO):
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
 
         # Step A2
-        list_fitness = np.array([agent.target.fitness for agent in self.pop])
+        # The better agents have the smaller costs, also in maximization problems
+        list_fitness = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         prob = self.probability__(list_fitness)
         pop_child = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 502a010deb550e582db3d55fe014c373d34e20a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 130/183] fix: ASO gave the worse atoms the larger masses in
 maximization problems

---
 mealpy/physics_based/ASO.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mealpy/physics_based/ASO.py b/mealpy/physics_based/ASO.py
index 46c6e4d..46d1f5e 100644
--- a/mealpy/physics_based/ASO.py
+++ b/mealpy/physics_based/ASO.py
@@ -86,7 +86,8 @@ class OriginalASO(Optimizer):
         return np.where(condition, solution, rand_pos)
 
     def update_mass__(self, population):
-        list_fit = np.array([agent.target.fitness for agent in population])
+        # The better atoms have the larger masses, also in maximization problems
+        list_fit = np.array([agent.target.fitness for agent in population]) * (1 if self.problem.minmax == "min" else -1)
         list_fit = np.exp(-(list_fit - np.max(list_fit)) / (np.max(list_fit) - np.min(list_fit) + self.EPSILON))
         list_fit = list_fit / np.sum(list_fit)
         for idx in range(0, self.pop_size):
@@ -113,10 +114,7 @@ class OriginalASO(Optimizer):
         pop = self.update_mass__(population)
         G = np.exp(-20.0 * iteration / self.epoch)
         k_best = int(self.pop_size - (self.pop_size - 2) * (iteration / self.epoch) ** 0.5) + 1
-        if self.problem.minmax == "min":
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
-        else:
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass)[:k_best].copy()
+        k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
         mk_average = np.mean([agent.solution for agent in k_best_pop])
         acc_list = np.zeros((self.pop_size, self.problem.n_dims))
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 80877f848530df0895f33dde715b4402c29e18ac Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 131/183] fix: TWO gave the worse teams the larger weights in
 maximization problems

---
 mealpy/physics_based/TWO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 268598a..c004bdd 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -78,7 +78,8 @@ class OriginalTWO(Optimizer):
         return Agent(solution=solution, weight=0.0)
 
     def update_weight__(self, teams):
-        list_fits = np.array([agent.target.fitness for agent in teams])
+        # The better teams have the larger weights, also in maximization problems
+        list_fits = np.array([agent.target.fitness for agent in teams]) * (1 if self.problem.minmax == "min" else -1)
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
-- 
2.43.0


From deea26a437a2b5c6c6f6b9def240afc46cb4449c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 132/183] fix: OriginalBFO let the worse cells reproduce in
 maximization problems

---
 mealpy/swarm_based/BFO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index a618237..971d9f7 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -132,7 +132,8 @@ class OriginalBFO(Optimizer):
 
     def evaluate__(self, idx, cells):
         cells[idx].interaction = self.attract_repel__(idx, cells)
-        cells[idx].cost = cells[idx].target.fitness + cells[idx].interaction
+        fitness = cells[idx].target.fitness if self.problem.minmax == "min" else -cells[idx].target.fitness
+        cells[idx].cost = fitness + cells[idx].interaction
         return cells
 
     def tumble_cell__(self, cell, step_size):
-- 
2.43.0


From 97f927955cb30da44a979711e7dd70a40076bcf6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 133/183] fix: BSA exchanged the roles of the best and the
 worst bird in maximization problems

---
 mealpy/swarm_based/BSA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..5ad7efd 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -115,7 +115,8 @@ class OriginalBSA(Optimizer):
             epoch (int): The current iteration
         """
         pos_list = np.array([agent.solution for agent in self.pop])
-        fit_list = np.array([agent.local_target.fitness for agent in self.pop])
+        # The better birds have the smaller costs, also in maximization problems
+        fit_list = np.array([agent.local_target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         pos_mean = np.mean(pos_list, axis=0)
         fit_sum = np.sum(fit_list)
 
@@ -129,7 +130,7 @@ class OriginalBSA(Optimizer):
                             self.generator.uniform() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                             self.c2 * self.generator.uniform() * (self.g_best.solution - self.pop[idx].solution)
                 else:  # Birds keep vigilance. Eq. 2
-                    A1 = self.a1 * np.exp(-self.pop_size * self.pop[idx].local_target.fitness / (self.EPSILON + fit_sum))
+                    A1 = self.a1 * np.exp(-self.pop_size * fit_list[idx] / (self.EPSILON + fit_sum))
                     k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
                     t1 = (fit_list[idx] - fit_list[k]) / (abs(fit_list[idx] - fit_list[k]) + self.EPSILON)
                     A2 = self.a2 * np.exp(t1 * self.pop_size * fit_list[k] / (fit_sum + self.EPSILON))
-- 
2.43.0


From 1a9950a391bf9ff861d73071b331afcbb8876e8c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 134/183] fix: DMOA preferred the worse agents as alpha in
 minimization problems, and reversed the sleeping mould in maximization
 problems

---
 mealpy/swarm_based/DMOA.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..d8daacb 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -87,11 +87,14 @@ class OriginalDMOA(Optimizer):
         """
         ## Abandonment Counter
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
+        # The better agents have the smaller costs, also in maximization problems
+        sign = 1 if self.problem.minmax == "min" else -1
+        fit_list = np.array([agent.target.fitness for agent in self.pop]) * sign
         mean_cost = np.mean(fit_list)
         fi = np.exp(-fit_list / mean_cost)
+        prob = fi / np.sum(fi) if np.all(np.isfinite(fi)) and np.sum(fi) > 0 else np.ones(self.pop_size) / self.pop_size
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = int(self.generator.choice(self.pop_size, p=prob))
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
@@ -111,7 +114,8 @@ class OriginalDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness)/np.max([agent.target.fitness, self.pop[idx].target.fitness])
+            cost_new, cost_old = sign * agent.target.fitness, sign * self.pop[idx].target.fitness
+            SM[idx] = (cost_new - cost_old)/np.max([cost_new, cost_old])
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
@@ -197,13 +201,16 @@ class DevDMOA(Optimizer):
         """
         ## Abandonment Counter
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
+        # The better agents have the smaller costs, also in maximization problems
+        sign = 1 if self.problem.minmax == "min" else -1
+        fit_list = np.array([agent.target.fitness for agent in self.pop]) * sign
         mean_cost = np.mean(fit_list)
         fi = np.exp(-fit_list / mean_cost)
+        prob = fi / np.sum(fi) if np.all(np.isfinite(fi)) and np.sum(fi) > 0 else np.ones(self.pop_size) / self.pop_size
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = int(self.generator.choice(self.pop_size, p=prob))
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
@@ -225,7 +232,8 @@ class DevDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness) / (np.max([agent.target.fitness, self.pop[idx].target.fitness]) + self.EPSILON)
+            cost_new, cost_old = sign * agent.target.fitness, sign * self.pop[idx].target.fitness
+            SM[idx] = (cost_new - cost_old) / (np.max([cost_new, cost_old]) + self.EPSILON)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
-- 
2.43.0


From 82169fef9ce16b6d44df3c705e7e4e1d2b283f1c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 135/183] fix: COA replaced the youngest coyote instead of the
 oldest one in maximization problems

---
 mealpy/swarm_based/COA.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 27d3c88..2ecd5a1 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -133,10 +133,7 @@ class OriginalCOA(Optimizer):
             packs, _ = self.get_sorted_population(self.pop_group[p], self.problem.minmax)
             # Find index of element has fitness larger than new child. If existed an element like that, new child is good
             if self.compare_target(agent.target, packs[-1].target, self.problem.minmax):
-                if self.problem.minmax == "min":
-                    packs = sorted(packs, key=lambda agent: agent.age)
-                else:
-                    packs = sorted(packs, key=lambda agent: agent.age, reverse=True)
+                packs = sorted(packs, key=lambda agent: agent.age)
                 # Replace worst element by new child, New born child with age = 0
                 packs[-1] = agent
                 self.pop_group[p] = [agent.copy() for agent in packs]
-- 
2.43.0


From c9f9bd02b17bea593cb4d1f7aeafecd24f60e849 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 136/183] fix: CG_GWO mutated the leaders with reversed
 differences of fitness in maximization problems

---
 mealpy/swarm_based/GWO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 2ea0ebe..bf1ae10 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1321,7 +1321,8 @@ class CG_GWO(Optimizer):
 
         # Calculate sigma (equation 9)
         if abs(best.target.fitness) > 1e-10:
-            sigma = np.exp((leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
+            diff = leader.target.fitness - best.target.fitness
+            sigma = np.exp((diff if self.problem.minmax == "min" else -diff) / abs(best.target.fitness))
         else:
             sigma = 1.0
         # Generate Cauchy and Gaussian random variables
-- 
2.43.0


From 395b408f647ca6d6cbb06082943739586dc0b0eb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 137/183] fix: C_PSO reversed the inertia weights and the local
 search in maximization problems

---
 mealpy/swarm_based/PSO.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..652c4d6 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -610,11 +610,7 @@ class C_PSO(P_PSO):
 
     def get_weights__(self, fit, fit_avg, fit_min):
         temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_min) / (fit_avg - fit_min)
-        if self.problem.minmax == "min":
-            output = temp1 if fit <= fit_avg else self.w_max
-        else:
-            output = self.w_max if fit <= fit_avg else temp1
-        return output
+        return temp1 if fit <= fit_avg else self.w_max
 
     def bounded_solution(self, solution: np.ndarray) -> np.ndarray:
         return np.clip(solution, self.dyn_lb, self.dyn_ub)
@@ -626,11 +622,12 @@ class C_PSO(P_PSO):
         Args:
             epoch (int): The current iteration
         """
-        list_fits = [agent.target.fitness for agent in self.pop]
+        # The better particles have the smaller costs, also in maximization problems
+        list_fits = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         fit_avg = np.mean(list_fits)
         fit_min = np.min(list_fits)
         for idx in range(self.pop_size):
-            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_min)
+            w = self.get_weights__(list_fits[idx], fit_avg, fit_min)
             v_new = w * self.pop[idx].velocity + self.c1 * self.generator.random() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                     self.c2 * self.generator.random() * (self.g_best.solution - self.pop[idx].solution)
             v_new = np.clip(v_new, self.v_min, self.v_max)
@@ -651,7 +648,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From b670e224a652d03e26cd53d8cb6c9d77cc2d94e0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 138/183] fix: DevSARO preferred the worse clues in
 maximization problems

---
 mealpy/human_based/SARO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..9ca9a97 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,8 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, 
+                                       self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 19d3dd32996abc84008a7d1d708424a3b53de09a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 139/183] fix: DevSMO preferred the worse monkeys in
 maximization problems

---
 mealpy/swarm_based/SMO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 406ca4f..f376991 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -138,7 +138,8 @@ class DevSMO(Optimizer):
     def global_leader_phase(self):
         """Global Leader Phase - selected monkeys update based on global leader"""
         # Calculate selection probabilities
-        list_fits = np.array([agent.target.fitness for group in self.groups for agent in group])
+        # The better agents have the smaller costs, also in maximization problems
+        list_fits = np.array([agent.target.fitness for group in self.groups for agent in group]) * (1 if self.problem.minmax == "min" else -1)
         # Calculate fitness using formula from paper
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
-- 
2.43.0


From 533f14e4144aa8009d74525a682965ba631c67d9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 140/183] fix: TOA moved away from the better members in
 maximization problems

---
 mealpy/human_based/TOA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TOA.py b/mealpy/human_based/TOA.py
index 4342cb8..f7d1312 100644
--- a/mealpy/human_based/TOA.py
+++ b/mealpy/human_based/TOA.py
@@ -108,8 +108,9 @@ class OriginalTOA(Optimizer):
                 sf_pos = np.array([self.pop[jdx].solution for jdx in idxs])
                 sf_pos = self.correct_solution(np.mean(sf_pos, axis=0))
                 sf = self.generate_agent(sf_pos)
+            diff = self.pop[idx].target.fitness - sf.target.fitness
             pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) *
-                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+                                    self.pop[idx].solution) * np.sign(diff if self.problem.minmax == "min" else -diff)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_agent(pos_new)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From 9f31dcbcee786936fd16060fdf23050b5175e68d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 141/183] fix: ESO ionized the worst areas in maximization
 problems

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..d70d4e5 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -80,7 +80,7 @@ class OriginalESO(Optimizer):
             # Calculate percentile threshold
             percentile_threshold = (resistance / 2) * 100
             # Find solutions better than percentile
-            fits = np.array([agent.target.fitness for agent in self.pop])
+            fits = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
             fitness_percentile = np.percentile(fits, percentile_threshold)
             ionized_indices = np.where(fits <= fitness_percentile)[0]
             ionized_pop = [self.pop[idx] for idx in ionized_indices]
-- 
2.43.0


From c403e944f9151b5295e025ac4d500c901812ab6b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 142/183] fix: GRSA sorted and remembered the worst positions
 in maximization problems

---
 mealpy/physics_based/GRSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..08e39e7 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -111,7 +111,7 @@ class OriginalGRSA(Optimizer):
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
         fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        sorted_indices = np.argsort(fitness_list if self.problem.minmax == "min" else -fitness_list)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From ba27bbe88548b48296664c59a69718ecb2ce8ca2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 143/183] fix: NRO ranked the nuclei in the wrong direction in
 maximization problems

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 47b4ebe..2c54c92 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,7 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        ranked_pop = np.argsort([self.pop[i].target.fitness * (1 if self.problem.minmax == "min" else -1) for i in range(self.pop_size)])
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +156,7 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        ranked_pop = np.argsort([self.pop[i].target.fitness * (1 if self.problem.minmax == "min" else -1) for i in range(self.pop_size)])
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From 2d6d45073a284afdeb3394d1f8c281ca68f4cf85 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 144/183] fix: OriginalMVO preferred the worse universes in
 maximization problems

---
 mealpy/physics_based/MVO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/MVO.py b/mealpy/physics_based/MVO.py
index a98c299..20a0e03 100644
--- a/mealpy/physics_based/MVO.py
+++ b/mealpy/physics_based/MVO.py
@@ -200,7 +200,8 @@ class OriginalMVO(DevMVO):
         wep = self.wep_min + epoch * ((self.wep_max - self.wep_min) / self.epoch)
         # Travelling Distance Rate (Formula): Eq. (3.4) in the paper
         tdr = 1 - epoch ** (1.0 / 6) / self.epoch ** (1.0 / 6)
-        list_fitness_raw = np.array([item.target.fitness for item in self.pop])
+        # The better universes have the smaller costs, also in maximization problems
+        list_fitness_raw = np.array([item.target.fitness for item in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         maxx = max(list_fitness_raw)
         if maxx > (2 ** 64 - 1):
             list_fitness_normalized = self.generator.uniform(0, 0.1, self.pop_size)
-- 
2.43.0


From 160be277a0f62435ee6633dd55be719485d5a2d7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 145/183] fix: KLA moved towards the worse agents in
 maximization problems

---
 mealpy/physics_based/KLA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/KLA.py b/mealpy/physics_based/KLA.py
index b790453..3ad6025 100644
--- a/mealpy/physics_based/KLA.py
+++ b/mealpy/physics_based/KLA.py
@@ -70,10 +70,12 @@ class OriginalKLA(Optimizer):
             a, b, jj = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=3)
 
             # Get fitness values
-            f_i = self.pop[idx].target.fitness
-            f_a = self.pop[a].target.fitness
-            f_b = self.pop[b].target.fitness
-            f_jj = self.pop[jj].target.fitness
+            # (the better agents have the smaller costs, also in maximization problems)
+            sign = 1 if self.problem.minmax == "min" else -1
+            f_i = sign * self.pop[idx].target.fitness
+            f_a = sign * self.pop[a].target.fitness
+            f_b = sign * self.pop[b].target.fitness
+            f_jj = sign * self.pop[jj].target.fitness
 
             # Calculate movement factors (Q parameters)
             q = (f_i - f_jj) / (np.abs(f_i - f_jj) + self.EPSILON)
-- 
2.43.0


From 9457db7da4ec510b48a470507f3e84c597c74b06 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 146/183] fix: INFO weighted the differences as in minimization
 in maximization problems

---
 mealpy/math_based/INFO.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..d06d829 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -84,9 +84,11 @@ class OriginalINFO(Optimizer):
             a, b, c = self.generator.choice(range(0, self.pop_size), 3, replace=False)
             e1 = 1e-25
             epsilon = e1 * self.generator.random()
-            fit_a = self.pop[a].target.fitness
-            fit_b = self.pop[b].target.fitness
-            fit_c = self.pop[c].target.fitness
+            # The better agents have the smaller costs, also in maximization problems
+            sign = 1 if self.problem.minmax == "min" else -1
+            fit_a = sign * self.pop[a].target.fitness
+            fit_b = sign * self.pop[b].target.fitness
+            fit_c = sign * self.pop[c].target.fitness
             omg1 = np.max([fit_a, fit_b, fit_c])
             MM1 = np.array([fit_a - fit_b, fit_a - fit_c, fit_b - fit_c])
 
@@ -98,9 +100,9 @@ class OriginalINFO(Optimizer):
                 w2 * (self.pop[a].solution - self.pop[c].solution) +
                 w3 * (self.pop[b].solution - self.pop[c].solution)) / (Wt1 + 1) + epsilon
 
-            fit_1 = self.g_best.target.fitness
-            fit_2 = better.target.fitness
-            fit_3 = g_worst.target.fitness
+            fit_1 = sign * self.g_best.target.fitness
+            fit_2 = sign * better.target.fitness
+            fit_3 = sign * g_worst.target.fitness
             omg2 = np.max([fit_1, fit_2, fit_3])
             MM2 = np.array([fit_1 - fit_2, fit_1 - fit_3, fit_2 - fit_3])
             w4 = np.cos(MM2[0] + np.pi) * np.exp(-np.abs(MM2[0] / omg2))        # Eq. (4.7)
-- 
2.43.0


From d7f9d74746baef8fd38995292e219b4e71b65cc5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 147/183] fix: OriginalSBO preferred the worse bowers in
 maximization problems

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index 9ad2168..c2e4279 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -198,7 +198,8 @@ class OriginalSBO(DevSBO):
         # (percent of the difference between the upper and lower limit (Eq. 7))
         self.sigma = self.psw * (self.problem.ub - self.problem.lb)
         ## Calculate the probability of bowers using Eqs. (1) and (2)
-        fx_list = np.array([agent.target.fitness for agent in self.pop])
+        # The better bowers have the smaller costs, also in maximization problems
+        fx_list = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
         fit_list = fx_list.copy()
         for idx in range(0, self.pop_size):
             if fx_list[idx] < 0:
-- 
2.43.0


From 07847f6e8d6654a74cd09b530a428b696120562d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 148/183] fix: AAA gave the worse colonies more energy and
 friction in maximization problems

---
 mealpy/bio_based/AAA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 401bf2f..b752476 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -149,8 +149,9 @@ class OriginalAAA(Optimizer):
         Args:
             epoch: The current iteration
         """
-        energy = self.calculate_energy(self.alg_size_matrix, self.problem.minmax)
-        alg_friction = self.calculate_friction(self.alg_size_matrix, self.problem.minmax)
+        # The better colonies are the larger ones in both kinds of problems
+        energy = self.calculate_energy(self.alg_size_matrix)
+        alg_friction = self.calculate_friction(self.alg_size_matrix)
         # 1. Helical Movement Phase
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy()
-- 
2.43.0


From 01a2888c1fd7aabbdf92fd0cf1eba328dd12f993 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 149/183] fix: CCO kept the worse positions in maximization
 problems

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From 605862f207e02b6bfc5947e5b36586e89f25d85d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 150/183] fix: HCO reversed the velocity in maximization
 problems

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index f06e371..c6ea7dd 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -132,7 +132,7 @@ class OriginalHCO(Optimizer):
         RR = (self.g_best.target.fitness - fits) ** 2
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
-        LL = (self.g_best.target.fitness - fit_mean)
+        LL = (self.g_best.target.fitness - fit_mean) * (1 if self.problem.minmax == "min" else -1)
         VV = lamda * (ll / (4 * neu * LL))
         pop_new = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 475c3b4a78fd0313005901669bfeb145e461e628 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 151/183] fix: ICA took the strongest empire as the weakest one
 in maximization problems

---
 mealpy/human_based/ICA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index ceba0fb..ac80617 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -109,7 +109,8 @@ class OriginalICA(Optimizer):
         self.pop_empires = [agent.copy() for agent in self.pop[:self.empire_count]]
         self.pop_colonies = [agent.copy() for agent in self.pop[self.empire_count:]]
 
-        cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
+        # The better empires have the smaller costs, also in maximization problems
+        cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires]) * (1 if self.problem.minmax == "min" else -1)
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
         cost_sum = np.sum(cost_empires_list_normalized)
         prob_empires_list = np.abs(cost_empires_list_normalized / cost_sum) if cost_sum != 0 else np.ones(self.empire_count) / self.empire_count
@@ -175,7 +176,7 @@ class OriginalICA(Optimizer):
             fit_list = np.array([agent.target.fitness for agent in colonies])
             fit_empire = self.pop_empires[idx].target.fitness + (self.zeta * np.mean(fit_list) if len(colonies) > 0 else 0)
             cost_empires_list.append(fit_empire)
-        cost_empires_list = np.array(cost_empires_list)
+        cost_empires_list = np.array(cost_empires_list) * (1 if self.problem.minmax == "min" else -1)
         # Find possession probability of each empire based on its total power
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
         prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))  # Vector P
-- 
2.43.0


From 591864b1ffde95fce518016f687c8ebd3020e043 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 152/183] fix: IMODE learned from the failed trials in
 maximization problems

---
 mealpy/sota_based/IMODE.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..afe2955 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
@@ -290,7 +290,8 @@ class OriginalIMODE(Optimizer):
         op1_mask, op2_mask, op3_mask = self._select_operator_indices()
         fits = np.array([agent.target.fitness for agent in self.pop])
         fits_child = np.array([agent.target.fitness for agent in pop_new])
-        relative_improvements = np.maximum(0, (fits - fits_child) / np.abs(fits))
+        gains = fits - fits_child if self.problem.minmax == "min" else fits_child - fits
+        relative_improvements = np.maximum(0, gains / np.abs(fits))
 
         # Update archive with improved solutions
         if np.any(improvement_mask):
-- 
2.43.0


From 313bbfa67ad52b9dff22b87ea5fd77a37c70247a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 153/183] fix: FA gave the worse fireworks more sparks in
 maximization problems

---
 mealpy/swarm_based/FA.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 20d913f..1840baa 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -87,13 +87,14 @@ class OriginalFA(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
-        fit_list = sorted(fit_list)
+        # The better fireworks have the smaller costs, also in maximization problems
+        costs = np.array([agent.target.fitness for agent in self.pop]) * (1 if self.problem.minmax == "min" else -1)
+        fit_list = sorted(costs)
         pop_new = []
         for idx in range(0, self.pop_size):
-            si = self.max_sparks * (fit_list[-1] - self.pop[idx].target.fitness) / \
+            si = self.max_sparks * (fit_list[-1] - costs[idx]) / \
                  (self.pop_size * fit_list[-1] - np.sum(fit_list) + self.EPSILON)
-            Ai = self.max_ea * (self.pop[idx].target.fitness - fit_list[0]) / \
+            Ai = self.max_ea * (costs[idx] - fit_list[0]) / \
                  (np.sum(fit_list) - fit_list[0] + self.EPSILON)
             if si < self.p_a * self.max_sparks:
                 si_ = int(round(self.p_a * self.max_sparks) + 1)
-- 
2.43.0


From 64d2d070e308013510d5e68f73e641d9268cad31 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 154/183] fix: CRO removed the best corals in maximization
 problems

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index f7e4596..7977b87 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -142,7 +142,7 @@ class OriginalCRO(Optimizer):
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
             return self.pop[idx].target.fitness
-        return sorted(self.occupied_idx_list, key=reef_fitness)
+        return sorted(self.occupied_idx_list, key=reef_fitness, reverse=self.problem.minmax == "max")
 
     def broadcast_spawning_brooding__(self):
         # Step 1a
-- 
2.43.0


From 03e8dcc77e7850428d42aa48d3b6e19ef58682dc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 155/183] fix: NGO moved towards the worse prey in maximization
 problems

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From 66ebb82f1283267f040fca47df3bac0ac8c26d79 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 156/183] fix: EEFO moved around the worse eel in maximization
 problems

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From 2fa0fcbeae94bfeb6b75b094474500b7a33e1c1a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 157/183] fix: WMQIMRFO moved to the minimum of the parabola in
 maximization problems

---
 mealpy/swarm_based/MRFO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/MRFO.py b/mealpy/swarm_based/MRFO.py
index 1e337ed..14e1fcf 100644
--- a/mealpy/swarm_based/MRFO.py
+++ b/mealpy/swarm_based/MRFO.py
@@ -278,6 +278,8 @@ class WMQIMRFO(Optimizer):
             if idx == self.pop_size-1:
                 idx2, idx3 = 0, 1
             f1, f2, f3 = self.pop[idx].target.fitness, self.pop[idx2].target.fitness, self.pop[idx3].target.fitness
+            if self.problem.minmax == "max":   # The maximum of f is the minimum of -f
+                f1, f2, f3 = -f1, -f2, -f3
             x1, x2, x3 = self.pop[idx].solution, self.pop[idx2].solution, self.pop[idx3].solution
             a = f1 / ((x1 - x2) * (x1 - x3) + self.EPSILON) + f2 / ((x2 - x1) * (x2 - x3) + self.EPSILON) + f3 / ((x3 - x1) * (x3 - x2) + self.EPSILON)
             gx = ((x3 ** 2 - x2 ** 2) * f1 + (x1 ** 2 - x3 ** 2) * f2 + (x2 ** 2 - x1 ** 2) * f3) / (2 * ((x3 - x2) * f1 + (x1 - x3) * f2 + (x2 - x1) * f3) + self.EPSILON)
-- 
2.43.0


From dac62bd4dc039afe51e03dba39e240a144705386 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 158/183] fix: ChameleonSA lost the personal best positions,
 which were the current agents themselves

---
 mealpy/swarm_based/ChameleonSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ChameleonSA.py b/mealpy/swarm_based/ChameleonSA.py
index 0032ed3..f4eeb50 100644
--- a/mealpy/swarm_based/ChameleonSA.py
+++ b/mealpy/swarm_based/ChameleonSA.py
@@ -106,7 +106,7 @@ class OriginalChameleonSA(Optimizer):
         self.prev_velocities = None
 
     def before_main_loop(self):
-        self.pop_personal = self.pop.copy()
+        self.pop_personal = [agent.copy() for agent in self.pop]
         self.velocities = np.zeros((self.pop_size, self.problem.n_dims))
         self.prev_velocities = np.zeros((self.pop_size, self.problem.n_dims))
 
@@ -255,7 +255,7 @@ class IChameleonSA(Optimizer):
             if self.mode in self.AVAILABLE_MODES:
                 self.pop = self.update_target_for_population(self.pop)
         self.V = np.zeros((self.pop_size, self.problem.n_dims))
-        self.pop_personal = self.pop.copy()
+        self.pop_personal = [agent.copy() for agent in self.pop]
 
     def evolve(self, epoch):
         mu = np.exp(-(3.5 * epoch/ self.epoch) ** 3)  # Eq. (2)
-- 
2.43.0


From 00f2350b75e202177b671972c5f33f1335c1c56d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 159/183] fix: QSA gave the better servers the shorter queues
 in maximization problems

---
 mealpy/human_based/QSA.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 202f7f3..56cb386 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -85,7 +85,8 @@ class DevQSA(Optimizer):
 
     def update_business_1__(self, pop=None, current_epoch=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        # The better agents have the smaller costs, also in maximization problems
+        t1, t2, t3 = np.array([agent.target.fitness for agent in pop[:3]]) * (1 if self.problem.minmax == "min" else -1)
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         case = None
         for idx in range(self.pop_size):
@@ -127,7 +128,8 @@ class DevQSA(Optimizer):
 
     def update_business_2__(self, pop=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        # The better agents have the smaller costs, also in maximization problems
+        t1, t2, t3 = np.array([agent.target.fitness for agent in pop[:3]]) * (1 if self.problem.minmax == "min" else -1)
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
         if min(t1, t2, t3) > 1.0e-005:
@@ -321,7 +323,8 @@ class LevyQSA(DevQSA):
 
     def update_business_2__(self, pop=None, current_epoch=None):
         A1, A2, A3 = pop[0].solution, pop[1].solution, pop[2].solution
-        t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
+        # The better agents have the smaller costs, also in maximization problems
+        t1, t2, t3 = np.array([agent.target.fitness for agent in pop[:3]]) * (1 if self.problem.minmax == "min" else -1)
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
         if min(t1, t2, t3) > 1.0e-6:
-- 
2.43.0


From c2d0f9e220ee19b1b1fefc4e3875baec7e50e400 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 160/183] fix: HGSO replaced the best agents instead of the
 worst ones in minimization problems

---
 mealpy/physics_based/HGSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 812fbbe..6d0a70f 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -127,12 +127,12 @@ class OriginalHGSO(Optimizer):
         ## Rank and select the number of worst agents using Eq. 11
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
-        sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        _, sorted_id_pos = self.get_sorted_population(self.pop, self.problem.minmax)
 
         pop_new = []
         pop_idx = []
         for item in range(N_w):
-            id = sorted_id_pos[item]
+            id = sorted_id_pos[-1 - item]
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 7f5f49389dcdd8fd3360ecb4739adba0e7d965f9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 161/183] fix: OrcaOA gave the better orcas the larger energies
 in maximization problems

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index cdae738..c57f8ef 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -74,7 +74,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = (fit_list - self.g_best.target.fitness) * (1 if self.problem.minmax == "min" else -1)
         e_min = np.min(e)
         e_max = np.max(e)
 
-- 
2.43.0


From bca68334b82f4bf3cb9dd5b368058432aaf0d21d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 162/183] fix: SRSR took the largest worsening as the best
 improvement in maximization problems

---
 mealpy/swarm_based/SRSR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 7f46129..a9e8340 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -123,7 +123,7 @@ class OriginalSRSR(Optimizer):
 
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
-            self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            self.pop[idx].target_move = (self.pop[idx].target.fitness - self.pop[idx].target_new.fitness) * (1 if self.problem.minmax == "min" else -1)
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
@@ -161,7 +161,7 @@ class OriginalSRSR(Optimizer):
 
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
-            self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            self.pop[idx].target_move = (self.pop[idx].target.fitness - self.pop[idx].target_new.fitness) * (1 if self.problem.minmax == "min" else -1)
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
-- 
2.43.0


From 340539ab2babb2a01d0594356d3d13190c311fc8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 163/183] fix: ESO kept the worse positions in maximization
 problems

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index d70d4e5..877473d 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -161,7 +161,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From 1b9b6db33737fe523195c351593b346daaf0e2c4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 164/183] fix: ESOA followed reversed gradients in maximization
 problems

---
 mealpy/swarm_based/ESOA.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index da641ed..ab7f505 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -82,9 +82,13 @@ class OriginalESOA(Optimizer):
         agent = self.generate_empty_agent(solution)
         agent.target = self.get_target(agent.solution)
         agent.local_target = agent.target.copy()
-        agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
+        agent.g = (np.sum(agent.weights * agent.solution) - self.get_cost(agent.target)) * agent.solution
         return agent
 
+    def get_cost(self, target):
+        # The better positions have the smaller costs, also in maximization problems
+        return target.fitness if self.problem.minmax == "min" else -target.fitness
+
     def initialize_variables(self):
         self.beta1 = 0.9
         self.beta2 = 0.99
@@ -100,13 +104,13 @@ class OriginalESOA(Optimizer):
         for idx in range(0, self.pop_size):
             # Individual Direction
             p_d = self.pop[idx].local_solution - self.pop[idx].solution
-            p_d = p_d * (self.pop[idx].local_target.fitness - self.pop[idx].target.fitness)
+            p_d = p_d * (self.get_cost(self.pop[idx].local_target) - self.get_cost(self.pop[idx].target))
             p_d = p_d / (np.sum(p_d) **2 + self.EPSILON)
             d_p = p_d + self.pop[idx].g
 
             # Group Direction
             c_d = self.g_best.solution - self.pop[idx].solution
-            c_d = c_d * (self.g_best.target.fitness - self.pop[idx].target.fitness)
+            c_d = c_d * (self.get_cost(self.g_best.target) - self.get_cost(self.pop[idx].target))
             c_d = c_d / (np.sum(c_d)**2 + self.EPSILON)
             d_g = c_d + self.g_best.g
 
@@ -159,7 +163,7 @@ class OriginalESOA(Optimizer):
                 if self.compare_target(y_best, self.pop[idx].local_target, self.problem.minmax):
                     self.pop[idx].local_solution = x_best
                     self.pop[idx].local_target = y_best
-                    self.pop[idx].g = (np.sum(self.pop[idx].weights * self.pop[idx].solution) - self.pop[idx].target.fitness) * self.pop[idx].solution
+                    self.pop[idx].g = (np.sum(self.pop[idx].weights * self.pop[idx].solution) - self.get_cost(self.pop[idx].target)) * self.pop[idx].solution
             else:
                 if self.generator.random() < 0.3:
                     self.pop[idx].solution = x_best
-- 
2.43.0


From 6a5e66857487cff190fd9bafb8236c315f8ecf53 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 165/183] fix: RIME updated the better agents instead of the
 worse ones in maximization problems

---
 mealpy/physics_based/RIME.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/RIME.py b/mealpy/physics_based/RIME.py
index e6ef59b..b3e84a4 100644
--- a/mealpy/physics_based/RIME.py
+++ b/mealpy/physics_based/RIME.py
@@ -77,7 +77,8 @@ class OriginalRIME(Optimizer):
         """
         rime_factor = (self.generator.random() - 0.5)*2*np.cos(np.pi*epoch/(self.epoch/10)) * (1 - np.round(epoch*self.sr/self.epoch) / self.sr)
         ee = np.sqrt((epoch+1)/self.epoch)
-        fits = np.array([agent.target.fitness for agent in self.pop]).reshape((1, -1))
+        # The better agents have the smaller costs, also in maximization problems
+        fits = np.array([agent.target.fitness for agent in self.pop]).reshape((1, -1)) * (1 if self.problem.minmax == "min" else -1)
         fits_norm = fits / np.linalg.norm(fits, axis=1, keepdims=True)
         LB = self.problem.lb
         UB = self.problem.ub
-- 
2.43.0


From 4f93022b8dd7f26ee4d04853ffedac745bce9eef Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 166/183] fix: the EFO variants crashed with populations too
 small for the sizes of their fields

---
 mealpy/physics_based/EFO.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..b48f2ba 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,13 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def get_field_bounds__(self):
+        # The number of agents in the positive field, and the first agents of the neutral and of the negative field
+        top = max(1, int(self.pop_size * self.p_field))
+        middle = min(int((self.pop_size * self.p_field) + 1), self.pop_size - 1)
+        bottom = min(int(self.pop_size * (1 - self.n_field)), self.pop_size - 1)
+        return top, middle, bottom
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -86,10 +93,11 @@ class DevEFO(Optimizer):
             epoch (int): The current iteration
         """
         pop_new = []
+        top, middle, bottom = self.get_field_bounds__()
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
-            r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            r_idx1 = self.generator.integers(0, top)  # top
+            r_idx2 = self.generator.integers(bottom, self.pop_size)  # bottom
+            r_idx3 = self.generator.integers(middle, max(middle + 1, bottom))  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +196,12 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        top, middle, bottom = self.get_field_bounds__()
+        self.r_index1 = self.generator.integers(0, top, (self.problem.n_dims, self.epoch))
         # random particles from positive field
-        self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
+        self.r_index2 = self.generator.integers(bottom, self.pop_size, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(middle, max(middle + 1, bottom), (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From bd161d8a50c591c6273dc74197f065d0edd41fb9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 167/183] fix: JADE crashed when no agent was in the best pt
 percent of the population

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 5848aa8..5ce7687 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From 6ed4c185b0f4cf868b50c6ee978f6c7984f73997 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 168/183] fix: SHADE crashed with fewer than 10 agents

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index f0dd529..874e889 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -113,8 +113,8 @@ class OriginalSHADE(Optimizer):
                 break
             list_cr_new[idx] = cr
             list_f_new[idx] = f
-            p = self.generator.uniform(2 / self.pop_size, 0.2)
-            top = int(self.pop_size * p)
+            p = self.generator.uniform(min(2 / self.pop_size, 0.2), 0.2)
+            top = max(1, int(self.pop_size * p))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From c91b37338fe6e5791c9c997df4a18e77ad5eea60 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 169/183] fix: BeesA crashed when the ratios left no bee for a
 selected site

---
 mealpy/swarm_based/BeesA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 5e29211..6817dd2 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -212,8 +212,8 @@ class OriginalBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
-        self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
-        self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
+        self.n_selected_bees_local = max(1, int(round(self.selected_site_bee_ratio * self.pop_size)))
+        self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
-- 
2.43.0


From 605324a783b6f675b114e4d156f069df19a8f18a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 170/183] fix: CA crashed when the accepted rate left no
 accepted agent

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 17d3515..55c95c6 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,7 +71,7 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-- 
2.43.0


From 4f34481f156d851f10d587482a43abe66a849fe8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 171/183] fix: CDDO crashed with fewer agents than the size of
 the pattern matrix

---
 mealpy/human_based/CDDO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index b56df44..5e2e20b 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -122,7 +122,7 @@ class OriginalCDDO(Optimizer):
                 self.SR = self.generator.integers(6, 11) / 10
             elif 1.5 < self.list_gr[idx] < 2:
                 # Consider the learnt patterns
-                pos_new = pattern[self.generator.integers(0, self.pattern_size)].solution - self.creativity_rate * self.pop_local[idx].solution
+                pos_new = pattern[self.generator.integers(0, len(pattern))].solution - self.creativity_rate * self.pop_local[idx].solution
                 self.LR = self.generator.integers(0, 6) / 10
                 self.SR = self.generator.integers(0, 6) / 10
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 507586e5bc3fb84dc1bb80e44df6b3803b19e147 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 172/183] fix: INFO crashed with 5 agents

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index d06d829..f603a48 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From cac15641a31636ce140432089a6601c5228b6957 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 173/183] fix: LSHADEcnEpSin crashed with fewer agents than its
 minimum population size

---
 mealpy/sota_based/LSHADEcnEpSin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index b4382db..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
-- 
2.43.0


From 09805127c99674af07c9164d3c65ae18301e8800 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 174/183] fix: SAP_DE shrank small populations below the agents
 that its mutation needs

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 5ce7687..bec2064 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -567,7 +567,7 @@ class SAP_DE(Optimizer):
         if m_new <= 4:
             m_new = self.fixed_pop_size + int(self.generator.uniform(0, 4))
         elif m_new > 4 * self.fixed_pop_size:
-            m_new = self.fixed_pop_size - int(self.generator.uniform(0, 4))
+            m_new = max(4, self.fixed_pop_size - int(self.generator.uniform(0, 4)))
         ## Change population by population size
         if m_new <= self.pop_size:
             self.pop = pop[:m_new]
-- 
2.43.0


From 1bff98ce1fb9ec44ef13483fdb68af2189c1eb59 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 175/183] fix: ABFO divided by zero with the accepted value
 N_adapt=0

---
 mealpy/swarm_based/BFO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 971d9f7..38e6298 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -298,13 +298,13 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(1, self.N_adapt))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(1, self.N_adapt)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.Ped:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
-- 
2.43.0


From 65b77ffbefa04baa96c414ed60a69f74b65cd01b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 176/183] fix: COA crashed with the accepted value n_coyotes=2

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 2ecd5a1..96be06b 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -103,7 +103,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From 6b8d812fa9f68d7497dbda1472259b9b642f76dd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 177/183] fix: SquirrelSA crashed when it had no acorn trees or
 not more squirrels than food sources

---
 mealpy/swarm_based/SquirrelSA.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 6a1961c..8cc5be6 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -88,7 +88,8 @@ class OriginalSquirrelSA(Optimizer):
         self.surface_area = 154e-4  # Surface area (m²)
         self.height_loss = 8  # Height loss during gliding (m)
         # Assign roles: 1 hickory, 3 acorn, rest normal trees
-        self.n_acorn_trees = self.n_food_sources - 1  # Number of acorn trees
+        self.n_trees = min(self.n_food_sources, self.pop_size)  # No more food sources than squirrels
+        self.n_acorn_trees = self.n_trees - 1  # Number of acorn trees
 
     def calculate_gliding_distance(self):
         """Calculate gliding distance based on aerodynamics"""
@@ -134,10 +135,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Case 2: Normal squirrels move toward acorn trees
-        indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
+        indices_random = np.array(list(range(self.pop_size - self.n_trees)))
         self.generator.shuffle(indices_random)
-        indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        indices_random = indices_random + self.n_trees # True indices of normal squirrels
+        if self.n_acorn_trees > 0:
+            n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_trees - 1))
+        else:       # No acorn tree, all the normal squirrels move toward hickory tree
+            n_cut = len(indices_random)
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
             jdx = self.generator.integers(0, self.n_acorn_trees) + 1
@@ -170,13 +174,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Seasonal monitoring condition
-        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_food_sources) ])
+        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, max(2, self.n_trees)) ])
         # Calculate minimum seasonal constant
         S_min = (10e-6 / 365) * (epoch / (self.epoch / 2.5))
 
-        if S_c < S_min:
+        if S_c < S_min and len(indices_random) > 0:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_trees) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From cc88d92da100d9a72b616248a5cdf5cee81dc368 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:15 +0000
Subject: [PATCH 178/183] fix: SFO crashed when the attack power went below -1,
 with the default settings after 6250 epochs

---
 mealpy/swarm_based/SFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 4f80a8a..531aad3 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -109,7 +109,7 @@ class OriginalSFO(Optimizer):
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
-            beta = int(self.problem.n_dims * np.abs(AP))
+            beta = min(self.problem.n_dims, int(self.problem.n_dims * np.abs(AP)))
             ### Random self.generator.choice number of sardines which will be updated their position
             list1 = self.generator.choice(range(0, self.s_size), alpha)
             for idx in range(0, self.s_size):
-- 
2.43.0


From dd16e6aec9dcd7126d0c1b981e30a51cf51b11e8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:15 +0000
Subject: [PATCH 179/183] fix: CSO crashed with the tournament strategy and a
 seeking memory pool below 4

---
 mealpy/swarm_based/CSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSO.py b/mealpy/swarm_based/CSO.py
index 5415e64..44a996e 100644
--- a/mealpy/swarm_based/CSO.py
+++ b/mealpy/swarm_based/CSO.py
@@ -138,7 +138,7 @@ class OriginalCSO(Optimizer):
         if self.selected_strategy == 0:  # Best fitness-self
             cat, _ = self.get_best_agent(candidate_cats, self.problem.minmax)
         elif self.selected_strategy == 1:  # Tournament
-            k_way = 4
+            k_way = min(4, self.smp)
             idx = self.generator.choice(range(0, self.smp), k_way, replace=False)
             cats_k_way = [candidate_cats[_] for _ in idx]
             cat, _ = self.get_best_agent(cats_k_way, self.problem.minmax)
-- 
2.43.0


From bddb64eab1bb86e139eef58afc194c33fcc90612 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:15 +0000
Subject: [PATCH 180/183] fix: DS_GWO crashed with more groups than agents

---
 mealpy/swarm_based/GWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index bf1ae10..664f5ed 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -881,12 +881,13 @@ class DS_GWO(Optimizer):
         4. Set delta candidate farthest from alpha as beta
         """
         # Divide population into n_groups
-        group_size = self.pop_size // self.n_groups
+        n_groups = min(self.n_groups, self.pop_size)     # No empty groups
+        group_size = self.pop_size // n_groups
         self.delta_candidates = []
 
-        for idx in range(self.n_groups):
+        for idx in range(n_groups):
             start_idx = idx * group_size
-            if idx == self.n_groups - 1:  # Last group takes remaining wolves
+            if idx == n_groups - 1:  # Last group takes remaining wolves
                 end_idx = self.pop_size
             else:
                 end_idx = (idx + 1) * group_size
-- 
2.43.0


From f72dfc375a3c482be9c098ed537bf7ba3086230d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:15 +0000
Subject: [PATCH 181/183] fix: FLA moved agents that do not exist with accepted
 values of C3 and C4

---
 mealpy/physics_based/FLA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index a2910f5..4a74ead 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -126,7 +126,7 @@ class OriginalFLA(Optimizer):
             tdo = self.C5 * tf - self.generator.random()
             if tdo < self.generator.random():
                 m1n, m2n = self.C3*self.n1, self.C4*self.n1
-                nt12 = int(np.round((m2n - m1n)*self.generator.random() + m1n))
+                nt12 = int(np.clip(np.round((m2n - m1n)*self.generator.random() + m1n), 0, self.n1))
                 for idx in range(0, nt12):
                     dfg = self.generator.integers(1, 3)
                     jj = -self.DD * (xm2 - xm1) / (np.linalg.norm(self.best2.solution - self.pop1[idx].solution) + self.EPSILON)
-- 
2.43.0


From af396235311baa22711da656603fb55dd40040d5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 182/183] fix: QleSCA crashed once all its agents were at the
 same position

---
 mealpy/math_based/SCA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/math_based/SCA.py b/mealpy/math_based/SCA.py
index e209657..2123674 100644
--- a/mealpy/math_based/SCA.py
+++ b/mealpy/math_based/SCA.py
@@ -295,6 +295,8 @@ class QleSCA(DevSCA):
         # calculate the longest diagonal length L
         distances = np.sqrt(np.sum((agents[:, np.newaxis, :] - agents) ** 2, axis=-1))
         L = np.max(distances)
+        if L == 0:      # All agents are at the same position
+            return 0.
         # calculate the density
         return 1 / (len(pop) * L) * np.sum(np.sqrt(np.sum((agents - Y) ** 2, axis=1)))
 
@@ -305,7 +307,7 @@ class QleSCA(DevSCA):
         # calculate the denominator of the distance
         denominator = np.sum([np.sqrt(np.sum((ub - lb) ** 2)) for _ in range(0, len(pop))])
         # calculate the distance
-        return numerator / denominator
+        return numerator / denominator if denominator > 0 else 0.
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From 62a25b225429874e986b9d344f950e21f8518e76 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 183/183] fix: DE crashed with strategy 3 and the accepted
 population of 5 agents

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index bec2064..614379b 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -127,7 +127,7 @@ class OriginalDE(Optimizer):
                     self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         elif self.strategy == 3:
             for idx in range(0, self.pop_size):
-                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=False)
+                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=self.pop_size < 6)
                 pos_new = self.pop[idx_list[0]].solution + self.wf * (self.pop[idx_list[1]].solution - self.pop[idx_list[2]].solution) + \
                           self.wf * (self.pop[idx_list[3]].solution - self.pop[idx_list[4]].solution)
                 pos_new = self.mutation__(self.pop[idx].solution, pos_new)
-- 
2.43.0

