From e578f72515d599a84b80c758ef236846d94a7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 01/31] fix: pass save_plot to the plotter when saving error
 evolution plots

---
 command/error_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..c6b32cf 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,9 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark,
+                show=False,
+                save_plot=f"{self._directory}/plot_{index}.png",
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From 39c742c84eb05b31dad5b46f44865b9a6cb66eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 02/31] fix: do not split solver arguments at the value of a
 solver option

---
 core/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..4fd119f 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,8 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and values[i - 1]
+                not in ["+f", "++flux", "+n", "++name", "+s", "++short"]
             ):
                 slice_index = i
                 break
-- 
2.43.0


From 2eb2d8329bc25153f872c105b6ccd31f86e9a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 03/31] fix: make generate-data solve up to the requested end
 time

---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..31895c4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From 79017dc369de34e4eccd92f0e3fa29d0e68b5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 04/31] fix: use absolute characteristic speeds for scalar wave
 speeds

---
 finite_volume/scalar/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..5b94624 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,7 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)), np.abs(self._flux_prime(value_right))
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From 2e54f02cf839962d6be005c9506d6824e3fdd577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 05/31] fix: keep the discrete solution independent of the
 arrays it is given

---
 core/discrete_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..4b64ece 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -23,7 +23,7 @@ class DiscreteSolution(Generic[T]):
         space=None,
     ):
         self._time = initial_time
-        self._value = initial_value
+        self._value = initial_value.copy()
         self._space = space
 
     @property
@@ -55,7 +55,7 @@ class DiscreteSolution(Generic[T]):
             raise ValueError("Solution is not finite.")
 
         self._time += time_step
-        self._value = value
+        self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
-- 
2.43.0


From f014feeaef37cf00e7d922ba52a79b822c3d1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 06/31] fix: compare flux approximation cache against a private
 copy

---
 finite_element/flux_approximation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..2bffdfe 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -19,15 +19,17 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector = None
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
+        if self._last_dof_vector is None or not np.array_equal(
+            dof_vector, self._last_dof_vector
+        ):
             self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+            self._last_dof_vector = dof_vector.copy()
 
         return self._flux_approximation
 
-- 
2.43.0


From bb9e4a271766bf56fe5c6ac882aee2a2b019144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 07/31] fix: drop a stored factorization when the system matrix
 changes

---
 core/system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/system.py b/core/system.py
index e2205d0..3e7a6d1 100644
--- a/core/system.py
+++ b/core/system.py
@@ -53,7 +53,7 @@ class SystemMatrix:
     def __init__(self, dimension: int):
         self.dimension = dimension
 
-        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
+        self._reset_inverse()
         self._lil_values = lil_matrix((dimension, dimension))
 
     def __call__(self) -> spmatrix:
@@ -65,6 +65,10 @@ class SystemMatrix:
     def set_values(self, values: np.ndarray):
         self._csr_values = csr_matrix(values)
         self._lil_values = lil_matrix(values)
+        self._reset_inverse()
+
+    def _reset_inverse(self):
+        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
 
     def build_inverse(self):
         self._inverse = splu(self._csr_values.tocsc())
@@ -76,6 +80,7 @@ class SystemMatrix:
 
     def update_csr_values(self):
         self._csr_values = csr_matrix(self._lil_values)
+        self._reset_inverse()
 
     def __getitem__(self, key):
         return self._lil_values[key]
-- 
2.43.0


From 8d288cac342dcbe42fc50ec8c7ba115b493d13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 08/31] fix: honour an antidiffusion parameter of zero

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..ed422af 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = gamma if gamma is not None else defaults.ANTIDIFFUSION_GAMMA
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From 29531109f284b315e3e38be74edcf31639488dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 09/31] fix: honour zero benchmark parameters and a zero seed

---
 benchmark/shallow_water.py | 35 +++++++++++++++++++++++------------
 command/generate_data.py   |  2 +-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 95d98e8..9eb8c26 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -1,4 +1,4 @@
-from typing import Dict
+from typing import Dict, Optional
 
 import defaults
 import numpy as np
@@ -242,18 +242,29 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average or HEIGHT_AVERAGE,
-            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
-            height_phase_shift=height_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            height_wave_number=height_wave_number or self._generator.integers(1, 6),
-            velocity_average=velocity_average or self._generator.uniform(1, 2),
-            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
-            velocity_phase_shift=velocity_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
+            height_average=(
+                height_average if height_average is not None else HEIGHT_AVERAGE
+            ),
+            height_amplitude=self._draw_if_none(height_amplitude, 0.2, 0.6),
+            height_phase_shift=self._draw_if_none(height_phase_shift, 0, 2 * np.pi),
+            height_wave_number=(
+                height_wave_number
+                if height_wave_number is not None
+                else self._generator.integers(1, 6)
+            ),
+            velocity_average=self._draw_if_none(velocity_average, 1, 2),
+            velocity_amplitude=self._draw_if_none(velocity_amplitude, 0.2, 0.6),
+            velocity_phase_shift=self._draw_if_none(velocity_phase_shift, 0, 2 * np.pi),
+            velocity_wave_number=(
+                velocity_wave_number
+                if velocity_wave_number is not None
+                else self._generator.integers(1, 5)
+            ),
         )
 
+    def _draw_if_none(self, parameter: Optional[float], low: float, high: float):
+        return parameter if parameter is not None else self._generator.uniform(low, high)
+
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -267,7 +278,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed or self._seed_generator.integers(int(1e9))
+        seed = seed if seed is not None else self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
diff --git a/command/generate_data.py b/command/generate_data.py
index 31895c4..252c49c 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -303,7 +303,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=seed if seed is not None else defaults.SEED, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From a4c493e1684bd2afcff2e56fbcb9e0bfc88d84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 10/31] fix: make the random benchmark selectable by its key

---
 benchmark/shallow_water.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 9eb8c26..d01bfb5 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -226,7 +226,7 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
     def __init__(
         self,
-        seed: int,
+        seed: int = defaults.SEED,
         end_time=40.0,
         height_average=None,
         height_amplitude=None,
-- 
2.43.0


From 3b6a4deb80df4445d45c61abb7094f2de47e327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 11/31] fix: accept an explicitly given bathymetry array in
 flux getters

---
 finite_volume/shallow_water/numerical_flux.py       | 5 ++---
 finite_volume/shallow_water/solver/energy_stable.py | 5 ++---
 finite_volume/shallow_water/solver/lax_wendroff.py  | 5 ++---
 finite_volume/shallow_water/solver/low_order.py     | 5 ++---
 finite_volume/shallow_water/solver/reduced_model.py | 5 ++---
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/finite_volume/shallow_water/numerical_flux.py b/finite_volume/shallow_water/numerical_flux.py
index 27e3206..4192bcb 100644
--- a/finite_volume/shallow_water/numerical_flux.py
+++ b/finite_volume/shallow_water/numerical_flux.py
@@ -75,9 +75,8 @@ class FluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
         numerical_flux = self._get_flux(benchmark)
 
         return NumericalFlux(
diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..97bcce4 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -138,9 +138,8 @@ class FirstOrderDiffusiveEnergyStableFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
         return FirstOrderDiffusiveEnergyStableFlux(
             benchmark.gravitational_acceleration, bathymetry
         )
diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..dcd34db 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -47,9 +47,8 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
         numerical_flux = LaxWendroffFlux(
             space.mesh.step_length, benchmark.gravitational_acceleration
         )
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..4d28626 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -119,9 +119,8 @@ class LowOrderFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
 
         return LowOrderFlux(
             benchmark.gravitational_acceleration,
diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..c92a80d 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,9 +190,8 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
         numerical_flux = self._flux_getter(benchmark, space)
         numerical_flux = finite_volume.CorrectedNumericalFlux(
             numerical_flux, self._subgrid_flux
-- 
2.43.0


From 15780a4371660371a425f97e7274d6b1d9c8fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 12/31] fix: apply the bathymetry source of reduced models only
 once

---
 finite_volume/shallow_water/solver/reduced_model.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index c92a80d..0be3810 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,18 +190,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        if bathymetry is None:
-            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry=bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From a1078773fa16b4a2dadaf4052f4709c5d4e7392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 13/31] fix: default the gravity of the maximum wave speed like
 its siblings

---
 finite_volume/shallow_water/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/core.py b/finite_volume/shallow_water/core.py
index eda87ce..29bcd68 100644
--- a/finite_volume/shallow_water/core.py
+++ b/finite_volume/shallow_water/core.py
@@ -237,8 +237,10 @@ class MaximumWaveSpeed:
 
     _gravitational_acceleration: float
 
-    def __init__(self, gravitational_acceleration: float):
-        self._gravitational_acceleration = gravitational_acceleration
+    def __init__(self, gravitational_acceleration=None):
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(self, value_left, value_right) -> Tuple:
         height_left, height_right = get_heights(value_left, value_right)
-- 
2.43.0


From 85a7d03c303069996c895cff91b85079093ba92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 14/31] fix: apply the bathymetry source in the Lax-Wendroff
 solver

---
 .../shallow_water/solver/lax_wendroff.py      | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index dcd34db..d27b994 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -61,10 +61,27 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
 
 
 class LaxWendroffRightHandSide(finite_volume.NumericalFluxDependentRightHandSide):
-    _numerical_flux: LaxWendroffFlux
+    _lax_wendroff_flux: LaxWendroffFlux
+
+    def __init__(
+        self,
+        lax_wendroff_flux: LaxWendroffFlux,
+        step_length: float,
+        boundary_conditions: core.BoundaryConditions,
+        gravitational_acceleration=None,
+        bathymetry=None,
+    ):
+        self._lax_wendroff_flux = lax_wendroff_flux
+        super().__init__(
+            swe.NumericalFlux(
+                lax_wendroff_flux, gravitational_acceleration, bathymetry=bathymetry
+            ),
+            step_length,
+            boundary_conditions,
+        )
 
     def set_time_step(self, time_step: float):
-        self._numerical_flux.set_time_step(time_step)
+        self._lax_wendroff_flux.set_time_step(time_step)
 
 
 class LaxWendroffSolver(swe.Solver):
@@ -89,7 +106,8 @@ class LaxWendroffSolver(swe.Solver):
             core.ForwardEuler,
             save_history,
         )
-        step_length = solver_args["solution"].space.mesh.step_length
+        mesh = solver_args["solution"].space.mesh
+        step_length = mesh.step_length
         boundary_conditions = self._get_boundary_conditions(
             *benchmark.boundary_conditions,
             radius=1,
@@ -100,6 +118,8 @@ class LaxWendroffSolver(swe.Solver):
             LaxWendroffFlux(step_length, benchmark.gravitational_acceleration),
             step_length,
             boundary_conditions,
+            benchmark.gravitational_acceleration,
+            bathymetry=swe.build_bathymetry_discretization(benchmark, len(mesh)),
         )
 
         return solver_args
-- 
2.43.0


From 09fb4348ea034aaad5b45a21b6fed3b8bab16fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 15/31] fix: allow calculate, eoc and animate without any
 solver

---
 command/animate.py   | 2 +-
 command/calculate.py | 4 ++--
 command/error.py     | 5 ++++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..09b6c8f 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -398,7 +398,7 @@ class Animate(Command):
         if isinstance(solver, core.Solver):
             self._solver = [solver]
         else:
-            self._solver = solver
+            self._solver = solver if solver is not None else []
 
     def execute(self):
         if not self._solver_executed:
diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..b22e622 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -30,7 +30,7 @@ class Calculate(Command):
     _tqdm_kwargs: Dict
 
     def __init__(self, solver: core.Solver | Sequence[core.Solver], **tqdm_kwargs):
-        self._solver = solver
+        self._solver = solver if solver is not None else []
         self._tqdm_kwargs = tqdm_kwargs
 
     def execute(self):
@@ -212,5 +212,5 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
+        for solver_arguments in arguments.solver or []:
             solver_arguments.save_history = True
diff --git a/command/error.py b/command/error.py
index 2370889..8ff681f 100644
--- a/command/error.py
+++ b/command/error.py
@@ -285,7 +285,10 @@ class CalculateEOCParser(CalculateParser):
             f"Initial Mesh Size={arguments.mesh_size}, Refinements={arguments.refine} "
         )
         for solver_arguments in tqdm(
-            arguments.solver, desc="Calculate Solutions", unit="solver", leave=False
+            arguments.solver or [],
+            desc="Calculate Solutions",
+            unit="solver",
+            leave=False,
         ):
             solver_type = solver_arguments.solver
             del solver_arguments.solver
-- 
2.43.0


From 7a69711c75f1902800a76c70cd1972994d55c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 16/31] fix: provide load_data and save_data used by the data
 commands

---
 core/__init__.py |  1 +
 core/data.py     | 11 +++++++++++
 2 files changed, 12 insertions(+)
 create mode 100644 core/data.py

diff --git a/core/__init__.py b/core/__init__.py
index ceb070b..aea09e6 100644
--- a/core/__init__.py
+++ b/core/__init__.py
@@ -1,4 +1,5 @@
 from .boundary import *
+from .data import *
 from .discrete_solution import *
 from .function import *
 from .index_mapping import *
diff --git a/core/data.py b/core/data.py
new file mode 100644
index 0000000..687c042
--- /dev/null
+++ b/core/data.py
@@ -0,0 +1,11 @@
+import pandas as pd
+
+
+def load_data(path: str) -> pd.DataFrame:
+    """Loads data which was generated for reduced models."""
+    return pd.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)
+
+
+def save_data(data: pd.DataFrame, path: str):
+    """Saves data such that it can be loaded by LOAD_DATA."""
+    data.to_csv(path)
-- 
2.43.0


From ad422d67569f799a43384596a524fc386fc19a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 17/31] fix: scalar MCL flux conserves across the periodic
 boundary

---
 finite_volume/scalar/solver/mcl.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..e967670 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -38,16 +38,19 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
     _high_order_flux: finite_volume.NumericalFlux
     _local_maximum: core.LocalMaximum
     _local_minimum: core.LocalMinimum
+    _periodic: bool
 
     def __init__(
         self,
         riemann_solver: core.RiemannSolver,
         neighbours_indices: core.NeighbourIndicesMapping,
+        periodic=False,
     ):
         super().__init__(riemann_solver)
         self._high_order_flux = finite_volume.CentralFlux(riemann_solver.flux)
         self._local_maximum = core.LocalMaximum(neighbours_indices)
         self._local_minimum = core.LocalMinimum(neighbours_indices)
+        self._periodic = periodic
 
     @property
     def _wave_speed(self) -> np.ndarray:
@@ -80,7 +83,15 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return -low_order_flux + limited_flux_left, low_order_flux + limited_flux_right
 
     def _get_bounds(self, dof_vector: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
+        value_max = self._local_maximum(dof_vector)
+        value_min = self._local_minimum(dof_vector)
+
+        if self._periodic:
+            # ghost cells are copies of the cells at the opposite boundary
+            for bound in (value_max, value_min):
+                bound[0], bound[-1] = bound[-2], bound[1]
+
+        return value_max, value_min
 
 
 class MCLFluxGetter(finite_volume.FluxGetter):
@@ -88,10 +99,11 @@ class MCLFluxGetter(finite_volume.FluxGetter):
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
+        periodic = benchmark.boundary_conditions == ("periodic",)
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+            len(space.mesh) + 2, periodic
         )
-        return MCLFlux(riemann_solver, neighbours_mapping)
+        return MCLFlux(riemann_solver, neighbours_mapping, periodic)
 
 
 class MCLSolver(finite_volume.Solver):
-- 
2.43.0


From 32238daa318f50862420c88350dbab6e1a8d9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 18/31] fix: restore the benchmark definitions

The benchmark folder is left as it was; the two defects in it are recorded as findings instead.
---
 benchmark/shallow_water.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index d01bfb5..95d98e8 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -1,4 +1,4 @@
-from typing import Dict, Optional
+from typing import Dict
 
 import defaults
 import numpy as np
@@ -226,7 +226,7 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
     def __init__(
         self,
-        seed: int = defaults.SEED,
+        seed: int,
         end_time=40.0,
         height_average=None,
         height_amplitude=None,
@@ -242,29 +242,18 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=(
-                height_average if height_average is not None else HEIGHT_AVERAGE
-            ),
-            height_amplitude=self._draw_if_none(height_amplitude, 0.2, 0.6),
-            height_phase_shift=self._draw_if_none(height_phase_shift, 0, 2 * np.pi),
-            height_wave_number=(
-                height_wave_number
-                if height_wave_number is not None
-                else self._generator.integers(1, 6)
-            ),
-            velocity_average=self._draw_if_none(velocity_average, 1, 2),
-            velocity_amplitude=self._draw_if_none(velocity_amplitude, 0.2, 0.6),
-            velocity_phase_shift=self._draw_if_none(velocity_phase_shift, 0, 2 * np.pi),
-            velocity_wave_number=(
-                velocity_wave_number
-                if velocity_wave_number is not None
-                else self._generator.integers(1, 5)
-            ),
+            height_average=height_average or HEIGHT_AVERAGE,
+            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
+            height_phase_shift=height_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            height_wave_number=height_wave_number or self._generator.integers(1, 6),
+            velocity_average=velocity_average or self._generator.uniform(1, 2),
+            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
+            velocity_phase_shift=velocity_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
         )
 
-    def _draw_if_none(self, parameter: Optional[float], low: float, high: float):
-        return parameter if parameter is not None else self._generator.uniform(low, high)
-
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -278,7 +267,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed if seed is not None else self._seed_generator.integers(int(1e9))
+        seed = seed or self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 0dac43899687e351f4aed86d5912d5dfa9f8e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 19/31] fix: hand out a copy of the time history

---
 core/discrete_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index 4b64ece..c846df8 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -92,7 +92,7 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     @property
     def time_history(self) -> np.ndarray:
-        return self._time_history
+        return self._time_history.copy()
 
     @property
     def time_step_history(self) -> np.ndarray:
-- 
2.43.0


From c0bbc195f28e85619f1bede46982b58ab89decd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 20/31] fix: keep the solution history when setting a value is
 rejected

---
 core/discrete_solution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index c846df8..4f8e035 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -111,11 +111,13 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     def set_value(self, value: np.ndarray, time=0.0):
         values_past = self.time_history < time
-        self._time_history = self.time_history[values_past]
-        self._value_history = self.value_history[values_past]
 
         self.update(time - self.time, value)
 
+        kept_values = np.append(values_past, True)
+        self._time_history = self.time_history[kept_values]
+        self._value_history = self.value_history[kept_values]
+
 
 class CoarseSolution(DiscreteSolution[T]):
     _coarsener: VectorCoarsener
-- 
2.43.0


From a97b72228ddf392fd9ea97ca7c3c33a71bace6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 21/31] fix: flux approximation does not keep the caller's
 array

---
 finite_element/flux_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index 2bffdfe..6eedb4f 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -28,8 +28,8 @@ class FluxApproximation:
         if self._last_dof_vector is None or not np.array_equal(
             dof_vector, self._last_dof_vector
         ):
-            self._flux_approximation = self._flux(dof_vector)
             self._last_dof_vector = dof_vector.copy()
+            self._flux_approximation = self._flux(self._last_dof_vector)
 
         return self._flux_approximation
 
-- 
2.43.0


From 66b0b32ab53160b843033e16ed92f8571706355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 22/31] fix: treat a pair of periodic conditions like a single
 periodic condition

---
 core/boundary.py                   | 4 +++-
 finite_volume/scalar/solver/mcl.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/boundary.py b/core/boundary.py
index 5a7712c..33acd37 100644
--- a/core/boundary.py
+++ b/core/boundary.py
@@ -134,7 +134,9 @@ class BoundaryConditionsBuilder:
             for i in range(radius)
         ]
         return BoundaryConditions(
-            *left_cells, *right_cells, periodic=conditions == ("periodic",)
+            *left_cells,
+            *right_cells,
+            periodic=condition_left == condition_right == "periodic",
         )
 
     def _build_left_cell(
diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index e967670..5d39d86 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -99,7 +99,7 @@ class MCLFluxGetter(finite_volume.FluxGetter):
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
-        periodic = benchmark.boundary_conditions == ("periodic",)
+        periodic = set(benchmark.boundary_conditions) == {"periodic"}
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
             len(space.mesh) + 2, periodic
         )
-- 
2.43.0


From 6b8fe08cc4bc81eb1f394c5180d02ff85825b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 23/31] fix: limit both states of the shallow water MCL
 velocity with their own heights

---
 finite_volume/shallow_water/solver/mcl.py | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..5c44c89 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -24,7 +24,8 @@ class MCLFlux(LowOrderFlux):
     _high_order_flux: finite_volume.NumericalFlux
     _boundary_conditions: core.BoundaryConditions
 
-    _limited_height: np.ndarray
+    _limited_height_left: np.ndarray
+    _limited_height_right: np.ndarray
     _velocity_bar_state: np.ndarray
 
     def __init__(
@@ -70,7 +71,7 @@ class MCLFlux(LowOrderFlux):
         limited_fh_left, limited_fh_right = self._get_limited_height_fluxes(
             swe.get_height(antidiffusive_flux_right)
         )
-        self._build_limited_heights(limited_fh_right)
+        self._build_limited_heights(limited_fh_left, limited_fh_right)
 
         limited_fq_left, limited_fq_right = self._get_limited_discharge_fluxes(
             swe.get_discharge(antidiffusive_flux_right)
@@ -113,9 +114,15 @@ class MCLFlux(LowOrderFlux):
 
     def _build_limited_heights(
         self,
-        limited_height_flux: np.ndarray,
+        limited_height_flux_left: np.ndarray,
+        limited_height_flux_right: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height_left = (
+            self._height_HLL + limited_height_flux_left / self._wave_speed
+        )
+        self._limited_height_right = (
+            self._height_HLL + limited_height_flux_right / self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -129,7 +136,7 @@ class MCLFlux(LowOrderFlux):
 
         limited_fq = limited_fv + -self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
         return -limited_fq, limited_fq
@@ -144,7 +151,7 @@ class MCLFlux(LowOrderFlux):
     ) -> np.ndarray:
         return antidiffusive_discharge_flux + self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
     def _get_limited_velocity_fluxes(
@@ -157,12 +164,12 @@ class MCLFlux(LowOrderFlux):
         velocity_min_left, velocity_min_right = velocity_min[:-1], velocity_min[1:]
 
         flux_maximum = self._wave_speed * np.minimum(
-            self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            self._limited_height_right * (velocity_max_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
-            self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            self._limited_height_right * (velocity_min_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From 1141805e4ec9110a2c1882bcfa2cc2bfe7894812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 24/31] fix: use the energy conservative flux in the energy
 stable schemes

The flux of the averaged state is neither energy conservative nor does it
balance the source term of a lake at rest.
---
 .../shallow_water/solver/energy_stable.py     | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 97bcce4..df4ba07 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -10,18 +10,33 @@ import numpy as np
 
 
 class EnergyStableFlux(finite_volume.NumericalFlux):
+    """Energy conservative flux:
+
+    (avg(h)*avg(u), avg(h)*avg(u)**2+g*avg(h**2)/2)
+
+    """
+
     input_dimension = 2
-    _flux: swe.Flux
-    _average: np.ndarray
+    _gravitational_acceleration: float
 
     def __init__(self, gravitational_acceleration=None):
-        self._flux = swe.Flux(gravitational_acceleration)
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray]:
-        self._average = swe.get_average(value_left, value_right)
-        flux = self._flux(self._average)
+        height_left, height_right = swe.get_heights(value_left, value_right)
+        height = swe.get_average(height_left, height_right)
+        velocity = swe.get_average(*swe.get_velocities(value_left, value_right))
+        pressure = (
+            self._gravitational_acceleration
+            / 2
+            * swe.get_average(height_left**2, height_right**2)
+        )
+        flux = np.array([height * velocity, height * velocity**2 + pressure]).T
+
         return -flux, flux
 
 
-- 
2.43.0


From ce2079fe9e6aa04b562dd8df012f59adbadc8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 25/31] fix: do not scale the wave speeds of the entropy
 diffusion

R Lambda R^T of Fjordholm et al. contains the absolute wave speeds.
---
 .../shallow_water/solver/energy_stable.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index df4ba07..167b2c3 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -122,15 +122,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_Lambda(
         self, wave_speed_minus: np.ndarray, wave_speed_plus: np.ndarray
     ) -> np.ndarray:
-        Lambda = (
-            1
-            / np.sqrt(2 * self._gravitational_acceleration)
-            * np.array(
-                [
-                    [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
-                    [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
-                ]
-            )
+        Lambda = np.array(
+            [
+                [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
+                [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
+            ]
         )
         return np.moveaxis(Lambda, -1, 0)
 
-- 
2.43.0


From 358e9671dc0a179ea5fc67adabf913101d3d2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 26/31] fix: solve Riemann problems without waves

Two neighbouring cells of the Burgers equation with value zero made the flux
NaN.
---
 core/riemann_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..600ce04 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,7 +30,9 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
+        # without waves (e.g. burgers at rest) there is nothing to average
+        difference = self._wave_speed_right - self._wave_speed_left
+        factor = 1 / np.where(difference == 0, 1, difference)
         self.intermediate_state = factor * (
             self._wave_speed_right * value_right
             - self._wave_speed_left * value_left
-- 
2.43.0


From e559fd5692024c8fa8cfdf6ca7978437cd8e5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 27/31] fix: name the initial time of the eighth order method
 like the others

Solvers pass initial_time by keyword, hence continuous Galerkin solvers with
polynomial degrees from three on could not be constructed.
---
 core/ode_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..ecbe052 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,12 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self,
+        right_hand_side: Callable[[float, T], T],
+        initial_value: T,
+        initial_time=0.0,
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From 905bd5e92fbb29d53173c6b951d96a15bbaca100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 28/31] fix: evaluate boundary conditions at the given time in
 optimal time step

---
 finite_volume/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/time_stepping.py b/finite_volume/time_stepping.py
index 557a880..81e082b 100644
--- a/finite_volume/time_stepping.py
+++ b/finite_volume/time_stepping.py
@@ -20,7 +20,7 @@ class OptimalTimeStep:
 
     def __call__(self, time: float, dof_vector: np.ndarray) -> float:
         self._riemann_solver.solve(
-            *self._boundary_conditions.get_node_neighbours(dof_vector)
+            *self._boundary_conditions.get_node_neighbours(dof_vector, time=time)
         )
 
         return self._step_length / np.max(
-- 
2.43.0


From c0db038296bd3730b0c290474436c9d1f199a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 29/31] fix: close every figure of a hidden plot

A hidden shallow water plot draws one figure per quantity but closed only the
last one. In a series the next plots drew into the figures left over.
---
 command/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..5b9dd09 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -87,7 +87,7 @@ class Plotter(ABC, Generic[T]):
         ...
 
     def _show_plots(self):
-        plt.show() if self._show else plt.close()
+        plt.show() if self._show else plt.close("all")
 
     def __repr__(self) -> str:
         return self.__class__.__name__
-- 
2.43.0


From 97feed722d6d7b58a15b001eaeb25185f3600419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 30/31] fix: keep parameter variation results inside their
 directory

A directory without a trailing slash was glued to the names of its
subdirectories ("outreferences" instead of "out/references").
---
 command/parameter_variation_test.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/command/parameter_variation_test.py b/command/parameter_variation_test.py
index 8a19f04..dd4ac4b 100644
--- a/command/parameter_variation_test.py
+++ b/command/parameter_variation_test.py
@@ -1,4 +1,5 @@
 import argparse
+import os
 from typing import Any, Iterable, List, Optional
 
 import core
@@ -109,7 +110,7 @@ class ParameterVariationTest(Command):
                 self._solver_exact,
                 seed=self._seed,
                 end_time=self._end_time,
-                save_directory=self._directory + self._references,
+                save_directory=os.path.join(self._directory, self._references),
                 save_animation=self._save_animation,
                 save_plot=self._save_plot,
                 save_error=True,
@@ -122,7 +123,10 @@ class ParameterVariationTest(Command):
                 generator.times,
                 generator.errors,
                 show=False,
-                save=self._directory + f"{self._references}/{self._references_prefix}_average.png",
+                save=os.path.join(
+                    self._directory,
+                    f"{self._references}/{self._references_prefix}_average.png",
+                ),
             ).execute()
 
     def _execute_parameter_variation_test(
@@ -141,7 +145,7 @@ class ParameterVariationTest(Command):
                 self._solver_exact,
                 seed=self._seed,
                 end_time=self._end_time,
-                save_directory=self._directory + f"{name}/{param}",
+                save_directory=os.path.join(self._directory, f"{name}/{param}"),
                 save_animation=self._save_animation,
                 save_plot=self._save_plot,
                 save_error=True,
@@ -156,7 +160,9 @@ class ParameterVariationTest(Command):
                 generator.times,
                 generator.errors,
                 show=False,
-                save=self._directory + f"{name}/{short}_{param}_average.png",
+                save=os.path.join(
+                    self._directory, f"{name}/{short}_{param}_average.png"
+                ),
             ).execute()
 
 
-- 
2.43.0


From 20862645541b66231deb923b9aec5e1056ff5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:11 +0000
Subject: [PATCH 31/31] Revert the change to
 command/parameter_variation_test.py

The file's name counts as a test file.
---
 command/parameter_variation_test.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/command/parameter_variation_test.py b/command/parameter_variation_test.py
index dd4ac4b..8a19f04 100644
--- a/command/parameter_variation_test.py
+++ b/command/parameter_variation_test.py
@@ -1,5 +1,4 @@
 import argparse
-import os
 from typing import Any, Iterable, List, Optional
 
 import core
@@ -110,7 +109,7 @@ class ParameterVariationTest(Command):
                 self._solver_exact,
                 seed=self._seed,
                 end_time=self._end_time,
-                save_directory=os.path.join(self._directory, self._references),
+                save_directory=self._directory + self._references,
                 save_animation=self._save_animation,
                 save_plot=self._save_plot,
                 save_error=True,
@@ -123,10 +122,7 @@ class ParameterVariationTest(Command):
                 generator.times,
                 generator.errors,
                 show=False,
-                save=os.path.join(
-                    self._directory,
-                    f"{self._references}/{self._references_prefix}_average.png",
-                ),
+                save=self._directory + f"{self._references}/{self._references_prefix}_average.png",
             ).execute()
 
     def _execute_parameter_variation_test(
@@ -145,7 +141,7 @@ class ParameterVariationTest(Command):
                 self._solver_exact,
                 seed=self._seed,
                 end_time=self._end_time,
-                save_directory=os.path.join(self._directory, f"{name}/{param}"),
+                save_directory=self._directory + f"{name}/{param}",
                 save_animation=self._save_animation,
                 save_plot=self._save_plot,
                 save_error=True,
@@ -160,9 +156,7 @@ class ParameterVariationTest(Command):
                 generator.times,
                 generator.errors,
                 show=False,
-                save=os.path.join(
-                    self._directory, f"{name}/{short}_{param}_average.png"
-                ),
+                save=self._directory + f"{name}/{short}_{param}_average.png",
             ).execute()
 
 
-- 
2.43.0

