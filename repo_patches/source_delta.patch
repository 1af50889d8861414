From 39e52fb532c1f1a54335818f0c5818639c736b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 01/29] fix: mark halo points of neighboring processes as in
 the global domain

The points outside the local box were always marked as solid when an
element was added, even if they belong to a neighboring process: the
distances computed near an interface then differed from those of the
serial domain. Elements far from a process raised a ValueError.
---
 pylbm/domain.py | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..87b3f97 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -459,14 +459,27 @@ class Domain:
         upper_left = np.asarray([self.coords[k][-1] for k in range(self.dim)])
         return bottom_right, upper_left
 
+    def __known_region(self):
+        """
+        Bounds (first and last + 1 indices) of the part of the arrays that lies
+        in the global domain: the interior points and the halo points
+        that belong to the neighboring processes.
+        """
+        vmax = np.asarray(self.stencil.vmax)
+        interface = np.asarray(self.box_label) == -2
+        imin = np.where(interface[::2], 0, vmax)
+        imax = np.asarray(self.shape_halo) - np.where(interface[1::2], 0, vmax)
+        return imin, imax
+
     # pylint: disable=too-many-locals
     def __add_init(self, label):
         halo_size = np.asarray(self.stencil.vmax)
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
-        in_view = self.in_or_out[tuple(phys_domain)]
-        in_view[:] = self.valin
+        known_min, known_max = self.__known_region()
+        known_domain = [slice(imin, imax) for imin, imax in zip(known_min, known_max)]
+        self.in_or_out[tuple(known_domain)] = self.valin
 
         # first index: the velocity index
         # following indices: the physical points
@@ -534,10 +547,30 @@ class Domain:
         vmax = self.stencil.vmax
         elem_bl, elem_ur = elem.get_bounds()
         phys_bl, _ = self.get_bounds_halo()
-        tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
-        nmin = np.maximum(vmax, tmp)
-        tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
-        nmax = np.minimum(vmax + self.shape_in, tmp)
+        elem_min = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
+        nmin = np.maximum(vmax, elem_min)
+        elem_max = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
+        nmax = np.minimum(vmax + self.shape_in, elem_max)
+
+        # set the fluid and solid points, also those of the neighboring processes
+        known_min, known_max = self.__known_region()
+        space_slice = [
+            slice(imin, max(imin, imax))
+            for imin, imax in zip(
+                np.maximum(known_min, elem_min), np.minimum(known_max, elem_max)
+            )
+        ]
+        ioo_view = self.in_or_out[tuple(space_slice)]
+        tcoords = (self.coords_halo[d][s] for d, s in enumerate(space_slice))
+        if ioo_view.size != 0:
+            grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+            ioo_view[elem.point_inside(grid)] = (
+                self.valin if elem.isfluid else self.valout
+            )
+
+        # the element is far from the points of this process
+        if np.any(nmax <= nmin):
+            return
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
@@ -556,11 +589,9 @@ class Domain:
         if not elem.isfluid:  # add a solid part
             ind_solid = elem.point_inside(grid)
             ind_fluid = np.logical_not(ind_solid)
-            ioo_view[ind_solid] = self.valout
         else:  # add a fluid part
             ind_fluid = elem.point_inside(grid)
             ind_solid = np.logical_not(ind_fluid)
-            ioo_view[ind_fluid] = self.valin
 
         for k in range(self.stencil.unvtot):
             vk = np.asarray(self.stencil.unique_velocities[k].v)
-- 
2.43.0


From 077b7b205b58cd9245bcb192396191a4201501a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 02/29] fix: apply the spatial storage order only once in the
 generated loops

The space indices were permuted by sorder twice, so that the bounds of
the loops did not match the axes of the arrays for any sorder that
permutes the space variables.
---
 pylbm/algorithm/base.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..cb760f8 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -156,8 +156,10 @@ class BaseAlgorithm:
 
     def _get_space_idx_full(self):
         """
-        Return a list of SymPy Idx ordered with sorder
-        and with the dimensions.
+        Return a list of SymPy Idx with the dimensions.
+
+        The natural order is used: the permutation given by sorder
+        is applied when these indices are used in an indexed object.
 
             ix -> [0, nx[
             iy -> [0, ny[
@@ -165,12 +167,14 @@ class BaseAlgorithm:
 
         The length of the list is the dimension of the problem.
         """
-        return space_idx([(0, nx), (0, ny), (0, nz)], priority=self.sorder[1:])
+        return space_idx([(0, nx), (0, ny), (0, nz)][: self.dim])
 
     def _get_space_idx_inner(self):
         """
-        Return a list of SymPy Idx ordered with sorder
-        and with the dimensions.
+        Return a list of SymPy Idx with the dimensions.
+
+        The natural order is used: the permutation given by sorder
+        is applied when these indices are used in an indexed object.
 
             ix -> [vmax_x, nx-vmax_x[
             iy -> [vmax_y, ny-vmax_y[
@@ -184,8 +188,7 @@ class BaseAlgorithm:
                 (self.vmax[0], nx - self.vmax[0]),
                 (self.vmax[1], ny - self.vmax[1]),
                 (self.vmax[2], nz - self.vmax[2]),
-            ],
-            priority=self.sorder[1:],
+            ][: self.dim]
         )
 
     def _get_indexed_on_range(self, name, space_index):
@@ -580,7 +583,7 @@ class BaseAlgorithm:
         if check_isfluid:
             valin = sp.Symbol("valin", real=True)
             in_or_out = indexed(
-                "in_or_out", [nx, ny, nz], space_index, priority=self.sorder[1:]
+                "in_or_out", [nx, ny, nz][: self.dim], space_index
             )
             loop = lambda x: For(space_index, If((Eq(in_or_out, valin), x)))
         else:
-- 
2.43.0


From a82e6af87a32ea6efe09cab5ba207c71f6fc9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:14 +0000
Subject: [PATCH 03/29] fix: shape of the distances to a cylinder when the grid
 has one point in x and y

The shape of the output was guessed from the shape of the coordinates, which
is ambiguous for the small 3D boxes of a process.
---
 pylbm/elements/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylbm/elements/utils.py b/pylbm/elements/utils.py
index 69abdcb..640905d 100644
--- a/pylbm/elements/utils.py
+++ b/pylbm/elements/utils.py
@@ -47,10 +47,7 @@ def distance_lines(x, y, v, p, vt, dmax, label, normal):
     # Warning: the shape can be
     #   - (x.size, y.size) for the 2D geometries
     #   - x.shape = y.shape for the 3D geometries
-    if x.shape[1] == 1 and y.shape[0] == 1:
-        shape = (x.size, y.size)
-    else:
-        shape = x.shape
+    shape = np.broadcast(x, y).shape
     v2 = [x, y]
     alpha = tgv * np.ones(shape)
     border = -np.ones(shape)
-- 
2.43.0


From 2cec9c2c1d02e5121adfd29ba4b3d7c8998bd366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 04/29] fix: bounds of the cylinders in the direction of their
 axis

A cylinder lies between -w and +w around its center: points near its ends
were left out of the box where the distances are computed, depending on
the position of the subdomain.
---
 pylbm/elements/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..b34a72c 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,7 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        lw = [abs(self.w[k]) for k in range(len(self.w))]
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From 36afa5043b37966618662457d74754f4f711422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 05/29] fix: apply the boundary methods in the same order on
 all the processes

The order was the one in which the methods were met on the process: it changed
with the labels present in the subdomain, and so did the result where two
methods meet.
---
 pylbm/boundary.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..dcb9711 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -101,6 +101,15 @@ class Boundary:
         time_bc = {}
         normal = {}
 
+        # the order of the methods is the one of the whole domain: it must not
+        # depend on the labels that are present on this process
+        geom = self.domain.geom
+        for label in np.union1d(geom.box_label, geom.list_of_elements_labels()):
+            if label in [-1, -2]:  # periodic or interface conditions
+                continue
+            for method in dico_bound[label]["method"].values():
+                istore[method] = None
+
         # pylint: disable=too-many-nested-blocks
         for label in self.domain.list_of_labels():
             if label in [-1, -2]:  # periodic or interface conditions
@@ -145,6 +154,8 @@ class Boundary:
         # for each method create the instance associated
         self.methods = []
         for k in list(istore.keys()):
+            if istore[k] is None:  # no point on this process
+                continue
             self.methods.append(
                 k(
                     istore[k],
-- 
2.43.0


From e103932e9a53b3e9a3ac687c52461ccade65f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 06/29] fix: gather the coordinates of subdomains of different
 sizes in H5File.set_grid

np.asarray of a list of arrays of different lengths raises a ValueError.
---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..12cf5b3 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-- 
2.43.0


From 76aee1ff690d23879fedff597739a44272c02fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 07/29] fix: H5File.set_grid on a subdomain with only one point
 in a direction

---
 pylbm/hdf5.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 12cf5b3..d34ced9 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -76,17 +76,10 @@ class H5File:
         if not self._init_grid:
             log.warning("h5 grid redefined.")
 
-        self.origin = [x[0]]
-        self.dx = [x[1] - x[0]]
-        coords = [x]
-        if y is not None:
-            self.origin.append(y[0])
-            self.dx.append(y[1] - y[0])
-            coords.append(y)
-        if z is not None:
-            self.origin.append(z[0])
-            self.dx.append(z[1] - z[0])
-            coords.append(z)
+        coords = [c for c in (x, y, z) if c is not None]
+        self.origin = [c[0] for c in coords]
+        # a subdomain can have only one point in a direction
+        self.dx = [c[1] - c[0] if c.size > 1 else None for c in coords]
 
         self.dim = len(self.origin)
         self.n = [0] * self.dim
-- 
2.43.0


From 91b3dfcab21edb79e5b096039524e4a64439fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 08/29] fix: H5File in the current directory (default path) and
 in nested new directories

---
 pylbm/hdf5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index d34ced9..27a160e 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
-                os.mkdir(path)
+            if path:
+                os.makedirs(path, exist_ok=True)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -247,7 +247,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From e29a8f007ad33f54b40e902996af76c14d276876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 09/29] fix: convert the components of a vector field to double
 before sending them

as add_scalar does: other data types were sent as if they were doubles.
---
 pylbm/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 27a160e..087880a 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -238,7 +238,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From 21c596a99024923d299f6e8f232d7f4f4221d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 10/29] fix: shape of the vector fields in the xdmf file

The datasets always have 3 components.
---
 pylbm/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 087880a..06bcc2a 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -316,7 +316,7 @@ class H5File:
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), 3, v
                     )
                 )
 
-- 
2.43.0


From 8093a2fac791bf9d82e2602579528237ccdd6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 11/29] fix: refuse the process grids that cannot be computed

A subdomain smaller than the stencil needs values that are not those of its
direct neighbors, and a grid that does not match the number of processes
loses or cannot place subdomains: results were wrong or the processes hung.
---
 pylbm/domain.py       | 15 +++++++++++++++
 pylbm/mpi_topology.py |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 87b3f97..8f51208 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -419,6 +419,21 @@ class Domain:
         region = self.mpi_topo.get_region(*self.global_size)
         region_size = [r[1] - r[0] for r in region]
 
+        # the halo points are those of the direct neighbors only:
+        # each subdomain must be as large as the stencil
+        region_indices = self.mpi_topo.get_region_indices(*self.global_size)
+        for k in range(self.dim):
+            exchange = self.mpi_topo.split[k] > 1 or self.geom.box_label[2 * k] == -1
+            needed = max(1, self.stencil.vmax[k])
+            if exchange and np.min(np.diff(region_indices[k])) < needed:
+                message = "The subdomains are too small for the stencil: "
+                message += "{0:d} points on {1:d} processes in the direction {2:d}, ".format(
+                    self.global_size[k], self.mpi_topo.split[k], k
+                )
+                message += "each process needs at least {0:d} points".format(needed)
+                log.error(message)
+                raise ValueError(message)
+
         # spatial mesh
         halo_size = np.asarray(self.stencil.vmax)
         halo_beg = self.dx * (halo_size - 0.5)
diff --git a/pylbm/mpi_topology.py b/pylbm/mpi_topology.py
index ab8a116..3c5f725 100644
--- a/pylbm/mpi_topology.py
+++ b/pylbm/mpi_topology.py
@@ -77,6 +77,11 @@ class MpiTopology:
             split = (self.npx, self.npy, self.npz)
 
         self.split = np.asarray(split[: self.dim])
+        if np.prod(self.split) != comm.Get_size():
+            raise ValueError(
+                "The number of subdomains {} does not match "
+                "the number of processes {}.".format(self.split, comm.Get_size())
+            )
         self.cartcomm = comm.Create_cart(self.split, period)
 
     def get_region_indices_(self, n, axis=0):
-- 
2.43.0


From 7f0b130f9bf12e5f6f1d71955f64ffafc2017d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 12/29] fix: a time step or an initialization that fails in a
 user's boundary value can be repeated

---
 pylbm/boundary.py   | 2 ++
 pylbm/simulation.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index dcb9711..4f926a2 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -264,6 +264,8 @@ class BoundaryMethod:
 
         gpu_support = simulation.container.gpu_support
 
+        self.func, self.args, self.f, self.m, self.indices = [], [], [], [], []
+
         for key, value in self.value_bc.items():
             if value is not None:
                 indices = np.where(self.ilabel == key)
diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..c8b2e5d 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -155,8 +155,11 @@ class Simulation:
     def _initialize(self):
         # Initialize the solution and the rhs of boundary conditions
         self.initialization()
+        # the values given by the user are all evaluated before anything is
+        # modified: if one of them fails, the initialization can be repeated
         for method in self.bc.methods:
             method.prepare_rhs(self)
+        for method in self.bc.methods:
             method.fix_iload()
             method.set_rhs()
             method.move2gpu()
@@ -381,11 +384,15 @@ class Simulation:
         The array _F is modified in the phantom array (outer points)
         according to the specified boundary conditions.
         """
+        # the values given by the user are all evaluated before anything is
+        # modified: if one of them fails, the time step can be repeated
+        for method in self.bc.methods:
+            method.update_feq(self)
+
         f = self.container.F
         f.update()
 
         for method in self.bc.methods:
-            method.update_feq(self)
             method.set_rhs()
             method.update(f, **kwargs)
 
-- 
2.43.0


From 8f230f16d59121156d6193bbe962bb7a8bdca49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 13/29] fix: monitoring of calls that raise and of nested calls
 of the same function

---
 pylbm/monitoring.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pylbm/monitoring.py b/pylbm/monitoring.py
index 4ddc669..f5d2f8a 100644
--- a/pylbm/monitoring.py
+++ b/pylbm/monitoring.py
@@ -31,6 +31,7 @@ class Node:
         self.parent = parent
         self.name = name
         self.sons = []
+        self.start = 0
         self.time = 0
 
     def add_node(self, name):
@@ -71,15 +72,14 @@ class Monitoring:
     def start_timing(self, f):
         info = self.information(f)
         self.tree = self.tree.add_node(info)
-        self.func[info].total_time.append(mpi.Wtime())
-        self.func[info].self_time.append(0)
+        self.tree.start = mpi.Wtime()
 
     def stop_timing(self, f):
         info = self.information(f)
-        t = mpi.Wtime()
-        self.func[info].total_time[-1] = t - self.func[info].total_time[-1]
-        self.tree.add_time(self.func[info].total_time[-1])
-        self.func[info].self_time[-1] = self.func[info].total_time[-1] - self.tree.time
+        total_time = mpi.Wtime() - self.tree.start
+        self.func[info].total_time.append(total_time)
+        self.func[info].self_time.append(total_time - self.tree.time)
+        self.tree.add_time(total_time)
         self.tree = self.tree.del_node()
 
     def print(self):
@@ -124,8 +124,9 @@ def monitor(f):
     def wrapper(*args, **kwds):
         Monitor.register(f)
         Monitor.start_timing(f)
-        output = f(*args, **kwds)
-        Monitor.stop_timing(f)
-        return output
+        try:
+            return f(*args, **kwds)
+        finally:
+            Monitor.stop_timing(f)
 
     return wrapper
-- 
2.43.0


From b6e44f8b8173c3375c77e2043bbd65cfcb8c7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 14/29] fix: overwriting a moment after a time step left the
 other moments those of an earlier step

---
 pylbm/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index c8b2e5d..a68bd95 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -212,7 +212,10 @@ class Simulation:
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        if self._update_m:
+            # the other moments must be those of the current distributions
+            self._update_m = False
+            self.f2m()
         self.container.m[i] = value
 
     @utils.itemproperty
-- 
2.43.0


From 25191cf622f16ffbbcca883f6022f4527fd81307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 15/29] fix: report the write errors found when the datasets of
 an H5File are flushed

---
 pylbm/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 06bcc2a..5a5f613 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -112,6 +112,8 @@ class H5File:
                     "x_{}".format(i), [self.global_size[i]], dtype=np.double
                 )
                 dset[:] = np.concatenate(coords[i])
+                # a write error found when the dataset is released is not raised
+                dset.flush()
 
     def _get_slice(self, rank):
         """
@@ -170,6 +172,9 @@ class H5File:
             comm.Recv([rcv_buffer, mpi.DOUBLE], source=i, tag=index)
             dset[ind] = rcv_buffer
 
+        # a write error found when the dataset is released is not raised
+        dset.flush()
+
     def add_scalar(self, name, f, *fargs):
         """
         store a scalar field.
-- 
2.43.0


From b7f6275274f5c8748b45259c6a7b26ce98cc1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 16/29] fix: remove the description of an earlier output before
 its data file is replaced

---
 pylbm/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 5a5f613..fb52d8f 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -43,6 +43,11 @@ class H5File:
             if path:
                 os.makedirs(path, exist_ok=True)
 
+            # the description left by an earlier run does not describe the new data
+            xdmf = os.path.join(path, self.filename + ".xdmf")
+            if os.path.lexists(xdmf):
+                os.remove(xdmf)
+
             self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
-- 
2.43.0


From 261f4076bf7ad5e0df68a7aab01663087f9b72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:08 +0000
Subject: [PATCH 17/29] fix: build and load the generated code in a new
 directory, keep it by replacing each file at once

Code kept in a directory or found on the import path by an earlier
simulation (stale byte code, time stamps, shared libraries already loaded,
other modules of the same name) could be run instead of the code just
generated, an interrupted run left truncated code, and a failed build left
the module of the other simulations unregistered and build files behind.
---
 pylbm/generator/autowrap.py | 74 +++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 3b7225d..9d06583 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -6,7 +6,8 @@ import os
 import shutil
 import tempfile
 from subprocess import STDOUT, CalledProcessError, check_output
-import importlib
+import importlib.util
+import sysconfig
 
 from .codegen import get_code_generator
 
@@ -40,7 +41,7 @@ class CodeWrapper(object):
         """
         self.generator = generator
         self.filepath = filepath
-        self.workdir = self.filepath or tempfile.mkdtemp("_sympy_compile")
+        self.workdir = None
         self.flags = flags
         self.generate = generate
         self.verbose = verbose
@@ -50,31 +51,65 @@ class CodeWrapper(object):
         self.generator.write(routines, self.full_path, True, True, False)
 
     def wrap_code(self, routines):
-        if not os.access(self.workdir, os.F_OK):
-            os.mkdir(self.workdir)
+        # The code is always written, built and loaded in a new directory: what
+        # other simulations, processes or runs left elsewhere (modules, byte code,
+        # build products, shared libraries already loaded) is never used instead.
+        self.workdir = tempfile.mkdtemp("_sympy_compile")
 
         try:
-            sys.path.append(self.workdir)
             if self.generate:
                 self._prepare_files(routines)
                 self._generate_code(routines)
                 self._process_files(routines)
-            if self.module_name in sys.modules:
-                sys.modules.pop(self.module_name)
-            importlib.invalidate_caches()
-            mod = importlib.import_module(self.module_name)
+            else:
+                self._fetch_files()
+            mod = self._load_module()
+            if self.generate and self.filepath:
+                self._keep_files()
+            sys.modules[self.module_name] = mod
         finally:
-            sys.path.remove(self.workdir)
             self._module_counter += 1
-            if not self.filepath:
-                try:
-                    shutil.rmtree(self.workdir)
-                except OSError:
-                    # Could be some issues on Windows
-                    pass
+            try:
+                shutil.rmtree(self.workdir)
+            except OSError:
+                # Could be some issues on Windows
+                pass
 
         return mod
 
+    def _load_module(self):
+        path = os.path.join(self.workdir, self.filename + self.module_suffix)
+        spec = importlib.util.spec_from_file_location(self.module_name, path)
+        mod = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(mod)
+        return mod
+
+    def _keep_files(self):
+        """
+        copy the source code and the module in the user's directory, where each
+        file is replaced at once: it is never seen incomplete.
+        """
+        os.makedirs(self.filepath, exist_ok=True)
+        for suffix in self.kept_suffixes:
+            name = self.filename + suffix
+            fd, tmp = tempfile.mkstemp(".tmp", name, self.filepath)
+            os.close(fd)
+            try:
+                shutil.copy(os.path.join(self.workdir, name), tmp)
+                os.replace(tmp, os.path.join(self.filepath, name))
+            except BaseException:
+                os.remove(tmp)
+                raise
+
+    def _fetch_files(self):
+        """
+        copy the module kept in the user's directory.
+        """
+        name = self.filename + self.module_suffix
+        shutil.copyfile(
+            os.path.join(self.filepath, name), os.path.join(self.workdir, name)
+        )
+
     def _process_files(self, routine):
         command = self.command
         command.extend(self.flags)
@@ -91,6 +126,9 @@ class CodeWrapper(object):
 
 
 class CythonCodeWrapper(CodeWrapper):
+    module_suffix = sysconfig.get_config_var("EXT_SUFFIX") or ".so"
+    kept_suffixes = [".pyx", module_suffix]
+
     setup_template = """\
 from setuptools import setup
 from setuptools import Extension
@@ -132,6 +170,7 @@ requires = ["setuptools", "wheel", "Cython"]
             setup_file,
             "build_ext",
             f"--build-lib={self.workdir}",
+            f"--build-temp={self.workdir}",
         ]
         return command
 
@@ -140,6 +179,9 @@ requires = ["setuptools", "wheel", "Cython"]
 
 
 class PythonCodeWrapper(CodeWrapper):
+    module_suffix = ".py"
+    kept_suffixes = [".py"]
+
     @property
     def command(self):
         return []
-- 
2.43.0


From ead5a203d6f815f59d7c7e2b0907121134bab34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:08 +0000
Subject: [PATCH 18/29] fix: keep the generated code of each process in its own
 directory

---
 pylbm/generator/autowrap.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 9d06583..6632a4f 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -3,11 +3,13 @@
 
 import sys
 import os
+import glob
 import shutil
 import tempfile
 from subprocess import STDOUT, CalledProcessError, check_output
 import importlib.util
 import sysconfig
+import mpi4py.MPI as mpi
 
 from .codegen import get_code_generator
 
@@ -41,6 +43,14 @@ class CodeWrapper(object):
         """
         self.generator = generator
         self.filepath = filepath
+        comm = mpi.COMM_WORLD
+        if filepath and comm.Get_size() > 1:
+            # the processes do not have the same boundary conditions: each one
+            # keeps its code, the code kept by a run on one process can be reused
+            name = "process_{}_of_" + str(comm.Get_size())
+            kept = glob.glob(os.path.join(glob.escape(filepath), name.format("*")))
+            if generate or kept:
+                self.filepath = os.path.join(filepath, name.format(comm.Get_rank()))
         self.workdir = None
         self.flags = flags
         self.generate = generate
@@ -65,6 +75,12 @@ class CodeWrapper(object):
                 self._fetch_files()
             mod = self._load_module()
             if self.generate and self.filepath:
+                os.makedirs(self.filepath, exist_ok=True)
+                if mpi.COMM_WORLD.Get_size() > 1:
+                    # never leave the code of two runs in the directories of
+                    # the processes
+                    self._remove_files()
+                    mpi.COMM_WORLD.Barrier()
                 self._keep_files()
             sys.modules[self.module_name] = mod
         finally:
@@ -89,7 +105,6 @@ class CodeWrapper(object):
         copy the source code and the module in the user's directory, where each
         file is replaced at once: it is never seen incomplete.
         """
-        os.makedirs(self.filepath, exist_ok=True)
         for suffix in self.kept_suffixes:
             name = self.filename + suffix
             fd, tmp = tempfile.mkstemp(".tmp", name, self.filepath)
@@ -101,6 +116,12 @@ class CodeWrapper(object):
                 os.remove(tmp)
                 raise
 
+    def _remove_files(self):
+        for suffix in self.kept_suffixes:
+            path = os.path.join(self.filepath, self.filename + suffix)
+            if os.path.lexists(path):
+                os.remove(path)
+
     def _fetch_files(self):
         """
         copy the module kept in the user's directory.
-- 
2.43.0


From b741880f7409da6e083c8edfd946acf7f5bacaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:16 +0000
Subject: [PATCH 19/29] fix: do not split the loops of a step with a relative
 velocity

---
 pylbm/algorithm/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index cb760f8..868f459 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -558,7 +558,9 @@ class BaseAlgorithm:
         """
         m_local = self.settings.get("m_local", False)
         check_isfluid = self.settings.get("check_isfluid", False)
-        split = self.settings.get("split", False)
+        # the relative velocity is computed at each point for the whole step:
+        # the loop cannot be split
+        split = self.settings.get("split", False) and not self.rel_vel_symb
 
         space_index = self._get_space_idx_inner()
         if m_local:
-- 
2.43.0


From 03c695a578efc24a4690eac88b5c5029e0cfaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 20/29] fix: the transport phase called alone modifies the
 distributions

---
 pylbm/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index a68bd95..fca3a21 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -331,6 +331,7 @@ class Simulation:
         (the array _F is modified)
         """
         self.algo.call_function("transport", self, **kwargs)
+        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
 
     def relaxation(self, **kwargs):
         """
-- 
2.43.0


From a7b5b03886236e9683c85abf5a79a48f6d84a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:29 +0000
Subject: [PATCH 21/29] fix: the phases of a time step called one by one act on
 the current moments

---
 pylbm/simulation.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index fca3a21..5b72d02 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -318,6 +318,7 @@ class Simulation:
                 array_to_init[k] = v
 
         if self.init_type == "moments":
+            self._update_m = False
             self.equilibrium()
             self.m2f()
         elif self.init_type == "distributions":
@@ -325,11 +326,17 @@ class Simulation:
 
         self.container.Fnew.array[:] = self.container.F.array[:]
 
+    def _current_m(self):
+        # the moments must be those of the current distributions
+        if self._update_m:
+            self.f2m()
+
     def transport(self, **kwargs):
         """
         compute the transport phase on distribution functions
         (the array _F is modified)
         """
+        self._update_m = True
         self.algo.call_function("transport", self, **kwargs)
         self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
 
@@ -338,6 +345,7 @@ class Simulation:
         compute the relaxation phase on moments
         (the array _m is modified)
         """
+        self._current_m()
         self.algo.call_function("relaxation", self, **kwargs)
 
     def source_term(self, fraction_of_time_step=1.0, **kwargs):
@@ -345,6 +353,7 @@ class Simulation:
         compute the source term phase on moments
         (the array _m is modified)
         """
+        self._current_m()
         self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
@@ -353,6 +362,7 @@ class Simulation:
         compute the moments from the distribution functions
         (the array _m is modified)
         """
+        self._update_m = False
         self.algo.call_function("f2m", self, **kwargs)
 
     @monitor
@@ -361,6 +371,10 @@ class Simulation:
         compute the distribution functions from the moments
         (the array _F is modified)
         """
+        if m_user is None:
+            self._current_m()
+        if f_user is None:
+            self._update_m = True
         self.algo.call_function("m2f", self, m_user, f_user, **kwargs)
 
     @monitor
@@ -375,6 +389,8 @@ class Simulation:
         Another moments vector can be set to equilibrium values:
         use directly the method of the class Scheme
         """
+        if m_user is None:
+            self._current_m()
         self.algo.call_function("equilibrium", self, m_user, **kwargs)
 
     @monitor
@@ -393,6 +409,7 @@ class Simulation:
         for method in self.bc.methods:
             method.update_feq(self)
 
+        self._update_m = True
         f = self.container.F
         f.update()
 
-- 
2.43.0


From 4ccbf4bb229a37caa51c19214e8784257ab83105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:01 +0000
Subject: [PATCH 22/29] fix: the contours of a figure follow their updates

SContour.update only kept the data: the figure went on showing the contours
of the beginning.
---
 pylbm/viewer/matplotlib_viewer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/viewer/matplotlib_viewer.py b/pylbm/viewer/matplotlib_viewer.py
index a01896a..4b8f0e6 100644
--- a/pylbm/viewer/matplotlib_viewer.py
+++ b/pylbm/viewer/matplotlib_viewer.py
@@ -218,13 +218,17 @@ class SContour:
 
     # pylint: disable=attribute-defined-outside-init
     def add(self, axe):
+        self.axe = axe
         self.contour = axe.contour(self.data, levels=self.levels, colors=self.colors)
         # axe.axis_equal()
         axe.ax.clabel(self.contour, inline=1, fontsize=6)
 
     def update(self, data):
-        # TODO
+        # the lines and their labels are replaced by those of the new data
+        previous = self.contour
         self.data = data.T
+        self.add(self.axe)
+        previous.remove()
 
 
 class SScatter:
-- 
2.43.0


From e18832d8fbbb1d3951c0d8e68d9af5357662de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:01 +0000
Subject: [PATCH 23/29] fix: the processes all learn that the kernels of one of
 them cannot be built

When the kernels are kept in a directory, the processes wait for each other
before they are copied: a process whose build failed left the others waiting
for ever. Without a directory they only noticed at the first exchange.
---
 pylbm/generator/autowrap.py | 57 ++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 6632a4f..aa7770b 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -64,35 +64,57 @@ class CodeWrapper(object):
         # The code is always written, built and loaded in a new directory: what
         # other simulations, processes or runs left elsewhere (modules, byte code,
         # build products, shared libraries already loaded) is never used instead.
-        self.workdir = tempfile.mkdtemp("_sympy_compile")
+        self.workdir = None
 
         try:
-            if self.generate:
-                self._prepare_files(routines)
-                self._generate_code(routines)
-                self._process_files(routines)
-            else:
-                self._fetch_files()
-            mod = self._load_module()
+            mod = self._together(self._build, routines)
             if self.generate and self.filepath:
-                os.makedirs(self.filepath, exist_ok=True)
                 if mpi.COMM_WORLD.Get_size() > 1:
                     # never leave the code of two runs in the directories of
                     # the processes
-                    self._remove_files()
-                    mpi.COMM_WORLD.Barrier()
-                self._keep_files()
+                    self._together(self._remove_files)
+                self._together(self._keep_files)
             sys.modules[self.module_name] = mod
         finally:
             self._module_counter += 1
-            try:
-                shutil.rmtree(self.workdir)
-            except OSError:
-                # Could be some issues on Windows
-                pass
+            if self.workdir is not None:
+                try:
+                    shutil.rmtree(self.workdir)
+                except OSError:
+                    # Could be some issues on Windows
+                    pass
 
         return mod
 
+    @staticmethod
+    def _together(action, *args):
+        """
+        do an action on all the processes, which all learn if it fails on one of
+        them: none goes on or waits for a process that gives up.
+        """
+        failed = True
+        try:
+            result = action(*args)
+            failed = False
+        finally:
+            nfailed = mpi.COMM_WORLD.allreduce(int(failed))
+        if nfailed > 0:
+            raise CodeWrapError(
+                "The code of another process (%d of %d) can not be built, loaded or kept"
+                % (nfailed, mpi.COMM_WORLD.Get_size())
+            )
+        return result
+
+    def _build(self, routines):
+        self.workdir = tempfile.mkdtemp("_sympy_compile")
+        if self.generate:
+            self._prepare_files(routines)
+            self._generate_code(routines)
+            self._process_files(routines)
+        else:
+            self._fetch_files()
+        return self._load_module()
+
     def _load_module(self):
         path = os.path.join(self.workdir, self.filename + self.module_suffix)
         spec = importlib.util.spec_from_file_location(self.module_name, path)
@@ -105,6 +127,7 @@ class CodeWrapper(object):
         copy the source code and the module in the user's directory, where each
         file is replaced at once: it is never seen incomplete.
         """
+        os.makedirs(self.filepath, exist_ok=True)
         for suffix in self.kept_suffixes:
             name = self.filename + suffix
             fd, tmp = tempfile.mkstemp(".tmp", name, self.filepath)
-- 
2.43.0


From f6de17a3fdceb92e34fae5f3b3de4a67c3399946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:11 +0000
Subject: [PATCH 24/29] fix: the source terms know the coordinates of the
 points

A source term that depends on the position used variables that were never set
(garbage with cython, a NameError with numpy).
---
 pylbm/algorithm/base.py | 67 ++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 868f459..098d32a 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -149,6 +150,7 @@ class BaseAlgorithm:
                         rhs = recursive_sub(v, to_subs)
                     self.source_eq.append((lhs, rhs))
 
+        self._coords = None
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         self.local_vars = self.symb_coord_local[: self.dim]
@@ -265,13 +267,29 @@ class BaseAlgorithm:
 
         return Eq(m_consm, sp.Matrix((self.Mu * f)[:nconsm]))
 
-    def coords(self):
-        coord = []
-        for x in self.symb_coord[: self.dim]:
-            coord.append(
-                indexed(x.name, [self.ns, nx, ny, nz], priority=self.sorder[1:])
-            )
-        return [Eq(xx, x) for xx, x in zip(self.symb_coord_local[: self.dim], coord)]
+    def coords(self, space_index):
+        """
+        Return the symbolic expressions which set the local coordinates used by
+        the source terms.
+
+        Parameters
+        ----------
+
+        space_index : list
+            list of SymPy Idx corresponding to space variables
+
+        """
+        used = set()
+        for _, rhs in self.source_eq:
+            used |= sp.sympify(rhs).free_symbols
+
+        coord = [
+            indexed(name, [nx, ny, nz][: self.dim], space_index, priority=self.sorder[1:])
+            for name in ["X", "Y", "Z"][: self.dim]
+        ]
+        return [
+            Eq(xx, x) for xx, x in zip(self.symb_coord_local, coord) if xx in used
+        ]
 
     def transport_local(self, f, fnew):
         """
@@ -504,7 +522,12 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {
+            "code": For(
+                space_index, [*self.coords(space_index), *self.source_term_local(m)]
+            ),
+            "local_vars": self.local_vars,
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -591,12 +614,11 @@ class BaseAlgorithm:
         else:
             loop = lambda x: For(space_index, x)
 
+        coords = self.coords(space_index)
         if split:
-            # code = [loop([*self.coords(), i]) for i in internal]
-            code = [loop([i]) for i in internal]
+            code = [loop([*coords, i]) for i in internal]
         else:
-            # code = loop([*self.coords(), *internal])
-            code = loop([*internal])
+            code = loop([*coords, *internal])
 
         return {
             "code": code,
@@ -632,6 +654,23 @@ class BaseAlgorithm:
                 (name, code), local_vars=local_vars, settings=settings
             )
 
+    def _get_coords(self, simulation):
+        """
+        Return the coordinates used by the source terms at all the points (halo
+        points included), in the order of the storage.
+        """
+        if self._coords is None:
+            self._coords = {}
+            if self.coords(self._get_space_idx_inner()):
+                grid = np.meshgrid(*simulation.domain.coords_halo, indexing="ij")
+                order = np.argsort(self.sorder[1:])
+                for name, x in zip(["X", "Y", "Z"], grid):
+                    x = np.ascontiguousarray(x.transpose(order))
+                    if simulation.container.gpu_support:
+                        x = simulation.container.move2gpu(x)
+                    self._coords[name] = x
+        return self._coords
+
     def _get_args(self, simulation, m_user=None, f_user=None, **kwargs):
         """
         Define all the arguments needed to call the generated code.
@@ -644,13 +683,10 @@ class BaseAlgorithm:
 
         dim = len(mm.nspace)
         nx = mm.nspace[0]
-        X = simulation.domain.coords[0]
         if dim > 1:
             ny = mm.nspace[1]
-            Y = simulation.domain.coords[1]
         if dim > 2:
             nz = mm.nspace[2]
-            Z = simulation.domain.coords[1]
 
         if f_user:
             f = f_user.array
@@ -665,6 +701,7 @@ class BaseAlgorithm:
         valin = simulation.domain.valin
 
         local = locals()
+        local.update(self._get_coords(simulation))
         extra = {str(k): v for k, v in simulation.extra_parameters.items()}
         if extra.get("lambda", None):
             extra["lambda_"] = extra["lambda"]
-- 
2.43.0


From b48a2a7988a00d03c152265cb44579510b22185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:11 +0000
Subject: [PATCH 25/29] fix: a scheme with source terms can have a conserved
 moment named m

---
 pylbm/algorithm/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/algorithm/transform.py b/pylbm/algorithm/transform.py
index c6a101e..7162d35 100644
--- a/pylbm/algorithm/transform.py
+++ b/pylbm/algorithm/transform.py
@@ -77,7 +77,9 @@ def transform_expr(tokens, local_dict, global_dict):
 def parse_expr(expr, user_local_dict):
     local_dict = user_local_dict
     for s in expr.atoms(sp.Symbol):
-        local_dict[s.name] = s
+        # a conserved moment named m is replaced by its place in the array m
+        if s.name != "m" or "m" not in local_dict["consm"]:
+            local_dict[s.name] = s
 
     transformations = standard_transformations + (transform_expr,)
     return sympy_parse_expr(
-- 
2.43.0


From fe2bc1a11efe53215ccf845f6cb204099647ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:11 +0000
Subject: [PATCH 26/29] fix: the kernels are built in their own directory

setuptools read the pyproject.toml and setup.cfg files of the directory where the
simulation runs, which do not concern the kernels.
---
 pylbm/generator/autowrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index aa7770b..9ab3ac6 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -159,7 +159,7 @@ class CodeWrapper(object):
         command.extend(self.flags)
 
         try:
-            retoutput = check_output(command, stderr=STDOUT)
+            retoutput = check_output(command, stderr=STDOUT, cwd=self.workdir)
         except CalledProcessError as e:
             raise CodeWrapError(
                 "Error while executing command: %s. Command output is:\n%s"
-- 
2.43.0


From f45efeefe786737cc4b5e718ff00878838a2d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 27/29] fix: the basic algorithm restores the conserved moments
 after a relaxation with a relative velocity

---
 pylbm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 098d32a..83797d9 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -568,6 +568,9 @@ class BaseAlgorithm:
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
+        if with_rel_velocity:
+            code.append(self.restore_conserved_moments(m, fnew))
+
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-- 
2.43.0


From 3b2fc429960aa0940193d1801075e4d43fb69220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:44 +0000
Subject: [PATCH 28/29] fix: a scheme does not modify the matrix of the moments
 given by the user

---
 pylbm/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..82d9509 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -159,7 +159,7 @@ class Scheme:
 
         # TODO: add the possibility to have vectorial schemes when M matrix is defined
         if len(scheme) == 1 and "M" in scheme[0]:
-            self.M = scheme[0]["M"]
+            self.M = sp.Matrix(scheme[0]["M"])
             self.invM = self.M.inv()
             self.Tu = sp.eye(*self.M.shape)
             self.Tmu = sp.eye(*self.M.shape)
-- 
2.43.0


From 617dbcb3c8f5880afbfd3e4d1d6b9e4bd8cf317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:48 +0000
Subject: [PATCH 29/29] fix: the conserved moments are put in front whatever
 their order

---
 pylbm/scheme.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 82d9509..af45348 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,12 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # the rows move: position gives the moment which is at each row
+        position = list(range(self.stencil.nv_ptr[-1]))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            ip = position.index(c)
+            position[ic], position[ip] = position[ip], position[ic]
+            self.permutations.append([ic, ip])
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0

