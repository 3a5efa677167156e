From d01199d45e24814c213bf93a46515e68e5b0604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:50 +0000
Subject: [PATCH 01/31] fix: check_points modified the caller's shape and lost
 the upper tolerance

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..93b47e2 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -963,11 +963,11 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
             end = pos + shape + tol
+            pos -= tol
 
             mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
             for i in range(1, self.dim):
-- 
2.43.0


From f7b7193eee362b454e02c10d36905e7b3a4bde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:50 +0000
Subject: [PATCH 02/31] fix: LatticeData.append modified the neighbor array of
 its argument

---
 lattpy/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..977ef4f 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -523,10 +523,11 @@ class LatticeData:
             data = args[0]
             indices2 = data.indices
             positions2 = data.positions
-            neighbors2 = data.neighbors
+            neighbors2 = data.neighbors.copy()
             distances2 = data.distvals[data.distances]
         else:
             indices2, positions2, neighbors2, distances2 = args
+            neighbors2 = np.array(neighbors2)
 
         # Remove periodic neighbors
         self.remove_periodic()
-- 
2.43.0


From 08b050c350f37fb45d21ba049bb9fc4d9631c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:50 +0000
Subject: [PATCH 03/31] fix: copy caller's arrays that are stored as lattice
 configuration

---
 lattpy/basis.py     | 2 +-
 lattpy/disptools.py | 2 +-
 lattpy/lattice.py   | 2 +-
 lattpy/structure.py | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..cc25fd1 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -92,7 +92,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(basis, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index c94c6f1..ded3a6d 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -337,7 +337,7 @@ class DispersionPath:
         """
         if not name:
             name = str(len(self.points))
-        point = np.asarray(point)
+        point = np.array(point)
         if self.dim:
             point = point[: self.dim]
         else:
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..8b963a9 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -693,7 +693,7 @@ class Lattice(LatticeStructure):
             self.periodic_axes = list()
         else:
             self.data.remove_periodic()
-            axis = np.atleast_1d(axis)
+            axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
                 return
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 93b47e2..233a05f 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
+        self._positions.append(np.array(pos))
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
@@ -1360,7 +1360,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From 61cbe753d3ff491b080e1865cca28e80bfa0a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 04/31] fix: ConvexHull kept a reference to the caller's points

---
 lattpy/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/shape.py b/lattpy/shape.py
index 63c4413..88e0211 100644
--- a/lattpy/shape.py
+++ b/lattpy/shape.py
@@ -284,7 +284,7 @@ class ConvexHull(AbstractShape):
     def __init__(self, points):
         dim = len(points[0])
         super().__init__(dim)
-        self.hull = scipy.spatial.ConvexHull(points)
+        self.hull = scipy.spatial.ConvexHull(np.array(points))
 
     def limits(self):
         points = self.hull.points
-- 
2.43.0


From 00f8d5a99d41f6a2d6b62da2169d93bb73a9c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 05/31] fix: query results exposed internal arrays and lists

---
 lattpy/disptools.py |  4 ++--
 lattpy/lattice.py   |  4 ++--
 lattpy/structure.py | 12 +++++++-----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index ded3a6d..4107542 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -424,11 +424,11 @@ class DispersionPath:
         ticks: (N) np.ndarray
         labels: (N) list
         """
-        return np.arange(self.num_points) * self.n_sect, self.labels
+        return np.arange(self.num_points) * self.n_sect, list(self.labels)
 
     def edges(self):
         """Constructs the edges of the path."""
-        return list(chain(self.points))
+        return [[p0.copy(), p1.copy()] for p0, p1 in chain(self.points)]
 
     def distances(self):
         """Computes the distances between the edges of the path."""
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 8b963a9..af1e2a2 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -208,7 +208,7 @@ class Lattice(LatticeStructure):
         pos : (D, ) np.ndarray
             The position of the lattice site.
         """
-        return self.data.positions[idx]
+        return self.data.positions[idx].copy()
 
     def limits(self) -> np.ndarray:
         """Returns the spatial limits of the lattice model.
@@ -1103,7 +1103,7 @@ class Lattice(LatticeStructure):
             The information defining the current instance.
         """
         d = super().todict()
-        d["shape"] = self.shape
+        d["shape"] = deepcopy(self.shape)
         return d
 
     def dumps(self):  # pragma: no cover
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 233a05f..1c5954b 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -646,7 +646,7 @@ class LatticeStructure(LatticeBasis):
         """
         r = self._positions[alpha]
         if nvec is None:
-            return r
+            return np.copy(r)
         n = np.atleast_1d(nvec)
         return r + (self._vectors @ n)  # self.translate(n, r)
 
@@ -908,6 +908,8 @@ class LatticeStructure(LatticeBasis):
         for atom, pos in zip(self._atoms, self._positions):
             if atleast2d and self.dim == 1:
                 pos = np.array([pos, 0])
+            else:
+                pos = np.copy(pos)
 
             if atom.name in atom_pos.keys():
                 atom_pos[atom].append(pos)
@@ -1337,10 +1339,10 @@ class LatticeStructure(LatticeBasis):
             The information defining the current instance.
         """
         d = dict()
-        d["vectors"] = self.vectors
-        d["atoms"] = self._atoms
-        d["positions"] = self._positions
-        d["connections"] = self._connections
+        d["vectors"] = self.vectors.copy()
+        d["atoms"] = list(self._atoms)
+        d["positions"] = deepcopy(self._positions)
+        d["connections"] = deepcopy(self._connections)
         return d
 
     @classmethod
-- 
2.43.0


From 683f9f26e77bb668f4f8c3bde6f771c6df70fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 06/31] fix: reset the cached data map whenever the neighbor
 data changes

---
 lattpy/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 977ef4f..599dcb6 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -350,6 +350,7 @@ class LatticeData:
         self.neighbors = neighbors
         self.distances = distances
         self.invalid_idx = num_sites
+        self._dmap = None
 
     def get_limits(self) -> np.ndarray:
         """Computes the geometric limits of the positions of the stored sites.
@@ -479,6 +480,7 @@ class LatticeData:
         self.paxes = self.paxes[indices]
         self.pnvecs = self.pnvecs[indices]
         self.pmask = self.pmask[indices]
+        self._dmap = None
 
         # Translate neighbor indices
         old_neighbors = self.neighbors.copy()
@@ -493,6 +495,7 @@ class LatticeData:
         self.pnvecs.fill(0)
         self.pmask.fill(0)
         self.paxes.fill(self.dim)
+        self._dmap = None
 
     def sort_neighbors(self):
         distances = self.distvals[self.distances]
@@ -503,6 +506,7 @@ class LatticeData:
         self.paxes = self.paxes[i, j]
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
+        self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
@@ -515,6 +519,7 @@ class LatticeData:
         # Add new neighbor data to unused slots
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
+        self._dmap = None
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From f9cb4dc20e3f0820089ba6a3171779017ca39e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 07/31] fix: LatticeData.remove left the periodic data of
 removed sites behind

---
 lattpy/data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 599dcb6..ad36ddb 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -320,7 +320,7 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        sites = np.unique(sites)
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -331,12 +331,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        paxes[mask] = self.dim
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -349,6 +355,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
         self._dmap = None
 
-- 
2.43.0


From 620c0704a932729695ea967e7025f8467084a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 08/31] fix: added neighbors overwrote existing ones or got the
 wrong distance index

---
 lattpy/data.py | 64 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index ad36ddb..1b8e0b3 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -442,6 +442,38 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
+    def _free_slots(self, site, num):
+        """Returns `num` unused neighbor slots of a site (adds columns if needed)."""
+        slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        missing = num - len(slots)
+        if missing > 0:
+            cols = self.neighbors.shape[1]
+            slots = np.append(slots, np.arange(cols, cols + missing))
+            widths = ((0, 0), (0, missing))
+            self.neighbors = np.pad(
+                self.neighbors, widths, constant_values=self.invalid_idx
+            )
+            self.distances = np.pad(
+                self.distances, widths, constant_values=self.invalid_distidx
+            )
+            self.paxes = np.pad(
+                self.paxes, (*widths, (0, 0)), constant_values=self.dim
+            )
+            self.pnvecs = np.pad(self.pnvecs, (*widths, (0, 0)))
+            self.pmask = np.pad(self.pmask, widths)
+        return slots[:num]
+
+    def _distance_indices(self, distances):
+        """Translates distances to indices (adds unknown distances to `distvals`)."""
+        distvals = np.union1d(self.distvals, distances)
+        if len(distvals) > len(self.distvals):
+            dtype = np.promote_types(self.distances.dtype, min_dtype(len(distvals)))
+            distidx = np.searchsorted(distvals, self.distvals).astype(dtype)
+            self.distances = distidx[self.distances]
+            self.invalid_distidx = distidx[self.invalid_distidx]
+            self.distvals = distvals
+        return np.searchsorted(self.distvals, distances)
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -463,18 +495,16 @@ class LatticeData:
         self.remove_periodic()
         # Set new periodic neighbors
         for i, pidx in indices.items():
-            # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
+            # compute unused slots of normal data
+            slots = self._free_slots(i, len(pidx))
             # translate distances to indices
-            dists = distances[i]
-            distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            distidx = self._distance_indices(distances[i])
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -518,16 +548,14 @@ class LatticeData:
         self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
-        # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        neighbors = np.atleast_1d(neighbors)
+        # compute unused slots of normal data
+        slots = self._free_slots(site, len(neighbors))
         # Translate distances to indices
-        distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
+        distidx = self._distance_indices(distances)
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
         self._dmap = None
 
     def append(self, *args, copy=False):
-- 
2.43.0


From bdc8180006a749227ab5248c1f29eb6b8a730bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 09/31] fix: neighbor data without unused slots treated the
 farthest neighbors as invalid

---
 lattpy/data.py      |  5 ++++-
 lattpy/structure.py | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 1b8e0b3..7fa8473 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,9 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if not np.isinf(distvals).any():
+            # all slots are used: add the distance of invalid neighbors
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +319,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 1c5954b..fcc68c9 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1225,6 +1225,11 @@ class LatticeStructure(LatticeBasis):
         neighbors = neighbors[i, j]
         num_sites = len(neighbors)
 
+        # Remove columns containing only invalid data
+        any_valid = np.any(distances != np.inf, axis=0)
+        distances = distances[:, any_valid]
+        neighbors = neighbors[:, any_valid]
+
         if not np.any(distances == np.inf):
             # No invalid entries found. This usually happens for (2, 2, ..) systems
             # which results in a bug for the neighbor data:
@@ -1237,11 +1242,6 @@ class LatticeStructure(LatticeBasis):
             shape = num_sites, 1
             neighbors = np.append(neighbors, np.full(shape, invalid_ind), axis=1)
             distances = np.append(distances, np.full(shape, np.inf), axis=1)
-        else:
-            # Remove columns containing only invalid data
-            all_valid = np.any(distances != np.inf, axis=0)
-            distances = distances[:, all_valid]
-            neighbors = neighbors[:, all_valid]
 
         return neighbors, distances
 
-- 
2.43.0


From 50931962c94082f096e05ebd0afebf9cb1e15edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 10/31] fix: appending data kept periodic neighbors as regular
 ones

---
 lattpy/data.py    | 18 +++++++++++-------
 lattpy/lattice.py | 20 ++++++++++++--------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 7fa8473..6f2e067 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -564,28 +564,32 @@ class LatticeData:
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
         distances1 = self.distvals[self.distances]
+        # Remove periodic neighbors
+        neighbors1[self.pmask] = self.invalid_idx
+        distances1[self.pmask] = np.inf
         if len(args) == 1 and isinstance(args[0], LatticeData):
             data = args[0]
             indices2 = data.indices
             positions2 = data.positions
             neighbors2 = data.neighbors.copy()
             distances2 = data.distvals[data.distances]
+            neighbors2[data.pmask] = data.invalid_idx
+            distances2[data.pmask] = np.inf
         else:
             indices2, positions2, neighbors2, distances2 = args
             neighbors2 = np.array(neighbors2)
 
-        # Remove periodic neighbors
-        self.remove_periodic()
+        # Upgrade dtype if neccessary
+        invalid_idx = self.num_sites + len(indices2)
+        dtype = np.promote_types(neighbors1.dtype, neighbors2.dtype)
+        dtype = np.promote_types(dtype, min_dtype(invalid_idx))
+        neighbors1 = neighbors1.astype(dtype)
+        neighbors2 = neighbors2.astype(dtype)
 
         # Convert invalid indices of neighbor data
-        invalid_idx = self.num_sites + len(indices2)
         neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
         neighbors2[neighbors2 == len(indices2)] = invalid_idx
 
-        # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
         # Shift neighbor indices
         neighbors2[neighbors2 != invalid_idx] += self.num_sites
 
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index af1e2a2..d137183 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -894,10 +894,12 @@ class Lattice(LatticeStructure):
                 DeprecationWarning,
             )
 
-        ind = latt.data.indices
-        pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
+        data = latt.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
         )
@@ -985,10 +987,12 @@ class Lattice(LatticeStructure):
         >>> latt.repeat(ax=1)
         [35.  5.]
         """
-        ind = self.data.indices
-        pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
+        data = self.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         prim = self.primitive
         for _ in range(num):
             self._append(
-- 
2.43.0


From faafab3341f4bc2ef86386e316f5a43c8b4cf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 11/31] fix: periodic_axes kept its old value when the periodic
 neighbors were replaced

---
 lattpy/lattice.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d137183..db9f582 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -473,6 +473,7 @@ class Lattice(LatticeStructure):
         self.data.set(indices, positions, neighbors, distances_)
         self.primitive = primitive
         self._update_shape()
+        self.periodic_axes = list()
 
         if periodic is not None:
             self.set_periodic(periodic)
@@ -695,9 +696,8 @@ class Lattice(LatticeStructure):
             self.data.remove_periodic()
             axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
-            if not pidx:
-                return
-            self.data.set_periodic(pidx, pdists, pnvecs, paxs)
+            if pidx:
+                self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
     def _compute_connection_neighbors(self, positions1, positions2):
@@ -836,6 +836,7 @@ class Lattice(LatticeStructure):
 
         # Update the shape of the lattice
         self._update_shape()
+        self.periodic_axes = list()
 
     # noinspection PyShadowingNames
     def append(
-- 
2.43.0


From b073e13bc7c26a617bec33489f495f6b2546b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 12/31] fix: a failing build discarded the data of the lattice

---
 lattpy/lattice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index db9f582..6a172b1 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,7 +445,6 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
-        self.data.reset()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
-- 
2.43.0


From f83526dfc7181fbe0c09bb7387365b25f02e194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 13/31] fix: neighbors of the invalid distance index returned
 the padding

---
 lattpy/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 6f2e067..06a1636 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -438,6 +438,7 @@ class LatticeData:
             mask = self.distances[site] < self.invalid_distidx
         else:
             mask = self.distances[site] == distidx
+            mask &= self.distances[site] < self.invalid_distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From ceb5dc1ab8f77e53f39292de21e5ce2fb5d10939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 14/31] fix: check_neighbors missed distance levels

---
 lattpy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 6a172b1..e9c95ca 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,8 +383,8 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
                 return distidx
         return None
 
-- 
2.43.0


From b0e8fca3468b9598bc3f7b896411913bf2c4c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 15/31] fix: distances and axes of periodic neighbors got out
 of step with their sites

---
 lattpy/lattice.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e9c95ca..054cd83 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -618,18 +618,16 @@ class Lattice(LatticeStructure):
 
         # Convert values of dict to np.ndarray's
         for k in list(pidx.keys()):
-            pi = list(pidx[k])  # indices of periodic neighbors
+            pi = np.array(pidx[k])  # indices of periodic neighbors
             # Check if periodic neighbors is in regular neighbors
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
-            existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            new = np.where(~np.isin(pi, self.neighbors(k)))[0]
 
-            if len(pi):
+            if len(new):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(pi[new], return_index=True)
+                ind = new[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From 9ea31eb67290ffd8f75e6e5ac7fecbc882b5ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 16/31] fix: connecting sections ignored the configured
 connections and distance rounding

---
 lattpy/lattice.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 054cd83..59c039e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -697,7 +697,7 @@ class Lattice(LatticeStructure):
                 self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
@@ -714,7 +714,11 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
+                    # Skip not connected neighbors
+                    if dist not in self._distance_matrix[alphas1[i]][alphas2[j]]:
+                        continue
                     pairs.append((i, j))
                     # pairs.append((j, i))
                     distances_.append(dist)
@@ -739,8 +743,12 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
-        positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        return self._compute_connection_neighbors(
+            self.data.positions,
+            latt.data.positions,
+            self.data.indices[:, -1],
+            latt.data.indices[:, -1],
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
@@ -815,6 +823,7 @@ class Lattice(LatticeStructure):
 
         # Store temporary data
         positions1 = self.data.positions
+        alphas1 = self.data.indices[:, -1]
 
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
@@ -822,7 +831,9 @@ class Lattice(LatticeStructure):
 
         # Append data and compute connecting neighbors
         self.data.append(indices2, positions2, neighbors2, distances2)
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        pairs, distances_ = self._compute_connection_neighbors(
+            positions1, positions2, alphas1, indices2[:, -1]
+        )
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
-- 
2.43.0


From 1a6dcb532c51ade6d1987fc1b4329de2f79003e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 17/31] fix: errors without a hint could not be printed

---
 lattpy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..4ea63e0 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -56,6 +56,9 @@ class LatticeError(Exception):
 
 
 class ConfigurationError(LatticeError):
+    def __init__(self, msg="", hint=""):
+        super().__init__(msg, hint)
+
     @property
     def msg(self):
         return self.args[0]
-- 
2.43.0


From 32073d900098a3de96e8e8e51ba1246e23dfbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 18/31] fix: lattices that are not built or configured could
 not be hashed

---
 lattpy/lattice.py   | 1 +
 lattpy/structure.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 59c039e..8afee3e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1130,6 +1130,7 @@ class Lattice(LatticeStructure):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = list() if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
diff --git a/lattpy/structure.py b/lattpy/structure.py
index fcc68c9..df3d5ad 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1377,6 +1377,7 @@ class LatticeStructure(LatticeBasis):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = list() if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
-- 
2.43.0


From 99240f3169da890c83acf85ab7736c63f56ef01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 19/31] fix: add_atom failed after the lattice was analyzed

---
 lattpy/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index df3d5ad..5d5996c 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -451,7 +451,6 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Building indices of neighbor-cells")
 
         # Build indices of neighbor-cells
-        self._positions = np.asarray(self._positions)
         cell_range = 2 * max_distidx
         logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
 
@@ -799,7 +798,7 @@ class LatticeStructure(LatticeBasis):
 
         indices = self.get_neighbors(nvec, alpha, distidx)
         nvecs, alphas = indices[:, :-1], indices[:, -1]
-        atom_pos = self._positions[alphas]
+        atom_pos = np.array(self._positions)[alphas]
         positions = self.translate(nvecs, atom_pos)
         logger.debug("Neighbour-positions: %s", positions)
 
-- 
2.43.0


From a31404d3619ed94163b5e01149208d25b92b4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 20/31] fix: integer overflows for large numbers of sites,
 neighbors or distances

---
 lattpy/data.py      | 2 +-
 lattpy/lattice.py   | 5 +++--
 lattpy/spatial.py   | 4 ++--
 lattpy/structure.py | 2 +-
 lattpy/utils.py     | 1 +
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 06a1636..c8396b5 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -668,7 +668,7 @@ class LatticeData:
         datamap : DataMap
         """
         if self._dmap is None:
-            alphas = self.indices[:, -1].astype(np.int8)
+            alphas = self.indices[:, -1].astype(np.int64)
             # Build index pairs and corresponding distance array
             dtype = np.min_scalar_type(self.num_sites)
             sites = np.arange(self.num_sites, dtype=dtype)
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 8afee3e..a03f88e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1098,8 +1098,9 @@ class Lattice(LatticeStructure):
         """
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
-        data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        data = distindices.astype(np.int64) + 1
+        shape = self.num_sites, self.num_sites
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int64)
 
     # ==================================================================================
 
diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..aecda07 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -137,9 +137,9 @@ def vindices(
     -------
     vectors: (N, D) np.ndarray
     """
-    if dtype is None:
-        dtype = min_dtype(limits, signed=True)
     limits = np.asarray(limits)
+    if dtype is None:
+        dtype = min_dtype(np.append(limits, limits[:, 1] - limits[:, 0]), signed=True)
     dim = limits.shape[0]
 
     # Create meshgrid reshape grid to array of indices
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 5d5996c..7651406 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -596,7 +596,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
diff --git a/lattpy/utils.py b/lattpy/utils.py
index 4ea63e0..fe190af 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -136,6 +136,7 @@ def create_lookup_table(
         The corresponding indices in the same shape as the input-array.
     """
     values = np.sort(np.unique(array))
+    dtype = np.promote_types(dtype, np.min_scalar_type(len(values)))
     indices = np.zeros_like(array, dtype=dtype)
     for i, x in enumerate(values):
         mask = array == x
-- 
2.43.0


From 77739077032eac8571190398c124f11d623b2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 21/31] fix: size of the Wigner-Seitz cell mixed up axes and
 limits

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index aecda07..be44b42 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -463,7 +463,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From 8b95c39d1963df4c81db7b2c18ef7286698135cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 22/31] fix: rotation around x rotated around z

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index be44b42..f9d7702 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -558,7 +558,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From d99e14e7c045d3920f47db926e4036148850178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 23/31] fix: cell size of vectors with negative components only

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index f9d7702..cdbd5ee 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -237,6 +237,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
     min_values[min_values > 0] = 0
+    max_values[max_values < 0] = 0
     return max_values - min_values
 
 
-- 
2.43.0


From 11e884802bbae8ed58a302c3acfe28c0fff2aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:05 +0000
Subject: [PATCH 24/31] fix: min_negative was used as the tolerance of the
 reciprocal vectors

---
 lattpy/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index cc25fd1..5cd6144 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -480,7 +480,7 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -569,7 +569,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt.wigner_seitz_cell()
 
-- 
2.43.0


From 47309a742b9f8746ff58745190d27119cd027fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 25/31] fix: changed atoms and connections were ignored until
 the next analysis

---
 lattpy/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 7651406..c35f781 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -262,6 +262,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        self._base_neighbors = None
 
         if neighbors:
             self.add_connections(neighbors)
@@ -411,6 +412,7 @@ class LatticeStructure(LatticeBasis):
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
@@ -444,6 +446,7 @@ class LatticeStructure(LatticeBasis):
         >>> latt.add_connections(num_distances=1)
         """
         self._connections.fill(num_distances)
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
-- 
2.43.0


From 82e3be82cf0f6b2f55eebd7c0fd18422af374a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:07 +0000
Subject: [PATCH 26/31] fix: a failing set_periodic discarded the existing
 periodic neighbors

---
 lattpy/lattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index a03f88e..2dfcbf2 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -622,7 +622,8 @@ class Lattice(LatticeStructure):
             # Check if periodic neighbors is in regular neighbors
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
-            new = np.where(~np.isin(pi, self.neighbors(k)))[0]
+            regular = self.data.get_neighbors(k, periodic=False)
+            new = np.where(~np.isin(pi, regular))[0]
 
             if len(new):
                 # Convert to arrays
@@ -690,9 +691,9 @@ class Lattice(LatticeStructure):
             self.data.remove_periodic()
             self.periodic_axes = list()
         else:
-            self.data.remove_periodic()
             axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
+            self.data.remove_periodic()
             if pidx:
                 self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
-- 
2.43.0


From b1e665d2e3d9c729132a817ea54e9f6b71729619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:58 +0000
Subject: [PATCH 27/31] fix: results of an old analysis were still used after
 atoms or connections changed

---
 lattpy/lattice.py   |  4 ++++
 lattpy/structure.py | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 2dfcbf2..84c0561 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -559,6 +559,7 @@ class Lattice(LatticeStructure):
         return out_ind, out_pos
 
     def kdtree(self, positions=None, eps=0.0, boxsize=None):
+        self._assert_analyzed()
         if positions is None:
             positions = self.data.positions
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
@@ -572,6 +573,7 @@ class Lattice(LatticeStructure):
             indices = self.data.indices
             positions = self.data.positions
 
+        self._assert_analyzed()
         axis = np.atleast_1d(axis)
         invald_idx = len(indices)
 
@@ -744,6 +746,7 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
+        self._assert_analyzed()
         return self._compute_connection_neighbors(
             self.data.positions,
             latt.data.positions,
@@ -811,6 +814,7 @@ class Lattice(LatticeStructure):
         sort_reverse=False,
         primitive=False,
     ):
+        self._assert_analyzed()
         indices2 = np.copy(ind)
         positions2 = np.copy(pos)
         neighbors2 = np.copy(neighbors)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index c35f781..57ddab6 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -262,7 +262,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
-        self._base_neighbors = None
+        self._reset_analysis()
 
         if neighbors:
             self.add_connections(neighbors)
@@ -412,7 +412,7 @@ class LatticeStructure(LatticeBasis):
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
-        self._base_neighbors = None
+        self._reset_analysis()
         if analyze:
             self.analyze()
 
@@ -446,10 +446,20 @@ class LatticeStructure(LatticeBasis):
         >>> latt.add_connections(num_distances=1)
         """
         self._connections.fill(num_distances)
-        self._base_neighbors = None
+        self._reset_analysis()
         if analyze:
             self.analyze()
 
+    def _reset_analysis(self):
+        """Discards the results of the analysis of another configuration."""
+        self._raw_base_neighbors = None
+        self._raw_distance_matrix = None
+        self._raw_num_neighbors = None
+        self._base_neighbors = None
+        self._num_neighbors = None
+        self._distance_matrix = None
+        self._distances = None
+
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
 
@@ -1314,6 +1324,7 @@ class LatticeStructure(LatticeBasis):
 
         logger.debug("Querying neighbors of %i points", len(positions))
 
+        self._assert_analyzed()
         # Set neighbor query parameters and build tree
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
-- 
2.43.0


From 60ffab84b96474e792c2706b64e2834f2fcb7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:45 +0000
Subject: [PATCH 28/31] fix: extending a lattice built at a position misplaced
 the new section

---
 lattpy/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 84c0561..f9fb7d3 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -957,7 +957,9 @@ class Lattice(LatticeStructure):
         # Build indices and positions of new section
         shape = np.copy(self.shape)
         shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        ind, pos = self.build_indices(
+            shape, primitive=self.primitive, pos=self.pos, return_pos=True
+        )
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From 88fbc04ffc378048f0f51a371c96f080fe077fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:45 +0000
Subject: [PATCH 29/31] fix: building a lattice away from the origin left out
 sites

---
 lattpy/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 57ddab6..f52575b 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1061,6 +1061,7 @@ class LatticeStructure(LatticeBasis):
             shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
         if pos is None:
             pos = np.zeros(self.dim)
+        pos = np.asarray(pos)
         end = pos + shape
 
         # Estimate the maximum needed translation vector to reach all points
@@ -1070,7 +1071,7 @@ class LatticeStructure(LatticeBasis):
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
-                _pos[np.array(idx)] = 0
+                _pos[np.array(idx)] = pos[np.array(idx)]
                 index = self.itranslate(_pos)[0]
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-- 
2.43.0


From a4e9c20d6e5219133701bd655f4870851a3c7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:45 +0000
Subject: [PATCH 30/31] fix: the zero vector in the neighbor vectors was
 shifted by the position of the atom

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index f52575b..1811770 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -859,9 +859,9 @@ class LatticeStructure(LatticeBasis):
 
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
-        if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
         vecs = pos1 - pos0
+        if include_zero:
+            vecs = np.append(np.zeros((1, self.dim)), vecs, axis=0)
         logger.debug("Neighbour-vectors: %s", vecs)
 
         return vecs
-- 
2.43.0


From 8405a4ddd1bbb6cdb75c53a803e58db74220a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:03 +0000
Subject: [PATCH 31/31] fix: build accepted a shape of the wrong dimension if a
 position was given

---
 lattpy/lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f9fb7d3..72f009a 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -448,6 +448,11 @@ class Lattice(LatticeStructure):
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
+            if shape.dim != self.dim:
+                raise ValueError(
+                    f"Dimension of shape {shape.dim} doesn't "
+                    f"match the dimension of the lattice {self.dim}"
+                )
             # shape = np.atleast_1d(shape)
 
         self._assert_connections()
-- 
2.43.0

