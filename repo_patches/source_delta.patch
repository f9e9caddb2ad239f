From 1dd8733f45b020b616fadd93638f58c2652ee9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:43 +0000
Subject: [PATCH 01/29] fix: configuration errors without a hint can be
 converted to a string

---
 lattpy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..4ea63e0 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -56,6 +56,9 @@ class LatticeError(Exception):
 
 
 class ConfigurationError(LatticeError):
+    def __init__(self, msg="", hint=""):
+        super().__init__(msg, hint)
+
     @property
     def msg(self):
         return self.args[0]
-- 
2.43.0


From 27dbf201868f30dae591b5848d5045ace463bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:08 +0000
Subject: [PATCH 02/29] fix: atoms can be added after the lattice has been
 analyzed

---
 lattpy/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..5c509f8 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -250,8 +250,9 @@ class LatticeStructure(LatticeBasis):
         if not isinstance(atom, Atom):
             atom = Atom(atom, **kwargs)
 
+        # The positions are stored as array after the lattice has been analyzed
+        self._positions = [*self._positions, np.asarray(pos)]
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
-- 
2.43.0


From 23ad9edf19644cfe0cf0d0d3b0a51af9f1abdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 03/29] fix: don't share the basis and atom position arrays
 with the caller

---
 lattpy/basis.py     | 2 +-
 lattpy/structure.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..cc25fd1 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -92,7 +92,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(basis, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 5c509f8..31a1c41 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -235,7 +235,8 @@ class LatticeStructure(LatticeBasis):
         >>> latt.get_atom(1)
         Atom(B, size=15, 1)
         """
-        pos = np.zeros(self.dim) if pos is None else np.atleast_1d(pos)
+        # Copy the position, the caller might reuse the array
+        pos = np.zeros(self.dim) if pos is None else np.array(pos, ndmin=1)
         if primitive:
             pos = self.translate(pos)
 
-- 
2.43.0


From e26180e0d1158fa372257bfcf13dec2eeedac75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 04/29] fix: changing atoms or connections outdates the
 analysis of the lattice

---
 lattpy/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 31a1c41..ed3f69b 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -264,6 +264,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        self._base_neighbors = None  # outdated
 
         if neighbors:
             self.add_connections(neighbors)
@@ -410,6 +411,7 @@ class LatticeStructure(LatticeBasis):
         """
         alpha1 = np.atleast_1d(self.get_alpha(atom1))
         alpha2 = np.atleast_1d(self.get_alpha(atom2))
+        self._base_neighbors = None  # outdated
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
@@ -445,6 +447,7 @@ class LatticeStructure(LatticeBasis):
 
         >>> latt.add_connections(num_distances=1)
         """
+        self._base_neighbors = None  # outdated
         self._connections.fill(num_distances)
         if analyze:
             self.analyze()
@@ -612,10 +615,11 @@ class LatticeStructure(LatticeBasis):
                 dists = list()
             distances[alpha, : len(dists)] = sorted(dists)
 
-        self._base_neighbors = base_neighbors
         self._distance_matrix = base_distance_matrix
         self._num_neighbors = num_neighbors
         self._distances = distances
+        # Marks the lattice as analyzed, has to be set last
+        self._base_neighbors = base_neighbors
         logger.debug("Number of neighbors:\n%s", num_neighbors)
         logger.debug("Distance-matrix:\n%s", base_distance_matrix)
         logger.debug("Distances:\n%s", distances)
@@ -1310,6 +1314,7 @@ class LatticeStructure(LatticeBasis):
         as distance.
         """
 
+        self._assert_analyzed()
         logger.debug("Querying neighbors of %i points", len(positions))
 
         # Set neighbor query parameters and build tree
-- 
2.43.0


From 13bed7243a278ea4c48bdd34df3d18e5ed0a7be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:55 +0000
Subject: [PATCH 05/29] fix: lattices restored by fromdict don't share state
 with the original

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index ed3f69b..8a24aee 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1366,8 +1366,8 @@ class LatticeStructure(LatticeBasis):
         """
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
-            self.add_atom(pos, at)
-        self._connections = d["connections"]
+            self.add_atom(pos, deepcopy(at))
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From 01f7642835d125d61536f022c9ab929e208b22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:23 +0000
Subject: [PATCH 06/29] fix: lattices that haven't been built can be hashed and
 compared

---
 lattpy/lattice.py   | 1 +
 lattpy/structure.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..9c44990 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1117,6 +1117,7 @@ class Lattice(LatticeStructure):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = ["None"] if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 8a24aee..6ddfd25 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1382,6 +1382,7 @@ class LatticeStructure(LatticeBasis):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = ["None"] if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
-- 
2.43.0


From 460283622e3a5edb36855d444462c0f5e665ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:29 +0000
Subject: [PATCH 07/29] fix: keep neighbors of the last distance if all
 neighbor slots are used

---
 lattpy/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..b5ffb6e 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,9 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if len(distvals) == 0 or np.isfinite(distvals[-1]):
+            # No invalid entries, add invalid distance to the lookup values
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +319,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(self.distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
-- 
2.43.0


From a1c163a89bc17cf297c861bd03fa2403a5ab074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 08/29] fix: removing sites also removes their periodic
 neighbor data

---
 lattpy/data.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index b5ffb6e..82a154f 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -323,7 +323,8 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        sites = np.atleast_1d(sites).astype(np.int64)
+        sites = np.unique(np.arange(self.num_sites)[sites])
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -334,12 +335,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        paxes[mask] = self.dim
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -352,6 +359,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
 
     def get_limits(self) -> np.ndarray:
-- 
2.43.0


From 37573d3d4392ef0ee16a4a1d81ffd74c79b63596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:57 +0000
Subject: [PATCH 09/29] fix: discard the cached data map when the neighbor data
 changes

---
 lattpy/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 82a154f..f3fb335 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -325,6 +325,7 @@ class LatticeData:
     def remove(self, sites):
         sites = np.atleast_1d(sites).astype(np.int64)
         sites = np.unique(np.arange(self.num_sites)[sites])
+        self._dmap = None
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -484,6 +485,7 @@ class LatticeData:
             indices = np.lexsort(self.indices.T[[ax]])
         if reverse:
             indices = indices[::-1]
+        self._dmap = None
         # Reorder data
         self.indices = self.indices[indices]
         self.positions = self.positions[indices]
@@ -500,6 +502,7 @@ class LatticeData:
             self.neighbors[mask] = new
 
     def remove_periodic(self):
+        self._dmap = None
         mask = self.pmask
         self.neighbors[mask] = self.invalid_idx
         self.distances[mask] = self.invalid_distidx
@@ -511,6 +514,7 @@ class LatticeData:
         distances = self.distvals[self.distances]
         i = np.arange(len(distances))[:, np.newaxis]
         j = np.argsort(distances, axis=1)
+        self._dmap = None
         self.neighbors = self.neighbors[i, j]
         self.distances = self.distances[i, j]
         self.paxes = self.paxes[i, j]
@@ -520,6 +524,7 @@ class LatticeData:
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
         distances = np.atleast_2d(distances)
+        self._dmap = None
         # compute invalid slots of normal data
         i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
         i1 = i0 + len(neighbors)
-- 
2.43.0


From 0bdf3bea0566071ad99874201392f7137652cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 10/29] fix: don't drop or overwrite neighbors if a site has no
 free slots at the end

---
 lattpy/data.py | 58 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index f3fb335..a0d7aeb 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -467,18 +467,16 @@ class LatticeData:
         self.remove_periodic()
         # Set new periodic neighbors
         for i, pidx in indices.items():
-            # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
             # translate distances to indices
-            dists = distances[i]
-            distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            distidx = self._get_distidx(distances[i])
+            # compute invalid slots of normal data
+            slots = self._get_free_slots(i, len(pidx))
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -521,18 +519,42 @@ class LatticeData:
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
 
+    def _get_distidx(self, distances):
+        """Translates distances to indices, unknown distances are stored."""
+        missing = np.setdiff1d(distances, self.distvals)
+        if len(missing):
+            distvals = np.union1d(self.distvals, missing)
+            translated = np.searchsorted(distvals, self.distvals)
+            self.distances = translated[self.distances].astype(self.distances.dtype)
+            self.distvals = distvals
+            self.invalid_distidx = len(distvals) - 1
+        return np.searchsorted(self.distvals, distances)
+
+    def _get_free_slots(self, site, num):
+        """Returns unused neighbor slots of a site, slots are added if needed."""
+        slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        missing = num - len(slots)
+        if missing > 0:
+            pad = ((0, 0), (0, missing))
+            pad3 = (*pad, (0, 0))
+            idx, distidx, dim = self.invalid_idx, self.invalid_distidx, self.dim
+            self.neighbors = np.pad(self.neighbors, pad, constant_values=idx)
+            self.distances = np.pad(self.distances, pad, constant_values=distidx)
+            self.paxes = np.pad(self.paxes, pad3, constant_values=dim)
+            self.pnvecs = np.pad(self.pnvecs, pad3)
+            self.pmask = np.pad(self.pmask, pad)
+            slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        return slots[:num]
+
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
+        neighbors = np.atleast_1d(neighbors)
         self._dmap = None
-        # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
         # Translate distances to indices
-        distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
+        distidx = self._get_distidx(np.atleast_1d(distances))
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        slots = self._get_free_slots(site, len(neighbors))
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From d1a769354ded071250fbf19bae04e496f2e02c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 11/29] fix: appending data ignores periodic neighbors and
 leaves its arguments alone

---
 lattpy/data.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index a0d7aeb..a9cca01 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -557,10 +557,9 @@ class LatticeData:
         self.distances[site, slots] = distidx
 
     def append(self, *args, copy=False):
-        neighbors1 = self.neighbors.copy()
-        distances1 = self.distvals[self.distances]
         if len(args) == 1 and isinstance(args[0], LatticeData):
-            data = args[0]
+            data = args[0].copy()
+            data.remove_periodic()
             indices2 = data.indices
             positions2 = data.positions
             neighbors2 = data.neighbors
@@ -569,19 +568,21 @@ class LatticeData:
             indices2, positions2, neighbors2, distances2 = args
 
         # Remove periodic neighbors
-        self.remove_periodic()
+        data1 = self.copy() if copy else self
+        data1.remove_periodic()
+        distances1 = data1.distvals[data1.distances]
 
-        # Convert invalid indices of neighbor data
+        # upgrade dtype if neccessary
         invalid_idx = self.num_sites + len(indices2)
-        neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
-        neighbors2[neighbors2 == len(indices2)] = invalid_idx
+        dtype = min_dtype(invalid_idx)
+        neighbors1 = data1.neighbors.astype(dtype)
+        neighbors2 = neighbors2.astype(dtype)
 
-        # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
-        # Shift neighbor indices
-        neighbors2[neighbors2 != invalid_idx] += self.num_sites
+        # Convert invalid indices of neighbor data and shift neighbor indices
+        invalid2 = neighbors2 == len(indices2)
+        neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
+        neighbors2 += self.num_sites
+        neighbors2[invalid2] = invalid_idx
 
         # Pad neighbor data
         cols1 = neighbors1.shape[1]
-- 
2.43.0


From 724dbb731449bbc4c293e7e544c5970636ed8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:23 +0000
Subject: [PATCH 12/29] fix: appending lattices removes periodic boundaries
 completely

---
 lattpy/lattice.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 9c44990..2211af1 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -823,20 +823,21 @@ class Lattice(LatticeStructure):
         indices2[:, :-1] += nvec
         positions2 += vec
 
-        # Append data and compute connecting neighbors
-        self.data.append(indices2, positions2, neighbors2, distances2)
+        # Compute connecting neighbors and append data
         pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        self.data.append(indices2, positions2, neighbors2, distances2)
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
             self.data.add_neighbors(j + offset, i, dist)
 
+        # Update the shape of the lattice, periodic boundaries have been removed
+        self.periodic_axes = list()
+        self._update_shape()
+
         if sort_axis is not None:
             self.data.sort(sort_axis, reverse=sort_reverse)
 
-        # Update the shape of the lattice
-        self._update_shape()
-
     # noinspection PyShadowingNames
     def append(
         self, latt, ax=0, side=+1, sort_ax=None, sort_reverse=False, primitive=None
@@ -894,10 +895,10 @@ class Lattice(LatticeStructure):
                 DeprecationWarning,
             )
 
-        ind = latt.data.indices
-        pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
+        data = latt.data.copy()
+        data.remove_periodic()
+        dists = data.distvals[data.distances]
+        ind, pos, neighbors = data.indices, data.positions, data.neighbors
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
         )
@@ -985,10 +986,10 @@ class Lattice(LatticeStructure):
         >>> latt.repeat(ax=1)
         [35.  5.]
         """
-        ind = self.data.indices
-        pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
+        data = self.data.copy()
+        data.remove_periodic()
+        dists = data.distvals[data.distances]
+        ind, pos, neighbors = data.indices, data.positions, data.neighbors
         prim = self.primitive
         for _ in range(num):
             self._append(
-- 
2.43.0


From 21f6eb4e563478b535486ea4663a530980ad8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:46 +0000
Subject: [PATCH 13/29] fix: only connect configured neighbor distances of
 appended lattices

---
 lattpy/lattice.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 2211af1..a2b5567 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -700,7 +700,7 @@ class Lattice(LatticeStructure):
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
@@ -712,12 +712,20 @@ class Lattice(LatticeStructure):
         pairs = list()
         distances_ = list()
         # offset = len(positions1)
+        dist_matrix = self._distance_matrix
+        num_base = len(dist_matrix)
         connections = tree1.query_ball_tree(tree2, max_dist)
         for i, conns in enumerate(connections):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
+                    # Skip sites that are not connected
+                    a1, a2 = alphas1[i], alphas2[j]
+                    if a1 < num_base and a2 < num_base:
+                        if dist not in dist_matrix[a1][a2]:
+                            continue
                     pairs.append((i, j))
                     # pairs.append((j, i))
                     distances_.append(dist)
@@ -742,8 +750,10 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
-        positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        data1, data2 = self.data, latt.data
+        return self._compute_connection_neighbors(
+            data1.positions, data2.positions, data1.indices[:, -1], data2.indices[:, -1]
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
@@ -824,7 +834,9 @@ class Lattice(LatticeStructure):
         positions2 += vec
 
         # Compute connecting neighbors and append data
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        pairs, distances_ = self._compute_connection_neighbors(
+            positions1, positions2, self.data.indices[:, -1], indices2[:, -1]
+        )
         self.data.append(indices2, positions2, neighbors2, distances2)
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
-- 
2.43.0


From 64e92a96bf73081ea73e1a1760db7721d39e013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:13 +0000
Subject: [PATCH 14/29] fix: appended lattices don't overlap if their origins
 differ along the axis

---
 lattpy/lattice.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index a2b5567..501c439 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -824,6 +824,15 @@ class Lattice(LatticeStructure):
         nvec = self._build_periodic_translation_vector(ax, primitive, indices)
         if side <= 0:
             nvec = -1 * nvec
+        # Include offset between the lower limits of the two lattices
+        cells1, cells2 = self.data.indices[:, :-1], indices2[:, :-1]
+        if not primitive:
+            cells1, cells2 = self.transform(cells1), self.transform(cells2)
+        offset = np.zeros(self.dim)
+        offset[ax] = np.min(cells1[:, ax]) - np.min(cells2[:, ax])
+        if not primitive:
+            offset = np.round(self.itransform(offset), decimals=0)
+        nvec = nvec + offset.astype(np.int64)
         vec = self.translate(nvec)
 
         # Store temporary data
-- 
2.43.0


From 168cb7a9c9def4622176318834d404ac3bbfe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:03 +0000
Subject: [PATCH 15/29] fix: a failed build doesn't leave the shape and
 boundaries of the previous model

---
 lattpy/lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 501c439..d59414b 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,7 +445,12 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
+        # Reset the cached model. If building fails the lattice is left unbuilt
         self.data.reset()
+        self.shape = None
+        self.pos = None
+        self.periodic_axes = list()
+        self.primitive = None
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
-- 
2.43.0


From 4d6580fd361b28bb777d3502d169e1c333caf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:11 +0000
Subject: [PATCH 16/29] fix: periodic axes are reset if no periodic neighbors
 are set

---
 lattpy/lattice.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d59414b..97c04c6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -693,11 +693,9 @@ class Lattice(LatticeStructure):
         logger.debug("Computing periodic neighbors along axis %s", axis)
         if self.shape is None:
             raise NotBuiltError()
-        if axis is None:
-            self.data.remove_periodic()
-            self.periodic_axes = list()
-        else:
-            self.data.remove_periodic()
+        self.data.remove_periodic()
+        self.periodic_axes = list()
+        if axis is not None:
             axis = np.atleast_1d(axis)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
-- 
2.43.0


From 8a957d0e0404412d651bba00dc10a2f306ea3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:49 +0000
Subject: [PATCH 17/29] fix: periodic translations of three or more axes
 include all corners

---
 lattpy/lattice.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 97c04c6..f38576b 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -542,14 +542,16 @@ class Lattice(LatticeStructure):
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
+        for ax in itertools.combinations_with_replacement(axes, max(2, len(axes))):
             nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
             # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+            signs = [(1, -1)] * (self.dim - 1)
+            if np.all(np.array(ax) == axes[0]):
+                signs = [(1,)] * (self.dim - 1)
+            for sign in itertools.product((1,), *signs):
+                nvec2 = nvec * sign
+                if not any(np.array_equal(nvec2, x[1]) for x in items):
+                    items.append((ax, nvec2))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From 0f9239fbe653079ced3b0d7d5dc9b65367715e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 18/29] fix: keep distances and vectors aligned when skipping
 existing periodic neighbors

---
 lattpy/lattice.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f38576b..313f5c1 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -625,18 +625,15 @@ class Lattice(LatticeStructure):
 
         # Convert values of dict to np.ndarray's
         for k in list(pidx.keys()):
-            pi = list(pidx[k])  # indices of periodic neighbors
+            pi = np.array(pidx[k])  # indices of periodic neighbors
             # Check if periodic neighbors is in regular neighbors
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
-            existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
-
-            if len(pi):
+            new = np.where(~np.isin(pi, self.neighbors(k)))[0]
+            if len(new):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(pi[new], return_index=True)
+                ind = new[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From 12c042741555a8e43264b255fc3f08f1f931c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 19/29] fix: check_neighbors checks all distances of the
 lattice

---
 lattpy/lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 313f5c1..d72f08d 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,9 +383,9 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
-                return distidx
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
+                return int(distidx)
         return None
 
     def _update_shape(self):
-- 
2.43.0


From 78390df73622e035ef670035e8709a4df50a7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:29 +0000
Subject: [PATCH 20/29] fix: the adjacency matrix includes trailing sites
 without neighbors

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index d72f08d..2b672f5 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1110,7 +1110,8 @@ class Lattice(LatticeStructure):
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
         data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        shape = self.num_sites, self.num_sites
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
 
     # ==================================================================================
 
-- 
2.43.0


From 130719b538e048d603fb0c6811f84eaace14f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 21/29] fix: checking points doesn't change the shape array of
 the caller

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 6ddfd25..d73c5e3 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -969,7 +969,7 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
             pos -= tol
-- 
2.43.0


From 37d31395ab2ebbf507f08bd1fac01b3761e3493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 22/29] fix: extend lattices that are not located at the origin
 at their position

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 2b672f5..a737280 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -965,7 +965,8 @@ class Lattice(LatticeStructure):
         # Build indices and positions of new section
         shape = np.copy(self.shape)
         shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        pos = None if self.primitive else self.pos
+        ind, pos = self.build_indices(shape, self.primitive, pos, return_pos=True)
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From a4ff94dcdd1127806d4007588a48119075a75928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:24 +0000
Subject: [PATCH 23/29] fix: boxes away from the origin or ending on a site
 include all their sites

---
 lattpy/structure.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index d73c5e3..a6e53ab 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1055,14 +1055,16 @@ class LatticeStructure(LatticeBasis):
             pos = np.zeros(self.dim)
         end = pos + shape
 
-        # Estimate the maximum needed translation vector to reach all points
+        # Estimate the maximum needed translation vector to reach all points. The end is
+        # padded by the tolerance of the points to include sites on the boundary
+        start, stop = np.broadcast_arrays(pos, end + 1e-3)
         max_nvecs = np.array(
-            [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
+            [self.itranslate(start)[0], self.itranslate(stop)[0]], dtype=np.float64
         )
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
-                _pos = end.copy()
-                _pos[np.array(idx)] = 0
+                _pos = stop.copy()
+                _pos[np.array(idx)] = start[np.array(idx)]
                 index = self.itranslate(_pos)[0]
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-- 
2.43.0


From 5b6f023c945b2c4ea7d3ed9ae08177c7acfc14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 24/29] fix: apply the tolerance to both ends when checking
 points

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index a6e53ab..f56c559 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -972,8 +972,8 @@ class LatticeStructure(LatticeBasis):
                 shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
             end = pos + shape + tol
+            pos -= tol
 
             mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
             for i in range(1, self.dim):
-- 
2.43.0


From e5bdf20aade0351fe1f2189b20c25fd9dcfca837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:47 +0000
Subject: [PATCH 25/29] fix: unused neighbor slots are never returned as
 neighbors of a distance

---
 lattpy/data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index a9cca01..a955480 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -435,10 +435,9 @@ class LatticeData:
         -------
         mask : np.ndarray
         """
-        if distidx is None:
-            mask = self.distances[site] < self.invalid_distidx
-        else:
-            mask = self.distances[site] == distidx
+        mask = self.distances[site] < self.invalid_distidx
+        if distidx is not None:
+            mask &= self.distances[site] == distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From 09085ffb6b3481a2bce356b3bc51058dab95dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 26/29] fix: unit-cell analysis searches all cells that can
 hold a neighbor

---
 lattpy/structure.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index f56c559..d52f6d9 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -463,6 +463,26 @@ class LatticeStructure(LatticeBasis):
         nvecs = self.get_neighbor_cells(
             cell_range, include_origin=True, comparison=np.less_equal
         )
+        neighbor_array = self._find_base_neighbors(nvecs, max_distidx, num_jobs)
+
+        # The neighbors are only complete if the cells cover all atoms within the
+        # largest distance
+        pos = np.array(self.atom_positions)
+        maxdist = max(d for row in neighbor_array for x in row for d in x)
+        radius = maxdist + np.max(np.linalg.norm(pos[:, np.newaxis] - pos, axis=-1))
+        radius += 10**-self.DIST_DECIMALS
+        limits = np.ceil(radius * np.linalg.norm(np.linalg.inv(self.vectors), axis=0))
+        cells = itertools.product(*[np.arange(-x, x + 1) for x in limits])
+        cells = np.array(list(cells)).astype(nvecs.dtype)
+        cells = cells[np.linalg.norm(self.translate(cells), axis=-1) <= radius]
+        missing = set(map(tuple, cells)) - set(map(tuple, nvecs))
+        if missing:
+            logger.debug("Adding %i neighbor-cells", len(missing))
+            nvecs = np.append(nvecs, sorted(missing), axis=0)
+            neighbor_array = self._find_base_neighbors(nvecs, max_distidx, num_jobs)
+        return neighbor_array
+
+    def _find_base_neighbors(self, nvecs, max_distidx, num_jobs=1):
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
         ]
-- 
2.43.0


From 25b197c275b7e454b7b53bee0ebc5b68dacb234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 27/29] fix: periodic axes are not shared with the caller's
 array

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index a737280..1df9809 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -695,7 +695,7 @@ class Lattice(LatticeStructure):
         self.data.remove_periodic()
         self.periodic_axes = list()
         if axis is not None:
-            axis = np.atleast_1d(axis)
+            axis = np.array(axis, ndmin=1)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
                 return
-- 
2.43.0


From 56389c7e7599100d72334a4c4d51ab89a64f10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:16 +0000
Subject: [PATCH 28/29] fix: index grids wider than the range of the limits'
 data-type keep all points

---
 lattpy/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..ebf2f39 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -153,7 +153,9 @@ def vindices(
     # nvecs = np.mgrid[slices].astype(dtype).reshape(dim, -1).T
 
     # version 3:
+    # The grid starts at zero, the data-type also has to hold the size of the limits
     size = limits[:, 1] - limits[:, 0]
+    dtype = np.promote_types(dtype, min_dtype(size, signed=True))
     nvecs = np.indices(size, dtype=dtype).reshape(dim, -1).T + limits[:, 0]
 
     # Optionally sort indices along given axis
-- 
2.43.0


From 7104cfaa4f38e771126fba2c94652f9e2f7626ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:13 +0000
Subject: [PATCH 29/29] fix: builds contain the sites of atoms outside of the
 unit cell

The range of translation vectors only covered atoms inside the first cell,
so builds and extensions lost sites of atoms at other positions.
---
 lattpy/structure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index d52f6d9..ee646d9 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1088,9 +1088,12 @@ class LatticeStructure(LatticeBasis):
                 index = self.itranslate(_pos)[0]
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-        # Pad maximum translation vectors and create index limits
+        # Pad maximum translation vectors and create index limits. Atoms outside of
+        # the unit cell reach the points from cells further away
         padding = oversample * shape + 1
-        max_nvecs += [-padding, +padding]
+        cells = self.itransform(np.reshape(self._positions, (-1, self.dim)))
+        cells = np.append(np.zeros((1, self.dim)), np.floor(cells + 1e-9), axis=0)
+        max_nvecs += [-padding - cells.max(axis=0), padding - cells.min(axis=0)]
         limits = max_nvecs.astype(np.int64).T
         logger.debug("Limits: %s, %s", limits[:, 0], limits[:, 1])
 
-- 
2.43.0

