From 3f9155672b03da2d3729240a1d121afc24bd7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 01/52] fix: copy the arrays given to a linear program instead
 of aliasing them

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..a84b0a0 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -130,9 +130,9 @@ class LinearProgram:
         if not objective in ["min", "max"]:
             raise ValueError("Objective must be either `min` or `max`.")
 
-        self._A = A
-        self._b = b
-        self._c = c
+        self._A = A.copy()
+        self._b = b.copy()
+        self._c = c.copy()
         self._z = z
         self._steps = []
         self._objective = objective
-- 
2.43.0


From 667a00f68d8fbda9edd349c47f646357575b364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 02/52] fix: leave the program untouched when simplex ends in
 an error

---
 pytimize/programs/_linear.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a84b0a0..66e4860 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1072,10 +1072,6 @@ class LinearProgram:
         certificate = None
         updated_lp = None
         counter = 0
-        negative_indices = np.where(self._b < 0)
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
@@ -1099,15 +1095,11 @@ class LinearProgram:
             certificate = (
                 np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
             )
-            certificate[negative_indices] *= -1
 
             show_steps and self.__append_to_steps(("5.03", solution))
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From 709c9bb87a3dce9f525bcc93f6146d37e74cd450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 03/52] fix: build the unboundedness certificate from the
 entering variable

---
 pytimize/programs/_linear.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 66e4860..624d7a7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1085,7 +1085,11 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = next(
+                i
+                for i, value in enumerate(updated_lp.c)
+                if i not in updated_lp._feasible_basis and Comparator.is_positive(value)
+            )
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From 731dce51f0c0e277124049c60ec141afbbf93224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 04/52] fix: do not treat clearly different ratios as ties in
 the ratio test

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 624d7a7..0a5db79 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1179,7 +1179,7 @@ class LinearProgram:
             if Comparator.is_positive(Ak[i]):
                 ratio = self._b[i] / Ak[i]
 
-                if Comparator.is_close_compare(ratio, "<", t):
+                if Comparator.is_negative(ratio - t):
                     t = ratio
                     leave = i
 
-- 
2.43.0


From 8f40a56e8d46b95deb04c57e2a716e64b6b02b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 05/52] fix: compute basic solutions correctly for unsorted
 bases

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 0a5db79..df3eba7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1702,8 +1702,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From c7e9c736d8c5148935163e10bc2d6a998f063f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/52] fix: recognise canonical form by the columns of the
 basis; compare sizes, not arrays, in is_feasible_basic_solution

---
 pytimize/programs/_linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index df3eba7..33f1bb8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -532,12 +532,12 @@ class LinearProgram:
 
         """
         basis = self.__array_like_to_list(basis)
+        is_basis = self.is_basis(basis)
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
-        return all(
+        return is_basis and all(
             [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
+                np.allclose(self._A[:, basis], np.eye(len(basis))),
                 np.allclose(self._c[basis], 0),
             ]
         )
@@ -620,7 +620,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From 7d8cacba66581a833d6de7981cdcdbc0d4b535d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 07/52] fix: only start simplex from the slack basis when it is
 feasible

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 33f1bb8..f0b8bcf 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -926,7 +926,7 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
+            if sef.is_basis_feasible(basis_candidate):
                 try:
                     solution = sef.simplex(basis_candidate, show_steps)[0]
 
-- 
2.43.0


From 16e87fcd32afe79ca9547c9fe806c558edc4b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 08/52] fix: respect show_steps in solve and
 verify_unboundedness

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f0b8bcf..7562748 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -918,7 +918,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
@@ -1252,7 +1252,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 79cf7012275cb4b624a0daec7d8f92fea715bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 09/52] fix: solve programs whose equality rows are linearly
 dependent

---
 pytimize/programs/_linear.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7562748..defc292 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -649,7 +649,7 @@ class LinearProgram:
         if not self._A.shape[0] == len(basis):
             return False
 
-        if max(basis) >= self._A.shape[1] or min(basis) < 0:
+        if any(i >= self._A.shape[1] or i < 0 for i in basis):
             return False
 
         return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
@@ -918,9 +918,9 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex(show_steps)[0]
+            return self.__drop_implied_rows().two_phase_simplex(show_steps)[0]
 
-        sef = self.to_sef(show_steps)
+        sef = self.to_sef(show_steps).__drop_implied_rows()
         rows, columns = sef.A.shape
         solution = None
 
@@ -1938,6 +1938,34 @@ class LinearProgram:
 
         return arr
 
+    def __drop_implied_rows(self) -> "LinearProgram":
+        """
+        Drops equality constraints that are implied by the ones before them, so that the
+        rows of a consistent program are independent. The program must be in SEF.
+
+        Returns
+        -------
+        result : LinearProgram
+            The program itself if no constraint is implied, a smaller copy otherwise.
+
+        """
+        augmented = np.c_[self._A, self._b]
+        rows = []
+
+        for i in range(self._b.shape[0]):
+            if np.linalg.matrix_rank(augmented[rows + [i]], 1e-10) > len(rows):
+                rows.append(i)
+
+        if len(rows) == self._b.shape[0]:
+            return self
+
+        program = LinearProgram(self._A[rows], self._b[rows], self._c, self._z)
+
+        if hasattr(self, "_reverse_sef"):
+            program._reverse_sef = self._reverse_sef
+
+        return program
+
     # TODO need integration
     def __remove_dependent_rows(self, A, b):
         """
-- 
2.43.0


From e873b3ef8829f5767352a9f7c976990cf86ba6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 10/52] fix: tolerate rounding errors in is_feasible for
 programs not in SEF

---
 pytimize/programs/_linear.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index defc292..937cc91 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1340,10 +1340,10 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if Comparator.is_positive(entry):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if Comparator.is_negative(entry):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
@@ -1352,11 +1352,14 @@ class LinearProgram:
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
+                if np.isclose(value, self._b[i]):
+                    continue
+
                 if current == "<=" and value > self._b[i]:
                     is_feasible = False
                 elif current == ">=" and value < self._b[i]:
                     is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            elif not np.isclose(value, self._b[i]):
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From ae25c000bb8c6e1dc48d4645b842e0ad6b615135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 11/52] fix: compare linear programs without raising

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 937cc91..3c8fa0f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,9 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From 768a17113c35b8b1a1ca0cdb31922df407445ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 12/52] fix: stop clear_steps from recursing forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3c8fa0f..cba96ce 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1643,7 +1643,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 33b036daf2709ecc267986dc07ce701abdcf1b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 13/52] fix: make is_solution_optimal answer

---
 pytimize/programs/_linear.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index cba96ce..fca1b5c 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1635,7 +1635,12 @@ class LinearProgram:
         result : bool
 
         """
-        self.is_feasible(x)
+        if not self.is_feasible(x):
+            return False
+
+        value = self.optimal_value()
+
+        return value is not None and bool(np.isclose(self.evaluate(x), value))
 
     def clear_steps(self, in_place=False):
         """
-- 
2.43.0


From 2a01badb876f51dd53b4e01ad01910692530a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 14/52] fix: require leading ones to move right in is_in_rref,
 with a tolerance for zeros

---
 pytimize/programs/_linear.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fca1b5c..2bcf5f5 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1860,6 +1860,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        last_leading_one = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1867,7 +1868,7 @@ class LinearProgram:
         for row in range(shape[0]):
             row_has_leading_one = False
             for col in range(shape[1]):
-                if math.isclose(arr[row, col], 0):
+                if Comparator.is_close_to_zero(arr[row, col]):
                     # have not found a non-zero entry yet, search rest of row
                     continue
 
@@ -1875,11 +1876,18 @@ class LinearProgram:
                     # row has non-zero entries but there is a zero row above it
                     return False
 
+                elif col < last_leading_one:
+                    # row starts to the left of a row above it
+                    return False
+
                 elif math.isclose(arr[row, col], 1):
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+                    last_leading_one = col
                     for r in range(shape[0]):
-                        if not r == row and not math.isclose(arr[r, col], 0):
+                        if not r == row and not Comparator.is_close_to_zero(
+                            arr[r, col]
+                        ):
                             return False
                     break
 
-- 
2.43.0


From d79893ce952525b31858d5d453fd7a403f348ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 15/52] fix: make to_rref work with current numpy and tolerate
 rounding errors

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 2bcf5f5..f06f811 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1912,14 +1912,14 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
             # Get a 1 in the row,col entry
             if not math.isclose(arr[row, col], 1):
                 i = 0
-                while math.isclose(arr[row, col], 0):
+                while Comparator.is_close_to_zero(arr[row, col]):
                     # If number in row,col is 0, find a lower row with a non-zero entry
                     # If all lower rows have a 0 in the column, move on to the next column
                     if math.isclose(i + row, shape[0]):
@@ -1928,7 +1928,7 @@ class LinearProgram:
                         if math.isclose(col, shape[1]):
                             break
                         continue
-                    if not math.isclose(arr[row + i, col], 0):
+                    if not Comparator.is_close_to_zero(arr[row + i, col]):
                         # Found a lower row with non-zero entry, swap rows
                         arr[[row, row + i]] = arr[[row + i, row]]
                         break
-- 
2.43.0


From d676ad3b05bed78ff55ac2811e0d6a077535027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 16/52] fix: validate the column in add_variable before
 changing the program

---
 pytimize/programs/_linear.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f06f811..16ac0a0 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -501,6 +501,12 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        rows = self._A.shape[0]
+        column = self.__to_ndarray(column) if column is not None else np.zeros(rows)
+
+        if not self.__is_vector_of_size(column, rows):
+            raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,10 +514,7 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
+        self._A = np.c_[self._A, column]
         self._c = np.r_[self._c, coefficient]
 
         return self
-- 
2.43.0


From 077a47b0edff86d90fc5cf8028bb6ee9b1e14e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 17/52] fix: plot the exact feasible region and refuse empty
 ones without side effects

---
 pytimize/programs/_linear.py | 40 +++++++++++++++---------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 16ac0a0..6bd20de 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1402,14 +1402,17 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        # add the sign restrictions of the variables
+        for i, row in enumerate(np.eye(2)):
+            if i not in self._free_variables:
+                copy_A = np.append(copy_A, [row], 0)
+                copy_b = np.append(copy_b, 0)
+                inequalities.append("<=" if i in self._negative_variables else ">=")
+
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
@@ -1425,11 +1428,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if Comparator.is_close_to_zero(np.linalg.det(A)):
                         continue
 
                     point = np.linalg.solve(A, b)
@@ -1444,11 +1445,11 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
+                if inequalities[i] == "<=":
+                    if value > copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
-                elif self._inequality_indices[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
+                elif inequalities[i] == ">=":
+                    if value < copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
 
             if valid_point:
@@ -1459,8 +1460,7 @@ class LinearProgram:
         # if no points remain, then none of the points found satisfy all inequalities;
         # thus the system is inconsistent
         if len(points) == 0:
-            print("Error: inconsistent system of equations")
-            exit()
+            raise ArithmeticError("Inconsistent system of equations.")
 
         # sort points so the polygon is drawn properly
         # method from https://stackoverflow.com/questions/10846431/ordering-shuffled-points-that-can-be-joined-to-form-a-polygon-in-python/10852917
@@ -1478,12 +1478,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From dfbc9adead2f9dfb998b8f346570a8186f6e5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 18/52] fix: keep the sign restrictions when branching

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..06818d7 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
-- 
2.43.0


From 20f359d494795ac46c5e92db8710f9b3a654c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 19/52] fix: pick the smaller branch of a minimization

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 06818d7..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -150,7 +150,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From e4419122f256a1c7e9d6fccf969ef6bc139b67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 20/52] fix: read integral_variables with 1-based indices like
 the other index lists

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..e9c1d20 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -88,7 +88,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 9d279687ea891fbfc69c9668d052dc3dca5fa96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 21/52] fix: keep copies of integer programs integer programs

---
 pytimize/programs/_integer.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index e9c1d20..79f7ef1 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,7 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = copy.copy(integral_variables)
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
@@ -215,6 +215,37 @@ class IntegerProgram(LinearProgram):
             self.negative_variables,
         )
 
+    def copy(self) -> "IntegerProgram":
+        """
+        Creates a deep copy of the integer program.
+
+        Returns
+        -------
+        result : IntegerProgram
+
+        """
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+            copy.copy(self._integral_variables),
+        )
+
+        p._steps = self._steps.copy()
+
+        return p
+
+    def to_sef(self, show_steps: bool = True, in_place: bool = False) -> LinearProgram:
+        if not in_place:  # slack variables are not integral
+            return super().copy().to_sef(show_steps, True)
+
+        return super().to_sef(show_steps, True)
+
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
         return result
-- 
2.43.0


From 8ae28402ae79e33837ff6b4c522946096631867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 22/52] fix: maximize unconstrained programs and leave the
 starting point alone

---
 pytimize/programs/_unconstrained.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..ceca844 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -24,7 +24,8 @@ class UnconstrainedProgram:
         """
         if objective == "max":
             self._f = lambda x: -f(x)
-        self._f = f
+        else:
+            self._f = f
         self._minimize = objective == "min"
 
     def steepest_descent(
@@ -65,11 +66,15 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
+        sign = 1 if self._minimize else -1
+
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            gradient = sign * np.asarray(df(x))
+            d = -gradient
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * gradient @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +82,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -108,12 +113,13 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
-            d = np.linalg.solve(d2f(x), -df(x))
+            d = np.linalg.solve(d2f(x), -np.asarray(df(x)))
             x += d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From d023249d38465cf81f7a2d5848c6a6d4245424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 23/52] fix: give formulation arithmetic the usual algebra
 without side effects on its operands

---
 pytimize/formulations/linear/_equation.py | 27 ++++++++++++-----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..ab48a2e 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,30 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return self * -1
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = self._terms.copy()
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                terms.setdefault(label, 0)
 
-                self._terms[label] += coefficient
+                terms[label] += coefficient
+
+            constant += other.constant
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            terms.setdefault(other.key, 0)
 
-            self._terms[other.key] += 1
+            terms[other.key] += 1
 
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +55,11 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
+            terms = {
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
-            return self
+            return LinearEquation(terms, self._constant * other)
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From b04caa86b17b15853fff33e6c62f14b8535cbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 24/52] fix: compare expressions with variables and constants
 with the right sign

---
 pytimize/formulations/linear/_equation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index ab48a2e..51ab75a 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -81,6 +81,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "key"):
+            other = other.equation
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
@@ -93,14 +95,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
-- 
2.43.0


From 81ca8b5587ccf19c0415cea06d824e11987cb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 25/52] fix: accept objectives of a single variable or of more
 variables than the constraints

---
 pytimize/formulations/linear/_objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..e0f6885 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,7 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        equation = +equation  # a single variable is an equation too
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
@@ -24,6 +25,7 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+        length = max(length, 0 if self._c is None else self._c.shape[0])
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From f6e7ee774fb642e497308e9c009aeb976ea5fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 26/52] fix: compile integer formulations to integer programs

---
 pytimize/formulations/integer/_abstract.py  | 3 ++-
 pytimize/formulations/integer/_objective.py | 3 ++-
 pytimize/formulations/linear/_abstract.py   | 4 +++-
 pytimize/formulations/linear/_objective.py  | 4 +++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/integer/_abstract.py b/pytimize/formulations/integer/_abstract.py
index 90dc3e4..ba8c0dc 100644
--- a/pytimize/formulations/integer/_abstract.py
+++ b/pytimize/formulations/integer/_abstract.py
@@ -1,5 +1,6 @@
+from ...programs import IntegerProgram
 from ..linear._abstract import AbstractLinearProgram
 
 
 class AbstractIntegerProgram(AbstractLinearProgram):
-    pass
+    _program_type = IntegerProgram
diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 384e34c..4c189c2 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -2,10 +2,11 @@ from typing import Union
 
 from ..linear._equation import LinearEquation
 from ..linear._objective import ObjectiveFunction as LinearObjective
+from ._abstract import AbstractIntegerProgram
 
 
 class ObjectiveFunction(LinearObjective):
-    pass
+    _abstract_type = AbstractIntegerProgram
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..8fa9199 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -7,6 +7,8 @@ from ._constraint import VariableConstraint
 
 
 class AbstractLinearProgram:
+    _program_type = LinearProgram
+
     def __init__(
         self,
         A: np.ndarray,
@@ -94,7 +96,7 @@ class AbstractLinearProgram:
                 filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))
             )
 
-            self._program = LinearProgram(
+            self._program = self._program_type(
                 self._A,
                 self._b,
                 self._c,
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index e0f6885..11e48c5 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -9,6 +9,8 @@ from ._utilities import pad_right
 
 
 class ObjectiveFunction:
+    _abstract_type = AbstractLinearProgram
+
     def __init__(self, equation: LinearEquation, objective: str):
         equation = +equation  # a single variable is an equation too
         self._c = equation.coefficients
@@ -38,7 +40,7 @@ class ObjectiveFunction:
         A = A[1:]
         b = b[1:]
 
-        return AbstractLinearProgram(
+        return self._abstract_type(
             A, b, pad_right(self._c, length), self._z, self._objective, inequalities
         )
 
-- 
2.43.0


From fca0bda55293e4907ec52c5c0c7f94e44f78da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 27/52] fix: remove the edge itself, not only its adjacency

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..bde90c8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -141,6 +141,7 @@ class UndirectedGraph:
 
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
+        del self._edges[tuple(sorted(edge))]
 
     def has_edge(self, edge: Tuple[str, str]) -> bool:
         """
-- 
2.43.0


From cf8395243379a5e1bb98ca438bb68428738564f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 28/52] fix: refuse negative weights and empty names in every
 operation

---
 pytimize/graphs/_undirected.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bde90c8..bd8962f 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -176,6 +176,9 @@ class UndirectedGraph:
         if weight < 0:
             raise ValueError("Weight cannot be negative.")
 
+        if not vertex:
+            raise ValueError("Vertices cannot be an empty string.")
+
         if self.has_vertex(vertex):
             raise ValueError("The given vertex is already in graph.")
 
@@ -206,12 +209,18 @@ class UndirectedGraph:
         if not self.has_edge(edge):
             raise ValueError("The given edge is not in graph.")
 
+        if weight < 0:
+            raise ValueError("Weight cannot be negative.")
+
         self._edges[tuple(sorted(edge))] = weight
 
     def set_vertex_weight(self, vertex: str, weight: float) -> None:
         if not self.has_vertex(vertex):
             raise ValueError("The given vertex is not in graph.")
 
+        if weight < 0:
+            raise ValueError("Weight cannot be negative.")
+
         self._vertices[vertex] = weight
 
     def get_edge_weight(self, edge: Tuple[str, str]) -> float:
-- 
2.43.0


From a3e61fb1d098f90fa15489a9d2748913fefff5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 29/52] fix: do not share adjacency sets between copies and
 accessors

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bd8962f..4d3987f 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -743,7 +743,9 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {
+            vertex: connections.copy() for vertex, connections in self._graph.items()
+        }
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From b7cd73d567128c2e4956122649497febd3a9d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 30/52] fix: treat a string given to cut as one vertex

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 4d3987f..7455f01 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -394,7 +394,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From d27387df017a76f73f5e1b28698034e83376726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 31/52] fix: traverse depth first and in random order as
 documented

---
 pytimize/graphs/_undirected.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 7455f01..b06d1eb 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -475,7 +475,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -484,19 +483,24 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
 
             visited.add(current)
-            queue.extend(sorted(self._graph[current], key=order))
+
+            connections = sorted(self._graph[current], key=order)
+
+            queue.extend(reversed(connections) if method == "dfs" else connections)
 
             yield current
 
-- 
2.43.0


From 6ac49b7c9baea71db14d4da1b3377957dac5dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 32/52] fix: do not take every edge for a cycle

---
 pytimize/graphs/_undirected.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index b06d1eb..a087dc4 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -532,17 +532,21 @@ class UndirectedGraph:
         unexplored = set(self._vertices.keys())
 
         while len(unexplored) > 0:
-            queue = deque([next(iter(unexplored))])
+            queue = deque([(next(iter(unexplored)), None)])
             visited = set()
 
             while len(queue) > 0:
-                current = queue.popleft()
+                current, parent = queue.popleft()
 
                 if current in visited:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(
+                    (connection, current)
+                    for connection in self._graph[current]
+                    if not connection == parent
+                )
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From b872c099b9df9240769f388e3a16b35a2a8ff9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 33/52] fix: partition graphs into their connected components

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index a087dc4..3d6256a 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -596,15 +596,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From 208775d751a09c09110809054af9e296219d2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 34/52] fix: formulate the stable set program of graphs without
 edges

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 3d6256a..39cd9ec 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -414,7 +414,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((0, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
@@ -422,7 +422,6 @@ class UndirectedGraph:
             row[mapping[b]] = 1
             A = np.vstack((A, row))
 
-        A = A[1:]
         b = np.ones(rows)
         c = np.zeros(columns)
         inequalities = ["<="] * (rows + columns)  # Includes x <= 1 columns
-- 
2.43.0


From 9626837345603ac23883181c756446bcfb30ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 35/52] fix: find shortest paths in the current graph
 representation

---
 pytimize/graphs/_undirected.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 39cd9ec..bc4e941 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -280,26 +280,23 @@ class UndirectedGraph:
             edges = set()
 
             for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
-                            potential[edge_hash] if edge_hash in potential else 0
-                        )
+                for endpoint in self._graph[vertex]:
+                    if endpoint not in visited:
+                        edge = tuple(sorted((endpoint, vertex)))
+                        slack = self._edges[edge] - potential.get(edge, 0)
 
-                        # print(edge_hash, slack)
-
-                        edges.add(edge_hash)
+                        edges.add(edge)
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, endpoint
 
-                        # print(visited, best_slack)
+            if best_edge is None:
+                raise ValueError("Ending vertex is not reachable from starting vertex.")
 
-            for edge_hash in edges:
-                previous = potential.setdefault(edge_hash, 0)
-                potential[edge_hash] = previous + best_slack
+            for edge in edges:
+                previous = potential.setdefault(edge, 0)
+                potential[edge] = previous + best_slack
 
             visited.add(best_edge[1])
             directed_graph.setdefault(best_edge[1], []).append(best_edge[0])
-- 
2.43.0


From 2387b1e7f076033c1017ce951b69e71678ca6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 36/52] fix: formulate shortest paths in the current graph
 representation

---
 pytimize/graphs/_undirected.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bc4e941..bfee2dc 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -321,7 +321,7 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
+        vertices = list(self._vertices)
 
         vertices.remove(start)
         vertices.remove(end)
@@ -338,27 +338,14 @@ class UndirectedGraph:
             current_set.add(start)
             power_set.append(current_set)
 
-        graph_edges = self.edges
-        A = {
-            self._hash_edge((edge[0], edge[1])): np.zeros(len(power_set))
-            for edge in graph_edges
-        }
+        A = {edge: np.zeros(len(power_set)) for edge in self._edges}
 
         for i, group in enumerate(power_set):
-            edges = set()
-
-            for vertex in group:
-                edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
-                )
-
-            for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
+            for edge in self.cut(group):
                 A[edge][i] = 1
 
         ordered_A = []
-        ordered_edges = (
-            []
-        )  # ordered edges must point back to actual edges not hash TODO
+        ordered_edges = []
 
         for edge, coefficients in A.items():
             ordered_A.append(coefficients)
@@ -369,8 +356,8 @@ class UndirectedGraph:
         result_c = np.zeros(len(ordered_edges))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
+        for edge, weight in self._edges.items():
+            result_c[edge_positions[edge]] = weight
 
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
-- 
2.43.0


From a0c3214590cf72ee7207d11bdb4bb0ce043d11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 37/52] fix: treat a string given to cut or ncut as one node,
 and return sets

---
 pytimize/graphs/_directed.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..e768b1c 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,7 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -220,10 +222,12 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
-        return list(
+        return set(
             filter(
                 lambda arc: arc[1] in nodes and arc[0] not in nodes, self._arcs.keys()
             )
-- 
2.43.0


From ecb702673c3448e88d22ee14ea830216bdb92673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 38/52] fix: accept a single demand for one new node and refuse
 bad demands before adding the arc

---
 pytimize/graphs/_directed.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index e768b1c..96d91e4 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,18 +97,23 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
-        if not a_exists and not b_exists:
-            if demands and not isinstance(demands, tuple):
-                raise TypeError(
-                    "Demands must be a tuple of floats when both endpoints are new nodes."
-                )
+        if demands is None:
+            demands = 0, 0
+        elif not isinstance(demands, tuple) and (a_exists or b_exists):
+            demands = demands, demands
+
+        if not isinstance(demands, tuple) or not len(demands) == 2:
+            raise TypeError(
+                "Demands must be a tuple of floats when both endpoints are new nodes."
+            )
 
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
+
+        if not a_exists and not b_exists:
             self.add_node(arc[0], demands[0] if demands else 0)
             self.add_node(arc[1], demands[1] if demands else 0)
         elif not a_exists:
-- 
2.43.0


From 2351518cc57e6a23e124540acb120f44e54248ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 39/52] fix: compute maximum flows and residuals with
 antiparallel and fractional arcs

---
 pytimize/graphs/_directed.py | 89 +++++++++++++++---------------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 96d91e4..09af4d6 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -2,6 +2,7 @@ import math
 from collections import deque
 from typing import Dict, Iterable, List, Optional, Set, Tuple, Union
 
+from ..utilities import Comparator
 
 class DirectedGraph:
     def __init__(
@@ -354,13 +355,44 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push_flow(
+        self,
+        u: str,
+        v: str,
+        value: float,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+    ) -> None:
+        """
+        Sends `value` units from `u` to `v`. Flow on the opposite arc is cancelled first.
+
+        """
+        cancelled = min(value, flow.get((v, u), 0))
+
+        if cancelled > 0:
+            flow[(v, u)] -= cancelled
+
+        if value > cancelled:
+            flow[(u, v)] += value - cancelled
+
+        for a, b in [(u, v), (v, u)]:
+            rest = self._arcs.get((a, b), 0) - flow.get((a, b), 0)
+            rest += flow.get((b, a), 0)
+
+            if Comparator.is_positive(rest):
+                residual.setdefault(a, {})[b] = rest
+            else:
+                residual.get(a, {}).pop(b, None)
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -410,41 +442,15 @@ class DirectedGraph:
         while index < len(nodes):
             node = nodes[index]
 
-            if excess[node] > 0:
+            if Comparator.is_positive(excess[node]):
                 pushed = False
 
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
 
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(node, endpoint, push_value, flow, residual)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -541,28 +547,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(u, v, min_residual, flow, residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 2f331592a90594924b18e222d845980319d292c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 40/52] fix: return a flow value for graphs without inner nodes

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 09af4d6..5e72edf 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -472,8 +472,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From bf20cf04b4d40d6a2d50e0cb83247b5f1bef0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 41/52] fix: refuse | as an operator and 0 as a variable index
 in linear expressions

---
 pytimize/parsers/_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..fb37ac9 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,8 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(
+            r"^-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*$"
+        )
 
         return validation.match(candidate) is not None
-- 
2.43.0


From 17d169a695a6eea1f1bdaf7717e0a1b3689d62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 42/52] fix: recognise dependent columns whatever the magnitude
 of the entries

---
 pytimize/programs/_linear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6bd20de..cb59427 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -655,7 +655,10 @@ class LinearProgram:
         if any(i >= self._A.shape[1] or i < 0 for i in basis):
             return False
 
-        return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
+        columns = self._A[:, basis]
+        tolerance = 1e-14 * np.abs(columns).max(initial=0)
+
+        return bool(np.linalg.matrix_rank(columns, tolerance) == len(basis))
 
     # TODO experimental
     def cs_conditions(self) -> str:
-- 
2.43.0


From bd005b6042c79f49e19779ab343c35360135d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 43/52] fix: refuse additions whose value or coefficient is not
 a number

---
 pytimize/programs/_linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index cb59427..3bae8cf 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1,6 +1,7 @@
 import copy
 import functools
 import math
+import numbers
 import random
 from collections import deque
 from decimal import Decimal
@@ -448,6 +449,9 @@ class LinearProgram:
         if not inequality in ["=", ">=", "<="]:
             raise ValueError()
 
+        if not isinstance(value, numbers.Real):
+            raise ValueError()
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
@@ -507,6 +511,9 @@ class LinearProgram:
         if not self.__is_vector_of_size(column, rows):
             raise ValueError()
 
+        if not isinstance(coefficient, numbers.Real):
+            raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
-- 
2.43.0


From b24234d6bef3a4e67d1a8b44059069f022cc8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 44/52] fix: refuse variable indices that are not integers

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3bae8cf..20f6e33 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -76,6 +76,12 @@ class LinearProgram:
         ):
             raise ValueError("Dimension mismatch between `A`, `b`, or `c`.")
 
+        for indices in (free_variables, negative_variables):
+            if indices is not None and not all(
+                isinstance(i, numbers.Integral) for i in indices
+            ):
+                raise ValueError("Variable indices must be integers.")
+
         inequality_indices = {}
         free_variables = (
             self.__to_array_indexing(free_variables)
-- 
2.43.0


From bf6878d1e72bb7f46db3ba106690896931715b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 45/52] fix: print programs without constraints

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 20f6e33..a36c568 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -376,7 +376,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
-- 
2.43.0


From d4600c5e938ad02402986244e67a9f85cc67da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 46/52] fix: leave the model untouched when sign conditions are
 refused

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8fa9199..f1a9856 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -36,25 +36,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From 7c63680fa5e38112a5f7efe09b43f95025f1812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:25 +0000
Subject: [PATCH 47/52] fix: accept numpy numbers in formulations and refuse
 operands that are not numbers

---
 pytimize/formulations/integer/_objective.py |  5 +++--
 pytimize/formulations/linear/_equation.py   | 15 +++++++++++----
 pytimize/formulations/linear/_objective.py  |  5 +++--
 pytimize/formulations/linear/_variable.py   | 15 +++++++++------
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 4c189c2..46f0d09 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Union
 
 from ..linear._equation import LinearEquation
@@ -10,14 +11,14 @@ class ObjectiveFunction(LinearObjective):
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "min")
 
 
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "max")
diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 51ab75a..9b59a36 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Dict, Optional, Union
 
 import numpy as np
@@ -7,6 +8,8 @@ from ._utilities import pad_right
 
 
 class LinearEquation:
+    __array_ufunc__ = None  # numpy numbers defer to the operators below
+
     def __init__(self, terms: Dict[int, float], constant: float = 0):
         # TODO Verify terms is valid
         self._terms = terms
@@ -29,12 +32,14 @@ class LinearEquation:
                 terms[label] += coefficient
 
             constant += other.constant
-        elif isinstance(other, float) or isinstance(other, int):
+        elif isinstance(other, Real):
             constant += other
         elif hasattr(other, "key"):
             terms.setdefault(other.key, 0)
 
             terms[other.key] += 1
+        else:
+            return NotImplemented
 
         return LinearEquation(terms, constant)
 
@@ -54,15 +59,17 @@ class LinearEquation:
         return self + -other
 
     def __mul__(self, other: float) -> "LinearEquation":
-        if isinstance(other, float) or isinstance(other, int):
+        if isinstance(other, Real):
             terms = {
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
             return LinearEquation(terms, self._constant * other)
 
+        return NotImplemented
+
     def __rmul__(self, other) -> "LinearEquation":
-        return self * other
+        return self.__mul__(other)
 
     def __imult__(self, other) -> "LinearEquation":
         return self * other
@@ -79,7 +86,7 @@ class LinearEquation:
     def _generate_constraint(
         self, inequality: str, other: Union["LinearEquation", float]
     ) -> LinearConstraint:
-        if isinstance(other, float) or isinstance(other, int):
+        if isinstance(other, Real):
             other = LinearEquation({}, other)
         elif hasattr(other, "key"):
             other = other.equation
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 11e48c5..b7855f4 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Optional, Union
 
 import numpy as np
@@ -61,14 +62,14 @@ class ObjectiveFunction:
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "min")
 
 
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
-    if isinstance(equation, float) or isinstance(equation, int):
+    if isinstance(equation, Real):
         equation = LinearEquation({}, equation)
 
     return ObjectiveFunction(equation, "max")
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 312f989..a92b618 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -1,3 +1,4 @@
+from numbers import Real
 from typing import Tuple, Union
 
 from ._constraint import LinearConstraint, VariableConstraint
@@ -31,15 +32,19 @@ class MetaVariable(type):
 
 
 class Variable:
+    __array_ufunc__ = None  # numpy numbers defer to the operators below
+
     def __init__(self, key: int):
         self._key = key
 
     def __mul__(self, other: float) -> LinearEquation:
-        if isinstance(other, float) or isinstance(other, int):
+        if isinstance(other, Real):
             return LinearEquation({self._key: other})
 
+        return NotImplemented
+
     def __rmul__(self, other: float) -> LinearEquation:
-        return self * other
+        return self.__mul__(other)
 
     def __imul__(self, other: float) -> LinearEquation:
         return self * other
@@ -69,9 +74,7 @@ class Variable:
         return self + -other
 
     def __le__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
-        if isinstance(other, int) or isinstance(
-            other, float
-        ):  # Could be optimized TODO
+        if isinstance(other, Real):  # Could be optimized TODO
             if other == 0:
                 return VariableConstraint(
                     negative_variables=[self._key + 1]
@@ -80,7 +83,7 @@ class Variable:
         return self.equation <= other
 
     def __ge__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
-        if isinstance(other, int) or isinstance(other, float):
+        if isinstance(other, Real):
             if other == 0:
                 return VariableConstraint(positive_variables=[self._key + 1])
 
-- 
2.43.0


From 1eab94468100cbed1efef9ad1b46ca0e482b46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 48/52] fix: name the vector and the 1-based basis in the steps
 of is_basic_solution

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a36c568..5a526a3 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -596,7 +596,7 @@ class LinearProgram:
         if not self.is_basis(basis):
             raise ValueError()
 
-        show_steps and self.__append_to_steps(("4.01", basis))
+        show_steps and self.__append_to_steps(("4.01", x))
 
         basis = self.__array_like_to_list(basis)
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
@@ -613,6 +613,7 @@ class LinearProgram:
 
             result = False
 
+        basis = self.__to_math_indexing(basis)
         show_steps and not result and self.__append_to_steps(("4.05", x, basis))
         show_steps and result and self.__append_to_steps(
             ["4.06", "4.07", ("4.04", x, basis)]
-- 
2.43.0


From d1dcd54b1874c24f6a301e3c67fad58099aaba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 49/52] fix: swap in the largest pivot in to_rref, small ones
 lose whole rows to rounding

---
 pytimize/programs/_linear.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5a526a3..e7c8121 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1931,31 +1931,20 @@ class LinearProgram:
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
-            # Get a 1 in the row,col entry
-            if not math.isclose(arr[row, col], 1):
-                i = 0
-                while Comparator.is_close_to_zero(arr[row, col]):
-                    # If number in row,col is 0, find a lower row with a non-zero entry
-                    # If all lower rows have a 0 in the column, move on to the next column
-                    if math.isclose(i + row, shape[0]):
-                        i = 0
-                        col += 1
-                        if math.isclose(col, shape[1]):
-                            break
-                        continue
-                    if not Comparator.is_close_to_zero(arr[row + i, col]):
-                        # Found a lower row with non-zero entry, swap rows
-                        arr[[row, row + i]] = arr[[row + i, row]]
-                        break
-                    i += 1
+            # If this and all lower rows have a 0 in the column, move on to the next column
+            while col < shape[1] and np.all(Comparator.is_close_to_zero(arr[row:, col])):
+                col += 1
 
-                if math.isclose(col, shape[1]):
-                    # Everything left is 0
-                    break
+            if col == shape[1]:
+                # Everything left is 0
+                break
+
+            # Swap in the row with the largest entry, dividing by a small one loses precision
+            pivot = row + np.argmax(np.abs(arr[row:, col]))
+            arr[[row, pivot]] = arr[[pivot, row]]
 
-                # Divide row by row,col entry to get a 1
-                num = arr[row, col]
-                arr[row, :] /= num
+            # Divide row by row,col entry to get a 1
+            arr[row, :] /= arr[row, col]
 
             # Subtract a multiple of row from all other rows to get 0s in rest of col
             for i in range(shape[0]):
-- 
2.43.0


From 4c4738e42d1121983d027772cdff240e4248c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 50/52] fix: refuse expressions that end in a line break

---
 pytimize/parsers/_graph.py  | 8 ++++----
 pytimize/parsers/_linear.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..921fe14 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -38,13 +38,13 @@ class GraphParser:
         )
         result = -1
 
-        if validation_one.match(candidate) is not None:
+        if validation_one.fullmatch(candidate) is not None:
             result = 0
-        elif validation_two.match(candidate) is not None:
+        elif validation_two.fullmatch(candidate) is not None:
             result = 1
-        elif validation_three.match(candidate) is not None:
+        elif validation_three.fullmatch(candidate) is not None:
             result = 2
-        elif validation_four.match(candidate) is not None:
+        elif validation_four.fullmatch(candidate) is not None:
             result = 3
 
         return result
diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index fb37ac9..ea634d6 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -46,4 +46,4 @@ class LinearParser:
             r"^-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*$"
         )
 
-        return validation.match(candidate) is not None
+        return validation.fullmatch(candidate) is not None
-- 
2.43.0


From b699d6281c3e030357f91e60d2a4fe37de405bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 51/52] fix: number variables alike when x is indexed by a
 numpy integer

---
 pytimize/formulations/linear/_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index a92b618..f945b80 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -1,4 +1,4 @@
-from numbers import Real
+from numbers import Integral, Real
 from typing import Tuple, Union
 
 from ._constraint import LinearConstraint, VariableConstraint
@@ -7,7 +7,7 @@ from ._equation import LinearEquation
 
 class MetaVariable(type):
     def __getitem__(cls, key: Union[int, slice]) -> LinearEquation:
-        if isinstance(key, int):
+        if isinstance(key, Integral):
             if key <= 0:
                 raise ValueError("Variable indexing must starts at 1.")
 
-- 
2.43.0


From af511169710d5ea17cf46ba8b000c97120b64b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 52/52] fix: plot polyhedra whose rows are in small units

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e7c8121..fbf6f3a 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1429,6 +1429,12 @@ class LinearProgram:
                 copy_b = np.append(copy_b, 0)
                 inequalities.append("<=" if i in self._negative_variables else ">=")
 
+        # scale the rows, the tests below should not depend on their units
+        scale = np.abs(copy_A).max(axis=1)
+        scale[scale == 0] = 1
+        copy_A /= scale[:, None]
+        copy_b /= scale
+
         A = np.zeros((2, 2))
         b = np.zeros(2)
 
-- 
2.43.0

