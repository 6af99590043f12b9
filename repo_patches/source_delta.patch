From 2c1a0553b53ab8c987e8d2bf9e46afac3cda2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 01/29] verif hooks: read-only accessors behind
 cfg(verif_hooks)

---
 src/io/parse_cgd_blocks.rs | 20 ++++++++++++++
 src/pgraphs.rs             | 20 ++++++++++++++
 src/spacegroups/basics.rs  | 24 +++++++++++++++++
 src/spacegroups/finder.rs  | 54 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 118 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..bea8c2f 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,6 +71,26 @@ impl Block {
 }
 
 
+#[cfg(verif_hooks)]
+impl Entry {
+    pub fn verif_entry_type(&self) -> &EntryType { &self.entry_type }
+    pub fn verif_key(&self) -> &Option<String> { &self.key }
+    pub fn verif_fields(&self) -> &Vec<Field> { &self.fields }
+    pub fn verif_notes(&self) -> &Vec<Note> { &self.notes }
+    pub fn verif_line_number(&self) -> usize { self.line_number }
+    pub fn verif_content(&self) -> &Option<String> { &self.content }
+}
+
+
+#[cfg(verif_hooks)]
+impl Block {
+    pub fn verif_block_type(&self) -> &str { &self.block_type }
+    pub fn verif_lineno_start(&self) -> usize { self.lineno_start }
+    pub fn verif_lineno_end(&self) -> usize { self.lineno_end }
+    pub fn verif_entries(&self) -> &Vec<Entry> { &self.entries }
+}
+
+
 pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
     let mut blocks = vec![];
     let mut current_block = Block::new();
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..0a57931 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -631,6 +631,26 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
+#[cfg(verif_hooks)]
+impl<T, CS> Automorphism<T, CS>
+    where
+        T: Eq + Hash,
+        CS: Eq + Hash
+{
+    pub fn verif_vertex_map(&self) -> &HashMap<Vertex, Vertex> {
+        &self.vertex_map
+    }
+
+    pub fn verif_edge_map(&self) -> &HashMap<Edge<T, CS>, Edge<T, CS>> {
+        &self.edge_map
+    }
+
+    pub fn verif_transform(&self) -> &AffineMap {
+        &self.transform
+    }
+}
+
+
 impl<T, CS> Mul<&Automorphism<T, CS>> for &Automorphism<T, CS>
     where
         T: Clone + Eq + Hash,
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..51bb6f7 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -89,6 +89,30 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[cfg(verif_hooks)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    pub fn verif_new(ops_all: &Vec<AffineMap<BigRational, CS>>) -> Self {
+        Self::new(ops_all)
+    }
+
+    pub fn verif_cell(&self) -> &Vec<Vector<BigRational, CS>> {
+        &self.cell
+    }
+
+    pub fn verif_to_primitive(&self) -> &CoordinateMap<BigRational, CS, CSP> {
+        &self.to_primitive
+    }
+
+    pub fn verif_ops(&self) -> &Vec<AffineMap<BigRational, CSP>> {
+        &self.ops
+    }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..e666330 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -362,6 +362,60 @@ fn as_columns<T>(vs: Vec<Vec<T>>) -> Vec<Matrix<T>>
 }
 
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub struct Details<T> {
+        pub axis: Option<Vec<T>>,
+        pub order: usize,
+        pub is_orientation_preserving: bool,
+        pub is_clockwise: bool,
+    }
+
+    pub fn operator_details<T>(matrix: Matrix<T>) -> Details<T>
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        let d = OperatorDetails::from(matrix);
+        Details {
+            axis: d.axis,
+            order: d.order,
+            is_orientation_preserving: d.is_orientation_preserving,
+            is_clockwise: d.is_clockwise,
+        }
+    }
+
+    pub fn crystal_system_2d<T>(ops: &[Matrix<T>])
+        -> (CrystalSystem, Vec<Matrix<T>>)
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        crystal_system_and_basis_2d(ops)
+    }
+
+    pub fn primitive_cell_of<T, CS>(ops: &[AffineMap<T, CS>])
+        -> Vec<Matrix<T>>
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            CS: Clone + PartialEq
+    {
+        primitive_cell(ops)
+    }
+
+    pub fn normalized_2d<T>(crys: CrystalSystem, basis: &Vec<Matrix<T>>)
+        -> (Vec<Matrix<T>>, Centering)
+        where
+            T: Coord, for <'a> &'a T: CoordPtr<T>,
+            Matrix<T>: LinearAlgebra<T>
+    {
+        normalized_basis_2d(crys, basis)
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
     use num_bigint::BigInt;
-- 
2.43.0


From 0af351934b9c806516eb028c99dd0c9a12b8b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 02/29] fix: symmetries of nets in skew lattice bases were
 missed

The candidate transformation was computed as B_i * B_0^-1 with edge vectors as
rows; the map sending the vectors of edge list 0 to those of list i, acting on
column vectors, is (B_0^-1 * B_i)^T.
---
 src/symmetries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..fdf00b4 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,8 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            // edge vectors are rows here, but affine maps act on columns
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 7085108b265e0b35f18eeb91122e7c0ff7521d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 03/29] fix: minimal image used the transposed change of basis

Coordinates with respect to the rows of B are (B^-1)^T x; with B^-1 itself
non-symmetric bases gave wrong shifts or a panic on non-integral ones.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index fdf00b4..b8df90d 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).inverse().unwrap().transpose();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 92b3b69a858488e053e221de484362586964b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 04/29] fix: translation classes of ladders could contain
 ladder symmetries

The first lift found for each extended translation was used, but lifts differ by
ladder symmetries and may generate some of them, which merged vertices at the
same position and made the minimal image a different net.
---
 src/symmetries.rs | 67 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 11 deletions(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index b8df90d..8eb418c 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -231,19 +231,64 @@ fn translational_equivalences<T, CS>(graph: &Graph<T, CS>) -> Partition<u32>
     if orbit.iter().skip(1).all(|v| mod1(&graph.position(v)) != p0) {
         equivs
     } else {
-        let mut p = Partition::new();
-
-        for b in extended_translation_basis(graph, &orbit) {
-            let b: Vector = b.iter().cloned().collect();
-            let v = orbit.iter()
-                .find(|v| mod1(&(graph.position(v) + &b)) == p0)
-                .unwrap();
-            let iso = automorphism(&graph, &orbit[0], &v, &id).unwrap();
-            for w in &graph.vertices() {
-                p.unite(w, &iso.vertex_map[w]);
+        // A translation lifts to an automorphism only up to ladder symmetries,
+        // so find lifts that do not generate any of those.
+        let lift = |v: &Vertex| automorphism(&graph, &orbit[0], v, &id).unwrap();
+
+        let lifts: Vec<Vec<_>> = extended_translation_basis(graph, &orbit)
+            .into_iter()
+            .map(|b| {
+                let b: Vector = b.into_iter().collect();
+                orbit.iter()
+                    .filter(|v| mod1(&(graph.position(v) + &b)) == p0)
+                    .map(|v| lift(v))
+                    .collect()
+            })
+            .collect();
+
+        for isos in lifts.iter().multi_cartesian_product() {
+            if let Some(p) = ladder_free_equivalences(graph, orbit, &isos) {
+                return p;
             }
         }
-        p
+
+        // No complete set of such lifts exists, so use as many as possible.
+        let all: Vec<_> = orbit.iter().map(|v| lift(v)).collect();
+        let mut isos = vec![];
+        let mut result = Partition::new();
+
+        for iso in &all {
+            isos.push(iso);
+            match ladder_free_equivalences(graph, orbit, &isos) {
+                Some(p) => { result = p; },
+                None => { isos.pop(); },
+            }
+        }
+        result
+    }
+}
+
+
+fn ladder_free_equivalences<T, CS>(
+    graph: &Graph<T, CS>, orbit: &[Vertex], isos: &[&Automorphism<T, CS>]
+)
+    -> Option<Partition<u32>>
+    where
+        T: LabelVector<CS>,
+        CS: Clone + Eq + Hash + Ord
+{
+    let mut p = Partition::new();
+    for iso in isos {
+        for w in &graph.vertices() {
+            p.unite(w, &iso.vertex_map[w]);
+        }
+    }
+
+    let class = &p.classes(orbit)[0];
+    if class.iter().map(|v| graph.position_normalized(v)).all_unique() {
+        Some(p)
+    } else {
+        None
     }
 }
 
-- 
2.43.0


From e897b8c54ed202bf1a4b5cec01c89e4386b2e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 05/29] fix: shifts modulo Z were not unique, so generated
 groups had duplicates

The remainder of a negative shift is negative: -1/2 and 1/2 were kept as
different operators.  With unique shifts the orientation of the primitive cell
no longer happens to be positive, so orient it explicitly.
---
 src/arithmetic/geometry.rs | 8 +++++---
 src/spacegroups/basics.rs  | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..1e7a6e9 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,12 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + Zero + One + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +639,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + Zero + One + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 51bb6f7..64c72b4 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -69,8 +69,13 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
+        let mut cell: Vec<_> = rational_lattice_basis(&translations)
             .into_iter().map(|v| Vector::new(&v)).collect();
+        if CoordinateMap::<_, CSP, CS>::from_basis(&cell).determinant()
+            < BigRational::zero()
+        {
+            cell[0] = -&cell[0];
+        }
         let to_primitive = CoordinateMap::to_basis(&cell);
 
         let mut seen = HashSet::new();
-- 
2.43.0


From 625f8efeedd66df2ef3996f28e9a72fe70538fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 06/29] fix: primitive setting of a primitive group panicked

Without centring translations the list of translations was empty; the identity
operator itself now contributes the zero translation.
---
 src/spacegroups/basics.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 64c72b4..c3d88e4 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -61,11 +61,10 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 
         let dim = ops_all[0].dim();
         let id = Matrix::identity(dim);
-        let s0 = Vector::zero(dim);
 
         let mut translations = vec![];
         for op in ops_all {
-            if op.linear_matrix() == id && op.shift() != s0 {
+            if op.linear_matrix() == id {
                 translations.push(op.shift().into_iter().collect());
             }
         }
-- 
2.43.0


From cd36bae0d143a2cbcda5e8e5f9b96b28e5c5689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 07/29] fix: gram matrix configuration space used the
 transposed operators

Operators act on column vectors, so a form G is invariant when S^T G S = G.
For example a hexagonal rotation admitted the form with angle 60 degrees only.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index c3d88e4..e0a52c5 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -148,7 +148,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From 8ebb7f7704c4d40fa916c820a92551fe3d503002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 08/29] fix: shift space of a group of translations was
 reported as absent

With only identity linear parts there is no equation and every vector is fixed.
---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index e0a52c5..68746e6 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -180,8 +180,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(id)
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From 577c87488c5e4f09c60fc504c481c7107e282fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/29] fix: reduced integer bases were not canonical

A negative entry that is an exact multiple of the pivot was reduced to the pivot
instead of to zero.
---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From e14d3924fff4c1456600ef944f3cc1cfaf677ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 10/29] fix: modular arithmetic mishandled negative numbers

Negative multiples of the prime became the prime itself, for which no inverse
exists, negative arguments had no inverse, and products could be negative.
---
 src/arithmetic/modular_solver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..6f7156c 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -4,7 +4,7 @@ use num_rational::BigRational;
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
-    let (mut r, mut r1) = (modulus, argument);
+    let (mut r, mut r1) = (modulus, argument.rem_euclid(modulus));
 
     while r1 != 0 {
         let q = r / r1;
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
@@ -121,7 +121,8 @@ pub fn modular_matrix_product(a: &Matrix, b: &Matrix, prime: i64) -> Matrix {
         let mut row_out = vec![];
         for j in 0..ncols_b {
             let p = (0..ncols_a)
-                .map(|i| (row[i] * b[i][j]) % prime)
+                .map(|i| (row[i].rem_euclid(prime), b[i][j].rem_euclid(prime)))
+                .map(|(p, q)| (p * q) % prime)
                 .reduce(|p, q| (p + q) % prime)
                 .unwrap();
             row_out.push(p);
-- 
2.43.0


From 49bade305f5a8b059f5b52ed57143f1168b95f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 11/29] fix: modular echelon form skipped a row at every column
 without pivot

---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 6f7156c..bd7360f 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From 0a546aa572eabd6a3ba34b22ff0deb18db564c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 12/29] fix: fractions with denominator zero crashed the
 operator and line parsers

They are no fractions now; what follows the numerator is left unread.
---
 src/io/parse_cgd_line.rs          | 5 ++++-
 src/spacegroups/parse_operator.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..f906c5d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,10 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| match d {
+            0 => None,
+            _ => Some(Ratio::new(n, d as i32)),
+        }
     )(input)
 }
 
diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..287e532 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,10 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| match d {
+                0 => None,
+                _ => Some(Ratio::new(n as i32, d as i32)),
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From 02a8b33eb4149e63cda4790cff69f92bc3799553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 13/29] fix: operators with coordinates or axes beyond their
 dimension were misread

"x,z" was read as "x,0" and a fourth coordinate crashed the caller; both are
rejected now.
---
 src/spacegroups/parse_operator.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index 287e532..4fd0bc8 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -7,7 +7,7 @@ use nom::combinator::map_opt;
 use nom::multi::{many0, separated_list1};
 use nom::sequence::{separated_pair, tuple, pair, preceded, delimited};
 use num_rational::Ratio;
-use num_traits::CheckedAdd;
+use num_traits::{CheckedAdd, Zero};
 
 
 #[derive(Debug, Eq, Hash, PartialEq)]
@@ -27,7 +27,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => match convert_operator(&op) {
+            Some(op) => Ok((rest, op)),
+            None => Err(format!("not an operator: {}", input)),
+        },
         Err(err) => Err(err.to_string()),
     }
 }
@@ -106,7 +109,7 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -116,11 +119,15 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
     }
 
     let n = shift.len();
+    if rows.iter().any(|v| n > v.len() || v[n..].iter().any(|q| !q.is_zero())) {
+        return None;
+    }
+
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
-- 
2.43.0


From 69819245fa9d797ac91c51398ec9723213508379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 14/29] fix: text following an operator was silently ignored

"x,y,z foo" or "x,y,z/2" are no operators.
---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..a9b6491 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 8aee02ac8228cfba01b2fc609c50aeb9d0ad32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 15/29] fix: reading a singular coordinate map crashed instead
 of rejecting it

---
 src/spacegroups/parse_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index a9b6491..11ea897 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,9 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?;
+        Some(CoordinateMap::new(&forward))
     }
 }
 
-- 
2.43.0


From b7b8da0948ee6e3f0fb002ae0aaea73f525fdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 16/29] fix: truncated alias and lookup lines in a space group
 table crashed the reader

---
 src/spacegroups/parse_table.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 11ea897..9b8fba6 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -234,7 +234,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    fields.get(1)?.to_string(), fields.get(2)?.to_string()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -262,11 +264,12 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
+    let name = fields.get(1)?.to_string();
+    let system = CrystalSystem::from_string(fields.get(2)?)?;
+    let centering = Centering::from_string(fields.get(3)?)?;
+
     let spec = fields[4..].join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
-    let system = CrystalSystem::from_string(fields[2])?;
-    let centering = Centering::from_string(fields[3])?;
     Some(Lookup { name, system, centering, from_std })
 }
-- 
2.43.0


From f32d5462c886259b6f6ef40d65a024552de9d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 17/29] fix: integral shift of one was not printed in operators
 of table entries

"x+1" was printed as "x+" and "1" as the empty string.
---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 9b8fba6..c24dffb 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if !val.abs().is_one() || axis.is_empty() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From be8314082e19b0adcb07627cdb24c2a3236eed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 18/29] fix: some non-ASCII letters were taken for blanks in
 CGD lines

Only the low byte of the character was looked at, so U+0120 or U+0109 ended a
name and the rest of the line was not read.
---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index f906c5d..08a2012 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -100,7 +100,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From 2a20ca62f5a32f5c1bd9d936c28b1298911e7653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 19/29] fix: names were misread as numbers, or lost their line,
 in CGD lines

Names starting with "nan" or "inf" were read as NaN or infinity, and one like
"4e" made the whole line unreadable.
---
 src/io/parse_cgd_line.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 08a2012..7147e0d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -7,7 +7,7 @@ use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
-use nom::combinator::{map_opt, rest, opt};
+use nom::combinator::{map_opt, rest, opt, verify};
 use nom::branch::alt;
 use num_rational::Ratio;
 
@@ -68,7 +68,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(number, double_to_field()),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
@@ -94,6 +94,15 @@ fn integer(input: &str) -> IResult<&str, i32> {
 }
 
 
+fn number(input: &str) -> IResult<&str, f64> {
+    match verify(double, |f: &f64| f.is_finite())(input) {
+        // let text like "4e" be tried as something else
+        Err(nom::Err::Failure(e)) => Err(nom::Err::Error(e)),
+        result => result,
+    }
+}
+
+
 fn quoted_string(input: &str) -> IResult<&str, &str> {
     delimited(char('"'), take_until1("\""), char('"'))(input)
 }
-- 
2.43.0


From f3a3e5795083552398437bf6e53e19d046c0065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 20/29] fix: a single field after a block type or 'end' was
 ignored silently

The keyword itself is not among the fields, so the warnings were only given for
two or more of them.
---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index bea8c2f..1a609a7 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -123,7 +123,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -136,7 +136,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 3c2b5a2a9f8122721b9fe44a5cbdb0d7b0cc53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 21/29] fix: stray data after a block was filed under the last
 keyword of that block

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 1a609a7..73cff29 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -129,6 +129,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From 4e6c82bb357e8429f8e1bf371f1047b7ed2dba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 22/29] fix: data and errors after the last block of a file
 were dropped

---
 src/io/parse_cgd_blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 73cff29..edc7df6 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -162,6 +162,11 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         current_block.lineno_end = last_entry.line_number;
         last_entry.add_error("final block is missing an 'end' statement");
         blocks.push(current_block);
+    } else if let Some(last_entry) = current_block.entries.last() {
+        current_block.lineno_start = current_block.entries[0].line_number;
+        current_block.lineno_end = last_entry.line_number;
+        current_block.block_type = "--void--".to_string();
+        blocks.push(current_block);
     }
 
     blocks
-- 
2.43.0


From 4764f50c0299e9151368cd816e04b705077c91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 23/29] fix: reading CGD lines never ended when the reader kept
 failing

An error of the reader now ends the input; lines that are no valid text are
reported and skipped as before.
---
 src/io/parse_cgd_blocks.rs | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index edc7df6..8a758df 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,5 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{self, BufRead, Read, BufReader};
+use std::string::FromUtf8Error;
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -177,7 +178,22 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
 
-    for line in BufReader::new(input).lines() {
+    let mut reader = BufReader::new(input);
+
+    loop {
+        let line = match read_line(&mut reader) {
+            Ok(None) => break,
+            Ok(Some(line)) => line,
+            Err(e) => {
+                let mut entry = Entry::new(
+                    EntryType::Error, lineno, None, None, vec![]
+                );
+                entry.add_error(&format!("{:?}", e));
+                all_entries.push(entry);
+                break;
+            },
+        };
+
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
@@ -220,6 +236,26 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
 }
 
 
+/// Reads the next line: the outer result is an error of the reader, the inner
+/// one tells whether the line is valid text.
+fn read_line<T: BufRead>(reader: &mut T)
+    -> io::Result<Option<Result<String, FromUtf8Error>>>
+{
+    let mut bytes = vec![];
+    if reader.read_until(b'\n', &mut bytes)? == 0 {
+        return Ok(None);
+    }
+
+    if bytes.last() == Some(&b'\n') {
+        bytes.pop();
+        if bytes.last() == Some(&b'\r') {
+            bytes.pop();
+        }
+    }
+    Ok(Some(String::from_utf8(bytes)))
+}
+
+
 #[test]
 fn test_parse_cgd_block() {
     let input =
-- 
2.43.0


From 1855b4343e2654cca06689d9ec00b3cd08466c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 24/29] fix: rational lattice bases overflowed 32 bit integers

---
 src/arithmetic/linear_algebra.rs | 54 +++++++++++++++++++++++++++++++-
 src/spacegroups/lattices.rs      | 30 ++++++------------
 2 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 58a9c22..173bd8c 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -1,8 +1,10 @@
 use std::ops::{Add, Sub, Mul, Div, Neg, SubAssign};
 use std::ops::{AddAssign, MulAssign};
 
+use num_bigint::BigInt;
+use num_integer::Integer;
 use num_rational::{BigRational};
-use num_traits::{Zero, One};
+use num_traits::{Signed, Zero, One};
 
 use super::matrices::Matrix;
 
@@ -140,6 +142,56 @@ impl Scalar for i64 {
     }
 }
 
+impl Scalar for BigInt {
+    fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
+        let e = b[col].extended_gcd(&v[col]);
+        let t = -(&v[col] / &e.gcd);
+        let u = &b[col] / &e.gcd;
+
+        for k in col..v.len() {
+            let tmp = &b[k] * &e.x + &v[k] * &e.y;
+            v[k] = &b[k] * &t + &v[k] * &u;
+            b[k] = tmp;
+        }
+    }
+
+    fn normalize_column(col: usize, v: &mut Vec<Self>) {
+        if v[col].is_negative() {
+            for k in col..v.len() {
+                v[k] = -&v[k];
+            }
+        }
+    }
+
+    fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
+        let f = v[col].div_floor(&b[col]);
+
+        for k in col..v.len() {
+            v[k] -= &b[k] * &f;
+        }
+    }
+
+    fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>)
+        -> Option<Vec<Self>>
+    {
+        let k = x.len();
+        let mut result = vec![];
+
+        for col in 0..b.len() {
+            let mut t = b[col].clone();
+            for i in 0..k {
+                t -= &a[i] * &x[i][col];
+            }
+            let (q, r) = t.div_rem(&a[k]);
+            if !r.is_zero() {
+                return None;
+            }
+            result.push(q);
+        }
+        Some(result)
+    }
+}
+
 
 fn clear_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &mut Vec<T>)
     where T: num_traits::PrimInt
diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..9b712c1 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 
 use num_bigint::BigInt;
 use num_rational::BigRational;
-use num_traits::{One, ToPrimitive, abs};
+use num_traits::{One, Zero, abs};
 use num_integer::Integer;
 
 use crate::arithmetic::linear_algebra::extend_basis;
@@ -226,40 +226,30 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         }
     }
 
-    let common_denom = common_denom.to_i32().unwrap();
-    let f = BigRational::from(BigInt::from(common_denom));
-
-    let mut basis = vec![];
+    let mut basis: Vec<Vec<BigInt>> = vec![];
 
     for k in 0..dim {
-        let mut b = vec![0; dim];
-        b[k] = common_denom;
+        let mut b = vec![BigInt::zero(); dim];
+        b[k] = common_denom.clone();
         extend_basis(&b, &mut basis);
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        let d: Vec<_> = d.iter()
+            .map(|x| (x * &common_denom).to_integer())
+            .collect();
         extend_basis(&d, &mut basis);
     }
 
-    basis.iter()
-        .map(|b| b.iter()
-            .map(|x| BigRational::from(BigInt::from(*x)) / &f)
+    basis.into_iter()
+        .map(|b| b.into_iter()
+            .map(|x| BigRational::new(x, common_denom.clone()))
             .collect::<Vec<_>>()
         )
         .collect()
 }
 
 
-fn r_to_i32(x: &BigRational) -> Option<i32> {
-    if x.is_integer() {
-        x.to_integer().to_i32()
-    } else {
-        None
-    }
-}
-
-
 #[cfg(test)]
 mod tests {
     use num_traits::Signed;
-- 
2.43.0


From 1c42514fe66602b9122d2e02c96bfbe81b3b59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 25/29] fix: basis of hexagonal plane groups had the wrong
 angle

---
 src/spacegroups/finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index e666330..278f7c5 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -215,7 +215,7 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
 
     let y = if m >= 3 {
         let s = ops_with_details.iter().find(|s|
-            s.is_orientation_preserving && s.is_clockwise && s.order == m
+            s.is_orientation_preserving && !s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
     } else if mirrors.len() > 1 {
-- 
2.43.0


From 85802b05df0b1b438a1296001edc8bbe1f8c197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 26/29] fix: repeated mirrors of a plane group gave a
 degenerate basis

---
 src/spacegroups/finder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index 278f7c5..91416fc 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -213,13 +213,16 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
         Matrix::col(&[T::one(), T::zero()])
     };
 
+    // the list may contain an operator repeatedly, with different shifts
+    let other_mirror = mirrors.iter().find(|opd| opd.axis != mirrors[0].axis);
+
     let y = if m >= 3 {
         let s = ops_with_details.iter().find(|s|
             s.is_orientation_preserving && !s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
-    } else if mirrors.len() > 1 {
-        Matrix::col(&mirrors[1].axis.clone().unwrap())
+    } else if let Some(mirror) = other_mirror {
+        Matrix::col(&mirror.axis.clone().unwrap())
     } else {
         let t = if x[(0, 0)] == T::zero() {
             Matrix::col(&[T::one(), T::zero()])
-- 
2.43.0


From aaf1c8b0c3617cddce77c15f02d30818517e3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:59 +0000
Subject: [PATCH 27/29] fix: positions of nets crashed when the solver's prime
 divides the determinant

---
 src/pgraphs.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 0a57931..b4ed0c6 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -10,7 +10,9 @@ use num_bigint::BigInt;
 use num_rational::BigRational;
 
 use crate::arithmetic::geometry;
-use crate::arithmetic::linear_algebra::extend_basis;
+use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
+use crate::arithmetic::matrices::Matrix;
+use crate::arithmetic::modular_solver;
 use crate::partitions::Partition;
 use crate::symmetries::symmetries;
 
@@ -786,7 +788,11 @@ fn barycentric_placement<T, CS>(g: &Graph<T, CS>)
         }
     }
 
-    let p = crate::arithmetic::modular_solver::solve(&a, &t).unwrap();
+    // The modular solver gives up if its prime divides the determinant of a.
+    let p = modular_solver::solve(&a, &t).or_else(||
+        rational_matrix(&a).inverse()
+            .map(|inv| (inv * rational_matrix(&t)).get_rows())
+    ).unwrap();
 
     let mut result = BTreeMap::new();
     for i in 0..n {
@@ -797,6 +803,15 @@ fn barycentric_placement<T, CS>(g: &Graph<T, CS>)
 }
 
 
+fn rational_matrix(rows: &[Vec<i64>]) -> Matrix<BigRational> {
+    let rows: Vec<_> = rows.iter()
+        .map(|row| row.iter().map(|&x| BigRational::from(BigInt::from(x))))
+        .map(|row| Matrix::row(&row.collect::<Vec<_>>()))
+        .collect();
+    Matrix::vstack(&rows)
+}
+
+
 fn edges_by_unique_deltas<T, CS>(g: &Graph<T, CS>)
     -> BTreeMap<Vertex, HashMap<Vector, Edge<T, CS>>>
     where
-- 
2.43.0


From 2a1f2398f72203b5a4358fbf6168fff013b282fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:59 +0000
Subject: [PATCH 28/29] fix: index of a component's translations overflowed 32
 bit integers

---
 src/pgraphs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index b4ed0c6..ae533c4 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -8,6 +8,7 @@ use std::ops::{Neg, Add, Sub, Mul};
 use itertools::Itertools;
 use num_bigint::BigInt;
 use num_rational::BigRational;
+use num_traits::{One, Signed, ToPrimitive};
 
 use crate::arithmetic::geometry;
 use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
@@ -736,20 +737,23 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
         vertices.insert(e.tail);
     }
 
-    let mut basis = vec![];
+    // Intermediate results can be much larger than the shifts themselves.
+    let mut basis: Vec<Vec<BigInt>> = vec![];
     for e in &edges {
-        extend_basis(&e.shift.to_vec(), &mut basis);
+        let shift: Vec<_> =
+            e.shift.to_vec().iter().map(|&x| BigInt::from(x)).collect();
+        extend_basis(&shift, &mut basis);
     }
 
     let size = vertices.len();
     let rank = basis.len();
 
     let multiplicity = if rank == T::dim() {
-        let mut d: i32 = 1;
+        let mut d = BigInt::one();
         for i in 0..basis.len() {
-            d *= basis[i][i];
+            d *= &basis[i][i];
         }
-        Some(d.abs())
+        Some(d.abs().to_i32().unwrap())
     } else {
         None
     };
-- 
2.43.0


From aa78851fa18f17f5b1652aa84b55555340287f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:37 +0000
Subject: [PATCH 29/29] fix: modular arithmetic overflowed for primes above the
 square root of 2^63

---
 src/arithmetic/modular_solver.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index bd7360f..1521f37 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -20,6 +20,11 @@ pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
 }
 
 
+fn modular_product(a: i64, b: i64, modulus: i64) -> i64 {
+    (a as i128 * b as i128 % modulus as i128) as i64
+}
+
+
 type Matrix = Vec<Vec<i64>>;
 
 pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
@@ -48,7 +53,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
 
             let f = modular_inverse(a[irow][icol], prime).unwrap();
             for j in icol..ncols {
-                a[irow][j] = (a[irow][j] * f) % prime;
+                a[irow][j] = modular_product(a[irow][j], f, prime);
             }
 
             for i in 0..nrows {
@@ -56,9 +61,8 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     let f = a[i][icol];
                     for j in icol..ncols {
                         if a[irow][j] != 0 {
-                            a[i][j] = (
-                                prime - (a[irow][j] * f) % prime + a[i][j]
-                            ) % prime;
+                            let p = modular_product(a[irow][j], f, prime);
+                            a[i][j] = (a[i][j] - p).rem_euclid(prime);
                         }
                     }
                 }
@@ -122,8 +126,8 @@ pub fn modular_matrix_product(a: &Matrix, b: &Matrix, prime: i64) -> Matrix {
         for j in 0..ncols_b {
             let p = (0..ncols_a)
                 .map(|i| (row[i].rem_euclid(prime), b[i][j].rem_euclid(prime)))
-                .map(|(p, q)| (p * q) % prime)
-                .reduce(|p, q| (p + q) % prime)
+                .map(|(p, q)| modular_product(p, q, prime))
+                .reduce(|p, q| (p - (prime - q)).rem_euclid(prime))
                 .unwrap();
             row_out.push(p);
         }
-- 
2.43.0

