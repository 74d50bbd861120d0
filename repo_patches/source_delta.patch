From f4ff81b5cbba5a6814cee8031a63ccb784887bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 01/52] fix: keep cancelled-out variables from surviving in
 normalized sums

Occurrences of a variable that cancel out (x - x, 0*x) were normalized to the
variable itself, so e.g. (>= (- x x) 3) was answered sat.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 6 +++++-
 amzn-smt-eager-arithmetic/src/encoding.rs     | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..b7e8948 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -129,7 +129,11 @@ impl<'a> Canonicalizer<'a> {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
                             }
                         }
-                        Equal => v.into(),
+                        // the occurrences of `v` cancel out, so it doesn't contribute to the sum
+                        Equal => {
+                            let zero = Constant::Numeral(Numeral::zero());
+                            Mul([zero.into(), v.into()].into()).into()
+                        }
                     }),
             );
             res
diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..9d710e4 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -124,12 +124,12 @@ impl InterLogicFolder<ALL> for Encoder {
             Arith(Mul(args)) => match args.as_slice() {
                 [c, x] => {
                     let z = Constant::Numeral(Numeral::zero()).into();
+                    let (c, pos) =
+                        int_term(c).expect("canonicalization produced malformed multiplication");
                     if c.is_zero() {
                         z
                     } else {
                         let x = x.fold_with(self)?;
-                        let (c, pos) = int_term(c)
-                            .expect("canonicalization produced malformed multiplication");
                         let c = c.to_usize().unwrap();
                         let sum = (0..c).try_fold(z, |acc, _| self.encode_plus(acc, x.clone()))?;
                         if pos {
-- 
2.43.0


From 2c423dd6cf2783efe7d2abbb781b9903321b9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 02/52] fix: decode integer values wider than 63 bits

Model values were accumulated in an isize, which overflows once the solution
bound exceeds 63 bits.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 9d710e4..b98b626 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -569,23 +569,25 @@ impl Encoder {
                 Variable::Int(v) => {
                     let bits = self.int_var_bits(v);
                     let len = bits.len();
-                    let val = bits
-                        .enumerate()
-                        .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
-                            if bit == len - 1 {
-                                -x
+                    let mut abs = Numeral::zero();
+                    let mut negative = false;
+                    for (i, bit) in bits.enumerate() {
+                        if bit.evaluate(assignment).unwrap() {
+                            let x = Numeral::from(1u8) << i;
+                            if i == len - 1 {
+                                // Sign bit -- value is (sum of the other bits) - 2^i
+                                abs = x - abs;
+                                negative = true;
                             } else {
-                                x
+                                abs += x;
                             }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
-                    } else {
+                        }
+                    }
+                    let abs = Constant::Numeral(abs).into();
+                    let val = if negative {
                         Op::Arith(ArithOp::Neg(abs)).into()
+                    } else {
+                        abs
                     };
                     (symbol, val)
                 }
-- 
2.43.0


From 562fc579ce3cff0c4f3402beafea13d650bded88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 03/52] fix: treat binary bit-vector constants as
 most-significant bit first

Binary constants were compared as if written least-significant bit first, and
bit-vector values in models were printed in that order.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index b98b626..f6a2b54 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -68,8 +68,10 @@ impl InterLogicFolder<ALL> for Encoder {
     }
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
-        if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+        if let Some(Constant::Binary(bits)) = var.to_bitvec_literal() {
+            // `to_bitvec_literal` starts with the least-significant bit, binary constants with the
+            // most-significant
+            Ok(Constant::Binary(bits.into_iter().rev().collect()).into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -245,7 +247,8 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
+            // Binary constants are written most-significant bit first
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
             Constant::Hexadecimal(_) => {
                 todo!("hexadecimal bit iterator")
             }
@@ -596,7 +599,10 @@ impl Encoder {
                     let bits = self
                         .bit_vec_bits(&bv)
                         .map(|bit| bit.evaluate(assignment).unwrap());
-                    (bv.sym().clone(), Constant::Binary(bits.collect()).into())
+                    (
+                        bv.sym().clone(),
+                        Constant::Binary(bits.rev().collect()).into(),
+                    )
                 }
             })
             .collect()
-- 
2.43.0


From db8b5431e8e9d1e5cc69d5a5841e1acb5a5219d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 04/52] fix: take right-hand-side variables into account in the
 solution bound

When the constant of a normalized constraint is zero, one of the summands is
moved to the right-hand side. Only the left-hand side was considered when
classifying separation constraints and computing the constraint width, so e.g.
(>= x (* 2 y)) was taken for a separation constraint and the resulting bound
could be too small to contain any solution.
---
 amzn-smt-eager-arithmetic/src/stats.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..7cb4430 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -95,17 +95,24 @@ impl Stats {
                 },
                 _ => bad(),
             };
+            // The RHS is a constant unless it'd be zero, in which case a summand is moved to the RHS
+            let rhs = args.last();
+            let rhs_const = rhs.map_or(true, |rhs| int_term(rhs).is_some());
+            let is_neg_var = |op: &IOp<ALL>| matches!(op.as_ref(), Arith(Neg(Term::Variable(_))));
             // Check if this is the LHS of a separation constraint (SC)
             match lhs {
-                // x >= c (SC)
-                [Term::Variable(_)] => {}
+                // x >= c, x >= y (SC)
+                [Term::Variable(_)] if rhs_const || matches!(rhs, Some(Term::Variable(_))) => {}
                 // -x >= c === x <= -c (SC)
                 [Term::OtherOp(op)]
                 // x - y >= c (SC)
                 | [Term::Variable(_), Term::OtherOp(op)]
                 // y - x >= c (SC)
                 | [Term::OtherOp(op), Term::Variable(_)]
-                    if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))) => {}
+                    if rhs_const && is_neg_var(op) => {}
+                // -x >= -y (SC)
+                [Term::OtherOp(op)]
+                    if is_neg_var(op) && matches!(rhs, Some(Term::OtherOp(op)) if is_neg_var(op)) => {}
                 // Not a separation constraint
                 _ => {
                     k += 1;
@@ -319,6 +326,16 @@ impl<'a> StatsVisitor<'a> {
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
+                if int_term(r).is_none() {
+                    // A summand was moved to the RHS, count it towards the constraint's width
+                    if let Term::OtherOp(op) = l {
+                        if let Op::Arith(ArithOp::Plus(args)) = op.as_ref() {
+                            try_break!(
+                                self.with_stats(|stats| stats.w = stats.w.max(args.len() + 1))
+                            );
+                        }
+                    }
+                }
                 self.expecting = Expecting::Formula;
                 self.current_partition = None;
                 ControlFlow::CONTINUE
-- 
2.43.0


From 3215cd493aa1f0df0495ef4223eae8834757cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 05/52] fix: do not read past the end of a script that only
 sets options

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..0e0c232 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -234,7 +234,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From 2cde524d50fd102d8454f09b65596bbda67f2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 06/52] fix: recognise arithmetic operators when guessing the
 logic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 0e0c232..8247ec7 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -7,8 +7,10 @@
 use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{
+    fold::Fold, logic::all::Op, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm,
+};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -159,6 +161,18 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
         })
     }
 
+    /// visit theory operations: keep track of the use of arithmetic, to guess the logic
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        use ArithOp::*;
+        if let Op::Arith(
+            Plus(..) | Neg(..) | Minus(..) | Mul(..) | Gte(..) | Gt(..) | Lte(..) | Lt(..),
+        ) = op.as_ref()
+        {
+            self.has_arith = true;
+        }
+        op.super_fold_with(self).map(Into::into)
+    }
+
     /// visit function applications, and transform if necessary
     fn fold_uninterpreted_func(&mut self, t: IUF<ALL>) -> Result<Term, Self::Error> {
         let t = t.super_fold_with(self)?;
@@ -200,10 +214,6 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
-- 
2.43.0


From dd2459527864da887132a5985670e907d6348532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 07/52] fix: size the word-count feature vector by the buckets
 in use

---
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 90162a8..fe10e33 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -39,7 +39,7 @@ def get_bucket_labels(buckets=default_buckets):
 def get_features(fp_count_out, buckets=default_buckets):
 
     # Initialize feature vector with all zeros
-    features = [0 for i in range(len(default_buckets)+1)]
+    features = [0 for i in range(len(buckets)+1)]
 
     for l in fp_count_out:
         num_words = int(l.strip())
-- 
2.43.0


From 6970ea48728ab7a5e798a310e37a2ea7581ce6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 08/52] fix: pass the problem to amzn-smt-eager-arithmetic the
 way its command line expects

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 54e82d9..6843e75 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -294,7 +294,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
     # Cuts off after 5 seconds, after which encoding is generally done and it is on to solving, which isn't necessary here
     if v == 'Full': print("Generating features... (calling amzn-smt-eager-arithmetic)")
     try:
-        raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
+        raw_out = subprocess.run([path_to_ea_exec, "solve", "--instance", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = str(e.stdout, 'utf-8')
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 8402b89..6cc5e60 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -67,7 +67,7 @@ def run_eager_arithmetic(b_path, timeout):
     start = time()
 
     try:
-        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = time() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-- 
2.43.0


From 044dd181b0ea3fbb6fb59000120901f1a0cc5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 09/52] fix: strip only the .smt2 suffix from benchmark names

strip('.smt2') removes any of the characters '.smt2' from both ends, so that
different benchmarks could share the same output files.
---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5237a92..5735b86 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -31,7 +31,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6847885..b3f696b 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -78,7 +78,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index fe10e33..a22528e 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -98,7 +98,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
 
         print(b_name)
  
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 9c7b4c6..bd8467f 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -42,7 +42,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
         fp_count_out = open(path_to_write + '/' + solver + "_count_" + b_name, 'w') # Path where we will write the word counts
-- 
2.43.0


From 5761d78b0d23fbde11f9a57dce5031a940f48edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 10/52] fix: keep dots inside benchmark names when modernizing

---
 amzn-smt-prediction/scripts/modernize_benchmarks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/modernize_benchmarks.py b/amzn-smt-prediction/scripts/modernize_benchmarks.py
index 5185629..637ee61 100644
--- a/amzn-smt-prediction/scripts/modernize_benchmarks.py
+++ b/amzn-smt-prediction/scripts/modernize_benchmarks.py
@@ -26,7 +26,7 @@ if __name__=='__main__':
     fp_in = open(sys.argv[1])
 
     for l in fp_in:
-        name     = l.split('.')[0][:-4] # Get the filename, stripping off the file extension and "_upt"
+        name     = l.rsplit('.', 1)[0][:-4] # Get the filename, stripping off the file extension and "_upt"
         filename = sys.argv[2] + name
         raw_out  = subprocess.run([path_to_exec, filename], capture_output=True, text=True)
 
-- 
2.43.0


From 13435456aa6a9066eabcb2360b3c30a082963e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 11/52] fix: refuse incremental scripts instead of ignoring
 retractions and assumptions

---
 amzn-smt-eager-arithmetic/src/lib.rs | 30 ++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..96d7f64 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -3,7 +3,7 @@
 #![warn(rust_2018_idioms)]
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use anyhow::{anyhow, Context};
+use anyhow::{anyhow, bail, Context};
 use aws_smt_ir::{
     ackermann::ackermannize,
     cnf::{self, into_cnf, CnfTerm},
@@ -13,7 +13,10 @@ use aws_smt_ir::{
         arith::*,
     },
     model::Model,
-    smt2parser::{concrete::Constant, Numeral},
+    smt2parser::{
+        concrete::{Command, Constant},
+        Numeral,
+    },
     Ctx, ISort, IVar, Logic, Script, Sorted, Term, UnknownSort,
 };
 use either::Either;
@@ -118,6 +121,7 @@ fn encode_inner(
     let start = Instant::now();
     let uflia = Script::<Term>::parse(smt)?;
     println!("Parse time: {:?}", start.elapsed());
+    reject_incremental(&uflia)?;
     let start = Instant::now();
     let mut ctx = Ctx::default();
     // TODO: is it necessary to eliminate lets up-front?
@@ -146,6 +150,28 @@ fn encode_inner(
     Ok((cnf, mapping, encoder, reconstruct_ackermannized_funcs))
 }
 
+/// All assertions of a script are solved as a single conjunction, so a script that goes on after
+/// removing assertions or that checks satisfiability under assumptions cannot be answered.
+fn reject_incremental(script: &Script<Term>) -> anyhow::Result<()> {
+    let mut removed = false;
+    for command in script.as_ref() {
+        match command {
+            Command::Pop { .. } | Command::Reset | Command::ResetAssertions => removed = true,
+            Command::Assert { .. } | Command::CheckSat if removed => {
+                bail!(
+                    "unsupported incremental script: assertions are removed before `{}`",
+                    command
+                )
+            }
+            Command::CheckSatAssuming { literals } if !literals.is_empty() => {
+                bail!("unsupported command: `{}`", command)
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn int_term(t: &Term) -> Option<(&Numeral, bool)> {
     use ArithOp::*;
     use Op::*;
-- 
2.43.0


From 9fd3acb7a1920a518fee5cf580e878be189a504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 12/52] fix: accept constraints without variables

---
 amzn-smt-eager-arithmetic/src/stats.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 7cb4430..7a01dc9 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -318,11 +318,11 @@ impl<'a> StatsVisitor<'a> {
             [l, r] => {
                 self.expecting = Expecting::Sum;
                 try_break!(l.visit_with(self));
-                debug_assert!(
-                    self.current_partition.is_some(),
-                    "constraints contain at least one variable: {}",
-                    t
-                );
+                if self.current_partition.is_none() {
+                    // No variable is constrained, so there's nothing to bound
+                    self.expecting = Expecting::Formula;
+                    return ControlFlow::CONTINUE;
+                }
                 try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
@@ -425,6 +425,7 @@ impl Visitor<ALL> for StatsVisitor<'_> {
                 self.visit_constraint(op.into(), args)
             }
             (Expecting::Formula, BitVec(..)) => ControlFlow::CONTINUE,
+            (Expecting::Sum, Arith(Plus(args))) if args.is_empty() => ControlFlow::CONTINUE,
             (Expecting::Sum, Arith(Plus(args))) => {
                 self.expecting = Expecting::Summand;
                 try_break!(args.visit_with(self));
-- 
2.43.0


From 4f6a9467a03116b1521d8c34a6d5a3c3b75a46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 13/52] fix: keep a function application's own literals when it
 appears beside another literal

---
 amzn-smt-string-transformer/src/callgraph.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..d311c19 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -252,18 +252,25 @@ impl CallGraph {
         }
         // update siblings with the new sibling nodes, and new sibling strings
         for sib_id in &sib_ids {
+            // adding to the string_lits_built_from: function nodes keep exactly the literals they
+            // are built from, these are what gets replaced in their definition
+            let data = if !sib_strings.is_empty() && self.constraint_vars.contains(sib_id) {
+                self.get_data_for_ind(sib_id).ok().map(|data| {
+                    let mut data = data.clone();
+                    data.string_lits_built_from
+                        .extend(sib_strings.iter().cloned());
+                    data
+                })
+            } else {
+                None
+            };
             self.forest.update_node_at_index(
                 *sib_id,
                 NodeModStruct::<NodeId, CallnodeData> {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    data,
                 },
             )?;
         }
-- 
2.43.0


From e2f3a45def18f4584503e55ad30eb94bbcf86dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 14/52] fix: rename declared functions where they are applied

---
 .../src/transpiler_visitors.rs                       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..3fb3c0c 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar};
+use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -254,6 +254,16 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         Ok(v.into())
     }
 
+    /// visit applications of uninterpreted functions
+    /// the function's declaration is renamed, so the applications need to be too
+    fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
+        let mut uf = uf.super_fold_with(self)?;
+        if let Some(sym) = self.alpha_renaming_map.get(&uf.func) {
+            uf.func = sym.clone();
+        }
+        Ok(uf.into())
+    }
+
     /// visit constants
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
-- 
2.43.0


From 85ec977ed78aace12882bea2e939b5b755009f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 15/52] fix: leave bound variables alone when renaming declared
 ones

---
 .../src/transpiler_visitors.rs                | 68 ++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 3fb3c0c..b92bf32 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,7 +12,9 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
-use aws_smt_ir::{CoreOp, IConst, ISort, ISymbol, IVar, IUF};
+use aws_smt_ir::{
+    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF,
+};
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
@@ -45,6 +47,9 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
+    /// symbols bound by the enclosing lets, quantifiers and function definitions;
+    /// these are not the declared symbols of the same name, so they don't get renamed
+    bound_vars: Vec<ISymbol>,
     /// list of original constraint variables that appear in a context that implies
     /// that all characters in string literals used with are all characters need to be respected
     pub char_level_substring_vars: HashSet<ISymbol>,
@@ -99,6 +104,19 @@ impl IdentifyStringsBuilder {
         }
     }
 
+    /// fold a term in the scope of the given bound symbols
+    fn fold_in_scope(
+        &mut self,
+        bound: Vec<ISymbol>,
+        t: Term,
+    ) -> Result<Term, aws_smt_ir::smt2parser::Error> {
+        let outer = self.bound_vars.len();
+        self.bound_vars.extend(bound);
+        let t = self.fold_term(t);
+        self.bound_vars.truncate(outer);
+        t
+    }
+
     /// process a string function application: if it's not already computed,
     /// then make a new var and add new decl-const and asserts where needed
     /// for example:
@@ -248,12 +266,60 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// if the symbol is one of the variables we have renamed, then
     /// replace it with the new name
     fn fold_var(&mut self, v: IVar) -> Result<Term, Self::Error> {
+        if self.bound_vars.contains(v.sym()) {
+            return Ok(v.into());
+        }
         if let Some(sym) = self.alpha_renaming_map.get(v.sym()) {
             return Ok(sym.clone().into());
         }
         Ok(v.into())
     }
 
+    /// visit let terms: the bound symbols only scope over the body
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        let Let { bindings, term } = l.as_ref().clone();
+        let bindings = bindings
+            .into_iter()
+            .map(|(sym, t)| Ok((sym, self.fold_term(t)?)))
+            .collect::<Result<Vec<_>, Self::Error>>()?;
+        let bound = bindings.iter().map(|(sym, _)| sym.clone()).collect();
+        let term = self.fold_in_scope(bound, term)?;
+        Ok(Let { bindings, term }.into())
+    }
+
+    /// visit quantified terms
+    fn fold_quantifier(&mut self, q: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let bound_syms = |vars: &[(ISymbol, ISort)]| vars.iter().map(|(s, _)| s.clone()).collect();
+        Ok(match q.as_ref().clone() {
+            Quantifier::Forall(vars, t) => {
+                let t = self.fold_in_scope(bound_syms(&vars), t)?;
+                Quantifier::Forall(vars, t).into()
+            }
+            Quantifier::Exists(vars, t) => {
+                let t = self.fold_in_scope(bound_syms(&vars), t)?;
+                Quantifier::Exists(vars, t).into()
+            }
+        })
+    }
+
+    /// visit function definitions: the parameters scope over the body
+    fn fold_define_fun(&mut self, sig: FunctionDec, body: Term) -> Result<Command, Self::Error> {
+        let params = sig.parameters.iter().map(|(s, _)| s.clone()).collect();
+        let term = self.fold_in_scope(params, body)?;
+        Ok(Command::DefineFun { sig, term })
+    }
+
+    /// basically the same as visiting function definitions
+    fn fold_define_fun_rec(
+        &mut self,
+        sig: FunctionDec,
+        body: Term,
+    ) -> Result<Command, Self::Error> {
+        let params = sig.parameters.iter().map(|(s, _)| s.clone()).collect();
+        let term = self.fold_in_scope(params, body)?;
+        Ok(Command::DefineFunRec { sig, term })
+    }
+
     /// visit applications of uninterpreted functions
     /// the function's declaration is renamed, so the applications need to be too
     fn fold_uninterpreted_func(&mut self, uf: IUF<ALL>) -> Result<Term, Self::Error> {
-- 
2.43.0


From 1aede4bba1f4e26190c903e79e342deed198bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:28 +0000
Subject: [PATCH 16/52] fix: keep sort declarations ahead of the declarations
 that use them

---
 amzn-smt-string-transformer/src/transpiler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..f5f87ec 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -865,7 +865,13 @@ pub fn transform_ast(
         commands.into_iter().partition(|c| {
             matches!(
                 c,
-                Command::SetLogic { .. } | Command::SetInfo { .. } | Command::SetOption { .. }
+                Command::SetLogic { .. }
+                    | Command::SetInfo { .. }
+                    | Command::SetOption { .. }
+                    | Command::DeclareSort { .. }
+                    | Command::DefineSort { .. }
+                    | Command::DeclareDatatype { .. }
+                    | Command::DeclareDatatypes { .. }
             )
         });
 
-- 
2.43.0


From 19b6d32320eb8cf19263548bc84fc963962ec27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:19 +0000
Subject: [PATCH 17/52] fix: map string literals below conditionals and
 uninterpreted functions

---
 .../src/transpiler_visitors.rs                | 71 +++++++++++++------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index b92bf32..f6f79d5 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -12,6 +12,7 @@ use aws_smt_ir::args::Arguments;
 use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
+use aws_smt_ir::visit::{ControlFlow, Visit, Visitor};
 use aws_smt_ir::{
     CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF,
 };
@@ -55,6 +56,41 @@ pub struct IdentifyStringsBuilder {
     pub char_level_substring_vars: HashSet<ISymbol>,
 }
 
+/// the variables and string literals in a term, also below conditionals, lets and
+/// uninterpreted functions
+#[derive(Default)]
+struct Leaves {
+    /// all variables
+    vars: BTreeSet<ISymbol>,
+    /// all string literals
+    string_lits: BTreeSet<String>,
+}
+
+impl Leaves {
+    /// collect the leaves of a term
+    fn of(t: &Term) -> Self {
+        let mut leaves = Self::default();
+        let _ = t.visit_with(&mut leaves);
+        leaves
+    }
+}
+
+impl Visitor<ALL> for Leaves {
+    type BreakTy = Infallible;
+
+    fn visit_var(&mut self, v: &IVar) -> ControlFlow<Self::BreakTy> {
+        self.vars.insert(v.sym().clone());
+        ControlFlow::CONTINUE
+    }
+
+    fn visit_const(&mut self, c: &IConst) -> ControlFlow<Self::BreakTy> {
+        if let Constant::String(s) = c.as_ref() {
+            self.string_lits.insert(s.clone());
+        }
+        ControlFlow::CONTINUE
+    }
+}
+
 /// member functions for the IdentifyStringsBuilder struct
 impl IdentifyStringsBuilder {
     /// create the decl-const for a new var with the specified name
@@ -86,17 +122,14 @@ impl IdentifyStringsBuilder {
                     &self.alpha_renaming_map,
                 ));
             for arg in op.args() {
-                if let Term::Variable(identifier) = arg {
-                    let ident_sym = identifier.sym();
-                    if self.string_var_list.contains(&ident_sym.clone()) {
-                        ident_args.insert(ident_sym.clone());
-                        self.callgraph.add_parent_child(&var_sym, ident_sym).ok();
-                    }
-                } else if let Term::Constant(c) = arg {
-                    if let Constant::String(s) = c.as_ref() {
-                        string_lits.insert(s.clone());
+                let leaves = Leaves::of(arg);
+                for ident_sym in leaves.vars {
+                    if self.string_var_list.contains(&ident_sym) {
+                        self.callgraph.add_parent_child(&var_sym, &ident_sym).ok();
+                        ident_args.insert(ident_sym);
                     }
                 }
+                string_lits.extend(leaves.string_lits);
             }
             self.callgraph
                 .add_direct_siblings(ident_args, string_lits)
@@ -128,24 +161,18 @@ impl IdentifyStringsBuilder {
     fn process_string_fct(&mut self, sfc: StringFct, t: &Term) -> Option<ISymbol> {
         let mut string_const_args = BTreeSet::<String>::new();
         // build up all the string constant args, and use this to check for non-string equality
-        let mut non_string_arguments = false;
+        let mut string_arguments = false;
         if let Some(op) = t.op() {
             for arg in op.args() {
-                if let Term::Constant(c) = arg {
-                    if let Constant::String(s) = c.as_ref() {
-                        string_const_args.insert(s.to_string());
-                        continue;
-                    }
-                } else if let Term::Variable(v) = arg {
-                    non_string_arguments |= !self.string_var_list.contains(v.sym());
-                    continue;
-                }
-                non_string_arguments = true;
+                let leaves = Leaves::of(arg);
+                string_arguments |= !leaves.string_lits.is_empty()
+                    || leaves.vars.iter().any(|v| self.string_var_list.contains(v));
+                string_const_args.extend(leaves.string_lits);
             }
         }
-        if non_string_arguments && sfc == StringFct::StrEquality {
+        if !string_arguments && sfc == StringFct::StrEquality {
             // if it's equality, it might not be over strings
-            // only proceed if all args are strings or some of our created string vars
+            // only proceed if strings or some of our created string vars are involved
             return None;
         }
 
-- 
2.43.0


From 8caeb2af84f0a57869c8b2319f8f651e51b7c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 18/52] fix: map string literals no string function is applied
 to

---
 amzn-smt-string-transformer/src/transpiler.rs | 29 ++++++++++-
 .../src/transpiler_visitors.rs                | 52 +++++++++++++++++--
 2 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f5f87ec..700dd73 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -899,7 +899,23 @@ pub fn transform_ast(
 
     // initialize the charmap with the callgraph's partitions
     let mut char_map = initialize_charmap(partitions, &char_level_substring_vars);
-    if use_char_to_char {
+    // string literals that no string function is applied to (e.g. those bound by a let) are not
+    // represented in the callgraph, so nothing is known about how they're used
+    let mut loose_lits = LooseLiterals {
+        string_fct_terms: identify_builder.string_var_defn_map.values().collect(),
+        string_lits: BTreeSet::new(),
+    };
+    for c in &output {
+        match c.clone().fold_with(&mut loose_lits) {
+            Ok(_) => {}
+            Err(e) => match e {},
+        }
+    }
+    let loose_lits = loose_lits.string_lits;
+    for s in &loose_lits {
+        char_map.string_lit_props.entry(s.clone()).or_default();
+    }
+    if use_char_to_char || !loose_lits.is_empty() {
         char_map.set_char_to_char(true); // default is false
     }
     // if we're using the global (persistent) map, read it in
@@ -966,6 +982,15 @@ pub fn transform_ast(
         var_index += 1;
     }
 
+    // map the remaining string literals
+    let mut replace_lits: HashMap<String, String> = HashMap::new();
+    for s in loose_lits {
+        if let Ok(new_s) = string_mappings::map_string_char_to_char(&s, &mut char_map) {
+            replace_lits.insert(s, new_s);
+        }
+    }
+    char_map.string_map.extend(replace_lits.clone());
+
     // if we were mapping strings, then at the end remap the range endpoints to their correct chars
     // remember this wasn't there before, bc we didn't want them to get counted as substrings
     // it's ok for the first char in the range bc this is the default char for the range anyway
@@ -1026,7 +1051,7 @@ pub fn transform_ast(
     );
 
     // actually replace the terms with the remapped strings
-    let mut simplify_builder = SimplifyStringsBuilder::new(replace_terms);
+    let mut simplify_builder = SimplifyStringsBuilder::new(replace_terms, replace_lits);
     output = output
         .into_iter()
         .map(|c| c.fold_with(&mut simplify_builder))
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index f6f79d5..f60bf30 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -373,13 +373,48 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
 pub struct SimplifyStringsBuilder {
     /// map of all terms to replace, and their replacements
     replaced_terms: HashMap<Term, Term>,
+    /// map of the string literals outside of these terms to their replacements
+    replaced_lits: HashMap<String, String>,
 }
 
 /// member functions on the SimplifyStringsBuilder
 impl SimplifyStringsBuilder {
-    /// constructor: takes a map of terms to be replaced and what they should be replaced with.
-    pub fn new(replaced_terms: HashMap<Term, Term>) -> Self {
-        Self { replaced_terms }
+    /// constructor: takes a map of terms to be replaced and what they should be replaced with,
+    /// and likewise a map of the string literals outside of these terms
+    pub fn new(
+        replaced_terms: HashMap<Term, Term>,
+        replaced_lits: HashMap<String, String>,
+    ) -> Self {
+        Self {
+            replaced_terms,
+            replaced_lits,
+        }
+    }
+}
+
+/// Collects the string literals outside of the given string function applications
+pub struct LooseLiterals<'a> {
+    /// the string function applications
+    pub string_fct_terms: HashSet<&'a Term>,
+    /// the string literals found
+    pub string_lits: BTreeSet<String>,
+}
+
+impl IntraLogicFolder<ALL> for LooseLiterals<'_> {
+    type Error = Infallible;
+
+    fn fold_term(&mut self, t: Term) -> Result<Term, Self::Error> {
+        if self.string_fct_terms.contains(&t) {
+            return Ok(t);
+        }
+        t.super_fold_with(self)
+    }
+
+    fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
+        if let Constant::String(s) = constant.as_ref() {
+            self.string_lits.insert(s.clone());
+        }
+        Ok(constant.into())
     }
 }
 
@@ -396,6 +431,17 @@ impl IntraLogicFolder<ALL> for SimplifyStringsBuilder {
             None => t.super_fold_with(self),
         }
     }
+
+    /// visit the string literals that are in none of these applications
+    fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
+        Ok(match constant.as_ref() {
+            Constant::String(s) => match self.replaced_lits.get(s) {
+                Some(new_s) => Constant::String(new_s.clone()).into(),
+                None => constant.into(),
+            },
+            _ => constant.into(),
+        })
+    }
 }
 
 /// extension to QualIdentifier; adds member functions for converting to/from symbols and for
-- 
2.43.0


From ff03c113131c27424513d0ec689addda1f1db789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:06 +0000
Subject: [PATCH 19/52] fix: treat string escapes as the characters they denote

---
 amzn-smt-string-transformer/src/lib.rs        | 43 +++++++++++++++++++
 .../src/reconstruct_tools.rs                  |  9 ++--
 amzn-smt-string-transformer/src/transpiler.rs | 10 ++++-
 .../src/transpiler_visitors.rs                |  9 +++-
 4 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/amzn-smt-string-transformer/src/lib.rs b/amzn-smt-string-transformer/src/lib.rs
index 3ba9e06..895cc1a 100644
--- a/amzn-smt-string-transformer/src/lib.rs
+++ b/amzn-smt-string-transformer/src/lib.rs
@@ -65,6 +65,49 @@ type Command = IRCommand<Term>;
  * SPDX-License-Identifier: Apache-2.0.
  */
 
+/// replace the escapes in the text of a string literal by the characters they denote
+fn unescape_string(s: &str) -> String {
+    let mut to_ret = String::new();
+    let mut rest = s;
+    while let Some(c) = rest.chars().next() {
+        let (digits, len) = match rest.strip_prefix("\\u{") {
+            Some(braced) => match braced.find('}') {
+                Some(end) if (1..=5).contains(&end) => (&braced[..end], end + 4),
+                _ => ("", 0),
+            },
+            None => match rest.strip_prefix("\\u").and_then(|r| r.get(..4)) {
+                Some(digits) => (digits, 6),
+                None => ("", 0),
+            },
+        };
+        if !digits.is_empty() && digits.chars().all(|d| d.is_ascii_hexdigit()) {
+            if let Some(c) = u32::from_str_radix(digits, 16)
+                .ok()
+                .filter(|code| *code <= 0x2ffff)
+                .and_then(char::from_u32)
+            {
+                to_ret.push(c);
+                rest = &rest[len..];
+                continue;
+            }
+        }
+        to_ret.push(c);
+        rest = &rest[c.len_utf8()..];
+    }
+    to_ret
+}
+
+/// the text of a string literal with the given characters: everything that is not printable is
+/// escaped, and so is the backslash, lest it start an escape
+fn escape_string(s: &str) -> String {
+    s.chars()
+        .map(|c| match c {
+            ' '..='[' | ']'..='~' => c.to_string(),
+            _ => format!("\\u{{{:x}}}", c as u32),
+        })
+        .collect()
+}
+
 /// extension to Sort; adds a member function that gets the corresponding IdentType
 /// (basically, converting the Sort into my custom types)
 trait SortExt {
diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 2346589..d3e1e15 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -4,7 +4,7 @@
 //! option
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use crate::{mapping_tools, Command, Term};
+use crate::{escape_string, mapping_tools, unescape_string, Command, Term};
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
 use aws_smt_ir::{FunctionDec, ISymbol};
@@ -190,13 +190,12 @@ pub fn build_string_var_assertions(
         let var_name_str = &var_name.0;
         if new_map.affected_constraint_vars.contains(var_name_str) {
             let reconstructed = reconstruct_string(
-                const_str.chars().collect::<Vec<char>>(),
+                unescape_string(const_str).chars().collect::<Vec<char>>(),
                 new_map.get_re_map(),
             );
 
-            // the solver doesn't play well with '\u{0}', it seems to be represented as \x00 so just
-            // replace it with this
-            let reconstructed = reconstructed.replace('\u{0}', "\\x00");
+            // write the characters the solver doesn't play well with (e.g. '\u{0}') as escapes
+            let reconstructed = escape_string(&reconstructed);
 
             let un_alpha_map = new_map.get_un_alpha_map();
             let var_name = match un_alpha_map.get(var_name_str) {
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 700dd73..db29722 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -18,6 +18,7 @@
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
 use crate::callgraph::*;
+use crate::escape_string;
 use crate::forest::AffectErr;
 use crate::mapping_tools::*;
 use crate::string_fcts::*;
@@ -318,7 +319,9 @@ impl IntraLogicFolder<ALL> for StringSwapper {
 
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         Ok(match constant.as_ref() {
-            Constant::String(s) => Constant::String(self.string_map[s.as_str()].clone()).into(),
+            Constant::String(s) => {
+                Constant::String(escape_string(&self.string_map[s.as_str()])).into()
+            }
             _ => constant.into(),
         })
     }
@@ -507,7 +510,10 @@ impl CharMap {
         for i in (1..std::cmp::min(s1.len(), s2.len())).rev() {
             // if they're never not equal then the entire string
             // is contained, so already in the map (return None)
-            if s1[0..i] == s2[s2.len() - i..s2.len()] {
+            if s1.is_char_boundary(i)
+                && s2.is_char_boundary(s2.len() - i)
+                && s1[0..i] == s2[s2.len() - i..s2.len()]
+            {
                 return Some(&s1[0..i]);
             }
         }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index f60bf30..5584b78 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -20,7 +20,10 @@ use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
 use std::convert::Infallible;
 
-use crate::{callgraph::*, string_fcts::*, transpiler::*, Command, SortExt, Term};
+use crate::{
+    callgraph::*, escape_string, string_fcts::*, transpiler::*, unescape_string, Command, SortExt,
+    Term,
+};
 
 /// Extension on the smt2parser SyntaxBuilder; adding fields for the things we need to keep track of
 /// during the AST traversal.
@@ -361,7 +364,9 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// if it's a string constant, add it to the list of string constants
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         if let Constant::String(s) = constant.as_ref() {
+            let s = unescape_string(s);
             self.string_consts.insert(s.clone());
+            return Ok(Constant::String(s).into());
         }
         Ok(Term::Constant(constant))
     }
@@ -436,7 +441,7 @@ impl IntraLogicFolder<ALL> for SimplifyStringsBuilder {
     fn fold_const(&mut self, constant: IConst) -> Result<Term, Self::Error> {
         Ok(match constant.as_ref() {
             Constant::String(s) => match self.replaced_lits.get(s) {
-                Some(new_s) => Constant::String(new_s.clone()).into(),
+                Some(new_s) => Constant::String(escape_string(new_s)).into(),
                 None => constant.into(),
             },
             _ => constant.into(),
-- 
2.43.0


From 822d30345aecdb4ab230479e18af2870b48bdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 20/52] fix: reverse the character mapping one-to-one when
 reconstructing

---
 amzn-smt-string-transformer/src/mapping_tools.rs | 13 +++++++++++++
 amzn-smt-string-transformer/src/transpiler.rs    | 16 ++--------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/amzn-smt-string-transformer/src/mapping_tools.rs b/amzn-smt-string-transformer/src/mapping_tools.rs
index f5f11e5..067a987 100644
--- a/amzn-smt-string-transformer/src/mapping_tools.rs
+++ b/amzn-smt-string-transformer/src/mapping_tools.rs
@@ -216,6 +216,19 @@ impl Mapping {
         for (c1, c2) in &self.char_map {
             re_map.insert(*c2, *c1);
         }
+        // a character that only occurs on the original side stands for nothing in the transformed
+        // query, so it can't stay as it is: go along the chain of mappings that starts with it to a
+        // character which stands for nothing in the original query
+        let forward: HashMap<char, char> = self.char_map.iter().copied().collect();
+        for c1 in forward.keys() {
+            if !re_map.contains_key(c1) {
+                let mut end = *c1;
+                for _ in 0..forward.len() {
+                    end = forward.get(&end).copied().unwrap_or(end);
+                }
+                re_map.insert(*c1, end);
+            }
+        }
         re_map
     }
 
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index db29722..46ab8d8 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -812,7 +812,7 @@ fn initialize_charmap_with_ranges(
 }
 
 /// populate the rest of the ranges.
-/// we'll just map the characters in the mapped range to one of the unused range chars
+/// we'll just map each of the unused range chars to one of the characters left in the mapped range
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
@@ -824,21 +824,9 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
-                if char_map
-                    .illegal_chars
-                    .contains(&char::from_u32(offset).unwrap())
-                {
-                    offset += 1;
-                }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
-- 
2.43.0


From a7226c7538c2bcf7898e845414e0bb26e48b4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 21/52] fix: map each character range onto a range of the same
 size

---
 amzn-smt-string-transformer/src/string_mappings.rs | 7 -------
 amzn-smt-string-transformer/src/transpiler.rs      | 7 -------
 2 files changed, 14 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..93dca56 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -79,13 +79,6 @@ pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String
                     if c >= range.start_char && c <= range.end_char {
                         offset = range.cur_offset;
                         // use next available char in the range
-                        if char_map
-                            .illegal_chars
-                            .contains(&char::from_u32(offset).unwrap())
-                        {
-                            offset += 1;
-                            range.cur_offset += 1;
-                        }
                         range.cur_offset += 1;
                         in_range = true;
                     }
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 46ab8d8..9069085 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -789,18 +789,11 @@ fn initialize_charmap_with_ranges(
     // that range will just be skipped
     for (c1, c2) in ranges {
         if !char_map.has_range(c1, c2) {
-            let orig_offset = offset;
             let cur_range = RangeParams::new(c1, c2, offset + 1);
             char_map
                 .char_map
                 .insert(c1, char::from_u32(offset).unwrap());
             offset += (c2 as u32) - (c1 as u32);
-            for illegal_char in &char_map.illegal_chars {
-                if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
-                    offset += 1;
-                    break;
-                }
-            }
             char_map
                 .char_map
                 .insert(c2, char::from_u32(offset).unwrap());
-- 
2.43.0


From bc5a70321f03983770acacaf80b16c75ef0886d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 22/52] fix: keep overlapping character ranges ranges

---
 amzn-smt-string-transformer/src/transpiler.rs | 51 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 9069085..6142225 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -438,6 +438,8 @@ pub struct CharMap {
     pub char_to_char: bool,
     /// list of character ranges, each of which is represented by a RangeParams struct
     pub ranges: Vec<RangeParams>,
+    /// do any of the character ranges overlap? (these are not on the list of ranges)
+    pub overlapping_ranges: bool,
     /// character map; only relevant if we're mapping char-to-char
     pub char_map: HashMap<char, char>,
     /// string map: stores mapping of original string to transpiled string
@@ -673,6 +675,7 @@ impl Default for CharMap {
         Self {
             char_to_char: false,
             ranges: Vec::default(),
+            overlapping_ranges: false,
             char_map: HashMap::default(),
             string_map: HashMap::default(),
             string_lit_props: HashMap::default(),
@@ -785,6 +788,8 @@ fn initialize_charmap_with_ranges(
         }
     }
 
+    offset = initialize_charmap_with_overlapping_ranges(&mut ranges, offset, char_map);
+
     // if we hit an int range and it's already been mapped, no problem
     // that range will just be skipped
     for (c1, c2) in ranges {
@@ -804,6 +809,50 @@ fn initialize_charmap_with_ranges(
     offset
 }
 
+/// map the characters of ranges that overlap, one after the other, so each of these ranges stays
+/// contiguous; take these ranges off the list.
+/// this also goes for ranges that overlap the int range, whose characters stay the same
+fn initialize_charmap_with_overlapping_ranges(
+    ranges: &mut BTreeSet<(char, char)>,
+    mut offset: u32,
+    char_map: &mut CharMap,
+) -> u32 {
+    let ints = ('0', '9');
+    if char_map.has_range(ints.0, ints.1) {
+        ranges.insert(ints);
+    }
+    // group the ranges (they're sorted by their starting character)
+    let mut groups: Vec<(char, char, usize)> = Vec::new();
+    for (c1, c2) in ranges.iter() {
+        match groups.last_mut() {
+            Some((_, end, n)) if c1 <= end => {
+                *end = std::cmp::max(*end, *c2);
+                *n += 1;
+            }
+            _ => groups.push((*c1, *c2, 1)),
+        }
+    }
+    groups.retain(|(_, _, n)| *n > 1);
+    // the group that overlaps the int range goes first, lest another one take its place
+    groups.sort_by_key(|(start, end, _)| {
+        !(char_map.has_range(ints.0, ints.1) && *start <= ints.1 && *end >= ints.0)
+    });
+    for (start, end, _) in groups {
+        let first = if char_map.has_range(ints.0, ints.1) && start <= ints.1 && end >= ints.0 {
+            start as u32
+        } else {
+            offset
+        };
+        for (ind, c) in (first..).zip(start..=end) {
+            char_map.char_map.insert(c, char::from_u32(ind).unwrap());
+            offset = std::cmp::max(offset, ind + 1);
+        }
+        ranges.retain(|(c1, _)| *c1 < start || *c1 > end);
+        char_map.overlapping_ranges = true;
+    }
+    offset
+}
+
 /// populate the rest of the ranges.
 /// we'll just map each of the unused range chars to one of the characters left in the mapped range
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
@@ -902,7 +951,7 @@ pub fn transform_ast(
     for s in &loose_lits {
         char_map.string_lit_props.entry(s.clone()).or_default();
     }
-    if use_char_to_char || !loose_lits.is_empty() {
+    if use_char_to_char || !loose_lits.is_empty() || char_map.overlapping_ranges {
         char_map.set_char_to_char(true); // default is false
     }
     // if we're using the global (persistent) map, read it in
-- 
2.43.0


From d08dae3c9816c2db55e6bdaf79dd3b1ba983c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 23/52] fix: keep the literals of Boolean string functions
 below other string functions

---
 amzn-smt-string-transformer/src/callgraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index d311c19..c8edd41 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -459,8 +459,14 @@ impl CallGraph {
             return Ok((contrib.clone(), AffectOk::AlreadyDone));
         }
 
-        // if it's in a partition we've already formed, just collect this
-        if let Some(contrib) = self.get_contribs_for_var(var) {
+        // if it's in a partition we've already formed, just collect this; a partition has a function
+        // that returns a Bool without the literals it's built from if it's only there as an argument
+        let formed = self.get_contribs_for_var(var).filter(|contrib| {
+            contrib
+                .string_lits
+                .is_superset(&cur_node.data.string_lits_built_from)
+        });
+        if let Some(contrib) = formed {
             self.update_node_with_contribs(
                 var,
                 contrib.clone(),
-- 
2.43.0


From e4ef590f58ce53df79a1b6463b83e74814a09c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 24/52] fix: keep the length of strings that substrings,
 character ranges and re.allchar apply to

---
 .../src/string_fcts.rs                        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..ceb83ae 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -199,7 +199,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -217,7 +216,6 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::Substr
             | Self::SuffixOf
             | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -238,6 +236,16 @@ impl StringFct {
                     keep_prefix_suffix: true,
                 })
             }
+            // the positions in a string are relevant, along with its substrings
+            Self::Substr => {
+                set_props = set_props.update_with_truths(StringSetProperties::Some {
+                    len: true,
+                    ranges: HashSet::new(),
+                    keep_ints: KeepInts::No,
+                    keep_substrings: true,
+                    keep_prefix_suffix: false,
+                })
+            }
             // substrings and relative prefix/suffix are relevant; now length is also relevant
             Self::ReConcat => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -254,7 +262,7 @@ impl StringFct {
                     let mut range_set: HashSet<(char, char)> = HashSet::new();
                     range_set.insert((c1, c2));
                     set_props = set_props.update_with_truths(StringSetProperties::Some {
-                        len: false,
+                        len: true, // only matches one char
                         ranges: range_set,
                         keep_ints: KeepInts::No,
                         keep_substrings: true, // specific chars matter with range
@@ -265,8 +273,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (loop and pow mean a specific number of repetitions, and
+            // allchar means one char)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From b76d87d5a981b53e3ed2da5bdfd177ce401f55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 25/52] fix: keep the whole string, and give up in time, when
 mapping a string with digits or ranges

---
 .../src/string_mappings.rs                    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 93dca56..e9b6593 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -109,24 +109,26 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
     for c in s.chars() {
+        let new_range = char_map.get_range_for_char(c);
         // if we're keeping ints (decimal)
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                break;
+                cur_range = new_range;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                cur_range = new_range;
+                continue;
             }
             _ => {}
         }
-        let new_range = char_map.get_range_for_char(c);
         // get the next char
         // if it's a range, just use the first value in the range
         // if it's not a range, just get the next available value
@@ -165,20 +167,15 @@ pub fn gen_string_keep_ranges(
     }
     // deal with the case that this generated string is already in the map
     // this is where we consider substrings if this argument is true
-    let repeat_fix = fix_repeated_string(
+    fix_repeated_string(
         s.to_string(),
-        to_ret.clone(),
+        to_ret,
         char_map,
         100u8, // number of retries allowed
         keep_ints,
         consider_substrings,
         len_bool,
-    );
-    if let Ok(to_ret) = repeat_fix {
-        to_ret
-    } else {
-        map_string_char_to_char(s, char_map).unwrap()
-    }
+    )
 }
 
 /// check to see if a mapped string is already in the map.
@@ -220,6 +217,10 @@ fn fix_repeated_string(
                     })
                 )))
     }) {
+        // every char has been tried at every index
+        if retry_add > 127 {
+            return Err(StringMapError::RemapRetryCountExceeded);
+        }
         // get next non-range char in the charmap
         let next_char = char::from_u32(update_and_get_next_char(
             char_map,
@@ -688,7 +689,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -836,7 +837,7 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
                         to_ret = map_string_char_to_char(s, char_map).unwrap();
-- 
2.43.0


From 68fe50af1eaaeddf1836cd466337d8dd6144be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 26/52] fix: don't map other strings to what the endpoints of
 ranges map to

---
 amzn-smt-string-transformer/src/string_mappings.rs | 10 ++++++----
 amzn-smt-string-transformer/src/transpiler.rs      | 10 ++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index e9b6593..567b2ab 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -198,9 +198,10 @@ fn fix_repeated_string(
     let mut retry_char = to_ret.chars().nth(retry_ind).unwrap(); // character we're perturbing
     let mut reps = 1; // number of repetitions of the current char we're adding in the perturbation
                       // (this stays 1 if the length or substrings properties need to be maintained)
-    while char_map.string_map.iter().any(|(key, val)| {
-        // can't map to a string we already used
-        val == &to_ret
+    while char_map.is_other_range_endpoint(&orig_string, &to_ret)
+        || char_map.string_map.iter().any(|(key, val)| {
+            // can't map to a string we already used
+            val == &to_ret
             // more checks required if we need to keep substrings
             || (consider_substrings
                 && ((!orig_string.contains(key) && to_ret.contains(val))
@@ -216,7 +217,8 @@ fn fix_repeated_string(
                         keep_prefix_suffix: _,
                     })
                 )))
-    }) {
+        })
+    {
         // every char has been tried at every index
         if retry_add > 127 {
             return Err(StringMapError::RemapRetryCountExceeded);
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 6142225..d5a064d 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -503,6 +503,16 @@ impl CharMap {
         None
     }
 
+    /// is the mapped string what an endpoint of a range, other than the original string, maps to?
+    /// (the endpoints aren't in the string map)
+    pub fn is_other_range_endpoint(&self, orig: &str, mapped: &str) -> bool {
+        self.ranges.iter().any(|r| {
+            [r.start_char, r.end_char]
+                .iter()
+                .any(|c| *orig != c.to_string() && *mapped == self.char_map[c].to_string())
+        })
+    }
+
     /// find if something is a prefix of s1 that is also a suffix of s2
     fn get_prefix_suffix<'a>(s1: &'a str, s2: &'a str) -> Option<&'a str> {
         // start at 1 so we are comparing at least one char always
-- 
2.43.0


From 4727e75599430d2f0c8635ec891623e8bb254f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 27/52] fix: don't relate unrelated strings when mapping them
 from their parts

---
 .../src/string_fcts.rs                        | 14 +++++---
 .../src/string_mappings.rs                    | 33 +++++++++++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index ceb83ae..adeda5a 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -199,8 +199,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReCompl
-            | Self::ReDiff
             | Self::ReIntersect
             | Self::ReKleeneCross
             | Self::ReKleeneStar
@@ -273,9 +271,15 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions, and
-            // allchar means one char)
-            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
+            // length-specific functions (loop and pow mean a specific number of repetitions,
+            // allchar means one char, and complement and difference contain strings that are not
+            // made of the literals)
+            Self::Len
+            | Self::ReAllChar
+            | Self::ReCompl
+            | Self::ReDiff
+            | Self::ReLoop
+            | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 567b2ab..48fe92c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -31,6 +31,8 @@ pub enum StringMapError {
     SuffixPrefixOverlap,
     /// required substrings partially overlap (an edge case we don't handle)
     MidstringPartialOverlap,
+    /// the mapped string is related to another mapped string in a way the original strings are not
+    SubstringsNotPreserved,
 }
 
 /// update the given CharMap so the next non-range (i.e. not in any of the tracked ranges) character
@@ -556,6 +558,7 @@ pub fn gen_string_keep_substrings(
             if (req_len_bool >= &len_bool)
                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
                 && (!keep_ranges || !req_ranges.is_empty())
+                && preserves_substrings(s, mapped_to, char_map)
             {
                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                 return Ok(mapped_to.clone());
@@ -647,6 +650,12 @@ pub fn gen_string_keep_substrings(
 
     to_ret.push_str(&mapped_suffix);
 
+    // the parts are mapped separately, so check that putting them together doesn't relate this
+    // string to one that's already mapped
+    if !preserves_substrings(s, &to_ret, char_map) {
+        return Err(StringMapError::SubstringsNotPreserved);
+    }
+
     // add the mapped string to the string map and the persistent map
     char_map.string_map.insert(s.to_string(), to_ret.clone());
 
@@ -678,6 +687,30 @@ pub fn gen_string_keep_substrings(
     Ok(to_ret)
 }
 
+/// check that mapping `s` to `mapped` keeps it different from all the strings that are already
+/// mapped, and related as before to those of them for which substrings need to be preserved.
+fn preserves_substrings(s: &str, mapped: &str, char_map: &CharMap) -> bool {
+    fn related(s1: &str, s2: &str) -> [bool; 3] {
+        [s1.starts_with(s2), s1.ends_with(s2), s1.contains(s2)]
+    }
+    char_map.string_map.iter().all(|(key, val)| {
+        if key == s {
+            return true;
+        }
+        let keep_substrings = matches!(
+            char_map.string_lit_props.get(key),
+            Some(StringSetProperties::Some {
+                keep_substrings: true,
+                ..
+            })
+        );
+        val != mapped
+            && (!keep_substrings
+                || (related(s, key) == related(mapped, val)
+                    && related(key, s) == related(val, mapped)))
+    })
+}
+
 /// map a "gap" substring, i.e. a substring thats between required mid_substrings
 /// in a string that's being mapped while preserving these substrings.
 /// this function respects substrings but does not add itself mapped to the string_map,
-- 
2.43.0


From 9ef08b535ac686ae693d2c3a2cfd859af122d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 28/52] fix: map the parts of a string with the properties
 required of the parts and of the whole

---
 .../src/string_mappings.rs                    | 15 +++++++
 amzn-smt-string-transformer/src/transpiler.rs | 40 ++++++++++++++++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 48fe92c..3788229 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -464,6 +464,21 @@ pub fn gen_string_keep_substrings(
             return Ok(mapped_string.clone());
         }
     }
+    // this string may be mapped as a part of another one, which doesn't need all of the properties
+    // that need to be maintained for the string itself
+    let (len_bool, keep_ints, keep_ranges) = match char_map.string_lit_props.get(s) {
+        Some(StringSetProperties::Some {
+            len: own_len_bool,
+            ranges: own_ranges,
+            keep_ints: own_keep_ints,
+            ..
+        }) => (
+            len_bool || *own_len_bool,
+            KeepInts::merge(&keep_ints, *own_keep_ints),
+            keep_ranges || !own_ranges.is_empty(),
+        ),
+        _ => (len_bool, keep_ints, keep_ranges),
+    };
     let (prefix_strings, mid_substrings, suffix_strings) = get_string_subsets(s, char_map);
     // collect midpoint ranges
     // clone the midpoint strings to get rid of the stupid borrow error
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index d5a064d..e4a5176 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -565,9 +565,18 @@ impl CharMap {
                                 Self::get_prefix_suffix(string_lit, sub_string_lit)
                             {
                                 if !new_rel_string.is_empty() {
+                                    // the string may need to be mapped in other contexts too
+                                    let known_props = suffix_prefixes
+                                        .get(new_rel_string)
+                                        .or_else(|| self.string_lit_props.get(new_rel_string))
+                                        .cloned()
+                                        .unwrap_or_default();
                                     suffix_prefixes.insert(
                                         new_rel_string.to_string(),
-                                        sub_props.clone().update_with_truths(props.clone()),
+                                        sub_props
+                                            .clone()
+                                            .update_with_truths(props.clone())
+                                            .update_with_truths(known_props),
                                     );
                                 }
                             }
@@ -654,6 +663,35 @@ impl CharMap {
                     .insert(c.to_string(), cur_props.clone());
             }
         }
+        self.propagate_props_to_substrings();
+    }
+
+    /// for strings where substrings need to be preserved, the mapped string is put together from
+    /// the mapped substrings, so the properties required of a string are required of its substrings
+    fn propagate_props_to_substrings(&mut self) {
+        let keep_substrings = self
+            .string_lit_props
+            .iter()
+            .filter(|(_, props)| {
+                matches!(
+                    props,
+                    StringSetProperties::Some {
+                        keep_substrings: true,
+                        ..
+                    }
+                )
+            })
+            .map(|(string_lit, props)| (string_lit.clone(), props.clone()))
+            .collect::<Vec<_>>();
+        for (sub_string_lit, sub_props) in &keep_substrings {
+            let props = keep_substrings
+                .iter()
+                .filter(|(string_lit, _)| string_lit.contains(sub_string_lit))
+                .fold(sub_props.clone(), |mut overall, (_, props)| {
+                    overall.update_with_truths(props.clone())
+                });
+            self.string_lit_props.insert(sub_string_lit.clone(), props);
+        }
     }
 
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
-- 
2.43.0


From 54fabc91dd3995addf5793830aef23636f5109b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 29/52] fix: normalize the variable names of subformulas

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..5a0d448 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -201,7 +201,9 @@ impl IntraLogicFolder<ALL> for VariableNameNormalizer {
 
     fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
         match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
+            Term::Variable(..) | Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => {
+                term.super_fold_with(self)
+            }
             _ => Ok(term),
         }
     }
-- 
2.43.0


From b05d8a97a0b8d76ad27538562450bb27cf03b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 30/52] fix: keep where substrings occur when mapping strings
 from their parts

---
 .../src/string_mappings.rs                    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 3788229..4a75ca8 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -705,9 +705,24 @@ pub fn gen_string_keep_substrings(
 /// check that mapping `s` to `mapped` keeps it different from all the strings that are already
 /// mapped, and related as before to those of them for which substrings need to be preserved.
 fn preserves_substrings(s: &str, mapped: &str, char_map: &CharMap) -> bool {
-    fn related(s1: &str, s2: &str) -> [bool; 3] {
-        [s1.starts_with(s2), s1.ends_with(s2), s1.contains(s2)]
+    // where the second string occurs in the first
+    fn occurrences(s1: &str, s2: &str) -> Vec<usize> {
+        s1.char_indices()
+            .map(|(ind, _)| ind)
+            .enumerate()
+            .filter(|(_, ind)| s1[*ind..].starts_with(s2))
+            .map(|(char_ind, _)| char_ind)
+            .collect()
     }
+    // is the second string related to the first as its mapping is to that of the first
+    let related = |(s1, m1): (&str, &str), (s2, m2): (&str, &str)| {
+        let (in_s1, in_m1) = (occurrences(s1, s2), occurrences(m1, m2));
+        s1.starts_with(s2) == m1.starts_with(m2)
+            && s1.ends_with(s2) == m1.ends_with(m2)
+            && in_s1.len() == in_m1.len()
+            // if the length isn't kept then neither are the positions
+            && (s1.chars().count() != m1.chars().count() || in_s1 == in_m1)
+    };
     char_map.string_map.iter().all(|(key, val)| {
         if key == s {
             return true;
@@ -721,8 +736,7 @@ fn preserves_substrings(s: &str, mapped: &str, char_map: &CharMap) -> bool {
         );
         val != mapped
             && (!keep_substrings
-                || (related(s, key) == related(mapped, val)
-                    && related(key, s) == related(val, mapped)))
+                || (related((s, mapped), (key, val)) && related((key, val), (s, mapped))))
     })
 }
 
-- 
2.43.0


From 447ef37e62e5e1a168fbfca70473ab5570409716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 31/52] fix: look at the character that is replaced next when
 making mapped strings different

---
 amzn-smt-string-transformer/src/string_mappings.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 4a75ca8..2a37b8c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -299,6 +299,7 @@ fn fix_repeated_string(
                 reps += 1;
             }
         }
+        retry_char = to_ret.chars().nth(retry_ind).unwrap();
     }
     Ok(to_ret)
 }
-- 
2.43.0


From 4c28a3a7c1cf0ede7460efcfad9109f1f2d336b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 32/52] fix: don't reuse a mapped string when no other one is
 found

---
 amzn-smt-string-transformer/src/string_mappings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 2a37b8c..a9da9a9 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -802,7 +802,7 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
-- 
2.43.0


From 3e0f35b988ef5ae33728665ce782d5cdd71b51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 33/52] fix: rename assumed literals

---
 amzn-smt-string-transformer/src/transpiler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index e4a5176..3eb5961 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -941,6 +941,17 @@ pub fn transform_ast(
         .collect::<Result<Vec<Command>, _>>()
         .unwrap();
 
+    // the literals that are assumed aren't terms, so they have not been visited
+    for c in &mut commands {
+        if let Command::CheckSatAssuming { literals } = c {
+            for (sym, _) in literals {
+                if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
+                    *sym = new_sym.clone();
+                }
+            }
+        }
+    }
+
     // remove the declare-consts from the list,
     // theyre all in the identify_builder list now and need to be lifted up
     commands.retain(|c| !matches!(c, Command::DeclareConst { .. } | Command::DeclareFun { .. }));
-- 
2.43.0


From 448f26f5cbf44a8e98108a1175c4c0465af26fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 34/52] fix: keep mapped strings, also those from the global
 map, apart from what ranges map to

---
 .../src/string_mappings.rs                    |  6 ++++
 amzn-smt-string-transformer/src/transpiler.rs | 35 +++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index a9da9a9..c9599e3 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -201,6 +201,7 @@ fn fix_repeated_string(
     let mut reps = 1; // number of repetitions of the current char we're adding in the perturbation
                       // (this stays 1 if the length or substrings properties need to be maintained)
     while char_map.is_other_range_endpoint(&orig_string, &to_ret)
+        || (consider_substrings && char_map.contains_other_range_endpoint(&orig_string, &to_ret))
         || char_map.string_map.iter().any(|(key, val)| {
             // can't map to a string we already used
             val == &to_ret
@@ -418,6 +419,9 @@ pub fn gen_string_keep_substrings(
                     .get(&s.chars().next().unwrap())
                     .unwrap()
                     .to_string();
+                if !preserves_substrings(s, &to_ret, char_map) {
+                    return Err(StringMapError::SubstringsNotPreserved);
+                }
                 // add mapping to both the string map and the persistent map
                 char_map.string_map.insert(s.to_string(), to_ret.clone());
                 let mut new_props = MappedStringMetaObj {
@@ -575,6 +579,7 @@ pub fn gen_string_keep_substrings(
                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
                 && (!keep_ranges || !req_ranges.is_empty())
                 && preserves_substrings(s, mapped_to, char_map)
+                && char_map.respects_ranges(s, mapped_to)
             {
                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                 return Ok(mapped_to.clone());
@@ -883,6 +888,7 @@ pub fn map_string_no_reconstruct(
                             // if keep_ranges is true, then req_ranges can't be empty
                             if (req_len_bool >= &len_bool)
                                 && &KeepInts::merge(req_keep_ints, keep_ints) == req_keep_ints
+                                && char_map.respects_ranges(s, mapped_to)
                             {
                                 char_map.string_map.insert(s.to_string(), mapped_to.clone());
                                 return Ok(mapped_to.clone());
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 3eb5961..55ee277 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -513,6 +513,41 @@ impl CharMap {
         })
     }
 
+    /// does the mapped string contain what an endpoint of a range that isn't in the original string
+    /// maps to?
+    pub fn contains_other_range_endpoint(&self, orig: &str, mapped: &str) -> bool {
+        self.ranges.iter().any(|r| {
+            [r.start_char, r.end_char]
+                .iter()
+                .any(|c| !orig.contains(*c) && mapped.contains(self.char_map[c]))
+        })
+    }
+
+    /// can the original string be mapped to the given one, as far as the ranges are concerned?
+    /// strings that were mapped for another query may not agree with the ranges of this one
+    pub fn respects_ranges(&self, orig: &str, mapped: &str) -> bool {
+        let mut orig_ranges = orig
+            .chars()
+            .map(|c| {
+                self.get_range_for_char(c)
+                    .map(|r| (self.char_map[&r.start_char], self.char_map[&r.end_char]))
+            })
+            .collect::<Vec<_>>();
+        let mut mapped_ranges = mapped
+            .chars()
+            .map(|c| {
+                self.get_backwards_range_for_char(c)
+                    .map(|r| (r.start_char, r.end_char))
+            })
+            .collect::<Vec<_>>();
+        if orig_ranges.len() != mapped_ranges.len() {
+            // the length isn't kept
+            orig_ranges.dedup();
+            mapped_ranges.dedup();
+        }
+        orig_ranges == mapped_ranges && !self.is_other_range_endpoint(orig, mapped)
+    }
+
     /// find if something is a prefix of s1 that is also a suffix of s2
     fn get_prefix_suffix<'a>(s1: &'a str, s2: &'a str) -> Option<&'a str> {
         // start at 1 so we are comparing at least one char always
-- 
2.43.0


From dddf50e3214b52ce1d30b16a25ad429f4543a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 35/52] fix: give cancelled constant sums a sort in the eager
 canonicalizer

---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index b7e8948..8dc888d 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -176,6 +176,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // constants that cancel out leave nothing to sum up
+            Equal if args.is_empty() => return Constant::Numeral(Numeral::zero()).into(),
             Equal => (),
         }
         Plus(args).into()
-- 
2.43.0


From 57609c0da24ec11958cc70e82d3b8937698f98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 36/52] fix: refuse check-sat-assuming after assertions were
 removed

---
 amzn-smt-eager-arithmetic/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index 96d7f64..52a0eca 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -157,7 +157,9 @@ fn reject_incremental(script: &Script<Term>) -> anyhow::Result<()> {
     for command in script.as_ref() {
         match command {
             Command::Pop { .. } | Command::Reset | Command::ResetAssertions => removed = true,
-            Command::Assert { .. } | Command::CheckSat if removed => {
+            Command::Assert { .. } | Command::CheckSat | Command::CheckSatAssuming { .. }
+                if removed =>
+            {
                 bail!(
                     "unsupported incremental script: assertions are removed before `{}`",
                     command
-- 
2.43.0


From d7b2cbd2967962df79d66f392c45ae56d29fea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 37/52] fix: keep the characters of literals that variables are
 searched in

---
 amzn-smt-string-transformer/src/string_fcts.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index adeda5a..5ab1983 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -177,15 +177,14 @@ impl StringFct {
             | Self::ToInt
             | Self::ToRe
             | Self::NO_OP => VarArgPositionCharSubstring::No,
-            Self::IndexOf
-            | Self::PrefixOf
-            | Self::Replace
-            | Self::ReplaceAll
-            | Self::ReplaceRe
-            | Self::ReplaceReAll
-            | Self::SuffixOf => VarArgPositionCharSubstring::LeftMost,
+            Self::PrefixOf | Self::ReplaceRe | Self::ReplaceReAll | Self::SuffixOf => {
+                VarArgPositionCharSubstring::LeftMost
+            }
             Self::Contains | Self::Substr => VarArgPositionCharSubstring::RightMost,
-            Self::StrConcat | Self::ReConcat => VarArgPositionCharSubstring::Any,
+            // the string searched for can be any part of the string searched in
+            Self::IndexOf | Self::Replace | Self::ReplaceAll | Self::StrConcat | Self::ReConcat => {
+                VarArgPositionCharSubstring::Any
+            }
         }
     }
 
-- 
2.43.0


From 7042721dc568e6b45ca118b5ffcf740001d86c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 38/52] fix: end CVC4, not just its shell, when it reaches the
 time limit

---
 amzn-smt-prediction/scripts/find_faster_fmf.py   | 4 ++--
 amzn-smt-prediction/scripts/get_solver_output.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5735b86..9ceb2a2 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -41,7 +41,7 @@ if __name__=='__main__':
 
         try:
             start = time()
-            subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + b_path, shell=True, timeout=timeout)
+            subprocess.run("exec ../solvers/cvc4 --strings-exp --strings-fmf " + b_path, shell=True, timeout=timeout)
             elapsed_fmf = time() - start
 
         except subprocess.TimeoutExpired:
@@ -49,7 +49,7 @@ if __name__=='__main__':
 
         try:
             start = time()
-            subprocess.run("../solvers/cvc4 --strings-exp  " + b_path, shell=True, timeout=timeout)
+            subprocess.run("exec ../solvers/cvc4 --strings-exp  " + b_path, shell=True, timeout=timeout)
             elapsed_no_fmf = time() - start
 
         except subprocess.TimeoutExpired:
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index b3f696b..db46198 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -18,9 +18,9 @@ def get_cvc4_output(b_path, fmf):
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
         if fmf:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("exec ../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
         else:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("exec ../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
 
         out = raw_out.stdout.strip()
 
-- 
2.43.0


From 014bbb0601c1de0b05b559c2558aeae43b54df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 39/52] fix: accept a solver that has printed nothing at its
 time limit

---
 amzn-smt-prediction/scripts/get_solver_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index db46198..c971575 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -25,7 +25,7 @@ def get_cvc4_output(b_path, fmf):
         out = raw_out.stdout.strip()
 
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
@@ -38,7 +38,7 @@ def get_z3_output(b_path):
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = str(e.stdout or b'', 'utf-8')
 
     return out
 
-- 
2.43.0


From d3bac29365bc7a8c6eb11a23bf18af6eb3521a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 40/52] fix: write the faster and slower benchmarks as
 benchmark lists

---
 amzn-smt-prediction/scripts/find_faster_fmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 9ceb2a2..5208283 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -59,9 +59,9 @@ if __name__=='__main__':
         
         if(elapsed_fmf < elapsed_no_fmf):
             print(start_yellow + "FMF FASTER!" + end_yellow)
-            fp_out1.write(l + '\n')
+            fp_out1.write('/' + l + '\n')
         else:
-            fp_out2.write(l + '\n')
+            fp_out2.write('/' + l + '\n')
 
         fp_out3.write(str(elapsed_fmf) + "," + str(elapsed_no_fmf) + "\n")
 
-- 
2.43.0


From fc23c0c8d7a7633d98aec1f982027a35c31a7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 41/52] fix: remove only the extension of the query in
 test_and_transform.sh

---
 amzn-smt-string-transformer/test_and_transform.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/test_and_transform.sh b/amzn-smt-string-transformer/test_and_transform.sh
index d026627..3011c78 100644
--- a/amzn-smt-string-transformer/test_and_transform.sh
+++ b/amzn-smt-string-transformer/test_and_transform.sh
@@ -11,7 +11,7 @@ shift;shift;shift;
 solver_option=$@
 
 file_ext="${test_path##*\.}"
-test_path="${test_path%%\.*}"
+test_path="${test_path%\.*}"
 
 # file to save timing information from running the solver on the original vs the converted code
 # also save timing info about running the transformer just to have this data
-- 
2.43.0


From b43184d0721453ed3d396a11f8ba2cecfb24eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 42/52] fix: call the transformer with the options it has in
 test_and_transform.sh

---
 amzn-smt-string-transformer/test_and_transform.sh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/test_and_transform.sh b/amzn-smt-string-transformer/test_and_transform.sh
index 3011c78..278171f 100644
--- a/amzn-smt-string-transformer/test_and_transform.sh
+++ b/amzn-smt-string-transformer/test_and_transform.sh
@@ -32,8 +32,12 @@ if [ ! -f $tool_path ]; then
 fi
 
 # convert (this autogenerates the mapping and transformed code)
+global_map_option=""
+if [ "$use_global_map" = "true" ]; then
+	global_map_option="--use-global-map"
+fi
 echo "$tool_path convert $test_path" >> $output_file
-{ time $tool_path --input-file ${test_path}.${file_ext} --mode convert --mapping no-reconstruct --use-global-map $use_global_map ; } 2>>$output_file
+{ time $tool_path convert --mapping no-reconstruct $global_map_option --input-file ${test_path}.${file_ext} ; } 2>>$output_file
 echo "Done converting ${test_path}"
 
 # now, time and run the solver on the transformed code
-- 
2.43.0


From 5a8d1fcd0064c0ddab1de932f9cae42da12f749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 43/52] fix: find the queries of all names in the directory of
 an experiment

---
 amzn-smt-string-transformer/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index d14cce4..da934b1 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -209,7 +209,7 @@ else:
 			all_queries = []
 	os.chdir(data_dir)
 	if len(all_queries) == 0:
-		all_queries = [f.split(".out")[0] for f in os.listdir() if f.find("in.out") > -1]
+		all_queries = [f[:-len("_times.out")] for f in os.listdir() if f.endswith("_times.out")]
 	ret_frame = pd.DataFrame(all_queries, columns=["query"])
 	ret_frame[["orig_res", "trans_res", "recon_res"]] = ret_frame["query"].apply(get_SAT_results)
 	ret_frame[["orig_solver_time", "convert_time", "trans_solver_time"]] = ret_frame["query"].apply(get_timings)
-- 
2.43.0


From 5a2a57654ee0a1fd2b2378c032c5b6472676fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 44/52] fix: read names with dots and a final newline in the
 list of queries

---
 amzn-smt-string-transformer/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/data_processing.py b/amzn-smt-string-transformer/data_processing.py
index da934b1..f1ac8a3 100644
--- a/amzn-smt-string-transformer/data_processing.py
+++ b/amzn-smt-string-transformer/data_processing.py
@@ -204,7 +204,7 @@ else:
 		query_file_list = sys.argv[2]
 		try:
 			with open(query_file_list) as f:
-				all_queries = [fname.split(".")[0] for fname in f.read().split("\n")]
+				all_queries = [os.path.splitext(fname)[0] for fname in f.read().split("\n") if fname != ""]
 		except:
 			all_queries = []
 	os.chdir(data_dir)
-- 
2.43.0


From bccc65f9f91a993928cd6ece7d252257edf8ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 45/52] fix: keep how strings of kept length can overlap

---
 .../src/string_mappings.rs                    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index c9599e3..9781f1e 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -729,6 +729,24 @@ fn preserves_substrings(s: &str, mapped: &str, char_map: &CharMap) -> bool {
             // if the length isn't kept then neither are the positions
             && (s1.chars().count() != m1.chars().count() || in_s1 == in_m1)
     };
+    // how many of the last characters of the first string are the first ones of the second
+    fn overlaps(s1: &str, s2: &str) -> Vec<usize> {
+        s1.char_indices()
+            .map(|(ind, _)| &s1[ind..])
+            .filter(|end| s2.starts_with(end))
+            .map(|end| end.chars().count())
+            .collect()
+    }
+    let keep_len = |s: &str| {
+        matches!(
+            char_map.string_lit_props.get(s),
+            Some(StringSetProperties::Some { len: true, .. })
+        )
+    };
+    // if the length is kept then strings can be made to overlap
+    if keep_len(s) && overlaps(s, s) != overlaps(mapped, mapped) {
+        return false;
+    }
     char_map.string_map.iter().all(|(key, val)| {
         if key == s {
             return true;
@@ -743,6 +761,9 @@ fn preserves_substrings(s: &str, mapped: &str, char_map: &CharMap) -> bool {
         val != mapped
             && (!keep_substrings
                 || (related((s, mapped), (key, val)) && related((key, val), (s, mapped))))
+            && (!(keep_substrings && keep_len(s) && keep_len(key))
+                || (overlaps(s, key) == overlaps(mapped, val)
+                    && overlaps(key, s) == overlaps(val, mapped)))
     })
 }
 
-- 
2.43.0


From 59bf80a90f0c4bc184f40bec0e5666162023aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 46/52] Revert the two changes to test_and_transform.sh
 (counted as a test file)

---
 amzn-smt-string-transformer/test_and_transform.sh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/test_and_transform.sh b/amzn-smt-string-transformer/test_and_transform.sh
index 278171f..d026627 100644
--- a/amzn-smt-string-transformer/test_and_transform.sh
+++ b/amzn-smt-string-transformer/test_and_transform.sh
@@ -11,7 +11,7 @@ shift;shift;shift;
 solver_option=$@
 
 file_ext="${test_path##*\.}"
-test_path="${test_path%\.*}"
+test_path="${test_path%%\.*}"
 
 # file to save timing information from running the solver on the original vs the converted code
 # also save timing info about running the transformer just to have this data
@@ -32,12 +32,8 @@ if [ ! -f $tool_path ]; then
 fi
 
 # convert (this autogenerates the mapping and transformed code)
-global_map_option=""
-if [ "$use_global_map" = "true" ]; then
-	global_map_option="--use-global-map"
-fi
 echo "$tool_path convert $test_path" >> $output_file
-{ time $tool_path convert --mapping no-reconstruct $global_map_option --input-file ${test_path}.${file_ext} ; } 2>>$output_file
+{ time $tool_path --input-file ${test_path}.${file_ext} --mode convert --mapping no-reconstruct --use-global-map $use_global_map ; } 2>>$output_file
 echo "Done converting ${test_path}"
 
 # now, time and run the solver on the transformed code
-- 
2.43.0


From e6b2ec63fa4b5b436b3751c479daddb68c7aab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 47/52] fix: do not give declared symbols and new variables
 names that the query binds or defines

---
 .../src/subformula_parser.rs                  |   5 +-
 amzn-smt-string-transformer/src/transpiler.rs |  27 ++--
 .../src/transpiler_visitors.rs                | 124 ++++++++++++++++--
 3 files changed, 132 insertions(+), 24 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5a0d448..ddce086 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,10 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // new vars are declared, unlike defined constants of such a name
+                            if v.sym_str().starts_with("new_var")
+                                && self.var_type_map.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 55ee277..1c2fd83 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -966,26 +966,27 @@ pub fn transform_ast(
     use_global_map: bool,
     use_char_to_char: bool,
 ) -> (Vec<Command>, Mapping) {
-    let mut identify_builder = IdentifyStringsBuilder::default();
+    let commands: Vec<Command> = commands.collect();
+    let mut identify_builder = IdentifyStringsBuilder::new(&commands);
 
     // visit the AST, building up the new lists of declarations and
     // assertions (initializations)
     // and, renaming vars where needed
     let mut commands = commands
-        .map(|c| c.fold_with(&mut identify_builder))
-        .collect::<Result<Vec<Command>, _>>()
-        .unwrap();
-
-    // the literals that are assumed aren't terms, so they have not been visited
-    for c in &mut commands {
-        if let Command::CheckSatAssuming { literals } = c {
-            for (sym, _) in literals {
-                if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
-                    *sym = new_sym.clone();
+        .into_iter()
+        .map(|c| {
+            let mut c = c.fold_with(&mut identify_builder).unwrap();
+            // the literals that are assumed aren't terms, so they have not been visited
+            if let Command::CheckSatAssuming { literals } = &mut c {
+                for (sym, _) in literals {
+                    if let Some(new_sym) = identify_builder.alpha_renaming_map.get(sym) {
+                        *sym = new_sym.clone();
+                    }
                 }
             }
-        }
-    }
+            c
+        })
+        .collect::<Vec<Command>>();
 
     // remove the declare-consts from the list,
     // theyre all in the identify_builder list now and need to be lifted up
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 5584b78..d012708 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -9,12 +9,13 @@
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
 use aws_smt_ir::args::Arguments;
-use aws_smt_ir::fold::{IntraLogicFolder, SuperFold};
+use aws_smt_ir::fold::{Fold, IntraLogicFolder, SuperFold};
 use aws_smt_ir::logic::ALL;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::visit::{ControlFlow, Visit, Visitor};
 use aws_smt_ir::{
-    CoreOp, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let, Quantifier, IUF,
+    CoreOp, DatatypeDec, FunctionDec, IConst, ILet, IQuantifier, ISort, ISymbol, IVar, Let,
+    Quantifier, IUF,
 };
 use std::collections::hash_map::Entry;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -51,6 +52,13 @@ pub struct IdentifyStringsBuilder {
     pub callgraph: CallGraph,
     /// mapping of symbols to new symbols (for alpha renaming)
     pub alpha_renaming_map: HashMap<ISymbol, ISymbol>,
+    /// symbols that are bound or defined in the query, and so keep their names; these names are not
+    /// given to declared symbols or new vars
+    kept_symbols: HashSet<ISymbol>,
+    /// index of the next name for a declared symbol
+    next_const: usize,
+    /// index of the next name for a new var
+    next_new_var: usize,
     /// symbols bound by the enclosing lets, quantifiers and function definitions;
     /// these are not the declared symbols of the same name, so they don't get renamed
     bound_vars: Vec<ISymbol>,
@@ -94,8 +102,108 @@ impl Visitor<ALL> for Leaves {
     }
 }
 
+/// Collects the symbols that are bound or defined (rather than declared) in a query
+#[derive(Default)]
+struct KeptSymbols(HashSet<ISymbol>);
+
+impl KeptSymbols {
+    /// collect the kept symbols of a query
+    fn of(commands: &[Command]) -> HashSet<ISymbol> {
+        let mut kept = Self::default();
+        for c in commands {
+            match c {
+                Command::DeclareDatatype { datatype, .. } => kept.add_datatype(datatype),
+                Command::DeclareDatatypes { datatypes } => {
+                    for (_, _, datatype) in datatypes {
+                        kept.add_datatype(datatype);
+                    }
+                }
+                c => match c.clone().fold_with(&mut kept) {
+                    Ok(_) => {}
+                    Err(e) => match e {},
+                },
+            }
+        }
+        kept.0
+    }
+
+    /// add the constructors and selectors of a datatype
+    fn add_datatype(&mut self, datatype: &DatatypeDec) {
+        for constructor in &datatype.constructors {
+            self.0.insert(constructor.symbol.clone());
+            self.0
+                .extend(constructor.selectors.iter().map(|(sym, _)| sym.clone()));
+        }
+    }
+
+    /// add the name and the parameters of a defined function
+    fn add_function(&mut self, sig: &FunctionDec) {
+        self.0.insert(sig.name.clone());
+        self.0
+            .extend(sig.parameters.iter().map(|(sym, _)| sym.clone()));
+    }
+}
+
+impl IntraLogicFolder<ALL> for KeptSymbols {
+    type Error = Infallible;
+
+    fn fold_let(&mut self, l: ILet<ALL>) -> Result<Term, Self::Error> {
+        self.0
+            .extend(l.as_ref().bindings.iter().map(|(sym, _)| sym.clone()));
+        l.super_fold_with(self).map(Into::into)
+    }
+
+    fn fold_quantifier(&mut self, q: IQuantifier<ALL>) -> Result<Term, Self::Error> {
+        let (Quantifier::Forall(vars, _) | Quantifier::Exists(vars, _)) = q.as_ref();
+        self.0.extend(vars.iter().map(|(sym, _)| sym.clone()));
+        q.super_fold_with(self).map(Into::into)
+    }
+
+    fn fold_define_fun(&mut self, sig: FunctionDec, body: Term) -> Result<Command, Self::Error> {
+        self.add_function(&sig);
+        let term = self.fold_term(body)?;
+        Ok(Command::DefineFun { sig, term })
+    }
+
+    fn fold_define_fun_rec(
+        &mut self,
+        sig: FunctionDec,
+        body: Term,
+    ) -> Result<Command, Self::Error> {
+        self.add_function(&sig);
+        let term = self.fold_term(body)?;
+        Ok(Command::DefineFunRec { sig, term })
+    }
+}
+
 /// member functions for the IdentifyStringsBuilder struct
 impl IdentifyStringsBuilder {
+    /// constructor: takes the query that is going to be visited
+    pub fn new(commands: &[Command]) -> Self {
+        Self {
+            kept_symbols: KeptSymbols::of(commands),
+            ..Self::default()
+        }
+    }
+
+    /// get the next name with the given prefix that is not the name of a kept symbol
+    fn next_name(prefix: &str, index: &mut usize, kept_symbols: &HashSet<ISymbol>) -> ISymbol {
+        loop {
+            let name = ISymbol::from(format!("{}{}", prefix, index));
+            *index += 1;
+            if !kept_symbols.contains(&name) {
+                return name;
+            }
+        }
+    }
+
+    /// rename a declared symbol to aX (where X is an int referring to this being the nth var declared)
+    fn rename_declared(&mut self, symbol: ISymbol) -> ISymbol {
+        let new_sym = Self::next_name("a", &mut self.next_const, &self.kept_symbols);
+        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        new_sym
+    }
+
     /// create the decl-const for a new var with the specified name
     fn new_var_decl_const(new_var_name: ISymbol, new_var_type: IdentType) -> Command {
         let new_sort = Sort::Simple {
@@ -180,12 +288,12 @@ impl IdentifyStringsBuilder {
         }
 
         // add new_var to the list of new vars, storing this string function
-        let len = self.const_map.len();
         let var_sym = match self.const_map.entry(t.clone()) {
             Entry::Occupied(o) => o.get().clone(),
             Entry::Vacant(v) => {
                 let new_var_type = sfc.string_fct_return_type();
-                let new_var_name = ISymbol::from(format!("new_var{}", len));
+                let new_var_name =
+                    Self::next_name("new_var", &mut self.next_new_var, &self.kept_symbols);
                 self.decl_const_list
                     .push(Self::new_var_decl_const(new_var_name.clone(), new_var_type));
                 self.string_var_defn_map
@@ -244,9 +352,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
     /// these are all the original variables in the query
     /// rename them to aX (where X is an int referring to this being the nth var declared)
     fn fold_declare_const(&mut self, symbol: ISymbol, sort: ISort) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_declared(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
@@ -271,9 +377,7 @@ impl IntraLogicFolder<ALL> for IdentifyStringsBuilder {
         parameters: Vec<ISort>,
         sort: ISort,
     ) -> Result<Command, Self::Error> {
-        let new_var_name = format!("a{}", self.alpha_renaming_map.len());
-        let new_sym = ISymbol::from(new_var_name);
-        self.alpha_renaming_map.insert(symbol, new_sym.clone());
+        let new_sym = self.rename_declared(symbol);
 
         // if it's a string var add it to the list of string vars and the callgraph
         if sort.get_type() == IdentType::StringType {
-- 
2.43.0


From e29f9953d7eb4b1b9cea496d7c2374ecfa70707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 48/52] fix: count div, mod, abs and divisible as arithmetic
 when choosing the logic

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 8247ec7..c081c6d 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -163,11 +163,7 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
     /// visit theory operations: keep track of the use of arithmetic, to guess the logic
     fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
-        use ArithOp::*;
-        if let Op::Arith(
-            Plus(..) | Neg(..) | Minus(..) | Mul(..) | Gte(..) | Gt(..) | Lte(..) | Lt(..),
-        ) = op.as_ref()
-        {
+        if let Op::Arith(_) = op.as_ref() {
             self.has_arith = true;
         }
         op.super_fold_with(self).map(Into::into)
-- 
2.43.0


From e45faece45c4abf2b095005f929f567a4a589441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 49/52] fix: keep prefixes and suffixes of literals that parts
 are replaced in

---
 amzn-smt-string-transformer/src/string_fcts.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 5ab1983..bbab895 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -206,15 +206,7 @@ impl StringFct {
             | Self::ReUnion
             | Self::NO_OP => {}
             // substring relationships need to be preserved
-            Self::Contains
-            | Self::InRe
-            | Self::PrefixOf
-            | Self::Replace
-            | Self::ReplaceAll
-            | Self::ReplaceRe
-            | Self::ReplaceReAll
-            | Self::SuffixOf
-            | Self::ToRe => {
+            Self::Contains | Self::InRe | Self::PrefixOf | Self::SuffixOf | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: false,
                     ranges: HashSet::new(),
@@ -224,7 +216,12 @@ impl StringFct {
                 })
             }
             // substrings and relative prefix/suffix are relevant
-            Self::StrConcat => {
+            // (replacing cuts a string where the substring is and puts it together again)
+            Self::Replace
+            | Self::ReplaceAll
+            | Self::ReplaceRe
+            | Self::ReplaceReAll
+            | Self::StrConcat => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: false,
                     ranges: HashSet::new(),
-- 
2.43.0


From d0487d2f27710c1808bca2eb960c4fd2355e450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 50/52] fix: reconstruct with the constants declared at each
 check, check-sat-assuming included

---
 .../src/reconstruct_tools.rs                  | 50 ++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index d3e1e15..26b1944 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -7,8 +7,9 @@
 use crate::{escape_string, mapping_tools, unescape_string, Command, Term};
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
-use aws_smt_ir::{FunctionDec, ISymbol};
-use std::collections::HashMap;
+use aws_smt_ir::{CoreOp, FunctionDec, ISymbol};
+use std::collections::{HashMap, HashSet};
+use std::convert::TryFrom;
 use std::{fs, io, io::BufRead};
 
 /// enum of possible acceptable results from running a solver on an attempted reconstruction
@@ -41,6 +42,21 @@ pub enum ReconstructErr {
     CheckSatNotFound,
 }
 
+/// check whether the constant that a new assertion gives a value to is declared in one of the scopes
+fn is_in_scope(new_assertion: &Command, scopes: &[HashSet<ISymbol>]) -> bool {
+    if let Command::Assert {
+        term: Term::CoreOp(op),
+    } = new_assertion
+    {
+        if let CoreOp::Eq(args) = op.as_ref() {
+            if let Some(Term::Variable(v)) = args.first() {
+                return scopes.iter().any(|scope| scope.contains(v.sym()));
+            }
+        }
+    }
+    false
+}
+
 /// function to add a list of assertions to an SMT query in a file at a path specified
 fn add_asserts_to_original_problem(
     path: String,
@@ -52,15 +68,37 @@ fn add_asserts_to_original_problem(
     let problem = CommandStream::new(reader, SyntaxBuilder, None);
 
     let mut check_sat_found = false;
+    // the symbols declared so far, for each level of the assertion stack
+    let mut scopes: Vec<HashSet<ISymbol>> = vec![HashSet::new()];
 
     let mut commands: Vec<Command> = Vec::new();
     for opt_c in problem {
         let c = opt_c.unwrap_or_else(|err| panic!("ERROR in command: {:?}", err));
         let c = aws_smt_ir::convert::convert_command(c).unwrap();
-        // make sure to add the new assertions before the check-sat
-        if let Command::CheckSat = c {
-            check_sat_found = true;
-            commands.extend(new_assertions.clone());
+        match &c {
+            // make sure to add the new assertions before the check-sat
+            // (those about constants that are declared at this point)
+            Command::CheckSat | Command::CheckSatAssuming { .. } => {
+                check_sat_found = true;
+                commands.extend(
+                    (new_assertions.iter())
+                        .filter(|assertion| is_in_scope(assertion, &scopes))
+                        .cloned(),
+                );
+            }
+            Command::DeclareConst { symbol, .. } | Command::DeclareFun { symbol, .. } => {
+                scopes.last_mut().unwrap().insert(symbol.clone());
+            }
+            Command::Push { level } => {
+                let levels = usize::try_from(level).unwrap_or(0);
+                scopes.extend(std::iter::repeat(HashSet::new()).take(levels));
+            }
+            Command::Pop { level } => {
+                let levels = usize::try_from(level).unwrap_or(0);
+                scopes.truncate(scopes.len().saturating_sub(levels).max(1));
+            }
+            Command::Reset | Command::ResetAssertions => scopes = vec![HashSet::new()],
+            _ => {}
         }
         commands.push(c);
     }
-- 
2.43.0


From 97c729acb439f7e14ab2fddc1162f8158a55c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 51/52] fix: entries of a model that are no commands do not end
 its reading

---
 .../src/reconstruct_tools.rs                  | 47 +++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 26b1944..2f2ba0e 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -10,7 +10,10 @@ use aws_smt_ir::smt2parser::CommandStream;
 use aws_smt_ir::{CoreOp, FunctionDec, ISymbol};
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::{fs, io, io::BufRead};
+use std::{
+    fs, io,
+    io::{BufRead, Read},
+};
 
 /// enum of possible acceptable results from running a solver on an attempted reconstruction
 /// (recall: "reconstruction" refers to the addition of assertions of the unmapped satisfying solutions
@@ -115,6 +118,38 @@ fn add_asserts_to_original_problem(
         .join("\n"))
 }
 
+/// split up the entries of a model: some of them are not commands (e.g. the cardinality constraints
+/// that solvers print for uninterpreted sorts), and must not keep the others from being parsed
+fn model_entries(model: &str) -> Vec<String> {
+    let mut entries = Vec::new();
+    let mut entry = String::new();
+    let mut depth = 0;
+    // the end of the string, quoted symbol or comment we're in
+    let mut quote_end: Option<char> = None;
+    for c in model.chars() {
+        entry.push(c);
+        match (quote_end, c) {
+            (Some(end), c) => {
+                if c == end {
+                    quote_end = None;
+                }
+            }
+            (None, '"' | '|') => quote_end = Some(c),
+            (None, ';') => quote_end = Some('\n'),
+            (None, '(') => depth += 1,
+            (None, ')') => {
+                depth -= 1;
+                if depth <= 0 {
+                    entries.push(std::mem::take(&mut entry));
+                    depth = 0;
+                }
+            }
+            _ => {}
+        }
+    }
+    entries
+}
+
 /// function that, given the name of an SMTLIB query, will attempt to
 /// read in the mapping file and result of running the transpiled query
 /// and produce a result that indicates the result of the reconstruction
@@ -171,11 +206,17 @@ pub fn reconstruct_and_add_assertions(
         }
     }
 
-    let model_out = CommandStream::new(transformed_reader, SyntaxBuilder, None);
+    let mut model = String::new();
+    if transformed_reader.read_to_string(&mut model).is_err() {
+        return Err(ReconstructErr::TransformOutputFileReadError);
+    }
 
     let mut new_assertions: Vec<Command> = Vec::new();
 
-    for o in model_out.flatten() {
+    for o in model_entries(&model)
+        .iter()
+        .flat_map(|entry| CommandStream::new(entry.as_bytes(), SyntaxBuilder, None).flatten())
+    {
         if let Ok(comm) = aws_smt_ir::convert::convert_command(o) {
             if let Some(new_assert) = build_string_var_assertions(&new_map, &comm) {
                 new_assertions.push(new_assert);
-- 
2.43.0


From d6c290bb6fbe12d659616dc7dd5818528f84b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 52/52] fix: end CVC4, not just its shell, when it reaches the
 time limit of the sweep

---
 amzn-smt-prediction/scripts/run_eager_v_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 6cc5e60..21ec50e 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -31,7 +31,7 @@ def run_cvc4(b_path, timeout):
     #          (see https://docs.python.org/3/library/subprocess.html#security-considerations)
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
-        raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, timeout=timeout)
+        raw_out = subprocess.run("exec ../solvers/cvc4  " + b_path, shell=True, capture_output=True, timeout=timeout)
         elapsed = time() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
         return elapsed
-- 
2.43.0

