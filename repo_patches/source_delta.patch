From cdf02e2eb181cad68fc0fe750360d3a726bfa855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 01/13] fix: return the remaining operand when the constants of
 a sum cancel

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 47a92b8767ef0cd49605545f6ba4fdbe5bf726c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 02/13] fix: derivative of the quotient of a node by itself

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 00cc2a05ab4ace351169ab453b9845a011c0d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 03/13] fix: standard properties of sine and cosine of a
 constant

---
 src/model/function/cos.rs | 7 ++++++-
 src/model/function/sin.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/model/function/cos.rs b/src/model/function/cos.rs
index ab19c7c..ad38346 100644
--- a/src/model/function/cos.rs
+++ b/src/model/function/cos.rs
@@ -51,7 +51,12 @@ impl NodeStd for FunctionCos {
 
     fn std_properties(&self) -> NodeStdProp {
         let mut p = self.arg.std_properties();
-        p.affine = false;
+        if p.a.is_empty() {
+            p.b = p.b.cos();
+        }
+        else {
+            p.affine = false;
+        }
         p
     }
 }
diff --git a/src/model/function/sin.rs b/src/model/function/sin.rs
index 370d329..d929b1a 100644
--- a/src/model/function/sin.rs
+++ b/src/model/function/sin.rs
@@ -51,7 +51,12 @@ impl NodeStd for FunctionSin {
 
     fn std_properties(&self) -> NodeStdProp {
         let mut p = self.arg.std_properties();
-        p.affine = false;
+        if p.a.is_empty() {
+            p.b = p.b.sin();
+        }
+        else {
+            p.affine = false;
+        }
         p
     }
 }
-- 
2.43.0


From 90c12e4e1bd6d3abe0dd3b52ae1e115883d80798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 04/13] fix: constraint violation with undefined or infinite
 sides

---
 src/model/constraint.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model/constraint.rs b/src/model/constraint.rs
index 10ee986..f1a0a4a 100644
--- a/src/model/constraint.rs
+++ b/src/model/constraint.rs
@@ -59,15 +59,17 @@ impl Constraint {
 
     /// Computes constraint violation given variable values.
     pub fn violation(&self, var_values: &HashMap<&Node, f64>) -> f64 {
+        let lhs = self.0.lhs.evaluate(var_values);
+        let rhs = self.0.rhs.evaluate(var_values);
         match self.0.kind {
-            ConstraintKind::Equal => { 
-                (self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values)).abs()
+            ConstraintKind::Equal => {
+                if lhs == rhs { 0. } else { (lhs-rhs).abs() }
             },
-            ConstraintKind::LessEqual => { 
-                0_f64.max(self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values))
+            ConstraintKind::LessEqual => {
+                if lhs <= rhs { 0. } else { lhs-rhs }
             },
             ConstraintKind::GreaterEqual => {
-                0_f64.max(self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values))
+                if lhs >= rhs { 0. } else { rhs-lhs }
             },
         }
     }
-- 
2.43.0


From 63436e1a4e6234dbfcf9f6dee452f9f3dae33fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 05/13] fix: accept the solution file format of current clp

---
 src/solver/cbc_cmd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..ee93b4c 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -72,10 +72,10 @@ impl SolverCbcCmd {
                 else if !cbc && s == "infeasible" {
                     status = SolverStatus::Infeasible;
                 }
-                else if cbc && s == "Optimal" {
+                else if s == "Optimal" {
                     status = SolverStatus::Solved;
                 }
-                else if cbc && s == "Infeasible" {
+                else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
             },
@@ -89,8 +89,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (older versions of clp write it in a separate line)
+        if !cbc && line.trim_end() == "optimal" {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From 6d055f4f36630b1ad203a3f87690e7e75c313e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 06/13] fix: report integer infeasible problems as infeasible

---
 src/solver/cbc_cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ee93b4c..ef223c1 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -78,6 +78,9 @@ impl SolverCbcCmd {
                 else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && line.starts_with("Integer infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From 49b6df00945454b0ac64f920a6c45afc8cf63759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 07/13] fix: reject solution file entries that name nothing in
 the problem

---
 src/solver/cbc_cmd.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index ef223c1..01dec1b 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -123,9 +123,12 @@ impl SolverCbcCmd {
                 Some(s) => match s.parse() { Ok(n) => n, Err(_e) => return Err(e) },
                 None => return Err(e)
             };
+            if name_iter.next().is_some() {
+                return Err(e);
+            }
 
             // Variable
-             if dtype == "x" {
+            if dtype == "x" && index < solution.x.len() {
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -136,7 +139,7 @@ impl SolverCbcCmd {
             }
 
             // Constraint
-            else if dtype == "c" {
+            else if dtype == "c" && index < solution.lam.len() {
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From aa1f52caacf8fd79d95f1af897cf89b2d679ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 08/13] fix: do not read a solution after a failed run of the
 solver command

---
 src/solver/cbc_cmd.rs | 7 ++++++-
 src/solver/clp_cmd.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 01dec1b..112928a 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -213,7 +213,12 @@ impl Solver for SolverCbcCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..68415b8 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -101,7 +101,12 @@ impl Solver for SolverClpCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
-- 
2.43.0


From 6591b82121385447662089e50538eaa8632aa6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 09/13] fix: leave no input file behind when logLevel is
 missing

---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 112928a..4e2030f 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -165,6 +165,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -195,12 +201,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 68415b8..203b945 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From 998ac8226a337a2f3837cefee781865785f5c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 10/13] fix: Jacobian rows of nonlinear constraints follow the
 linear ones in Ipopt

---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..1bb03b2 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -266,7 +266,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na() + row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From 90fe54fd29224d643bf472d6411d6ad02e80da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 11/13] fix: Hessian values for Ipopt also when the point or
 the multipliers did not change

---
 src/solver/ipopt.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 1bb03b2..5de047d 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -298,7 +298,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -344,23 +344,19 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
-                if lambda.is_null() {
-                    return cipopt::FALSE;
-                }
-                p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
+            if lambda.is_null() {
+                return cipopt::FALSE;
+            }
+            p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
         }
     };
     cipopt::TRUE
-- 
2.43.0


From e72f691b71a95afb5378188d804aea075013cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 12/13] fix: release the Ipopt problem when its options cannot
 be set

---
 src/solver/ipopt.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 5de047d..903546e 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -44,6 +44,26 @@ impl SolverIpopt {
             parameters: parameters,
         } 
     }
+
+    // Adds the options of the solver to the Ipopt problem.
+    fn add_options(&self, cprob: cipopt::IpoptProblem) -> Result<(), SimpleError> {
+
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+        unsafe { add_str_option(cprob, "sb", sb)? };
+
+        Ok(())
+    }
 }
 
 impl Solver for SolverIpopt {
@@ -88,20 +108,15 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        // Parameters
+        match self.add_options(cprob) {
+            Ok(()) => (),
+            Err(e) => {
+                unsafe { cipopt::FreeIpoptProblem(cprob) };
+                return Err(e);
+            }
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
 
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
-        };
-        unsafe { add_str_option(cprob, "sb", sb)? };
-        
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
         let mut lamnu: Vec<f64> = vec![0.;p.na()+p.nf()];        
-- 
2.43.0


From 7cf4bbb5f2a00474a8551b7e125d4aaa45930bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 13/13] fix: report an Ipopt option value with a NUL character
 as an error

---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 903546e..1d08161 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -395,7 +395,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(s) => s,
+        Err(_e) => return Err(SimpleError::new(format!("invalid value of parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0

