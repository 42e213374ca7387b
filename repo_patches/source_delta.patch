From 07ef39961529aea3accd450535e590d57bf3c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 01/37] fix: modulus of exact multiples with differing signs is
 zero

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..4b721a5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let r = a % b;
+    if r != T::zero() && r.is_sign_negative() != b.is_sign_negative() { r + b } else { r }
 }
-- 
2.43.0


From ccfeadea64868aa0ed19bd8486a98867e8f983a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 02/37] fix: releasing a key is accepted instead of panicking

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..2a3abde 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // there are no key release events, so nothing can respond to this
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From 90d161e5349659a0212d0e8a02e1f550e5a06490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 03/37] fix: pointing towards a position no longer swaps x and
 y

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..0b7274c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1443,8 +1443,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From 9bc1a97fe9a07d5ccd2bd05c4c381ce98257eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 04/37] fix: loop variables are declared after the loop's
 inputs are evaluated

---
 src/bytecode.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..aa735f2 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -2064,13 +2064,13 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
                 self.ins.push(Instruction::PopValue.into());
             }
             ast::StmtKind::ForLoop { var, start, stop, stmts } => {
-                self.ins.push(Instruction::DeclareLocal { var: &var.name }.into());
-
                 self.append_expr(start, entity)?;
                 self.ins.push(Instruction::ToNumber.into());
                 self.append_expr(stop, entity)?;
                 self.ins.push(Instruction::ToNumber.into());
 
+                self.ins.push(Instruction::DeclareLocal { var: &var.trans_name }.into()); // define after bounds, but before loop body
+
                 self.ins.push(Instruction::DupeValue { top_index: 1 }.into());
                 self.ins.push(Instruction::DupeValue { top_index: 1 }.into());
                 self.ins.push(Instruction::from(Relation::Greater).into());
@@ -2124,11 +2124,11 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
                 }
             }
             ast::StmtKind::ForeachLoop { var, items, stmts } => {
-                self.ins.push(Instruction::DeclareLocal { var: &var.name }.into());
-
                 self.append_expr(items, entity)?;
                 self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list
 
+                self.ins.push(Instruction::DeclareLocal { var: &var.trans_name }.into()); // define after the items, but before loop body
+
                 let top = self.ins.len();
                 self.ins.push(Instruction::DupeValue { top_index: 0 }.into());
                 let exit_jump_pos = self.ins.len();
-- 
2.43.0


From c5de61f2f7a8b74d218b0440ede7dfb87a6e4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 05/37] fix: a broadcast received by its own sender still
 reaches the remaining receivers

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 2a3abde..55a583c 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -369,7 +369,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                     }
                                 }
 
-                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
+                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: self.state.processes.get(proc_key) });
 
                                 all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                                 self.scripts[i].stop_all(&mut self.state);
-- 
2.43.0


From aad7b998b309ff3f3db09b8d73db08a9bea1f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 06/37] fix: a script that stops itself goes on to its queued
 messages

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index 55a583c..7b42e91 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -389,6 +389,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
-- 
2.43.0


From 479ef41f5e463103f6432eb65048fd0c73114862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 07/37] fix: stopping everything also drops queued messages

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 7b42e91..1427335 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -394,6 +394,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From 6e0e5aa9081b559ee2a755cd269a8f4089ae74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 08/37] fix: a message received as its script ends is not left
 in the queue

---
 src/project.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 1427335..1833af8 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -382,14 +382,14 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                 }
                 ProcessStep::Terminate { result } => {
                     let proc = self.state.processes.remove(proc_key).unwrap();
-                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                    AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done before dropping it
                     ProjectStep::ProcessTerminated { result, proc }
                 }
                 ProcessStep::Abort { mode } => match mode {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
-                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                        AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done before dropping it
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
@@ -421,7 +421,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
             Err(error) => {
                 let proc = self.state.processes.remove(proc_key).unwrap();
-                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done before dropping it
                 ProjectStep::Error { error, proc }
             }
         }
-- 
2.43.0


From 0f70ba3e77ed39aa81670129b45d8cb006560dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 09/37] fix: list modifications accept the list itself as the
 index

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 0b7274c..ec7d99b 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?; // index may be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?; // index may be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?; // index may be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 67aac6d4bbc5f1f811ada9d9aaafed9f34804bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 10/37] fix: notes outside of the midi range are rejected
 instead of wrapping around

---
 src/process.rs | 4 +---
 src/runtime.rs | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index ec7d99b..449fd41 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1526,9 +1526,7 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            return u8::try_from(vv).ok().and_then(|vv| Note::from_midi(vv, false)).ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..92a2066 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1856,7 +1856,7 @@ impl Note {
         let mut c = name.trim().chars().peekable();
 
         let note = c.next().unwrap_or('\0').to_ascii_uppercase();
-        let note = SHARP_NOTES.split(' ').enumerate().find(|x| x.1.len() == 1 && x.1.starts_with(note))?.0 as i32;
+        let note = SHARP_NOTES.split(' ').enumerate().find(|x| x.1.len() == 1 && x.1.starts_with(note))?.0 as i64;
 
         let mut octave = None;
         let mut delta = 0;
@@ -1885,13 +1885,13 @@ impl Note {
                 None => break,
             }
         }
-        let mut octave = octave?;
+        let mut octave = octave? as i64;
         if note >= 3 {
             octave -= 1;
         }
 
         let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        Self::from_midi(u8::try_from(value).ok()?, natural)
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
-- 
2.43.0


From 5e514fd974e384734bdfb6a0b4a5229b53384d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 11/37] fix: the natural marker of a note no longer changes its
 frequency and name

---
 src/runtime.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 92a2066..4cb111d 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1899,12 +1899,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let midi = self.get_midi().0;
+        let octave = midi as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((midi as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From d4cac1dd19eea9f6e36d4e8e6a5d5b82834dd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 12/37] fix: very long waits no longer overflow the wake-up
 time

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 449fd41..d0bc3a6 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1129,7 +1129,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From b501eb063740d5d09c0a40fa0e50c7cac7749119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 13/37] fix: the call depth limit also applies to closure calls

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index d0bc3a6..34f0af4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -949,6 +949,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     true => self.value_stack.pop().unwrap().as_entity()?,
                 };
 
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 self.call_stack.push(CallFrame {
                     called_from: self.pos,
                     return_to: aft_pos,
-- 
2.43.0


From f24752a48f08a0b3475eab17f3a1ddf40d89be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 14/37] fix: errors are located at the block which raised them,
 not at a later child or sibling

---
 src/bytecode.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index aa735f2..ef0cb4d 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1439,10 +1439,32 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     ins: Vec<InternalInstruction<'b>>,
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
-    ins_locations: BTreeMap<usize, &'a str>,
+    ins_locations: BTreeMap<usize, (usize, &'a str)>, // end (exclusive) -> start (inclusive), location - always disjoint
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
+    fn append_location(&mut self, start: usize, location: Option<&'a str>) {
+        let location = match location {
+            Some(x) => x,
+            None => return,
+        };
+
+        // only take the instructions which do not belong to a more local block
+        let mut own = vec![];
+        let mut pos = start;
+        for (&inner_end, &(inner_start, _)) in self.ins_locations.range(start + 1..) {
+            if pos < inner_start {
+                own.push((pos, inner_start));
+            }
+            pos = inner_end;
+        }
+        if pos < self.ins.len() {
+            own.push((pos, self.ins.len()));
+        }
+        for (start, end) in own {
+            self.ins_locations.insert(end, (start, location));
+        }
+    }
     fn append_simple_ins(&mut self, entity: Option<&'a ast::Entity>, values: &[&'a ast::Expr], op: Instruction<'a>) -> Result<(), CompileError<'a>> {
         for value in values {
             self.append_expr(value, entity)?;
@@ -1497,6 +1519,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let start_pos = self.ins.len();
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1862,13 +1885,12 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedExpr { kind }),
         }
 
-        if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.append_location(start_pos, expr.info.location.as_deref());
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let start_pos = self.ins.len();
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2248,9 +2270,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedStmt { kind }),
         }
 
-        if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.append_location(start_pos, stmt.info.location.as_deref());
 
         Ok(())
     }
@@ -2444,7 +2464,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             for func in entity.1.funcs.iter_mut() { func.1 = final_ins_pos[func.1]; }
             for script in entity.1.scripts.iter_mut() { script.1 = final_ins_pos[script.1]; }
         }
-        let locations = Locations::condense(&self.ins_locations.iter().map(|(p, v)| (final_ins_pos[*p], *v)).collect())?;
+        let locations = Locations::condense(&self.ins_locations.iter().map(|(p, v)| (final_ins_pos[*p], v.1)).collect())?;
 
         Ok((ByteCode { tag: Default::default(), code: code.into_boxed_slice(), data: data.into_boxed_slice() }, ScriptInfo { funcs, entities }, locations))
     }
-- 
2.43.0


From 177315ad375ff953690ab2d672ebb852c34598d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 15/37] fix: compiled projects can be reloaded from json

---
 src/bytecode.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index ef0cb4d..9f3bd93 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -14,7 +14,7 @@ use core::mem;
 #[cfg(feature = "serde")]
 use serde::{Serialize, Deserialize};
 
-use monostate::MustBeU128;
+use monostate::MustBeU64;
 use num_traits::FromPrimitive;
 use bin_pool::BinPool;
 
@@ -35,6 +35,9 @@ const MAX_U64_ENCODED_BYTES: usize = 10;
 /// Max number of shrinking cycles to apply to variable width encoded values in an output binary
 const SHRINK_CYCLES: usize = 3;
 
+/// The [`FINGERPRINT`] of the build, as two halves because (e.g.) json cannot represent 128-bit integers.
+type Fingerprint = (MustBeU64<{ (FINGERPRINT >> 64) as u64 }>, MustBeU64<{ FINGERPRINT as u64 }>);
+
 /// A NetsBlox project compile error generated by [`ByteCode::compile`].
 #[derive(Debug)]
 pub enum CompileError<'a> {
@@ -1127,7 +1130,7 @@ impl BinaryWrite for Instruction<'_> {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteCode {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) code: Box<[u8]>,
     pub(crate) data: Box<[u8]>,
@@ -1171,7 +1174,7 @@ pub(crate) struct EntityInitInfo {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct InitInfo {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) proj_name: CompactString,
     pub(crate) ref_values: Vec<RefValue>,
@@ -1244,7 +1247,7 @@ fn test_locations_tokenizer() {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct Locations {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     prefix: CompactString,
     separator: CompactString,
-- 
2.43.0


From 343a6ee32442cca39f7c690454e3f52ec0b505c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 16/37] fix: queued messages start when a clone deletes itself
 as the last running script

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index 1833af8..275cdb1 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -356,6 +356,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     debug_assert!(clone.borrow().original.is_some());
                     self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));
                     self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
+                    AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done before dropping it
                     self.state.process_queue.push_front(proc_key); // keep executing the same process as before
                     ProjectStep::Normal
                 }
-- 
2.43.0


From 989e9cd83c21216bcac96056070ac04905ed6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 17/37] fix: results of element-wise operations are not shared
 between equal texts

---
 src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 4cb111d..f2c7b78 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1048,7 +1048,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
         match self {
             Value::Bool(x) => Identity(x as *const bool as *const (), PhantomData),
             Value::Number(x) => Identity(x as *const Number as *const (), PhantomData),
-            Value::Text(x) => Identity(x.as_ptr() as *const (), PhantomData),
+            Value::Text(x) => Identity(x as *const Text as *const (), PhantomData), // not the content, which unrelated values may share
             Value::Image(x) => Identity(Rc::as_ptr(x) as *const (), PhantomData),
             Value::Audio(x) => Identity(Rc::as_ptr(x) as *const (), PhantomData),
             Value::List(x) => Identity(Gc::as_ptr(*x) as *const (), PhantomData),
-- 
2.43.0


From e30dd7d1588861c9ed5638ede0d96c716d63d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 18/37] fix: names of images and sounds received from netsblox
 are unescaped

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index f2c7b78..289ca58 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From ff3d8f43665872e5c5325b83bd2d7f8bdc3dcb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 19/37] fix: numbers-from-to ends where adding one no longer
 changes the number

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 34f0af4..b7874dd 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1839,11 +1839,13 @@ mod ops {
                     if a <= b {
                         while a <= b {
                             res.push_back(Number::new(a)?.into());
+                            if a + 1.0 == a { break } // at this magnitude there is no next number
                             a += 1.0;
                         }
                     } else {
                         while a >= b {
                             res.push_back(Number::new(a)?.into());
+                            if a - 1.0 == a { break }
                             a -= 1.0;
                         }
                     }
-- 
2.43.0


From 5a055b0f48c2e14b5985a669ca604267bb0cb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 20/37] fix: random numbers between very large bounds stay
 within them

---
 src/process.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index b7874dd..86e0a46 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1855,12 +1855,16 @@ mod ops {
             BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
-                let res = if a == libm::round(a) && b == libm::round(b) {
+                let is_int = |x: f64| x == libm::round(x);
+                let res = if is_int(a) && is_int(b) && a >= -9007199254740992.0 && b <= 9007199254740992.0 {
                     let (a, b) = (a as i64, b as i64);
                     system.rand(a..=b) as f64
-                } else {
+                } else if (b - a).is_finite() {
                     system.rand(a..=b)
+                } else {
+                    2.0 * system.rand(a / 2.0..=b / 2.0)
                 };
+                let res = if is_int(a) && is_int(b) { libm::round(res) } else { res };
                 Ok(Number::new(res)?.into())
             }),
         }
-- 
2.43.0


From cfd5346da0a1eedc87d18b50bec7097039f3d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 21/37] fix: random numbers over a list used twice are drawn
 separately

---
 src/process.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 86e0a46..3739e76 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1761,7 +1761,7 @@ mod ops {
         Ok(res.as_str().into())
     }
 
-    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
+    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, op_type: OpType, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let cache_key = (a.identity(), b.identity(), matrix_mode);
         Ok(match cache.get(&cache_key) {
             Some(x) => x.clone(),
@@ -1775,8 +1775,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for (a, b) in iter::zip(&*a, &*b) {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
                     (Some(a), None) => {
@@ -1786,8 +1787,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for a in &*a {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
                     (None, Some(b)) => {
@@ -1797,11 +1799,12 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for b in &*b {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
-                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, scalar_op)? } else { scalar_op(mc, system, a, b)? }
+                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, op_type, scalar_op)? } else { scalar_op(mc, system, a, b)? }
                 }
             }
         })
@@ -1809,30 +1812,30 @@ mod ops {
     pub(super) fn binary_op<'gc, 'a, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &'a Value<'gc, C, S>, b: &'a Value<'gc, C, S>, op: BinaryOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let mut cache = Default::default();
         match op {
-            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
-            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
-            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
-            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
-            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
-            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
-            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
-
-            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
+            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
+            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
+            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
+            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
+            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
+            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
+
+            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let string = b.as_text()?;
                 let index = prep_index(a, string.graphemes(true).count())?;
                 Ok(Text::from(string.graphemes(true).nth(index).unwrap()).into())
             }),
 
-            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let (a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 Ok(Number::new(util::modulus(a, b))?.into())
             }),
-            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (text, pattern) = (a.as_text()?, b.as_text()?);
                 Ok(Gc::new(mc, RefLock::new(text.split(pattern.as_str()).map(|x| Text::from(x).into()).collect::<VecDeque<_>>())).into())
             }),
 
-            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (mut a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 let mut res = VecDeque::new();
                 if a.is_finite() && b.is_finite() {
@@ -1852,7 +1855,7 @@ mod ops {
                 }
                 Ok(Gc::new(mc, RefLock::new(res)).into())
             }),
-            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
+            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Nondeterministic, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
                 let is_int = |x: f64| x == libm::round(x);
-- 
2.43.0


From 21456c5e7bce36b76c61945f2d1d7d68c08f3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 22/37] fix: headings and hues stay below 360 when the angle is
 a tiny negative

---
 src/runtime.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 289ca58..90d812c 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -437,6 +437,11 @@ impl Default for Properties {
         }
     }
 }
+/// Wraps an angle into the range `[0, 360)`, including tiny negative angles for which the modulus rounds to `360`.
+fn wrap_degrees(angle: f64) -> f64 {
+    let res = util::modulus(angle, 360.0);
+    if res < 360.0 { res } else { res - 360.0 }
+}
 impl Properties {
     fn with_value<C: CustomTypes<S>, S: System<C>, T>(&mut self, key: S::CommandKey, value: Result<T, ErrorCause<C, S>>, f: fn(&mut Self, T)) {
         match value {
@@ -497,7 +502,7 @@ impl Properties {
         match prop {
             Property::XPos => self.with_value(key, value.as_number().map_err(Into::into), |props, value| props.pos.0 = value),
             Property::YPos => self.with_value(key, value.as_number().map_err(Into::into), |props, value| props.pos.1 = value),
-            Property::Heading => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(x.get(), 360.0)).map_err(Into::into)), |props, value| props.heading = value),
+            Property::Heading => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(x.get())).map_err(Into::into)), |props, value| props.heading = value),
 
             Property::Visible => self.with_value(key, value.as_bool().map_err(Into::into), |props, value| props.visible = value),
             Property::Size => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().max(0.0)).map_err(Into::into)), |props, value| props.size = value),
@@ -514,7 +519,7 @@ impl Properties {
                 props.pen_color_t = Number::new((1.0 - a as f64) * 100.0).unwrap();
             }),
 
-            Property::PenColorH => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(x.get(), 360.0)).map_err(Into::into)), |props, value| props.pen_color_h = value),
+            Property::PenColorH => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(x.get())).map_err(Into::into)), |props, value| props.pen_color_h = value),
             Property::PenColorS => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_s = value),
             Property::PenColorV => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_v = value),
             Property::PenColorT => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_t = value),
@@ -523,7 +528,7 @@ impl Properties {
             Property::Volume => self.with_value(key, value.as_number().map_err(Into::into), |props, value| props.volume = value),
             Property::Balance => self.with_value(key, value.as_number().map_err(Into::into), |props, value| props.balance = value),
 
-            Property::ColorH => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(x.get(), 360.0)).map_err(Into::into)), |props, value| props.effects.color_h = value),
+            Property::ColorH => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(x.get())).map_err(Into::into)), |props, value| props.effects.color_h = value),
             Property::ColorS => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_s = value),
             Property::ColorV => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_v = value),
             Property::ColorT => self.with_value(key, value.as_number().map_err(Into::into).and_then(|x| Number::new(x.get().clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_t = value),
@@ -540,7 +545,7 @@ impl Properties {
         match prop {
             Property::XPos => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.pos.0.add(x).map_err(Into::into)), |props, value| props.pos.0 = value),
             Property::YPos => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.pos.1.add(x).map_err(Into::into)), |props, value| props.pos.1 = value),
-            Property::Heading => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(self.heading.get() + x.get(), 360.0)).map_err(Into::into)), |props, value| props.heading = value),
+            Property::Heading => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(self.heading.get() + x.get())).map_err(Into::into)), |props, value| props.heading = value),
 
             Property::Visible => self.with_value(key, delta.as_bool().map_err(Into::into), |props, value| props.visible ^= value),
             Property::Size => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.size.get() + x.get()).max(0.0)).map_err(Into::into)), |props, value| props.size = value),
@@ -550,7 +555,7 @@ impl Properties {
 
             Property::PenColor => key.complete(Err("attempt to apply relative change to a color".into())),
 
-            Property::PenColorH => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(self.pen_color_h.get() + x.get(), 360.0)).map_err(Into::into)), |props, value| props.pen_color_h = value),
+            Property::PenColorH => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(self.pen_color_h.get() + x.get())).map_err(Into::into)), |props, value| props.pen_color_h = value),
             Property::PenColorS => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.pen_color_s.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_s = value),
             Property::PenColorV => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.pen_color_v.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_v = value),
             Property::PenColorT => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.pen_color_t.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.pen_color_t = value),
@@ -559,7 +564,7 @@ impl Properties {
             Property::Volume => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.volume.add(x).map_err(Into::into)), |props, value| props.volume = value),
             Property::Balance => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.balance.add(x).map_err(Into::into)), |props, value| props.balance = value),
 
-            Property::ColorH => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(self.effects.color_h.get() + x.get(), 360.0)).map_err(Into::into)), |props, value| props.effects.color_h = value),
+            Property::ColorH => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new(wrap_degrees(self.effects.color_h.get() + x.get())).map_err(Into::into)), |props, value| props.effects.color_h = value),
             Property::ColorS => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.effects.color_s.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_s = value),
             Property::ColorV => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.effects.color_v.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_v = value),
             Property::ColorT => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| Number::new((self.effects.color_t.get() + x.get()).clamp(0.0, 100.0)).map_err(Into::into)), |props, value| props.effects.color_t = value),
@@ -587,7 +592,7 @@ impl Properties {
 
     pub fn perform_point_towards_xy<'gc, 'a, C: CustomTypes<S>, S: System<C>>(&mut self, key: S::CommandKey, x: Number, y: Number) -> CommandStatus<'gc, 'a, C, S> {
         let (dx, dy) = (x.get() - self.pos.0.get(), y.get() - self.pos.1.get());
-        let heading = util::modulus(libm::atan2(dx, dy).to_degrees(), 360.0);
+        let heading = wrap_degrees(libm::atan2(dx, dy).to_degrees());
         self.with_value::<C, S, _>(key, Number::new(heading).map_err(Into::into), |props, value| props.heading = value);
         CommandStatus::Handled
     }
-- 
2.43.0


From 4f67c0b459641fece220bf3ea1b01da260504770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 23/37] fix: concurrent clock updates never set the cached time
 back

---
 src/std_util.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/std_util.rs b/src/std_util.rs
index 434e3db..6a77e1d 100644
--- a/src/std_util.rs
+++ b/src/std_util.rs
@@ -63,11 +63,15 @@ impl Clock {
     }
     /// Reads the real world time and stores the result in the cache if caching was enabled by [`Clock::new`].
     pub fn update(&self) -> OffsetDateTime {
-        let t = OffsetDateTime::now_utc().to_offset(self.utc_offset);
-        if let Some(cache) = &self.cache {
-            *cache.value.lock().unwrap() = t;
+        let now = || OffsetDateTime::now_utc().to_offset(self.utc_offset);
+        match &self.cache {
+            Some(cache) => {
+                let mut value = cache.value.lock().unwrap();
+                *value = now(); // must be read while holding the lock, or a concurrent update could be overwritten with an earlier time
+                *value
+            }
+            None => now(),
         }
-        t
     }
 }
 
-- 
2.43.0


From 741e880b25296ac66cfe3c564a6b5ccd46560fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 24/37] fix: losing the server connection fails message sends
 instead of panicking

---
 src/std_system.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 7d069a9..623e698 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -129,7 +129,9 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
 
                 tokio::spawn(async move {
                     while let Ok(msg) = ws_sender_receiver.recv().await {
-                        ws_sender.send(msg).await.unwrap();
+                        if ws_sender.send(msg).await.is_err() {
+                            break; // connection lost
+                        }
                     }
                 });
 
@@ -148,7 +150,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                                 _ => return,
                             };
                             match msg.get("type").and_then(|x| x.as_str()).unwrap_or("unknown") {
-                                "ping" => ws_sender_sender_clone.send(Message::Text(json!({ "type": "pong" }).to_string().into())).await.unwrap(),
+                                "ping" => { ws_sender_sender_clone.send(Message::Text(json!({ "type": "pong" }).to_string().into())).await.ok(); }
                                 "message" => {
                                     let (msg_type, values) = match (msg.remove("msgType"), msg.remove("content")) {
                                         (Some(Json::String(msg_type)), Some(Json::Object(values))) => (msg_type.into(), values),
@@ -173,7 +175,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                                             false => None,
                                         };
                                         let values = values.into_iter().filter_map(|(k, v)| SimpleValue::from_netsblox_json(v).ok().map(|v| (k.into(), v))).collect();
-                                        in_sender.send(IncomingMessage { msg_type, values, reply_key }).unwrap();
+                                        in_sender.send(IncomingMessage { msg_type, values, reply_key }).ok();
                                     }
                                 }
                                 _ => (),
@@ -182,7 +184,7 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                     }).await;
                 });
 
-                ws_sender_sender.send(Message::Text(json!({ "type": "set-uuid", "clientId": client_id }).to_string().into())).await.unwrap();
+                ws_sender_sender.send(Message::Text(json!({ "type": "set-uuid", "clientId": client_id }).to_string().into())).await.ok();
                 drop(finish_flag);
 
                 let src_id = format_compact!("{project_name}@{client_id}#vm");
@@ -219,7 +221,9 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                             "content": { "body": value },
                         }),
                     };
-                    ws_sender_sender.send(Message::Text(msg.to_string().into())).await.unwrap();
+                    if ws_sender_sender.send(Message::Text(msg.to_string().into())).await.is_err() {
+                        break; // connection lost
+                    }
                 }
             }
             let in_sender_clone = in_sender.clone();
@@ -420,7 +424,12 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
                 (OutgoingMessage::Blocking { msg_type, values, targets, reply_key: reply_key.clone() }, Some(reply_key))
             }
         };
-        self.message_sender.send(msg).unwrap();
+        if self.message_sender.send(msg).is_err() {
+            if let Some(reply_key) = reply_key {
+                self.message_replies.lock().unwrap().remove(&reply_key);
+            }
+            return Err(ErrorCause::Promoted { error: "lost connection to the server".into() });
+        }
         Ok(reply_key)
     }
     fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
@@ -436,8 +445,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
         AsyncResult::Pending
     }
     fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {
-        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap();
-        Ok(())
+        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).map_err(|_| ErrorCause::Promoted { error: "lost connection to the server".into() })
     }
     fn receive_message(&self) -> Option<IncomingMessage> {
         self.message_receiver.try_recv().ok()
-- 
2.43.0


From c866c4eab8d3d104d310f460b9ef1d5a95de5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 25/37] fix: reference, image and sound literals in code are a
 compile error instead of a panic

---
 src/bytecode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 9f3bd93..842e418 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1515,9 +1515,9 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
                 }
                 self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Fixed(values.len()) }.into());
             }
-            ast::Value::Image(_) => unreachable!(), // Snap! doesn't have image literals
-            ast::Value::Audio(_) => unreachable!(), // Snap! doesn't have audio literals
-            ast::Value::Ref(_) => unreachable!(), // Snap! doesn't have reference literals
+            ast::Value::Image(_) => return Err(CompileError::CurrentlyUnsupported { info: "image literals in code".into() }),
+            ast::Value::Audio(_) => return Err(CompileError::CurrentlyUnsupported { info: "audio literals in code".into() }),
+            ast::Value::Ref(_) => return Err(CompileError::CurrentlyUnsupported { info: "reference literals in code".into() }),
         }
         Ok(())
     }
-- 
2.43.0


From f4d56e624a8255f306d158f1a5610bbeb4764e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 26/37] fix: names containing a null character are a compile
 error instead of a panic

---
 src/bytecode.rs | 33 +++++++++++++++++----------------
 src/util.rs     |  8 ++++++--
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 842e418..5499c31 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -21,7 +21,7 @@ use bin_pool::BinPool;
 use crate::*;
 use crate::meta::*;
 use crate::runtime::{Color, Number, NumberError, Event, KeyCode, Property, PrintStyle, Type, CustomTypes, System, ImageProperty, AudioProperty};
-use crate::util::LosslessJoin;
+use crate::util::{LosslessJoin, NullCharError};
 use crate::vecmap::VecMap;
 use crate::compact_str::{CompactString, ToCompactString};
 
@@ -51,6 +51,7 @@ pub enum CompileError<'a> {
     CurrentlyUnsupported { info: CompactString },
     InvalidBlock { loc: Option<&'a str> },
 }
+impl From<NullCharError> for CompileError<'_> { fn from(_: NullCharError) -> Self { Self::CurrentlyUnsupported { info: "names containing a null character".into() } } }
 impl From<NumberError> for CompileError<'_> { fn from(error: NumberError) -> Self { Self::BadNumber { error } } }
 
 #[derive(Clone, Copy, Debug, FromPrimitive)]
@@ -1722,21 +1723,21 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             }
             ast::ExprKind::CallRpc { host, service, rpc, args } => {
                 let mut tokens = LosslessJoin::new();
-                tokens.push(host.as_deref().unwrap_or(""));
-                tokens.push(service);
-                tokens.push(rpc);
+                tokens.push(host.as_deref().unwrap_or(""))?;
+                tokens.push(service)?;
+                tokens.push(rpc)?;
                 for (arg_name, arg) in args {
-                    tokens.push(arg_name);
+                    tokens.push(arg_name)?;
                     self.append_expr(arg, entity)?;
                 }
                 self.ins.push(Instruction::CallRpc { tokens: self.string_arena.alloc(tokens.finish()) }.into());
             }
             ast::ExprKind::NetworkMessageReply { target, msg_type, values } => {
                 let mut tokens = LosslessJoin::new();
-                tokens.push(msg_type);
+                tokens.push(msg_type)?;
                 for (field, value) in values {
                     self.append_expr(value, entity)?;
-                    tokens.push(field);
+                    tokens.push(field)?;
                 }
                 self.append_expr(target, entity)?;
                 self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: true }.into());
@@ -2226,11 +2227,11 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             }
             ast::StmtKind::CallRpc { host, service, rpc, args } => {
                 let mut tokens = LosslessJoin::new();
-                tokens.push(host.as_deref().unwrap_or(""));
-                tokens.push(service);
-                tokens.push(rpc);
+                tokens.push(host.as_deref().unwrap_or(""))?;
+                tokens.push(service)?;
+                tokens.push(rpc)?;
                 for (arg_name, arg) in args {
-                    tokens.push(arg_name);
+                    tokens.push(arg_name)?;
                     self.append_expr(arg, entity)?;
                 }
                 self.ins.push(Instruction::CallRpc { tokens: self.string_arena.alloc(tokens.finish()) }.into());
@@ -2238,10 +2239,10 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             }
             ast::StmtKind::SendNetworkMessage { target, msg_type, values } => {
                 let mut tokens = LosslessJoin::new();
-                tokens.push(msg_type);
+                tokens.push(msg_type)?;
                 for (field, value) in values {
                     self.append_expr(value, entity)?;
-                    tokens.push(field);
+                    tokens.push(field)?;
                 }
                 self.append_expr(target, entity)?;
                 self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: false }.into());
@@ -2317,7 +2318,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
 
             let mut tokens = LosslessJoin::new();
             for param in fn_info.params.iter() {
-                tokens.push(&param.trans_name);
+                tokens.push(&param.trans_name)?;
             }
 
             self.ins[*hole_pos] = Instruction::Call { pos, tokens: self.string_arena.alloc(tokens.finish()) }.into();
@@ -2520,10 +2521,10 @@ impl ByteCode {
 
             let mut tokens = LosslessJoin::new();
             for param in params {
-                tokens.push(&param.trans_name);
+                tokens.push(&param.trans_name)?;
             }
             for param in captures {
-                tokens.push(&param.trans_name);
+                tokens.push(&param.trans_name)?;
             }
 
             code.ins[hole_pos] = Instruction::MakeClosure { pos, params: params.len(), tokens: string_arena.alloc(tokens.finish()) }.into();
diff --git a/src/util.rs b/src/util.rs
index 4b721a5..d98ee27 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,6 +5,9 @@ use base64::DecodeError as Base64DecodeError;
 
 use compact_str::CompactString;
 
+#[derive(Debug)]
+pub struct NullCharError;
+
 pub struct LosslessJoin {
     content: CompactString,
 }
@@ -12,11 +15,12 @@ impl LosslessJoin {
     pub fn new() -> Self {
         Self { content: CompactString::default() }
     }
-    pub fn push(&mut self, val: &str) {
-        assert!(val.as_bytes().iter().all(|&x| x != 0));
+    pub fn push(&mut self, val: &str) -> Result<(), NullCharError> {
+        if val.as_bytes().contains(&0) { return Err(NullCharError) }
 
         self.content.push('\0');
         self.content.push_str(val);
+        Ok(())
     }
     pub fn finish(self) -> CompactString {
         self.content
-- 
2.43.0


From fad418d5b56f4e8561088792212e3b9c23f66366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 27/37] fix: block location ids far apart no longer overflow

---
 src/bytecode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 5499c31..98ab4dc 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1336,7 +1336,10 @@ impl Locations {
         for (pos, toks) in value_map {
             locs.push((pos, value_data.len()));
             for tok in toks {
-                encode_u64((tok - base_token + 1) as u64, &mut value_data, None);
+                match (tok.abs_diff(base_token) as u64).checked_add(1) {
+                    Some(v) => encode_u64(v, &mut value_data, None),
+                    None => return Err(CompileError::InvalidLocation { loc: orig_locs[&pos] }),
+                }
             }
             encode_u64(0, &mut value_data, None); // null terminator
         }
@@ -1381,7 +1384,7 @@ impl Locations {
                 res.push_str(&self.separator);
             }
             first = false;
-            write!(res, "{}", v as isize - 1 + self.base_token).unwrap();
+            write!(res, "{}", self.base_token.wrapping_add((v - 1) as isize)).unwrap();
         }
         res.push_str(&self.suffix);
         Some(res)
-- 
2.43.0


From 7412135949cdb3e6f20052bf9ffbbb2aaf79c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 28/37] fix: nb dump reports compile errors instead of
 panicking

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..b9e373a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -593,7 +593,7 @@ pub fn run<C: CustomTypes<StdSystem<C>>>(mode: Mode, config: Config<C, StdSystem
             let content = read_file(&src).unwrap_or_else(|_| crash!(1: "failed to read file '{src}'"));
             let (_, role) = open_project(&content, role.as_deref()).unwrap_or_else(|e| crash!(2: "{e}"));
 
-            let (bytecode, _, _, _) = ByteCode::compile(&role).unwrap();
+            let (bytecode, _, _, _) = ByteCode::compile(&role).unwrap_or_else(|e| crash!(3: "failed to compile project: {e:?}"));
             println!("instructions:");
             bytecode.dump_code(&mut std::io::stdout().lock()).unwrap();
             println!("\ndata:");
-- 
2.43.0


From bdac81960426d519be12a6d32ff07d8d174908f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 29/37] fix: going to or pointing at a list position no longer
 holds the list during the host call

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 3739e76..904b83d 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1429,6 +1429,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     let target = target.borrow();
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
+                    drop(target);
 
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
@@ -1462,6 +1463,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     let target = target.borrow();
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
+                    drop(target);
 
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
-- 
2.43.0


From 3ce5da0effe9624037b41502707244ef390c8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 30/37] fix: the debug check for held borrows accepts entities
 lent to the host and entities that hold themselves

---
 src/std_system.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 623e698..95deb0e 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -324,21 +324,25 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
     }
 
     #[cfg(debug_assertions)]
-    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>) {
+    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>, lent: Option<*const Entity<'gc, C, Self>>) {
         fn check_symbols<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, symbols: &SymbolTable<'gc, C, StdSystem<C>>) {
             for symbol in symbols.iter() {
                 match &*symbol.1.get() {
                     Value::Bool(_) | Value::Number(_) | Value::Text(_) | Value::Audio(_) | Value::Image(_) | Value::Native(_) => (),
                     Value::List(x) => { x.borrow_mut(mc); }
                     Value::Closure(x) => { x.borrow_mut(mc); }
-                    Value::Entity(x) => { x.borrow_mut(mc); }
+                    Value::Entity(x) => { x.borrow(); } // may be the entity whose fields are being checked, or the one lent to the host
                 }
             }
         }
-        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: &mut Entity<'gc, C, StdSystem<C>>) {
+        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: Gc<'gc, RefLock<Entity<'gc, C, StdSystem<C>>>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            if lent != Some(entity.as_ptr() as *const _) {
+                entity.borrow_mut(mc);
+            }
+            let entity = entity.borrow();
             check_symbols(mc, &entity.fields);
             if let Some(original) = entity.original {
-                check_entity(mc, &mut *original.borrow_mut(mc));
+                check_entity(mc, original, lent);
             }
         }
 
@@ -346,10 +350,10 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
         check_symbols(mc, &global_context.globals);
         for entry in proc.get_call_stack() {
             check_symbols(mc, &entry.locals);
-            check_entity(mc, &mut entry.entity.borrow_mut(mc));
+            check_entity(mc, entry.entity, lent);
         }
         for entity in global_context.entities.iter() {
-            check_entity(mc, &mut *entity.1.borrow_mut(mc));
+            check_entity(mc, *entity.1, lent);
         }
     }
 }
@@ -367,7 +371,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_request<'gc>(&self, mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::RequestKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, None);
 
         Ok(match self.config.request.as_ref() {
             Some(handler) => {
@@ -382,7 +386,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Self::RequestKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, _proc);
+        Self::check_runtime_borrows(mc, _proc, None);
 
         Ok(match key.poll() {
             AsyncResult::Completed(Ok(x)) => AsyncResult::Completed(Ok(C::from_intermediate(mc, x))),
@@ -394,7 +398,10 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::CommandKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, match &command {
+            Command::GotoEntity { target } | Command::PointTowardsEntity { target } => Some(*target as *const _),
+            _ => None,
+        });
 
         Ok(match self.config.command.as_ref() {
             Some(handler) => {
@@ -409,7 +416,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &Self::CommandKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(_mc, _proc);
+        Self::check_runtime_borrows(_mc, _proc, None);
 
         Ok(key.poll())
     }
-- 
2.43.0


From 94053ea74f67e196ab36c7006861ceb819c80a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 31/37] fix: closing a file reports data that could not be
 written

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf5e240..59f7a88 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -154,7 +154,12 @@ fn main() {
                             Value::Native(x) => {
                                 match &**x {
                                     NativeValue::InputFile { handle } => *handle.borrow_mut() = None,
-                                    NativeValue::OutputFile { handle } => *handle.borrow_mut() = None,
+                                    NativeValue::OutputFile { handle } => if let Some(mut file) = handle.borrow_mut().take() {
+                                        if let Err(e) = file.flush() {
+                                            key.complete(Err(format_compact!("syscall close - write error: {e:?}")));
+                                            return RequestStatus::Handled;
+                                        }
+                                    }
                                 }
                                 key.complete(Ok(SimpleValue::Text("OK".into()).into()));
                                 RequestStatus::Handled
-- 
2.43.0


From 31cb54305022098c528d80f2d17331a66b187b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:13 +0000
Subject: [PATCH 32/37] fix: the editor extension omits every occurrence of the
 omitted elements

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index e5172e2..904ab21 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -25,7 +25,7 @@
 
         xml = new DOMParser().parseFromString(xml, 'text/xml');
         for (const elem of omittedElements) {{
-            for (const match of xml.getElementsByTagName(elem)) {{
+            for (const match of [...xml.getElementsByTagName(elem)]) {{ // copied because the collection is live
                 match.remove();
             }}
         }}
-- 
2.43.0


From cf39d0686a3a7c48a6ce77957242eb02557803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:13 +0000
Subject: [PATCH 33/37] fix: errors at blocks which no longer exist do not hide
 other errors in the editor

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index 904ab21..1f8d53a 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -234,7 +234,7 @@
                                 for (const entry of error.trace) {{
                                     const locals = formatVars(entry.locals);
                                     const blocks = lookup[entry.location];
-                                    if (blocks !== null) {{
+                                    if (blocks !== undefined) {{
                                         for (const block of blocks) {{
                                             const vars = [locals, fields, globals].filter(x => x.length).join('\n\n');
                                             let content = error.cause;
-- 
2.43.0


From 600f402f5e543a4709be069f0c7b714af7c1af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:13 +0000
Subject: [PATCH 34/37] fix: custom blocks without a body do not keep the
 editor from showing errors

---
 src/assets/extension.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index 1f8d53a..6f6fe42 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -198,11 +198,11 @@
 
                             walk(world);
                             for (const block of ide.stage.globalBlocks) {{
-                                walk(block.body.expression);
+                                if (block.body) walk(block.body.expression);
                             }}
                             for (const entity of [ide.stage, ...ide.sprites.contents]) {{
                                 for (const block of entity.customBlocks) {{
-                                    walk(block.body.expression);
+                                    if (block.body) walk(block.body.expression);
                                 }}
                             }}
 
-- 
2.43.0


From ada9e8f7fd13b0b53c90f97922d071ee24316034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 35/37] fix: initial headings stay below 360 when the angle is
 a tiny negative

---
 src/bytecode.rs | 4 ++--
 src/runtime.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 98ab4dc..df35d22 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -20,7 +20,7 @@ use bin_pool::BinPool;
 
 use crate::*;
 use crate::meta::*;
-use crate::runtime::{Color, Number, NumberError, Event, KeyCode, Property, PrintStyle, Type, CustomTypes, System, ImageProperty, AudioProperty};
+use crate::runtime::{Color, Number, NumberError, Event, KeyCode, Property, PrintStyle, Type, CustomTypes, System, ImageProperty, AudioProperty, wrap_degrees};
 use crate::util::{LosslessJoin, NullCharError};
 use crate::vecmap::VecMap;
 use crate::compact_str::{CompactString, ToCompactString};
@@ -2651,7 +2651,7 @@ impl ByteCode {
             let color = entity.color;
             let size = Number::new(entity.scale * 100.0)?;
             let pos = (Number::new(entity.pos.0)?, Number::new(entity.pos.1)?);
-            let heading = Number::new(util::modulus(entity.heading, 360.0))?;
+            let heading = Number::new(wrap_degrees(entity.heading))?;
 
             for field in entity.fields.iter() {
                 fields.insert(field.def.name.clone(), get_value(&field.init, &mut ref_values, &refs, &mut string_refs, &mut image_refs, &mut audio_refs)?);
diff --git a/src/runtime.rs b/src/runtime.rs
index 90d812c..71fc82c 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -438,7 +438,7 @@ impl Default for Properties {
     }
 }
 /// Wraps an angle into the range `[0, 360)`, including tiny negative angles for which the modulus rounds to `360`.
-fn wrap_degrees(angle: f64) -> f64 {
+pub(crate) fn wrap_degrees(angle: f64) -> f64 {
     let res = util::modulus(angle, 360.0);
     if res < 360.0 { res } else { res - 360.0 }
 }
-- 
2.43.0


From 8f410306ef9ec76fb27e87f6dd020aac16ef86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 36/37] fix: a terminal which reports no rows does not end nb
 run with an overflow

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index b9e373a..69cb648 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -290,7 +290,7 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
 
             queue!(stdout(),
                 cursor::SavePosition,
-                cursor::MoveTo(0, term_size.1 - 1),
+                cursor::MoveTo(0, term_size.1.saturating_sub(1)),
                 terminal::Clear(ClearType::CurrentLine)).unwrap();
             let queries = input_queries.borrow();
             if let Some((query, _)) = queries.front() {
-- 
2.43.0


From 1d5e77aad60e5faa7f6945b3351a104fe129e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 37/37] fix: the combinations of many lists and an empty one
 are found to be none at once

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 904b83d..18a08ed 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1653,7 +1653,7 @@ mod ops {
         Ok(Gc::new(mc, RefLock::new(res)).into())
     }
     pub(super) fn cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) -> VecDeque<Value<'gc, C, S>> {
-        if sources.is_empty() { return Default::default() }
+        if sources.is_empty() || sources.iter().any(|x| x.borrow().is_empty()) { return Default::default() } // also keeps the product of the lengths from overflowing when the result is empty
 
         fn cartesian_product_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, res: &mut VecDeque<Value<'gc, C, S>>, partial: &mut VecDeque<Value<'gc, C, S>>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) {
             match sources {
-- 
2.43.0

