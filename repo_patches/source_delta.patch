From fab3f26a91e2e6cccf8d9f0edc28408c7e930bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 01/18] fix: wrap 32-bit integer arithmetic and report
 division/modulo by zero as errors

---
 runtime/src/native_function_call.rs | 35 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..7639f8b 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -252,8 +252,17 @@ impl NativeFunctionCall {
             return Ok(self.call_list_increment_operation(params));
         }
 
-        let v1 = params[0].clone().into_any().downcast::<Value>().unwrap();
-        let v2 = params[1].clone().into_any().downcast::<Value>().unwrap();
+        let (Ok(v1), Ok(v2)) = (
+            params[0].clone().into_any().downcast::<Value>(),
+            params[1].clone().into_any().downcast::<Value>(),
+        ) else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Can not call use '{}' operation on {} and {}",
+                Self::get_name(self.op),
+                params[0],
+                params[1]
+            )));
+        };
 
         // And/or with any other type requires coercion to bool
         if (self.op == Op::And || self.op == Op::Or)
@@ -297,9 +306,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +554,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +580,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +617,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Division by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_div(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +662,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +862,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(0) => {
+                    Err(StoryError::InvalidStoryState("Modulo by zero.".to_owned()))
+                }
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +999,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
-- 
2.43.0


From 5c8781477ae7918c427852356c5778d4e307262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 02/18] fix: list ordering, extremes and origins no longer
 depend on hash order

---
 runtime/src/ink_list.rs        | 21 ++++++++++++++-------
 runtime/src/ink_list_item.rs   |  2 +-
 runtime/src/list_definition.rs | 11 ++++++++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..922e0b0 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,18 +59,18 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
         ink_list
     }
 
-    fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
+    pub(crate) fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
         let mut ordered: Vec<_> = self.items.iter().collect();
         ordered.sort_by(|a, b| {
             if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
+                a.0.cmp(b.0)
             } else {
                 a.1.cmp(b.1)
             }
@@ -82,7 +82,9 @@ impl InkList {
         let mut max: Option<(&InkListItem, i32)> = None;
 
         for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
+            // Items can share a value, so break ties by name: the hash map has no
+            // meaningful iteration order.
+            if max.is_none_or(|(mk, mv)| *v > mv || (*v == mv && k < mk)) {
                 max = Some((k, *v));
             }
         }
@@ -94,7 +96,7 @@ impl InkList {
         let mut min: Option<(&InkListItem, i32)> = None;
 
         for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
+            if min.is_none_or(|(mk, mv)| *v < mv || (*v == mv && k < mk)) {
                 min = Some((k, *v));
             }
         }
@@ -111,9 +113,14 @@ impl InkList {
             let mut names = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                if let Some(name) = k.get_origin_name() {
+                    names.push(name.clone());
+                }
             }
 
+            names.sort();
+            names.dedup();
+
             return names;
         }
 
@@ -220,7 +227,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
diff --git a/runtime/src/ink_list_item.rs b/runtime/src/ink_list_item.rs
index 6cc390b..a4b98e3 100644
--- a/runtime/src/ink_list_item.rs
+++ b/runtime/src/ink_list_item.rs
@@ -1,4 +1,4 @@
-#[derive(Debug, PartialEq, Eq, Hash, Clone)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
 pub struct InkListItem {
     origin_name: Option<String>,
     item_name: String,
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..8dca1e4 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,16 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
+        let mut found: Option<&String> = None;
+
         for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
+            // Several items can share a value, so pick the first by name: the hash
+            // map has no meaningful iteration order.
+            if *value == val && found.is_none_or(|f| item_name < f) {
+                found = Some(item_name);
             }
         }
-        None
+
+        found.map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
-- 
2.43.0


From 4b6e0cbf9beb3072bbbd81d0f3dd4c986cec90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 03/18] fix: evaluation-stack underflow, bad operands and bad
 divert targets are story errors, not panics

---
 runtime/src/story/choices.rs       |  55 ++++++-----
 runtime/src/story/control_logic.rs | 144 ++++++++++++++++++-----------
 runtime/src/story/mod.rs           |  26 +++++-
 runtime/src/story_state.rs         |  25 +++--
 runtime/src/variable_reference.rs  |   4 +-
 5 files changed, 163 insertions(+), 91 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..a96961d 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -55,7 +55,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -66,18 +66,24 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
+            let choice_target = choice_point.get_choice_target().ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "The target of a choice could not be found: {}",
+                    choice_point
+                ))
+            })?;
             let visit_count = self
                 .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+                .visit_count_for_container(&choice_target);
             if visit_count > 0 {
                 show_choice = false;
             }
@@ -128,11 +134,14 @@ impl Story {
 
         // Invisible choice may have been generated on a different thread,
         // in which case we need to restore it before we continue
+        let choice_thread = choice.get_thread_at_generation().ok_or_else(|| {
+            StoryError::InvalidStoryState("The choice has no saved thread".to_owned())
+        })?;
         self.get_state()
             .get_callstack()
             .as_ref()
             .borrow_mut()
-            .set_current_thread(choice.get_thread_at_generation().unwrap().clone());
+            .set_current_thread(choice_thread);
 
         // If there's a chance that this state will be rolled back to before
         // the invisible choice then make sure that the choice thread is
@@ -154,28 +163,28 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
-
-        while !self.get_state().evaluation_stack.is_empty()
-            && self
-                .get_state()
-                .peek_evaluation_stack()
-                .unwrap()
-                .as_any()
-                .is::<Tag>()
+    fn pop_choice_string_and_tags(
+        &mut self,
+        tags: &mut Vec<String>,
+    ) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let choice_only_str_val =
+            Value::get_value::<&StringValue>(obj.as_ref()).ok_or_else(|| {
+                StoryError::InvalidStoryState(
+                    "Expected a string when generating the text of a choice".to_owned(),
+                )
+            })?;
+
+        while let Some(tag) = self
+            .get_state()
+            .peek_evaluation_stack()
+            .and_then(|o| o.clone().into_any().downcast::<Tag>().ok())
         {
-            let tag = self
-                .get_state_mut()
-                .pop_evaluation_stack()
-                .into_any()
-                .downcast::<Tag>()
-                .unwrap();
+            self.get_state_mut().pop_evaluation_stack()?;
             tags.insert(0, tag.get_text().clone()); // popped in reverse
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..b7a2810 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -78,16 +78,23 @@ impl Story {
                     )));
                 }
             } else if current_divert.is_external {
-                self.call_external_function(
-                    &current_divert.get_target_path_string().unwrap(),
-                    current_divert.external_args,
-                )?;
+                let func_name = current_divert.get_target_path_string().ok_or_else(|| {
+                    StoryError::InvalidStoryState("External call without a name".to_owned())
+                })?;
+                self.call_external_function(&func_name, current_divert.external_args)?;
                 return Ok(true);
             } else {
                 self.get_state_mut()
                     .set_diverted_pointer(current_divert.get_target_pointer());
             }
 
+            if self.get_state().diverted_pointer.is_null() {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Divert resolution failed: {}",
+                    current_divert
+                )));
+            }
+
             if current_divert.pushes_to_stack {
                 self.get_state().get_callstack().borrow_mut().push(
                     current_divert.stack_push_type,
@@ -96,11 +103,6 @@ impl Story {
                 );
             }
 
-            if self.get_state().diverted_pointer.is_null() && !current_divert.is_external {
-                //     error(format!("Divert resolution failed: {:?}",
-                // current_divert));
-            }
-
             return Ok(true);
         }
 
@@ -123,7 +125,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +149,17 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let obj = self
+                        .get_state()
+                        .peek_evaluation_stack()
+                        .cloned()
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState("Evaluation stack is empty.".to_owned())
+                        })?;
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +170,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -216,7 +224,7 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap()
+                            expected.unwrap_or_else(|| "end of function called from the game".to_owned())
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -298,10 +306,10 @@ impl Story {
                 CommandType::Turns => {
                     let current_turn = self.get_state().current_turn_index;
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
+                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn.wrapping_add(1))));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +364,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -383,7 +391,19 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = match max_value
+                        .checked_sub(min_value)
+                        .and_then(|range| range.checked_add(1))
+                    {
+                        Some(range) => range,
+                        None if min_value > max_value => 0,
+                        None => {
+                            return Err(StoryError::InvalidStoryState(
+                                "RANDOM was called with a range that exceeds the size that ink numbers can use."
+                                    .to_owned(),
+                            ));
+                        }
+                    };
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
@@ -391,18 +411,21 @@ impl Story {
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
                     let chosen_value = (next_random % random_range as u32) as i32 + min_value;
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -420,8 +443,19 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc = self.get_state().get_current_pointer().container.unwrap();
-                    let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
+                    let cpc =
+                        self.get_state()
+                            .get_current_pointer()
+                            .container
+                            .ok_or_else(|| {
+                                StoryError::InvalidStoryState(
+                                    "Visit index requested outside of any container".to_owned(),
+                                )
+                            })?;
+                    let count = self
+                        .get_state_mut()
+                        .visit_count_for_container(&cpc)
+                        .wrapping_sub(1); // index
                     // not count
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(count)));
@@ -455,39 +489,34 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
 
-                    if int_val.is_none() {
+                    let (Some(int_val), Some(list_name_val)) = (int_val, list_name_val) else {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
-                    }
+                    };
 
                     let mut generated_list_value: Option<Value> = None;
                     if let Some(found_list_def) = self
                         .list_definitions
                         .as_ref()
-                        .get_list_definition(list_name_val.as_ref().unwrap())
+                        .get_list_definition(list_name_val)
                     {
-                        if let Some(found_item) =
-                            found_list_def.get_item_with_value(int_val.unwrap())
-                        {
-                            let l = InkList::from_single_element((
-                                found_item.clone(),
-                                int_val.unwrap(),
-                            ));
+                        if let Some(found_item) = found_list_def.get_item_with_value(int_val) {
+                            let l = InkList::from_single_element((found_item.clone(), int_val));
                             generated_list_value = Some(Value::new::<InkList>(l));
                         }
                     } else {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Failed to find List called {}",
-                            list_name_val.as_ref().unwrap()
+                            list_name_val
                         )));
                     }
 
@@ -499,11 +528,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -518,7 +547,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -535,17 +564,19 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
                             let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
-                            sorted.sort_by(|a, b| b.1.cmp(a.1));
+                            sorted.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp(b.0)));
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
                             let mut new_list = InkList::from_single_origin(
-                                random_item.0.get_origin_name().unwrap().clone(),
+                                random_item.0.get_origin_name().cloned().unwrap_or_default(),
                                 self.list_definitions.as_ref(),
                             )?;
                             new_list.items.insert(random_item.0.clone(), *random_item.1);
@@ -639,12 +670,17 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let assigned_val = assigned_val.into_any().downcast::<Value>().map_err(|_| {
+                StoryError::InvalidStoryState(format!(
+                    "Can't assign to variable '{}': the expression has no value. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                ))
+            })?;
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -659,10 +695,10 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let container = var_ref
+                    .get_container_for_count()
+                    .map_err(StoryError::InvalidStoryState)?;
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
@@ -692,7 +728,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..dfc7e08 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -126,7 +126,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -136,10 +136,16 @@ mod misc {
                     ));
                 };
 
-            let seq_container = self.get_state().get_current_pointer().container.unwrap();
+            let seq_container =
+                self.get_state()
+                    .get_current_pointer()
+                    .container
+                    .ok_or_else(|| {
+                        StoryError::InvalidStoryState("Shuffle outside of a sequence".to_owned())
+                    })?;
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
@@ -148,6 +154,12 @@ mod misc {
                 ));
             };
 
+            if num_elements <= 0 {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected at least one element in sequence for shuffle index".to_owned(),
+                ));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
@@ -156,8 +168,12 @@ mod misc {
             //   runtime returns to the sequence
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
-            let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let sequence_hash = seq_path_str
+                .chars()
+                .fold(0i32, |hash, c| hash.wrapping_add(c as i32));
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..dc607fc 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -369,8 +369,11 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
-                if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
+                // A value can name a list the story doesn't declare (for instance
+                // after loading a save made by another version of the story).
+                if let Some(def) = self.list_definitions.get_list_definition(name)
+                    && !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def))
+                {
                     list.origins.borrow_mut().push(def.clone());
                 }
             }
@@ -896,18 +899,26 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState("Evaluation stack is empty.".to_owned())
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        if number_of_objects > self.evaluation_stack.len() {
+            return Err(StoryError::InvalidStoryState(
+                "Not enough values on the evaluation stack.".to_owned(),
+            ));
+        }
+
         let start = self.evaluation_stack.len() - number_of_objects;
         let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
 
-        obj
+        Ok(obj)
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1070,7 +1081,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..e4dbabc 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("Path for count is not a container: {}", path))
         } else {
             Err("Path for count is not set.".to_owned())
         }
-- 
2.43.0


From 90e5df13542b19b8952c3eab7de89cb28b337096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 04/18] fix: refuse only look-ahead-unsafe externals inside
 string evaluation, and report it as an error

---
 runtime/src/story/external_functions.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..2a0dc58 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
@@ -118,9 +118,7 @@ impl Story {
                 // hence these things are incompatible, you can't have unsafe functions that
                 // cause snapshot rewinding in the middle of string generation.
                 //
-                self.add_error(&format!("External function {} could not be called because 1) it wasn't marked as lookaheadSafe when BindExternalFunction was called and 2) the story is in the middle of string generation, either because choice text is being generated, or because you have ink like \"hello {{func()}}\". You can work around this by generating the result of your function into a temporary variable before the string or choice gets generated: ~ temp x = {}()", func_name, func_name), false);
-
-                return Ok(());
+                return Err(StoryError::InvalidStoryState(format!("External function {} could not be called because 1) it wasn't marked as lookaheadSafe when BindExternalFunction was called and 2) the story is in the middle of string generation, either because choice text is being generated, or because you have ink like \"hello {{func()}}\". You can work around this by generating the result of your function into a temporary variable before the string or choice gets generated: ~ temp x = {}()", func_name, func_name)));
             }
 
             if !func_def.lookahead_safe && self.state_snapshot_at_last_new_line.is_some() {
@@ -158,7 +156,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
@@ -195,7 +193,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -230,7 +228,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -265,14 +263,16 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
         if let Some(divert) = divert
             && divert.is_external
         {
-            let name = divert.get_target_path_string().unwrap();
+            let name = divert.get_target_path_string().ok_or_else(|| {
+                StoryError::InvalidStoryState("External call without a name".to_owned())
+            })?;
 
             if !self.externals.contains_key(&name) {
                 if self.allow_external_function_fallbacks {
-- 
2.43.0


From 2059b92bd11fe6ad0d1c8649ee4ea8553d1fdb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 05/18] fix: diverts no longer keep their target alive, and
 paths convert to text and back

---
 runtime/src/container.rs | 22 ++++++++++-
 runtime/src/divert.rs    | 85 ++++++++++++++++++++++++----------------
 runtime/src/object.rs    | 26 +++++++-----
 runtime/src/path.rs      | 37 +++++++++--------
 runtime/src/pointer.rs   |  6 +--
 5 files changed, 107 insertions(+), 69 deletions(-)

diff --git a/runtime/src/container.rs b/runtime/src/container.rs
index 00b68f4..4a9e2c8 100644
--- a/runtime/src/container.rs
+++ b/runtime/src/container.rs
@@ -62,8 +62,28 @@ impl Container {
         c
     }
 
+    /// The number of objects in this container, this one included.
+    pub(crate) fn count_content(&self) -> usize {
+        let content: usize = self
+            .content
+            .iter()
+            .map(|o| {
+                o.as_any()
+                    .downcast_ref::<Container>()
+                    .map_or(1, |c| c.count_content())
+            })
+            .sum();
+        let named: usize = self
+            .get_named_only_content()
+            .values()
+            .map(|c| c.count_content())
+            .sum();
+
+        1 + content + named
+    }
+
     pub fn has_valid_name(&self) -> bool {
-        self.name.is_some() && !self.name.as_ref().unwrap().is_empty()
+        self.name.as_ref().is_some_and(|name| !name.is_empty())
     }
 
     pub fn build_string_of_hierarchy(
diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..9ff94a6 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
@@ -10,7 +14,8 @@ use crate::{
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    // Weak, since the target can be a container which (indirectly) owns this divert
+    target_pointer: RefCell<Option<(Weak<Container>, i32)>>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +42,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new(None),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -48,6 +53,11 @@ impl Divert {
     }
 
     pub fn get_target_path_string(self: &Rc<Self>) -> Option<String> {
+        // The target of an external call is just the name of the function
+        if self.is_external {
+            return self.target_path.borrow().as_ref().map(|p| p.to_string());
+        }
+
         self.get_target_path()
             .as_ref()
             .map(|p| self.compact_path_string(p))
@@ -80,39 +90,46 @@ impl Divert {
     }
 
     pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
-
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
-            }
+        if let Some((container, index)) = self.target_pointer.borrow().as_ref()
+            && let Some(container) = container.upgrade()
+        {
+            return Pointer::new(Some(container), *index);
+        }
+
+        let target_pointer = self.resolve_target_pointer();
+
+        if let Some(container) = &target_pointer.container {
+            self.target_pointer
+                .replace(Some((Rc::downgrade(container), target_pointer.index)));
         }
 
-        self.target_pointer.borrow().clone()
+        target_pointer
+    }
+
+    /// Finds the target in the content. It's null if there's no such target.
+    fn resolve_target_pointer(self: &Rc<Self>) -> Pointer {
+        let target_path = match self.target_path.borrow().as_ref() {
+            Some(target_path) => target_path.clone(),
+            None => return pointer::NULL.clone(),
+        };
+
+        let last_component = match target_path.get_last_component() {
+            Some(last_component) => last_component,
+            None => return pointer::NULL.clone(),
+        };
+
+        let target_obj = Object::resolve_path(self.clone(), &target_path).obj;
+
+        match last_component.index {
+            Some(index) => Pointer::new(
+                target_obj.get_object().get_parent(),
+                i32::try_from(index).unwrap_or(i32::MAX),
+            ),
+            None => match target_obj.into_any().downcast::<Container>() {
+                Ok(container) => Pointer::start_of(container),
+                Err(_) => pointer::NULL.clone(),
+            },
+        }
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d175b05..487d615 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -56,11 +56,14 @@ impl Object {
                 while let Some(c) = container {
                     let mut child_valid_name = false;
 
+                    // The name is no good if it belongs to another container
                     if let Some(cc) = child.downcast_ref::<Container>()
-                        && cc.has_valid_name()
+                        && let Some(name) = cc.name.as_ref()
+                        && let Some(named) = c.named_content.get(name)
+                        && std::ptr::eq(named.as_ref(), cc)
                     {
                         child_valid_name = true;
-                        comps.push(Component::new(cc.name.as_ref().unwrap()));
+                        comps.push(Component::new(name));
                     }
 
                     if !child_valid_name {
@@ -72,7 +75,7 @@ impl Object {
                                     let b = child as *const _ as *const ();
                                     std::ptr::eq(a, b)
                                 })
-                                .unwrap(),
+                                .unwrap_or_default(),
                         ));
                     }
 
@@ -116,9 +119,15 @@ impl Object {
                 p = path.get_tail();
             };
 
-            nearest_container.unwrap().content_at_path(&p, 0, -1)
+            match nearest_container {
+                Some(nearest_container) => nearest_container.content_at_path(&p, 0, -1),
+                None => SearchResult::new(rtobject, true),
+            }
         } else {
-            Object::get_root_container(rtobject).content_at_path(path, 0, -1)
+            match Object::get_root_container(rtobject.clone()) {
+                Some(root) => root.content_at_path(path, 0, -1),
+                None => SearchResult::new(rtobject, true),
+            }
         }
     }
 
@@ -184,17 +193,14 @@ impl Object {
         }
     }
 
-    pub fn get_root_container(rtobject: Rc<dyn RTObject>) -> Rc<Container> {
+    pub fn get_root_container(rtobject: Rc<dyn RTObject>) -> Option<Rc<Container>> {
         let mut ancestor = rtobject;
 
         while let Some(p) = ancestor.get_object().get_parent() {
             ancestor = p;
         }
 
-        match ancestor.into_any().downcast::<Container>() {
-            Ok(c) => c.clone(),
-            _ => panic!(), // Not possible
-        }
+        ancestor.into_any().downcast::<Container>().ok()
     }
 }
 
diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..d4f2f17 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -32,18 +32,14 @@ impl Path {
     }
 
     pub fn new_with_components_string(components_string: Option<&str>) -> Path {
-        let cs = components_string;
         let is_relative: bool;
 
         // Empty path, empty components
         // (path is to root, like "/" in file system)
-        if cs.is_none() || cs.as_ref().unwrap().is_empty() {
-            return Path {
-                ..Default::default()
-            };
-        }
-
-        let mut cs = cs.unwrap().to_string();
+        let mut cs = match components_string {
+            Some(cs) if !cs.is_empty() => cs,
+            _ => return Path::default(),
+        };
 
         // When components start with ".", it indicates a relative path, e.g.
         // .^.^.hello.5
@@ -52,11 +48,16 @@ impl Path {
 
         if cs.starts_with('.') {
             is_relative = true;
-            cs = cs[1..].to_string();
+            cs = &cs[1..];
         } else {
             is_relative = false;
         }
 
+        // Just a dot: the relative path to the object itself
+        if cs.is_empty() {
+            return Path::get_self();
+        }
+
         let component_string = cs.split('.');
         let mut components = Vec::new();
 
@@ -69,13 +70,10 @@ impl Path {
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
         Path {
             components,
             is_relative,
-            components_string: cs_cell,
+            ..Default::default()
         }
     }
 
@@ -133,7 +131,7 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
@@ -186,7 +184,8 @@ impl fmt::Display for Path {
 
 impl Hash for Path {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_string().hash(state)
+        self.is_relative.hash(state);
+        self.components.hash(state);
     }
 }
 
@@ -256,7 +255,7 @@ impl fmt::Display for Component {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let s = match self.index {
             Some(index) => index.to_string(),
-            None => self.name.as_ref().unwrap().to_string(),
+            None => self.name.clone().unwrap_or_default(),
         };
 
         write!(f, "{s}")
@@ -267,8 +266,8 @@ impl PartialEq for Component {
     fn eq(&self, other: &Self) -> bool {
         if other.is_index() == self.is_index() {
             match self.index {
-                Some(index) => return index == other.index.unwrap(),
-                None => return self.name.as_ref().unwrap().eq(other.name.as_ref().unwrap()),
+                Some(_) => return self.index == other.index,
+                None => return self.name == other.name,
             }
         }
 
@@ -280,7 +279,7 @@ impl Hash for Component {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.index {
             Some(index) => index.hash(state),
-            None => self.name.as_ref().unwrap().hash(state),
+            None => self.name.hash(state),
         }
     }
 }
diff --git a/runtime/src/pointer.rs b/runtime/src/pointer.rs
index 312696d..2bc4c03 100644
--- a/runtime/src/pointer.rs
+++ b/runtime/src/pointer.rs
@@ -40,11 +40,7 @@ impl Pointer {
     }
 
     pub fn get_path(&self) -> Option<Path> {
-        if self.is_null() {
-            return None;
-        }
-
-        let container = self.container.as_ref().unwrap();
+        let container = self.container.as_ref()?;
 
         if self.index >= 0 {
             let c = Component::new_i(self.index as usize);
-- 
2.43.0


From a099873ade5c0c40a38807ed1a761dba48648259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 06/18] fix: malformed story or save JSON is an error, and both
 loaders read JSON alike

---
 runtime/src/choice.rs                  |   3 +-
 runtime/src/ink_list_item.rs           |   2 +-
 runtime/src/json/json_read.rs          | 505 +++++++++++---------
 runtime/src/json/json_read_stream.rs   | 612 ++++++-------------------
 runtime/src/json/json_tokenizer.rs     | 260 +++++------
 runtime/src/json/json_write.rs         |  36 +-
 runtime/src/list_definitions_origin.rs |   3 +
 runtime/src/value.rs                   |  16 +-
 8 files changed, 595 insertions(+), 842 deletions(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..5523704 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -52,6 +52,7 @@ impl Choice {
     pub(crate) fn new_from_json(
         path_string_on_choice: &str,
         source_path: String,
+        is_invisible_default: bool,
         text: &str,
         index: usize,
         original_thread_index: usize,
@@ -60,7 +61,7 @@ impl Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/ink_list_item.rs b/runtime/src/ink_list_item.rs
index a4b98e3..35b56b3 100644
--- a/runtime/src/ink_list_item.rs
+++ b/runtime/src/ink_list_item.rs
@@ -14,7 +14,7 @@ impl InkListItem {
 
     pub fn from_full_name(full_name: &str) -> Self {
         let name_parts: Vec<&str> = full_name.split('.').collect();
-        let origin_name = if name_parts.len() > 1 {
+        let origin_name = if name_parts.len() > 1 && name_parts[0] != "?" {
             Some(name_parts[0].to_string())
         } else {
             None
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..f4dc9ec 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -34,24 +34,17 @@ pub fn load_from_string(
         Err(_) => return Err(StoryError::BadJson("Story not in JSON format.".to_owned())),
     };
 
-    let version_opt = json.get("inkVersion");
-
-    if version_opt.is_none() || !version_opt.unwrap().is_number() {
-        return Err(StoryError::BadJson(
-            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
-
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version: i32 = match json.get("inkVersion").filter(|v| v.is_number()) {
+        Some(version) => json_int(version)?,
+        None => {
+            return Err(StoryError::BadJson(
+                "ink version number not found. Are you sure it's a valid .ink.json file?"
+                    .to_owned(),
+            ));
+        }
+    };
 
-    if version > INK_VERSION_CURRENT {
-        return Err(StoryError::BadJson(
-            "Version of ink used to build story was newer than the current version of the engine"
-                .to_owned(),
-        ));
-    } else if version < INK_VERSION_MINIMUM_COMPATIBLE {
-        return Err(StoryError::BadJson("Version of ink used to build story is too old to be loaded by this version of the engine".to_owned()));
-    }
+    check_version(version)?;
 
     let root_token = match json.get("root") {
         Some(value) => value,
@@ -72,17 +65,65 @@ pub fn load_from_string(
 
     let main_content_container = jtoken_to_runtime_object(root_token, None)?;
 
-    let main_content_container = main_content_container.into_any().downcast::<Container>();
+    let main_content_container = main_content_container
+        .into_any()
+        .downcast::<Container>()
+        .map_err(|_| StoryError::BadJson("Root node for ink is not a container?".to_owned()))?;
+
+    Ok((version, main_content_container, list_definitions))
+}
 
-    if main_content_container.is_err() {
+pub(super) fn check_version(version: i32) -> Result<(), StoryError> {
+    if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
-            "Root node for ink is not a container?".to_owned(),
+            "Version of ink used to build story was newer than the current version of the engine"
+                .to_owned(),
         ));
-    };
+    } else if version < INK_VERSION_MINIMUM_COMPATIBLE {
+        return Err(StoryError::BadJson("Version of ink used to build story is too old to be loaded by this version of the engine".to_owned()));
+    }
 
-    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
+    Ok(())
+}
 
-    Ok((version, main_content_container, list_definitions))
+pub(super) fn json_int(value: &serde_json::Value) -> Result<i32, StoryError> {
+    value
+        .as_i64()
+        .and_then(|v| i32::try_from(v).ok())
+        .ok_or_else(|| StoryError::BadJson(format!("Expected a 32-bit integer: {}", value)))
+}
+
+fn json_index(value: &serde_json::Value) -> Result<usize, StoryError> {
+    value
+        .as_u64()
+        .and_then(|v| usize::try_from(v).ok())
+        .ok_or_else(|| StoryError::BadJson(format!("Expected a non-negative integer: {}", value)))
+}
+
+pub(super) fn json_str(value: &serde_json::Value) -> Result<&str, StoryError> {
+    value
+        .as_str()
+        .ok_or_else(|| StoryError::BadJson(format!("Expected a string: {}", value)))
+}
+
+fn json_obj(value: &serde_json::Value) -> Result<&Map<String, serde_json::Value>, StoryError> {
+    value
+        .as_object()
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an object: {}", value)))
+}
+
+fn json_array(value: &serde_json::Value) -> Result<&Vec<serde_json::Value>, StoryError> {
+    value
+        .as_array()
+        .ok_or_else(|| StoryError::BadJson(format!("Expected an array: {}", value)))
+}
+
+fn obj_field<'a>(
+    obj: &'a Map<String, serde_json::Value>,
+    key: &str,
+) -> Result<&'a serde_json::Value, StoryError> {
+    obj.get(key)
+        .ok_or_else(|| StoryError::BadJson(format!("{} not found.", key)))
 }
 
 pub fn jtoken_to_runtime_object(
@@ -97,11 +138,12 @@ pub fn jtoken_to_runtime_object(
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
             if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
-                Ok(Rc::new(Value::new::<i32>(val)))
+                Ok(Rc::new(Value::new::<i32>(json_int(token)?)))
             } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
-                Ok(Rc::new(Value::new::<f32>(val)))
+                let val = token.as_f64().ok_or_else(|| {
+                    StoryError::BadJson(format!("Number out of range: {}", token))
+                })?;
+                Ok(Rc::new(Value::new::<f32>(val as f32)))
             }
         }
 
@@ -109,10 +151,9 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if "\n".eq(str) {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
@@ -148,208 +189,219 @@ pub fn jtoken_to_runtime_object(
             )))
         }
         serde_json::Value::Array(value) => Ok(jarray_to_container(value, name)?),
-        serde_json::Value::Object(obj) => {
-            // Divert target value to path
-            let prop_value = obj.get("^->");
+        serde_json::Value::Object(obj) => jobject_to_runtime_object(obj),
+    }
+}
 
-            if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
-                )));
-            }
+pub(super) fn jobject_to_runtime_object(
+    obj: &Map<String, serde_json::Value>,
+) -> Result<Rc<dyn RTObject>, StoryError> {
+    // Divert target value to path
+    let prop_value = obj.get("^->");
 
-            // // VariablePointerValue
-            let prop_value = obj.get("^var");
+    if let Some(prop_value) = prop_value {
+        return Ok(Rc::new(Value::new::<Path>(
+            Path::new_with_components_string(Some(json_str(prop_value)?)),
+        )));
+    }
 
-            if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
-                let mut contex_index = -1;
-                let prop_value = obj.get("ci");
+    // // VariablePointerValue
+    let prop_value = obj.get("^var");
 
-                if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
-                }
+    if let Some(v) = prop_value {
+        let variable_name = json_str(v)?;
+        let mut contex_index = -1;
+        let prop_value = obj.get("ci");
 
-                let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
+        if let Some(v) = prop_value {
+            contex_index = json_int(v)?;
+        }
 
-                return Ok(var_ptr);
-            }
+        let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
 
-            // // Divert
-            let mut is_divert = false;
-            let mut pushes_to_stack = false;
-            let mut div_push_type = PushPopType::Function;
-            let mut external = false;
+        return Ok(var_ptr);
+    }
 
-            let mut prop_value = obj.get("->");
+    // // Divert
+    let mut is_divert = false;
+    let mut pushes_to_stack = false;
+    let mut div_push_type = PushPopType::Function;
+    let mut external = false;
+
+    let mut prop_value = obj.get("->");
+    if prop_value.is_some() {
+        is_divert = true;
+    } else {
+        prop_value = obj.get("f()");
+        if prop_value.is_some() {
+            is_divert = true;
+            pushes_to_stack = true;
+            div_push_type = PushPopType::Function;
+        } else {
+            prop_value = obj.get("->t->");
             if prop_value.is_some() {
                 is_divert = true;
+                pushes_to_stack = true;
+                div_push_type = PushPopType::Tunnel;
             } else {
-                prop_value = obj.get("f()");
+                prop_value = obj.get("x()");
                 if prop_value.is_some() {
                     is_divert = true;
-                    pushes_to_stack = true;
+                    external = true;
+                    pushes_to_stack = false;
                     div_push_type = PushPopType::Function;
-                } else {
-                    prop_value = obj.get("->t->");
-                    if prop_value.is_some() {
-                        is_divert = true;
-                        pushes_to_stack = true;
-                        div_push_type = PushPopType::Tunnel;
-                    } else {
-                        prop_value = obj.get("x()");
-                        if prop_value.is_some() {
-                            is_divert = true;
-                            external = true;
-                            pushes_to_stack = false;
-                            div_push_type = PushPopType::Function;
-                        }
-                    }
                 }
             }
+        }
+    }
 
-            if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
-
-                let mut var_divert_name: Option<String> = None;
-                let mut target_path: Option<String> = None;
+    if is_divert && let Some(target) = prop_value {
+        let target = json_str(target)?.to_string();
 
-                prop_value = obj.get("var");
+        let mut var_divert_name: Option<String> = None;
+        let mut target_path: Option<String> = None;
 
-                if prop_value.is_some() {
-                    var_divert_name = Some(target);
-                } else {
-                    target_path = Some(target);
-                }
+        prop_value = obj.get("var");
 
-                prop_value = obj.get("c");
-                let conditional = prop_value.is_some();
-                let mut external_args = 0;
+        if prop_value.is_some() {
+            var_divert_name = Some(target);
+        } else {
+            target_path = Some(target);
+        }
 
-                if external {
-                    prop_value = obj.get("exArgs");
-                    if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
-                    }
-                }
+        prop_value = obj.get("c");
+        let conditional = prop_value.is_some();
+        let mut external_args = 0;
 
-                return Ok(Rc::new(Divert::new(
-                    pushes_to_stack,
-                    div_push_type,
-                    external,
-                    external_args,
-                    conditional,
-                    var_divert_name,
-                    target_path.as_deref(),
-                )));
+        if external {
+            prop_value = obj.get("exArgs");
+            if let Some(prop_value) = prop_value {
+                external_args = json_index(prop_value)?;
             }
+        }
 
-            // Choice
-            let prop_value = obj.get("*");
-            if let Some(cp) = prop_value {
-                let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
-                let prop_value = obj.get("flg");
-                if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
-                }
+        return Ok(Rc::new(Divert::new(
+            pushes_to_stack,
+            div_push_type,
+            external,
+            external_args,
+            conditional,
+            var_divert_name,
+            target_path.as_deref(),
+        )));
+    }
 
-                return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
-                    path_string_on_choice,
-                )));
-            }
+    // Choice
+    let prop_value = obj.get("*");
+    if let Some(cp) = prop_value {
+        let mut flags = 0;
+        let path_string_on_choice = json_str(cp)?;
+        let prop_value = obj.get("flg");
+        if let Some(f) = prop_value {
+            flags = json_int(f)?;
+        }
 
-            // // Variable reference
-            let prop_value = obj.get("VAR?");
-            if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
-            }
+        return Ok(Rc::new(ChoicePoint::new(flags, path_string_on_choice)));
+    }
 
-            let prop_value = obj.get("CNT?");
-            if let Some(v) = prop_value {
-                return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
-                )));
-            }
+    // // Variable reference
+    let prop_value = obj.get("VAR?");
+    if let Some(name) = prop_value {
+        return Ok(Rc::new(VariableReference::new(json_str(name)?)));
+    }
 
-            // // Variable assignment
-            let mut is_var_ass = false;
-            let mut is_global_var = false;
+    let prop_value = obj.get("CNT?");
+    if let Some(v) = prop_value {
+        return Ok(Rc::new(VariableReference::from_path_for_count(json_str(
+            v,
+        )?)));
+    }
 
-            let mut prop_value = obj.get("VAR=");
-            match prop_value {
-                Some(_) => {
-                    is_var_ass = true;
-                    is_global_var = true;
-                }
-                None => {
-                    prop_value = obj.get("temp=");
-                    if prop_value.is_some() {
-                        is_var_ass = true;
-                        is_global_var = false;
-                    }
-                }
-            }
+    // // Variable assignment
+    let mut is_var_ass = false;
+    let mut is_global_var = false;
 
-            if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
-                let prop_value = obj.get("re");
-                let is_new_decl = prop_value.is_none();
-
-                let var_ass = Rc::new(VariableAssignment::new(
-                    var_name,
-                    is_new_decl,
-                    is_global_var,
-                ));
-                return Ok(var_ass);
+    let mut prop_value = obj.get("VAR=");
+    match prop_value {
+        Some(_) => {
+            is_var_ass = true;
+            is_global_var = true;
+        }
+        None => {
+            prop_value = obj.get("temp=");
+            if prop_value.is_some() {
+                is_var_ass = true;
+                is_global_var = false;
             }
+        }
+    }
 
-            // Legacy Tag
-            prop_value = obj.get("#");
-            if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
-            }
+    if is_var_ass && let Some(var_name) = prop_value {
+        let var_name = json_str(var_name)?;
+        let prop_value = obj.get("re");
+        let is_new_decl = prop_value.is_none();
 
-            // List value
-            prop_value = obj.get("list");
+        let var_ass = Rc::new(VariableAssignment::new(
+            var_name,
+            is_new_decl,
+            is_global_var,
+        ));
+        return Ok(var_ass);
+    }
 
-            if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
-                let mut raw_list = InkList::new();
+    // Legacy Tag
+    prop_value = obj.get("#");
+    if let Some(prop_value) = prop_value {
+        return Ok(Rc::new(Tag::new(json_str(prop_value)?)));
+    }
 
-                prop_value = obj.get("origins");
+    // List value
+    prop_value = obj.get("list");
 
-                if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
+    if let Some(pv) = prop_value {
+        let list_content = json_obj(pv)?;
+        let mut raw_list = InkList::new();
 
-                    let names = names_as_objs
-                        .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+        prop_value = obj.get("origins");
 
-                    raw_list.set_initial_origin_names(names);
-                }
+        if let Some(o) = prop_value {
+            let mut names = Vec::new();
 
-                for (k, v) in list_content {
-                    let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
-                }
-
-                return Ok(Rc::new(Value::new::<InkList>(raw_list)));
+            for name in json_array(o)? {
+                names.push(json_str(name)?.to_string());
             }
 
-            // Used when serialising save state only
-            if obj.get("originalChoicePath").is_some() {
-                return jobject_to_choice(obj);
-            }
+            raw_list.set_initial_origin_names(names);
+        }
 
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                token
-            )))
+        for (k, v) in list_content {
+            let item = InkListItem::from_full_name(k);
+            raw_list.items.insert(item, json_int(v)?);
         }
+
+        return Ok(Rc::new(Value::new::<InkList>(raw_list)));
+    }
+
+    // Used when serialising save state only
+    if obj.get("originalChoicePath").is_some() {
+        return Ok(jobject_to_choice(obj)?);
     }
+
+    // A float JSON has no number for
+    if let Some(prop_value) = obj.get("^f") {
+        return match json_str(prop_value)? {
+            "NaN" => Ok(Rc::new(Value::new::<f32>(f32::NAN))),
+            _ => Err(StoryError::BadJson(format!(
+                "Unknown float value: {}",
+                prop_value
+            ))),
+        };
+    }
+
+    Err(StoryError::BadJson(format!(
+        "Failed to convert token to runtime RTObject: {}",
+        serde_json::Value::Object(obj.clone())
+    )))
 }
 
 fn jarray_to_container(
@@ -360,7 +412,14 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = match jarray.last() {
+        Some(last) => last.as_object(),
+        None => {
+            return Err(StoryError::BadJson(
+                "A container needs at least its terminating element.".to_owned(),
+            ));
+        }
+    };
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -369,16 +428,22 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = json_int(v)?,
+                "#n" => {
+                    // Named content is called by its key
+                    let own_name = json_str(v)?;
+                    name = name.or_else(|| Some(own_name.to_string()));
+                }
+                "" => return Err(StoryError::BadJson("Named content without name".to_owned())),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| {
+                            StoryError::BadJson(format!("Named content {} is not a container", k))
+                        })?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -402,7 +467,7 @@ pub fn jarray_to_runtime_obj_list(
     let mut count = jarray.len();
 
     if skip_last {
-        count -= 1;
+        count = count.saturating_sub(1);
     }
 
     let mut list: Vec<Rc<dyn RTObject>> = Vec::with_capacity(jarray.len());
@@ -415,17 +480,32 @@ pub fn jarray_to_runtime_obj_list(
     Ok(list)
 }
 
-fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+pub(crate) fn jarray_to_choices(
+    jarray: &[serde_json::Value],
+) -> Result<Vec<Rc<Choice>>, StoryError> {
+    let mut choices = Vec::with_capacity(jarray.len());
+
+    for jtok in jarray {
+        choices.push(jobject_to_choice(json_obj(jtok)?)?);
+    }
+
+    Ok(choices)
+}
+
+fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<Choice>, StoryError> {
+    let text = json_str(obj_field(obj, "text")?)?;
+    let index = json_index(obj_field(obj, "index")?)?;
+    let source_path = json_str(obj_field(obj, "originalChoicePath")?)?;
+    let original_thread_index = json_index(obj_field(obj, "originalThreadIndex")?)?;
+    let path_string_on_choice = json_str(obj_field(obj, "targetPath")?)?;
+    // optional: only there if the choice isn't one to show
+    let is_invisible_default = obj.get("isInvisibleDefault").is_some();
+    let choice_tags = jarray_to_tags(obj)?;
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
         source_path.to_string(),
+        is_invisible_default,
         text,
         index,
         original_thread_index,
@@ -433,18 +513,17 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
-        for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+        for tag in json_array(pv)? {
+            tags.push(json_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -452,11 +531,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in json_obj(def)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in json_obj(list_def_json)? {
+            items.insert(k.clone(), json_int(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -477,7 +556,7 @@ pub(crate) fn jobject_to_hashmap_values(
             jtoken_to_runtime_object(v, None)?
                 .into_any()
                 .downcast::<Value>()
-                .unwrap(),
+                .map_err(|_| StoryError::BadJson(format!("{} is not a value", k)))?,
         );
     }
 
@@ -490,7 +569,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), json_int(v)?);
     }
 
     Ok(dict)
diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..08f9dc9 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -4,30 +4,17 @@
 
 use std::{collections::HashMap, rc::Rc};
 
+use serde_json::Map;
+
 use crate::{
-    choice_point::ChoicePoint,
-    container::Container,
-    control_command::ControlCommand,
-    divert::Divert,
-    glue::Glue,
-    ink_list::InkList,
-    ink_list_item::InkListItem,
-    list_definition::ListDefinition,
-    list_definitions_origin::ListDefinitionsOrigin,
-    native_function_call::NativeFunctionCall,
-    object::RTObject,
-    path::Path,
-    push_pop::PushPopType,
-    story::{INK_VERSION_CURRENT, INK_VERSION_MINIMUM_COMPATIBLE},
+    container::Container, list_definitions_origin::ListDefinitionsOrigin, object::RTObject,
     story_error::StoryError,
-    tag::Tag,
-    value::Value,
-    variable_assigment::VariableAssignment,
-    variable_reference::VariableReference,
-    void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::{
+    json_read,
+    json_tokenizer::{JsonTokenizer, JsonValue},
+};
 
 pub fn load_from_string(
     s: &str,
@@ -40,74 +27,74 @@ pub fn load_from_string(
 fn parse(
     tok: &mut JsonTokenizer,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
-    tok.expect('{')?;
+    let not_json = || StoryError::BadJson("Story not in JSON format.".to_owned());
 
-    let version_key = tok.read_obj_key()?;
+    let JsonValue::Object = tok.read_value()? else {
+        return Err(not_json());
+    };
 
-    if version_key != "inkVersion" {
-        return Err(StoryError::BadJson(
-            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
+    let mut version = None;
+    let mut root = None;
+    let mut list_defs = None;
+    let mut first = true;
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    while tok.next_element('}', first)? {
+        first = false;
 
-    if version > INK_VERSION_CURRENT {
-        return Err(StoryError::BadJson(
-            "Version of ink used to build story was newer than the current version of the engine"
-                .to_owned(),
-        ));
-    } else if version < INK_VERSION_MINIMUM_COMPATIBLE {
-        return Err(StoryError::BadJson(
-            "Version of ink used to build story is too old to be loaded by this version of the engine".to_owned(),
-        ));
+        let key = tok.read_obj_key()?;
+        let value = tok.read_value()?;
+
+        match key.as_str() {
+            "inkVersion" => {
+                let value = tok.read_whole_value(value)?;
+                let value = json_read::json_int(&value)?;
+                json_read::check_version(value)?;
+                version = Some(value);
+            }
+            "root" => root = Some(jtoken_to_runtime_object(tok, value, None)?),
+            "listDefs" => {
+                let value = tok.read_whole_value(value)?;
+                list_defs = Some(json_read::jtoken_to_list_definitions(&value)?);
+            }
+            _ => {
+                tok.read_whole_value(value)?;
+            }
+        }
     }
 
-    tok.expect(',')?;
+    tok.expect_end()?;
 
-    let root_key = tok.read_obj_key()?;
+    let version = version.ok_or_else(|| {
+        StoryError::BadJson(
+            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
+        )
+    })?;
 
-    if root_key != "root" {
-        return Err(StoryError::BadJson(
+    let root = root.ok_or_else(|| {
+        StoryError::BadJson(
             "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
+        )
+    })?;
 
-    let root_value = tok.read_value()?;
-    let main_content_container = match jtoken_to_runtime_object(tok, root_value, None)? {
-        ArrayElement::RTObject(rt_obj) => rt_obj,
-        _ => {
-            return Err(StoryError::BadJson(
-                "Root node for ink is not a container?".to_owned(),
-            ));
-        }
-    };
-
-    let main_content_container = main_content_container.into_any().downcast::<Container>();
-
-    if main_content_container.is_err() {
-        return Err(StoryError::BadJson(
-            "Root node for ink is not a container?".to_owned(),
-        ));
-    };
-
-    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
-
-    tok.expect(',')?;
-    let list_defs_key = tok.read_obj_key()?;
-
-    if list_defs_key != "listDefs" {
-        return Err(StoryError::BadJson(
+    let list_defs = list_defs.ok_or_else(|| {
+        StoryError::BadJson(
             "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
                 .to_owned(),
-        ));
-    }
-
-    let list_defs = Rc::new(jtoken_to_list_definitions(tok)?);
-
-    tok.expect('}')?;
+        )
+    })?;
+
+    let not_a_container =
+        || StoryError::BadJson("Root node for ink is not a container?".to_owned());
+
+    let main_content_container = match root {
+        ArrayElement::RTObject(rt_obj) => rt_obj
+            .into_any()
+            .downcast::<Container>()
+            .map_err(|_| not_a_container())?,
+        _ => return Err(not_a_container()),
+    };
 
-    Ok((version, main_content_container, list_defs))
+    Ok((version, main_content_container, Rc::new(list_defs)))
 }
 
 enum ArrayElement {
@@ -116,437 +103,128 @@ enum ArrayElement {
     NullElement,
 }
 
-type RuntimeObjectList = Vec<Rc<dyn RTObject>>;
-type RuntimeObjectListResult = Result<(RuntimeObjectList, Option<ArrayElement>), StoryError>;
-
 fn jtoken_to_runtime_object(
     tok: &mut JsonTokenizer,
     value: JsonValue,
     name: Option<String>,
 ) -> Result<ArrayElement, StoryError> {
     match value {
-        JsonValue::Null => Ok(ArrayElement::NullElement),
-        JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
-        JsonValue::Number(value) => {
-            if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
-            } else {
-                let val: f32 = value.as_float().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
-            }
-        }
-        JsonValue::String(value) => {
-            let str = value.as_str();
-
-            // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
-            }
-
-            // Glue
-            if "<>".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Glue::new())));
-            }
-
-            if let Some(control_command) = ControlCommand::new_from_name(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(control_command)));
-            }
-
-            // Native functions
-            // "^" conflicts with the way to identify strings, so now
-            // we know it's not a string, we can convert back to the proper
-            // symbol for the operator.
-            let mut call_str = str;
-            if "L^".eq(str) {
-                call_str = "^";
-            }
-            if let Some(native_function_call) = NativeFunctionCall::new_from_name(call_str) {
-                return Ok(ArrayElement::RTObject(Rc::new(native_function_call)));
-            }
-
-            // Void
-            if "void".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Void::new())));
-            }
-
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                str
-            )))
-        }
+        JsonValue::Scalar(serde_json::Value::Null) => Ok(ArrayElement::NullElement),
+        JsonValue::Scalar(value) => Ok(ArrayElement::RTObject(
+            json_read::jtoken_to_runtime_object(&value, None)?,
+        )),
         JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(tok, name)?)),
-        JsonValue::Object => {
-            let prop = tok.read_obj_key()?;
-            let prop_value = tok.read_value()?;
-
-            // Divert target value to path
-            if prop == "^->" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
-                ))));
-            }
-
-            // // VariablePointerValue
-            if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
-                let mut contex_index = -1;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ptr));
-            }
-
-            // // Divert
-            let mut is_divert = false;
-            let mut pushes_to_stack = false;
-            let mut div_push_type = PushPopType::Function;
-            let mut external = false;
-
-            if prop == "->" {
-                is_divert = true;
-            } else if prop == "f()" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Function;
-            } else if prop == "->t->" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Tunnel;
-            } else if prop == "x()" {
-                is_divert = true;
-                external = true;
-                pushes_to_stack = false;
-                div_push_type = PushPopType::Function;
-            }
-
-            if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
-
-                let mut var_divert_name: Option<String> = None;
-                let mut target_path: Option<String> = None;
-
-                let mut conditional = false;
-                let mut external_args = 0;
-
-                while tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    let prop = tok.read_obj_key()?;
-                    let prop_value = tok.read_value()?;
-
-                    // Variable target
-                    if prop == "var" {
-                        var_divert_name = Some(target.clone());
-                    } else if prop == "c" {
-                        conditional = true;
-                    } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
-                    }
-                }
-
-                if var_divert_name.is_none() {
-                    target_path = Some(target);
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Divert::new(
-                    pushes_to_stack,
-                    div_push_type,
-                    external,
-                    external_args,
-                    conditional,
-                    var_divert_name,
-                    target_path.as_deref(),
-                ))));
-            }
-
-            // Choice
-            if prop == "*" {
-                let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(ChoicePoint::new(
-                    flags,
-                    path_string_on_choice,
-                ))));
-            }
-
-            // Variable reference
-            if prop == "VAR?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
-
-            if prop == "CNT?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
-                )));
-            }
-
-            // Variable assignment
-            let mut is_var_ass = false;
-            let mut is_global_var = false;
-
-            if prop == "VAR=" {
-                is_var_ass = true;
-                is_global_var = true;
-            } else if prop == "temp=" {
-                is_var_ass = true;
-                is_global_var = false;
-            }
+        JsonValue::Object => jobject_to_array_element(tok),
+    }
+}
 
-            if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
-                let mut is_new_decl = true;
+/// An object is either the last element of a container, with the named content in it, or content
+/// small enough to be read at once.
+fn jobject_to_array_element(tok: &mut JsonTokenizer) -> Result<ArrayElement, StoryError> {
+    let mut fields: Map<String, serde_json::Value> = Map::new();
+    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
+    let mut first = true;
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("re")?;
-                    let _ = tok.read_boolean()?;
-                    is_new_decl = false;
-                }
+    while tok.next_element('}', first)? {
+        first = false;
 
-                let var_ass = Rc::new(VariableAssignment::new(
-                    var_name,
-                    is_new_decl,
-                    is_global_var,
-                ));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ass));
-            }
+        let key = tok.read_obj_key()?;
+        let value = tok.read_value()?;
 
-            // // Legacy Tag
-            if prop == "#" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
-                ))));
+        match value {
+            // The names of the lists an empty list value comes from
+            JsonValue::Array if key == "origins" && fields.contains_key("list") => {
+                fields.insert(key, tok.read_whole_value(value)?);
             }
-
-            // List value
-            if prop == "list" {
-                let list_content = parse_list(tok)?;
-                let mut raw_list = InkList::new();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("origins")?;
-
-                    // read array of strings
-                    tok.expect('[')?;
-
-                    let mut names = Vec::new();
-                    while tok.peek()? != ']' {
-                        let name = tok.read_string()?;
-                        names.push(name);
-
-                        if tok.peek()? != ']' {
-                            tok.expect(',')?;
-                        }
-                    }
-
-                    tok.expect(']')?;
-
-                    raw_list.set_initial_origin_names(names);
-                }
-
-                for (k, v) in list_content {
-                    let item = InkListItem::from_full_name(k.as_str());
-                    raw_list.items.insert(item, v);
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<InkList>(
-                    raw_list,
-                ))));
+            JsonValue::Array if key.is_empty() => {
+                return Err(StoryError::BadJson("Named content without name".to_owned()));
             }
-
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
+            JsonValue::Array => {
+                let container = jarray_to_container(tok, Some(key.clone()))?;
+                named_only_content.insert(key, container);
             }
-
-            // Last Element
-            let mut flags = 0;
-            let mut name: Option<String> = None;
-            let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
-
-            let mut p = prop.clone();
-            let mut pv = prop_value;
-
-            loop {
-                if p == "#f" {
-                    flags = pv.as_integer().unwrap();
-                } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
-                } else {
-                    let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
-
-                    let named_content_item = match named_content_item {
-                        ArrayElement::RTObject(rt_obj) => rt_obj,
-                        _ => {
-                            return Err(StoryError::BadJson(
-                                "Named content is not a runtime object".to_owned(),
-                            ));
-                        }
-                    };
-
-                    let named_sub_container = named_content_item
-                        .into_any()
-                        .downcast::<Container>()
-                        .unwrap();
-
-                    named_only_content.insert(p, named_sub_container);
-                }
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    p = tok.read_obj_key()?;
-                    pv = tok.read_value()?;
-                } else if tok.peek()? == '}' {
-                    tok.expect('}')?;
-                    return Ok(ArrayElement::LastElement(flags, name, named_only_content));
-                } else {
-                    break;
-                }
+            _ => {
+                fields.insert(key, tok.read_whole_value(value)?);
             }
-
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                prop
-            )))
         }
     }
-}
 
-fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
-    let mut list_content: HashMap<String, i32> = HashMap::new();
-
-    while tok.peek()? != '}' {
-        let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
-        list_content.insert(key, value);
+    let is_last_element = fields.keys().all(|key| key == "#f" || key == "#n");
 
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
+    if !is_last_element {
+        if !named_only_content.is_empty() {
+            return Err(StoryError::BadJson(
+                "Named content is not a container".to_owned(),
+            ));
         }
+
+        return Ok(ArrayElement::RTObject(
+            json_read::jobject_to_runtime_object(&fields)?,
+        ));
     }
 
-    tok.expect('}')?;
+    let flags = match fields.get("#f") {
+        Some(flags) => json_read::json_int(flags)?,
+        None => 0,
+    };
 
-    Ok(list_content)
+    let name = match fields.get("#n") {
+        Some(name) => Some(json_read::json_str(name)?.to_string()),
+        None => None,
+    };
+
+    Ok(ArrayElement::LastElement(flags, name, named_only_content))
 }
 
 fn jarray_to_container(
     tok: &mut JsonTokenizer,
     name: Option<String>,
-) -> Result<Rc<dyn RTObject>, StoryError> {
-    let (content, named) = jarray_to_runtime_obj_list(tok)?;
+) -> Result<Rc<Container>, StoryError> {
+    let mut content: Vec<Rc<dyn RTObject>> = Vec::new();
+    let mut last_element: Option<ArrayElement> = None;
 
     // Final object in the array is always a combination of
     //  - named content
     //  - a "#f" key with the countFlags
-
     // (if either exists at all, otherwise null)
-    // let terminating_obj = jarray[jarray.len() - 1].as_object();
-    let mut name: Option<String> = name;
-    let mut flags = 0;
-    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
-
-    if let Some(ArrayElement::LastElement(f, n, named_content)) = named {
-        flags = f;
-
-        if n.is_some() {
-            name = n;
-        }
-
-        named_only_content = named_content;
-    }
-
-    let container = Container::new(name, flags, content, named_only_content);
-    Ok(container)
-}
-
-fn jarray_to_runtime_obj_list(tok: &mut JsonTokenizer) -> RuntimeObjectListResult {
-    let mut list: RuntimeObjectList = Vec::new();
-    let mut last_element: Option<ArrayElement> = None;
-
-    while tok.peek()? != ']' {
-        let val = tok.read_value()?;
-        let runtime_obj = jtoken_to_runtime_object(tok, val, None)?;
-
-        match runtime_obj {
-            ArrayElement::LastElement(flags, name, named_only_content) => {
-                last_element = Some(ArrayElement::LastElement(flags, name, named_only_content));
-                break;
-            }
-            ArrayElement::RTObject(rt_obj) => list.push(rt_obj),
-            ArrayElement::NullElement => {
-                // Only the last element can be null
-                if tok.peek()? != ']' {
-                    return Err(StoryError::BadJson(
-                        "Only the last element can be null".to_owned(),
-                    ));
-                }
+    let mut last_is_object = false;
+    let mut first = true;
+
+    while tok.next_element(']', first)? {
+        first = false;
+
+        // So the previous one wasn't the final one
+        match last_element.take() {
+            Some(ArrayElement::RTObject(rt_obj)) => content.push(rt_obj),
+            Some(_) => {
+                return Err(StoryError::BadJson(
+                    "Only the last element can be null or named content".to_owned(),
+                ));
             }
+            None => {}
         }
 
-        if tok.peek()? != ']' {
-            tok.expect(',')?;
-        }
+        let value = tok.read_value()?;
+        last_is_object = matches!(value, JsonValue::Object);
+        last_element = Some(jtoken_to_runtime_object(tok, value, None)?);
     }
 
-    tok.expect(']')?;
-
-    Ok((list, last_element))
-}
-
-fn jtoken_to_list_definitions(
-    tok: &mut JsonTokenizer,
-) -> Result<ListDefinitionsOrigin, StoryError> {
-    let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
-
-    tok.expect('{')?;
-
-    while tok.peek()? != '}' {
-        let name = tok.read_obj_key()?;
-        tok.expect('{')?;
-
-        let items = parse_list(tok)?;
-        let def = ListDefinition::new(name, items);
-        all_defs.push(def);
-
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
+    match last_element {
+        Some(ArrayElement::LastElement(flags, n, named_only_content)) => Ok(Container::new(
+            // Named content is called by its key
+            name.or(n),
+            flags,
+            content,
+            named_only_content,
+        )),
+        Some(_) if !last_is_object => Ok(Container::new(name, 0, content, HashMap::new())),
+        Some(_) => Err(StoryError::BadJson(
+            "The last element of a container is not a terminating one".to_owned(),
+        )),
+        None => Err(StoryError::BadJson(
+            "A container needs at least its terminating element.".to_owned(),
+        )),
     }
-
-    tok.expect('}')?;
-
-    Ok(ListDefinitionsOrigin::new(&mut all_defs))
 }
 
 #[cfg(test)]
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..c455d18 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -1,65 +1,22 @@
 //! Tokenizer for the streamed JSON parser.
 use std::io::{self, Read};
 
-#[derive(Debug)]
-pub(super) enum Number {
-    Int(i32),
-    Float(f32),
-}
-
-impl Number {
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
-        }
-    }
-
-    pub(super) fn as_float(&self) -> Option<f32> {
-        match self {
-            Number::Int(n) => Some(*n as f32),
-            Number::Float(n) => Some(*n),
-        }
-    }
-
-    pub(super) fn is_integer(&self) -> bool {
-        match self {
-            Number::Int(_) => true,
-            Number::Float(_) => false,
-        }
-    }
-}
+/// Same limit as Serde's.
+const MAX_DEPTH: usize = 127;
 
 #[derive(Debug)]
 pub(super) enum JsonValue {
     Array,
     Object,
-    String(String),
-    Number(Number),
-    Boolean(bool),
-    Null,
-}
-
-impl JsonValue {
-    pub(super) fn as_str(&self) -> Option<&str> {
-        match self {
-            JsonValue::String(s) => Some(s),
-            _ => None,
-        }
-    }
-
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            JsonValue::Number(n) => n.as_integer(),
-            _ => None,
-        }
-    }
+    /// A string, number, boolean or null
+    Scalar(serde_json::Value),
 }
 
 pub(super) struct JsonTokenizer<'a> {
     json: &'a [u8],
     lookahead: Option<char>,
     skip_whitespaces: bool,
+    depth: usize,
 }
 
 impl<'a> JsonTokenizer<'a> {
@@ -68,6 +25,7 @@ impl<'a> JsonTokenizer<'a> {
             json: s.as_bytes(),
             lookahead: None,
             skip_whitespaces: true,
+            depth: 0,
         }
     }
 
@@ -87,7 +45,7 @@ impl<'a> JsonTokenizer<'a> {
         let c = loop {
             let c = self.read_utf8_char()?;
 
-            if !self.skip_whitespaces || !c.is_whitespace() {
+            if !self.skip_whitespaces || !is_json_whitespace(c) {
                 break c;
             }
         };
@@ -131,89 +89,37 @@ impl<'a> JsonTokenizer<'a> {
         }
     }
 
-    pub(super) fn read_boolean(&mut self) -> io::Result<bool> {
-        let string = self.read_until_separator()?;
+    fn read_literal(&mut self) -> io::Result<serde_json::Value> {
+        let literal = self.read_until_separator()?;
 
-        match string.trim() {
-            "true" => Ok(true),
-            "false" => Ok(false),
-            _ => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid boolean format",
-            )),
-        }
-    }
-
-    pub(super) fn read_null(&mut self) -> io::Result<()> {
-        let string = self.read_until_separator()?;
-
-        if string.trim() == "null" {
-            Ok(())
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid null format",
-            ))
-        }
-    }
-
-    pub(super) fn read_number(&mut self) -> io::Result<Number> {
-        let number_str = self.read_until_separator()?;
-        let number_str = number_str.trim();
-
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
-
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Invalid number format: '{}'", number_str),
-            )),
-        }
+        parse_scalar(&literal)
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
-        let mut result = String::new();
+        let mut literal = String::from('"');
         let mut escape = false;
 
         self.expect('"')?;
         self.skip_whitespaces = false;
 
-        while let Ok(c) = self.read() {
+        loop {
+            let c = self.read()?;
+            literal.push(c);
+
             if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
-                }
                 escape = false;
             } else if c == '\\' {
                 escape = true;
             } else if c == '"' {
-                self.skip_whitespaces = true;
                 break; // End of the quoted string
-            } else {
-                result.push(c);
             }
         }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+        self.skip_whitespaces = true;
+
+        match parse_scalar(&literal)? {
+            serde_json::Value::String(s) => Ok(s),
+            _ => Err(invalid_data(format!("Invalid string: {}", literal))),
         }
     }
 
@@ -229,81 +135,131 @@ impl<'a> JsonTokenizer<'a> {
 
         self.skip_whitespaces = true;
 
+        // The separator may be a whitespace, and nobody is waiting for it
+        self.lookahead = self.lookahead.filter(|c| !is_json_whitespace(*c));
+
         Ok(result)
     }
 
     fn next_is_separator(&mut self) -> bool {
         match self.peek() {
-            Ok(c) => c == ',' || c == '}' || c == ']',
+            Ok(c) => c == ',' || c == '}' || c == ']' || c == ':' || is_json_whitespace(c),
             Err(_) => true,
         }
     }
 
     pub(super) fn expect(&mut self, c: char) -> io::Result<()> {
-        while let Ok(c2) = self.read() {
-            if !c2.is_whitespace() {
-                if c2 == c {
-                    return Ok(());
-                } else {
-                    return Err(io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        format!("Expected '{}', found '{}'", c, c2),
-                    ));
-                }
-            }
+        let c2 = self.read()?;
+
+        if c2 == c {
+            Ok(())
+        } else {
+            Err(invalid_data(format!("Expected '{}', found '{}'", c, c2)))
         }
+    }
 
-        Err(io::Error::new(
-            io::ErrorKind::UnexpectedEof,
-            "Unexpected end of file",
-        ))
+    pub(super) fn expect_end(&mut self) -> io::Result<()> {
+        match self.peek() {
+            Ok(c) => Err(invalid_data(format!("Unexpected trailing '{}'", c))),
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(()),
+            Err(e) => Err(e),
+        }
     }
 
     pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
-        let s = self.read_string();
+        let s = self.read_string()?;
         self.expect(':')?;
-        s
+        Ok(s)
     }
 
-    pub(super) fn expect_obj_key(&mut self, expected: &str) -> io::Result<()> {
-        let s = self.read_string()?;
-        if s != expected {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Expected '{}', found '{}'", expected, s),
-            ));
+    fn enter(&mut self) -> io::Result<()> {
+        self.depth += 1;
+
+        if self.depth > MAX_DEPTH {
+            return Err(invalid_data("Nesting too deep".to_owned()));
         }
-        let _ = self.expect(':');
+
         Ok(())
     }
 
+    /// Moves to the next element of the array or object that ends in `close`. Returns false, with
+    /// the end already read, if there are no more elements.
+    pub(super) fn next_element(&mut self, close: char, first: bool) -> io::Result<bool> {
+        if self.peek()? == close {
+            self.expect(close)?;
+            self.depth = self.depth.saturating_sub(1);
+            return Ok(false);
+        }
+
+        if !first {
+            self.expect(',')?;
+
+            if self.peek()? == close {
+                return Err(invalid_data(format!("Unexpected '{}' after ','", close)));
+            }
+        }
+
+        Ok(true)
+    }
+
     pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
-        //self.skip_whitespaces()?;
         match self.peek()? {
             '[' => {
                 self.read()?;
+                self.enter()?;
                 Ok(JsonValue::Array)
             }
             '{' => {
                 self.read()?;
+                self.enter()?;
                 Ok(JsonValue::Object)
             }
             '"' => {
                 let s = self.read_string()?;
-                Ok(JsonValue::String(s))
+                Ok(JsonValue::Scalar(serde_json::Value::String(s)))
             }
-            't' | 'f' => {
-                let b = self.read_boolean()?;
-                Ok(JsonValue::Boolean(b))
-            }
-            'n' => {
-                self.read_null()?;
-                Ok(JsonValue::Null)
+            _ => Ok(JsonValue::Scalar(self.read_literal()?)),
+        }
+    }
+
+    /// Reads the rest of a value, for the small ones that don't need to be streamed.
+    pub(super) fn read_whole_value(&mut self, value: JsonValue) -> io::Result<serde_json::Value> {
+        match value {
+            JsonValue::Scalar(value) => Ok(value),
+            JsonValue::Array => {
+                let mut array = Vec::new();
+
+                while self.next_element(']', array.is_empty())? {
+                    let value = self.read_value()?;
+                    array.push(self.read_whole_value(value)?);
+                }
+
+                Ok(serde_json::Value::Array(array))
             }
-            _ => {
-                let n = self.read_number()?;
-                Ok(JsonValue::Number(n))
+            JsonValue::Object => {
+                let mut object = serde_json::Map::new();
+
+                while self.next_element('}', object.is_empty())? {
+                    let key = self.read_obj_key()?;
+                    let value = self.read_value()?;
+                    object.insert(key, self.read_whole_value(value)?);
+                }
+
+                Ok(serde_json::Value::Object(object))
             }
         }
     }
 }
+
+fn is_json_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\n' | '\t' | '\r')
+}
+
+fn invalid_data(msg: String) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, msg)
+}
+
+/// Strings, numbers, booleans and nulls mean the same as for the Serde based parser.
+fn parse_scalar(literal: &str) -> io::Result<serde_json::Value> {
+    serde_json::from_str(literal).map_err(|e| invalid_data(format!("{}: '{}'", e, literal)))
+}
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..be01f3a 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -53,11 +53,11 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
             }
         }
 
-        let target_str = if divert.has_variable_target() {
-            divert.variable_divert_name.clone().unwrap()
-        } else {
-            divert.get_target_path_string().unwrap()
-        };
+        let target_str = match divert.variable_divert_name.clone() {
+            Some(name) => Some(name),
+            None => divert.get_target_path_string(),
+        }
+        .ok_or_else(|| StoryError::BadJson("Divert without a target".to_owned()))?;
 
         let mut jobj: Map<String, serde_json::Value> = Map::new();
 
@@ -97,7 +97,7 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
-        return Ok(json!(v));
+        return Ok(write_float(v));
     }
 
     if let Some(v) = Value::get_value::<&StringValue>(o.as_ref()) {
@@ -246,6 +246,17 @@ pub fn write_rt_container(
     Ok(serde_json::Value::Array(c_array))
 }
 
+// JSON has no numbers for infinity and NaN
+fn write_float(v: f32) -> serde_json::Value {
+    if v.is_nan() {
+        json!({"^f": "NaN"})
+    } else if v.is_infinite() {
+        json!(f64::MAX.copysign(v.into()))
+    } else {
+        json!(v)
+    }
+}
+
 pub fn write_ink_list(list: &InkList) -> serde_json::Value {
     let mut jobj: Map<String, serde_json::Value> = Map::new();
 
@@ -266,6 +277,15 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // An empty list remembers which lists it came from
+    if list.items.is_empty() {
+        let origin_names = list.get_origin_names();
+
+        if !origin_names.is_empty() {
+            jobj.insert("origins".to_owned(), json!(origin_names));
+        }
+    }
+
     serde_json::Value::Object(jobj)
 }
 
@@ -284,6 +304,10 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
         json!(choice.target_path.to_string()),
     );
 
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
     serde_json::Value::Object(jobj)
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 53e4c0d..d45097e 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -15,6 +15,9 @@ impl ListDefinitionsOrigin {
             all_unambiguous_list_value_cache: HashMap::new(),
         };
 
+        // So that an ambiguous item name means the same list in every run
+        lists.sort_by(|a, b| a.get_name().cmp(b.get_name()));
+
         for list in lists {
             list_definitions_origin
                 .lists
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..e8c4f16 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -268,8 +268,20 @@ impl Value {
                 )),
             },
             ValueType::String(v) => match cast_dest_type {
-                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().unwrap()))),
-                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().unwrap()))),
+                CAST_INT => match v.string.parse::<i32>() {
+                    Ok(i) => Ok(Some(Self::new::<i32>(i))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Can't convert '{}' to an integer",
+                        v.string
+                    ))),
+                },
+                CAST_FLOAT => match v.string.parse::<f32>() {
+                    Ok(f) => Ok(Some(Self::new::<f32>(f))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Can't convert '{}' to a number",
+                        v.string
+                    ))),
+                },
                 CAST_STRING => Ok(None),
                 _ => Err(StoryError::InvalidStoryState(
                     "Cast not allowed for string".to_owned(),
-- 
2.43.0


From 40af081bc6c7d9f6bf498ff7d0b1512a046ace91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 07/18] fix: saves keep the whole state of every flow, and
 loading one checks it

---
 runtime/src/callstack.rs       | 121 ++++++++-----
 runtime/src/flow.rs            |  86 ++++++----
 runtime/src/story_state.rs     | 298 ++++++++++++++++++---------------
 runtime/src/variables_state.rs |  73 +++++---
 4 files changed, 348 insertions(+), 230 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..d9fa2f6 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -66,8 +66,8 @@ impl Thread {
         thread.thread_index = j_obj
             .get("threadIndex")
             .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
+            .and_then(|i| usize::try_from(i).ok())
+            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?;
 
         if let Some(j_thread_callstack) = j_obj
             .get("callstack")
@@ -79,8 +79,8 @@ impl Thread {
                         j_element_obj
                             .get("type")
                             .and_then(|t| t.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?
-                            as usize,
+                            .and_then(|t| usize::try_from(t).ok())
+                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?,
                     )?;
 
                     let mut pointer = pointer::NULL.clone();
@@ -98,8 +98,8 @@ impl Thread {
                         let pointer_index = j_element_obj
                             .get("idx")
                             .and_then(|i| i.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?
-                            as i32;
+                            .and_then(|i| i32::try_from(i).ok())
+                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?;
                         pointer.index = pointer_index;
 
                         if thread_pointer_result.approximate {
@@ -122,11 +122,25 @@ impl Thread {
                         el.temporary_variables.clear();
                     }
 
+                    // optional: only there if the function didn't start at the
+                    // beginning of the output
+                    if let Some(function_start) = j_element_obj.get("functionStart") {
+                        el.function_start_in_output_stream = function_start
+                            .as_i64()
+                            .and_then(|i| i32::try_from(i).ok())
+                            .ok_or(StoryError::BadJson("Invalid function start".to_owned()))?;
+                    }
+
                     thread.callstack.push(el);
                 }
             }
         }
 
+        // There's always a current element
+        if thread.callstack.is_empty() {
+            return Err(StoryError::BadJson("Empty thread callstack".to_owned()));
+        }
+
         if let Some(prev_content_obj_path) =
             j_obj.get("previousContentObject").and_then(|p| p.as_str())
         {
@@ -145,13 +159,10 @@ impl Thread {
         for el in self.callstack.iter() {
             let mut el_map: Map<String, serde_json::Value> = Map::new();
 
-            if !el.current_pointer.is_null() {
+            if let Some(container) = el.current_pointer.container.as_ref() {
                 el_map.insert(
                     "cPath".to_owned(),
-                    json!(
-                        Object::get_path(el.current_pointer.container.as_ref().unwrap().as_ref())
-                            .get_components_string()
-                    ),
+                    json!(Object::get_path(container.as_ref()).get_components_string()),
                 );
                 el_map.insert("idx".to_owned(), json!(el.current_pointer.index));
             }
@@ -165,18 +176,28 @@ impl Thread {
                 );
             }
 
+            if el.function_start_in_output_stream != 0 {
+                el_map.insert(
+                    "functionStart".to_owned(),
+                    json!(el.function_start_in_output_stream),
+                );
+            }
+
             cs_array.push(serde_json::Value::Object(el_map));
         }
 
         thread.insert("callstack".to_owned(), serde_json::Value::Array(cs_array));
         thread.insert("threadIndex".to_owned(), json!(self.thread_index));
 
-        if !self.previous_pointer.is_null() {
+        let previous_content_path = match self.previous_pointer.resolve() {
+            Some(previous_content) => Some(Object::get_path(previous_content.as_ref())),
+            None => self.previous_pointer.get_path(),
+        };
+
+        if let Some(previous_content_path) = previous_content_path {
             thread.insert(
                 "previousContentObject".to_owned(),
-                json!(
-                    Object::get_path(self.previous_pointer.resolve().unwrap().as_ref()).to_string()
-                ),
+                json!(previous_content_path.to_string()),
             );
         }
 
@@ -259,11 +280,10 @@ impl CallStack {
             return false;
         }
 
-        if t.is_none() {
-            return true;
+        match t {
+            Some(t) => self.get_current_element().push_pop_type == t,
+            None => true,
         }
-
-        self.get_current_element().push_pop_type == t.unwrap()
     }
 
     pub fn pop(&mut self, t: Option<PushPopType>) -> Result<(), StoryError> {
@@ -328,10 +348,16 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self
-            .get_callstack_mut()
-            .get_mut((context_index - 1) as usize)
-            .unwrap();
+        let context_element = context_index
+            .checked_sub(1)
+            .and_then(|index| usize::try_from(index).ok())
+            .and_then(|index| self.get_callstack_mut().get_mut(index))
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Could not find the context of temporary variable: {}",
+                    name
+                ))
+            })?;
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -377,10 +403,12 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
-
-        var_value.cloned()
+        context_index
+            .checked_sub(1)
+            .and_then(|index| usize::try_from(index).ok())
+            .and_then(|index| self.get_callstack().get(index))
+            .and_then(|context_element| context_element.temporary_variables.get(name))
+            .cloned()
     }
 
     pub fn push(
@@ -425,17 +453,33 @@ impl CallStack {
         main_content_container: &Rc<Container>,
         j_obj: &Map<String, serde_json::Value>,
     ) -> Result<(), StoryError> {
-        self.threads.clear();
-
-        let j_threads = j_obj.get("threads").unwrap();
+        let j_threads = j_obj
+            .get("threads")
+            .and_then(|t| t.as_array())
+            .ok_or(StoryError::BadJson("Invalid threads".to_owned()))?;
+
+        let mut threads = Vec::with_capacity(j_threads.len());
+
+        for j_thread_tok in j_threads.iter() {
+            let j_thread_obj = j_thread_tok
+                .as_object()
+                .ok_or(StoryError::BadJson("Invalid thread".to_owned()))?;
+            threads.push(Thread::from_json(main_content_container, j_thread_obj)?);
+        }
 
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
-            let thread = Thread::from_json(main_content_container, j_thread_obj)?;
-            self.threads.push(thread);
+        // There's always a current thread
+        if threads.is_empty() {
+            return Err(StoryError::BadJson("Callstack without threads".to_owned()));
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        // The next thread index is one more than the counter
+        self.thread_counter = j_obj
+            .get("threadCounter")
+            .and_then(|c| c.as_i64())
+            .and_then(|c| u32::try_from(c).ok())
+            .ok_or(StoryError::BadJson("Invalid thread counter".to_owned()))?
+            as usize;
+        self.threads = threads;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
@@ -463,11 +507,8 @@ impl CallStack {
 
                 let pointer = &element.current_pointer;
 
-                if !pointer.is_null() {
-                    sb.push_str(&format!(
-                        "<SOMEWHERE IN {}>\n",
-                        pointer.container.as_ref().unwrap().get_path()
-                    ))
+                if let Some(container) = pointer.container.as_ref() {
+                    sb.push_str(&format!("<SOMEWHERE IN {}>\n", container.get_path()))
                 }
             }
         }
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..f0d4791 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -17,6 +17,8 @@ pub(crate) struct Flow {
     pub callstack: Rc<RefCell<CallStack>>,
     pub output_stream: Vec<Rc<dyn RTObject>>,
     pub current_choices: Vec<Rc<Choice>>,
+    /// Where the evaluation stack is kept while this isn't the current flow.
+    pub evaluation_stack: Vec<Rc<dyn RTObject>>,
 }
 
 impl Flow {
@@ -26,6 +28,7 @@ impl Flow {
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container))),
             output_stream: Vec::new(),
             current_choices: Vec::new(),
+            evaluation_stack: Vec::new(),
         }
     }
 
@@ -40,31 +43,34 @@ impl Flow {
             output_stream: json_read::jarray_to_runtime_obj_list(
                 j_obj
                     .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+                    .and_then(|o| o.as_array())
+                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?,
                 false,
             )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
+            current_choices: json_read::jarray_to_choices(
                 j_obj
                     .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+                    .and_then(|o| o.as_array())
+                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?,
+            )?,
+            // optional: only there if the flow wasn't the current one
+            evaluation_stack: match j_obj.get("evalStack") {
+                Some(eval_stack) => json_read::jarray_to_runtime_obj_list(
+                    eval_stack
+                        .as_array()
+                        .ok_or(StoryError::BadJson("Invalid evalStack".to_owned()))?,
+                    false,
+                )?,
+                None => Vec::new(),
+            },
         };
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
             j_obj
                 .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+                .and_then(|c| c.as_object())
+                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -91,8 +97,10 @@ impl Flow {
         let mut has_choice_threads = false;
         let mut jct: Map<String, serde_json::Value> = Map::new();
         for c in self.current_choices.iter() {
-            c.original_thread_index
-                .replace(c.get_thread_at_generation().unwrap().thread_index);
+            let thread = c.get_thread_at_generation().ok_or_else(|| {
+                StoryError::InvalidStoryState("The choice has no saved thread".to_owned())
+            })?;
+            c.original_thread_index.replace(thread.thread_index);
 
             if self
                 .callstack
@@ -106,7 +114,7 @@ impl Flow {
 
                 jct.insert(
                     c.original_thread_index.borrow().to_string(),
-                    c.get_thread_at_generation().unwrap().write_json()?,
+                    thread.write_json()?,
                 );
             }
         }
@@ -125,6 +133,14 @@ impl Flow {
             serde_json::Value::Array(c_array),
         );
 
+        // evalStack: optional, the current flow's is in the state itself
+        if !self.evaluation_stack.is_empty() {
+            flow.insert(
+                "evalStack".to_owned(),
+                json_write::write_list_rt_objs(&self.evaluation_stack)?,
+            );
+        }
+
         Ok(serde_json::Value::Object(flow))
     }
 
@@ -134,24 +150,26 @@ impl Flow {
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
         for choice in self.current_choices.iter_mut() {
-            self.callstack
+            let original_thread_index = *choice.original_thread_index.borrow();
+            let active_thread = self
+                .callstack
                 .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
+                .get_thread_with_index(original_thread_index)
+                .cloned();
+
+            let thread = match active_thread {
+                Some(thread) => thread,
+                None => {
                     let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                        .and_then(|c| c.get(original_thread_index.to_string()))
+                        .and_then(|c| c.as_object())
+                        .ok_or(StoryError::BadJson("loading choice threads".to_owned()))?;
+
+                    Thread::from_json(&main_content_container, j_saved_choice_thread)?
+                }
+            };
+
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index dc607fc..fdfc654 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -43,6 +43,8 @@ pub(crate) struct StoryState {
     main_content_container: Rc<Container>,
     current_errors: Vec<String>,
     current_warnings: Vec<String>,
+    /// How many of the current warnings have already been reported to the host.
+    reported_warnings: usize,
     current_text: Option<String>,
     patch: Option<StatePatch>,
     named_flows: Option<HashMap<String, Flow>>,
@@ -78,6 +80,7 @@ impl StoryState {
             main_content_container,
             current_errors: Vec::with_capacity(0),
             current_warnings: Vec::with_capacity(0),
+            reported_warnings: 0,
             current_text: None,
             patch: None,
             named_flows: None,
@@ -405,7 +408,7 @@ impl StoryState {
 
         if has_patch {
             let curr_count = self.visit_count_for_container(container);
-            let new_count = curr_count + 1;
+            let new_count = curr_count.wrapping_add(1);
             self.patch
                 .as_mut()
                 .unwrap()
@@ -418,7 +421,7 @@ impl StoryState {
                 count = existing_count;
             }
 
-            count += 1;
+            count = count.wrapping_add(1);
             self.visit_counts.insert(container_path_str, count);
         }
     }
@@ -796,19 +799,14 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
+        // The copy of the state has its own copy of the named flows dictionary
         // (Assuming we're in multi-flow mode at all. If we're not then
         // the above copy is simply the default flow copy and we're done)
+        // (the current flow itself is never kept among the named ones)
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
 
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
@@ -817,6 +815,7 @@ impl StoryState {
 
         if self.has_warning() {
             copy.current_warnings = self.current_warnings.clone();
+            copy.reported_warnings = self.reported_warnings;
         }
 
         // ref copy - exactly the same variables state!
@@ -849,6 +848,23 @@ impl StoryState {
         copy
     }
 
+    /// A state of the same story into which a saved state can be loaded. It keeps
+    /// only what isn't part of a saved state.
+    pub fn new_for_loading(&self) -> StoryState {
+        let mut state = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+
+        state.variables_state = self.variables_state.new_for_loading(state.get_callstack());
+        state.current_errors = self.current_errors.clone();
+        state.current_warnings = self.current_warnings.clone();
+        state.reported_warnings = self.reported_warnings;
+        state.story_seed = self.story_seed;
+
+        state
+    }
+
     pub fn restore_after_patch(&mut self) {
         // VariablesState was being borrowed by the patched
         // state, so restore it with our own callstack.
@@ -859,23 +875,20 @@ impl StoryState {
     }
 
     pub fn apply_any_patch(&mut self) {
-        if self.patch.is_none() {
-            return;
-        }
+        let patch = match self.patch.take() {
+            Some(patch) => patch,
+            None => return,
+        };
 
         self.variables_state.apply_patch();
 
-        if self.patch.is_some() {
-            for (path, count) in self.patch.as_ref().unwrap().visit_counts.clone().iter() {
-                self.apply_count_changes(path, *count, true);
-            }
-
-            for (path, index) in self.patch.as_ref().unwrap().turn_indices.clone().iter() {
-                self.apply_count_changes(path, *index, false);
-            }
+        for (path, count) in patch.visit_counts.iter() {
+            self.apply_count_changes(path, *count, true);
         }
 
-        self.patch = None;
+        for (path, index) in patch.turn_indices.iter() {
+            self.apply_count_changes(path, *index, false);
+        }
     }
 
     fn apply_count_changes(&mut self, container: &str, new_count: i32, is_visit: bool) {
@@ -900,9 +913,9 @@ impl StoryState {
     }
 
     pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
-        self.evaluation_stack.pop().ok_or_else(|| {
-            StoryError::InvalidStoryState("Evaluation stack is empty.".to_owned())
-        })
+        self.evaluation_stack
+            .pop()
+            .ok_or_else(|| StoryError::InvalidStoryState("Evaluation stack is empty.".to_owned()))
     }
 
     pub fn pop_evaluation_stack_multiple(
@@ -930,18 +943,19 @@ impl StoryState {
         path: &Path,
         incrementing_turn_index: bool,
     ) -> Result<(), StoryError> {
-        // Changing direction, assume we need to clear current set of choices
-        self.current_flow.current_choices.clear();
-
+        // Resolve the path first: if it isn't valid, nothing must change
         let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
         if !new_pointer.is_null() && new_pointer.index == -1 {
             new_pointer.index = 0;
         }
 
+        // Changing direction, assume we need to clear current set of choices
+        self.current_flow.current_choices.clear();
+
         self.set_current_pointer(new_pointer);
 
         if incrementing_turn_index {
-            self.current_turn_index += 1;
+            self.current_turn_index = self.current_turn_index.wrapping_add(1);
         }
 
         Ok(())
@@ -952,6 +966,9 @@ impl StoryState {
 
         self.current_flow.current_choices.clear();
 
+        // Whatever was being evaluated is abandoned together with the callstack
+        self.evaluation_stack.clear();
+
         self.set_current_pointer(pointer::NULL.clone());
         self.set_previous_pointer(pointer::NULL.clone());
 
@@ -963,14 +980,6 @@ impl StoryState {
     // The start whitespace is discard as it is generated, and the end
     // whitespace is trimmed in one go here when we pop the function.
     fn trim_whitespace_from_function_end(&mut self) {
-        assert_eq!(
-            self.get_callstack()
-                .borrow()
-                .get_current_element()
-                .push_pop_type,
-            PushPopType::Function
-        );
-
         let function_start_point = match self
             .get_callstack()
             .borrow()
@@ -1011,6 +1020,8 @@ impl StoryState {
         func_container: Rc<Container>,
         arguments: Option<&Vec<ValueType>>,
     ) -> Result<(), StoryError> {
+        Self::check_arguments(arguments)?;
+
         self.get_callstack().borrow_mut().push(
             PushPopType::FunctionEvaluationFromGame,
             self.evaluation_stack.len(),
@@ -1026,10 +1037,28 @@ impl StoryState {
         Ok(())
     }
 
+    /// Checks that all the arguments are of a type that can be passed to ink.
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        for arg in arguments.into_iter().flatten() {
+            if matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            ) {
+                return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList.".to_owned()));
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
     ) -> Result<(), StoryError> {
+        // Check them all before passing any
+        Self::check_arguments(arguments)?;
+
         // Pass arguments onto the evaluation stack
         if let Some(arguments) = arguments {
             for arg in arguments {
@@ -1122,23 +1151,21 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                Object::get_path(container)
             )));
         }
 
         if let Some(patch) = self.patch.as_ref()
             && let Some(index) = patch.get_turn_index(container)
         {
-            return Ok(self.current_turn_index - index);
+            return Ok(self.current_turn_index.wrapping_sub(*index));
         }
 
         let container_path_str = Object::get_path(container).to_string();
 
-        if self.turn_indices.contains_key(&container_path_str) {
-            let index = *self.turn_indices.get(&container_path_str).unwrap();
-            Ok(self.current_turn_index - index)
-        } else {
-            Ok(-1)
+        match self.turn_indices.get(&container_path_str) {
+            Some(index) => Ok(self.current_turn_index.wrapping_sub(*index)),
+            None => Ok(-1),
         }
     }
 
@@ -1147,11 +1174,7 @@ impl StoryState {
             return;
         }
 
-        if self.named_flows.is_none() {
-            self.named_flows = Some(HashMap::new());
-        }
-
-        let named_flows = self.named_flows.as_mut().unwrap();
+        let named_flows = self.named_flows.get_or_insert_with(HashMap::new);
 
         // store the current flow and retrieve and remove the next flow
         let flow = named_flows.remove(flow_name);
@@ -1165,6 +1188,14 @@ impl StoryState {
         };
 
         std::mem::swap(&mut self.current_flow, &mut next_flow);
+
+        // A flow can be in the middle of an expression, so each one keeps its own
+        // pending values
+        next_flow.evaluation_stack = std::mem::replace(
+            &mut self.evaluation_stack,
+            std::mem::take(&mut self.current_flow.evaluation_stack),
+        );
+
         named_flows.insert(next_flow.name.clone(), next_flow);
 
         self.variables_state
@@ -1181,15 +1212,15 @@ impl StoryState {
             let container = self
                 .main_content_container
                 .content_at_path(&Path::new_with_components_string(Some(path_string)), 0, -1)
-                .container();
-            if container.is_none() {
-                return Err(StoryError::InvalidStoryState(format!(
-                    "Content at path not found: {}",
-                    path_string
-                )));
-            }
-
-            visit_count_out = patch.get_visit_count(container.as_ref().unwrap());
+                .container()
+                .ok_or_else(|| {
+                    StoryError::InvalidStoryState(format!(
+                        "Content at path not found: {}",
+                        path_string
+                    ))
+                })?;
+
+            visit_count_out = patch.get_visit_count(&container);
             if let Some(visit_count_out) = visit_count_out {
                 return Ok(visit_count_out);
             }
@@ -1220,12 +1251,6 @@ impl StoryState {
         // Flows
         let mut flows: Map<String, serde_json::Value> = Map::new();
 
-        // current flow
-        flows.insert(
-            self.current_flow.name.clone(),
-            self.current_flow.write_json()?,
-        );
-
         // named flows
         if let Some(named_flows) = &self.named_flows {
             for (k, v) in named_flows {
@@ -1233,6 +1258,12 @@ impl StoryState {
             }
         }
 
+        // current flow
+        flows.insert(
+            self.current_flow.name.clone(),
+            self.current_flow.write_json()?,
+        );
+
         obj.insert("flows".to_owned(), serde_json::Value::Object(flows));
 
         obj.insert("currentFlowName".to_owned(), json!(self.current_flow.name));
@@ -1245,15 +1276,10 @@ impl StoryState {
             json_write::write_list_rt_objs(&self.evaluation_stack)?,
         );
 
-        if !self.diverted_pointer.is_null() {
+        if let Some(divert_path) = self.diverted_pointer.get_path() {
             obj.insert(
                 "currentDivertTarget".to_owned(),
-                json!(
-                    self.diverted_pointer
-                        .get_path()
-                        .unwrap()
-                        .get_components_string()
-                ),
+                json!(divert_path.get_components_string()),
             );
         }
 
@@ -1288,9 +1314,11 @@ impl StoryState {
             }
         };
 
-        if let Some(version) = j_save_version.as_i64()
-            && version < MIN_COMPATIBLE_LOAD_VERSION as i64
-        {
+        let version = j_save_version.as_i64().ok_or_else(|| {
+            StoryError::BadJson("ink save format incorrect, can't load.".to_owned())
+        })?;
+
+        if version < MIN_COMPATIBLE_LOAD_VERSION as i64 {
             return Err(StoryError::BadJson(format!(
                 "Ink save format isn't compatible with the current version (saw '{}', but minimum is {}), so can't load.",
                 version, MIN_COMPATIBLE_LOAD_VERSION
@@ -1304,57 +1332,37 @@ impl StoryState {
                 .as_object()
                 .ok_or_else(|| StoryError::BadJson("Invalid flows object".to_string()))?;
 
-            // Single default flow
-            if flows_obj_dict.len() == 1 {
-                self.named_flows = None;
-            }
-            // Multi-flow, need to create flows dict
-            else if self.named_flows.is_none() {
-                self.named_flows = Some(HashMap::new());
-            }
-            // Multi-flow, already have a flows dict
-            else {
-                self.named_flows.as_mut().unwrap().clear();
-            }
-
             // Load up each flow (there may only be one)
-            for (named_flow_name, named_flow_obj) in flows_obj_dict.iter() {
-                let name = named_flow_name.clone();
+            let mut flows = HashMap::new();
+
+            for (name, named_flow_obj) in flows_obj_dict.iter() {
                 let flow_obj = named_flow_obj
                     .as_object()
                     .ok_or_else(|| StoryError::BadJson("Invalid flow object".to_string()))?;
 
                 // Load up this flow using JSON data
-                let flow = Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-
-                if flows_obj_dict.len() == 1 {
-                    self.current_flow =
-                        Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-                } else {
-                    self.named_flows
-                        .as_mut()
-                        .ok_or_else(|| {
-                            StoryError::BadJson("Named flows should be initialized".to_string())
-                        })?
-                        .insert(name, flow);
-                }
+                let flow = Flow::from_json(name, self.main_content_container.clone(), flow_obj)?;
+                flows.insert(name.clone(), flow);
             }
 
-            if let Some(named_flows) = &mut self.named_flows
-                && named_flows.len() > 1
-                && let Some(current_flow_name) = j_object.get("currentFlowName")
-                && let Some(curr_flow_name) = current_flow_name.as_str()
-                && let Some(curr_flow) = named_flows.get(curr_flow_name)
-            {
-                self.current_flow = curr_flow.clone();
-                named_flows.remove(curr_flow_name);
-            }
+            // With just one flow, that's the current one
+            let current_flow_name = match j_object.get("currentFlowName").and_then(|n| n.as_str()) {
+                Some(current_flow_name) if flows.len() > 1 => Some(current_flow_name.to_owned()),
+                _ if flows.len() > 1 => None,
+                _ => flows.keys().next().cloned(),
+            };
+
+            self.current_flow = current_flow_name
+                .and_then(|name| flows.remove(&name))
+                .ok_or_else(|| StoryError::BadJson("The current flow is missing".to_string()))?;
+
+            self.named_flows = if flows.is_empty() { None } else { Some(flows) };
         }
         // Old format: individually load up callstack, output stream, choices in
         // current/default flow
         else {
             self.named_flows = None;
-            self.current_flow.name = "default".to_owned(); // Replace with the default flow name
+            self.current_flow.name = DEFAULT_FLOW_NAME.to_owned();
             self.current_flow.callstack.borrow_mut().load_json(
                 &self.main_content_container,
                 j_object
@@ -1365,19 +1373,19 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    output_stream_obj
+                        .as_array()
+                        .ok_or_else(|| StoryError::BadJson("Invalid output stream".to_string()))?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices = json_read::jarray_to_choices(
+                    current_choices_obj
+                        .as_array()
+                        .ok_or_else(|| StoryError::BadJson("Invalid choices".to_string()))?,
+                )?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1395,13 +1403,18 @@ impl StoryState {
                 .load_json(variables_state_obj.as_object().ok_or_else(|| {
                     StoryError::BadJson("Invalid variables state object".to_string())
                 })?)?;
-            self.variables_state
-                .set_callstack(self.current_flow.callstack.clone());
         }
 
+        self.variables_state
+            .set_callstack(self.current_flow.callstack.clone());
+
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
-            self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+            self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                eval_stack_obj
+                    .as_array()
+                    .ok_or_else(|| StoryError::BadJson("Invalid evaluation stack".to_string()))?,
+                false,
+            )?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
@@ -1427,23 +1440,23 @@ impl StoryState {
         if let Some(current_turn_index) = j_object.get("turnIdx") {
             self.current_turn_index = current_turn_index
                 .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
-                as i32;
+                .and_then(|i| i32::try_from(i).ok())
+                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?;
         }
 
         if let Some(story_seed) = j_object.get("storySeed") {
             self.story_seed = story_seed
                 .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
-                as i32;
+                .and_then(|i| i32::try_from(i).ok())
+                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?;
         }
 
         // Not optional, but bug in inkjs means it's actually missing in inkjs saves
         if let Some(previous_random_obj) = j_object.get("previousRandom") {
             self.previous_random = previous_random_obj
                 .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
-                as i32;
+                .and_then(|i| i32::try_from(i).ok())
+                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?;
         } else {
             self.previous_random = 0;
         }
@@ -1463,7 +1476,17 @@ impl StoryState {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        let removed_flow = self
+            .named_flows
+            .as_mut()
+            .and_then(|named_flows| named_flows.remove(flow_name));
+
+        if removed_flow.is_none() {
+            return Err(StoryError::BadArgument(format!(
+                "There is no flow called '{flow_name}'"
+            )));
+        }
+
         self.alive_flow_names_dirty = true;
 
         Ok(())
@@ -1485,5 +1508,18 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
+        self.reported_warnings = 0;
+    }
+
+    /// The warnings that haven't been reported to the host yet.
+    pub(crate) fn get_unreported_warnings(&self) -> &[String] {
+        self.current_warnings
+            .get(self.reported_warnings..)
+            .unwrap_or_default()
+    }
+
+    pub(crate) fn mark_warnings_reported(&mut self) {
+        self.reported_warnings = self.current_warnings.len();
     }
 }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..104dd89 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     rc::Rc,
 };
 
@@ -17,6 +17,9 @@ use crate::{
     variable_assigment::VariableAssignment,
 };
 
+/// How many variable pointers are followed to find out what they point to.
+const MAX_POINTER_CHAIN: usize = 1000;
+
 #[derive(Clone)]
 pub(crate) struct VariablesState {
     pub global_variables: HashMap<String, Rc<Value>>,
@@ -44,23 +47,34 @@ impl VariablesState {
         }
     }
 
+    /// The same variables, with their default values.
+    pub fn new_for_loading(&self, callstack: &Rc<RefCell<CallStack>>) -> VariablesState {
+        let mut variables_state =
+            VariablesState::new(callstack.clone(), self.list_defs_origin.clone());
+
+        variables_state.global_variables = self.default_global_variables.clone();
+        variables_state.default_global_variables = self.default_global_variables.clone();
+
+        variables_state
+    }
+
     pub fn start_variable_observation(&mut self) {
         self.batch_observing_variable_changes = true;
         self.changed_variables_for_batch_obs = Some(HashSet::new());
     }
 
-    pub fn complete_variable_observation(&mut self) -> HashMap<String, ValueType> {
+    pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = HashMap::with_capacity(0);
+        let mut changed_vars = BTreeMap::new();
 
         // Finished observing variables in a batch - now send
         // notifications for changed variables all in one go.
         if let Some(changed_variables_for_batch_obs) = self.changed_variables_for_batch_obs.take() {
             for variable_name in changed_variables_for_batch_obs {
-                let current_value = self.global_variables.get(&variable_name).unwrap();
-
-                changed_vars.insert(variable_name, current_value.value.clone());
+                if let Some(current_value) = self.global_variables.get(&variable_name) {
+                    changed_vars.insert(variable_name, current_value.value.clone());
+                }
             }
         }
 
@@ -83,17 +97,20 @@ impl VariablesState {
     }
 
     pub fn apply_patch(&mut self) {
-        for (name, value) in self.patch.as_ref().unwrap().globals.iter() {
+        let patch = match self.patch.take() {
+            Some(patch) => patch,
+            None => return,
+        };
+
+        for (name, value) in patch.globals.iter() {
             self.global_variables.insert(name.clone(), value.clone());
         }
 
         if let Some(changed_variables) = &mut self.changed_variables_for_batch_obs {
-            for name in self.patch.as_ref().unwrap().changed_variables.iter() {
+            for name in patch.changed_variables.iter() {
                 changed_variables.insert(name.clone());
             }
         }
-
-        self.patch = None;
     }
 
     pub fn assign(
@@ -122,7 +139,7 @@ impl VariablesState {
             // Assign to an existing variable pointer
             // Then assign to the variable that the pointer is pointing to by name.
             // De-reference variable reference to point to
-            loop {
+            for _ in 0..MAX_POINTER_CHAIN {
                 let existing_pointer = self.get_raw_variable_with_name(&name, context_index);
 
                 match existing_pointer {
@@ -207,8 +224,8 @@ impl VariablesState {
     }
 
     pub fn get(&self, variable_name: &str) -> Option<ValueType> {
-        if self.patch.is_some()
-            && let Some(var) = self.patch.as_ref().unwrap().get_global(variable_name)
+        if let Some(patch) = &self.patch
+            && let Some(var) = patch.get_global(variable_name)
         {
             return Some(var.value.clone());
         }
@@ -300,7 +317,7 @@ impl VariablesState {
                 .insert(name.to_string(), value.clone());
         }
 
-        if old_value.is_none() || !Rc::ptr_eq(old_value.as_ref().unwrap(), &value) {
+        if !matches!(&old_value, Some(old_value) if Rc::ptr_eq(old_value, &value)) {
             if self.batch_observing_variable_changes {
                 if let Some(patch) = &mut self.patch {
                     patch.add_changed_variable(name);
@@ -316,19 +333,23 @@ impl VariablesState {
     }
 
     pub fn get_variable_with_name(&self, name: &str, context_index: i32) -> Option<Rc<Value>> {
-        let var_value = self.get_raw_variable_with_name(name, context_index);
+        let mut var_value = self.get_raw_variable_with_name(name, context_index)?;
+
         // Get value from pointer?
-        if let Some(vv) = var_value.clone()
-            && let Some(var_pointer) = Value::get_value::<&VariablePointerValue>(vv.as_ref())
-        {
-            return self.value_at_variable_pointer(var_pointer);
-        }
+        for _ in 0..MAX_POINTER_CHAIN {
+            let pointed_value = match Value::get_value::<&VariablePointerValue>(var_value.as_ref())
+            {
+                Some(pointer) => {
+                    self.get_raw_variable_with_name(&pointer.variable_name, pointer.context_index)?
+                }
+                None => return Some(var_value),
+            };
 
-        var_value
-    }
+            var_value = pointed_value;
+        }
 
-    fn value_at_variable_pointer(&self, pointer: &VariablePointerValue) -> Option<Rc<Value>> {
-        self.get_variable_with_name(&pointer.variable_name, pointer.context_index)
+        // A pointer which leads back to itself
+        None
     }
 
     pub fn set_callstack(&mut self, callstack: Rc<RefCell<CallStack>>) {
@@ -401,7 +422,9 @@ impl VariablesState {
                     json_read::jtoken_to_runtime_object(loaded_token, None)?
                         .into_any()
                         .downcast::<Value>()
-                        .unwrap(),
+                        .map_err(|_| {
+                            StoryError::BadJson(format!("Invalid value of variable {}", k))
+                        })?,
                 );
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
-- 
2.43.0


From d70312c44d5193679ef09aa866d35591f9d51d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 08/18] fix: errors and warnings are delivered once, when the
 line is completed

---
 runtime/src/story/errors.rs   |  12 +-
 runtime/src/story/mod.rs      |  20 ++-
 runtime/src/story/progress.rs | 238 ++++++++++++++++++----------------
 3 files changed, 145 insertions(+), 125 deletions(-)

diff --git a/runtime/src/story/errors.rs b/runtime/src/story/errors.rs
index f260700..be8f440 100644
--- a/runtime/src/story/errors.rs
+++ b/runtime/src/story/errors.rs
@@ -32,15 +32,9 @@ impl Story {
     pub(crate) fn add_error(&mut self, message: &str, is_warning: bool) {
         let error_type_str = if is_warning { "WARNING" } else { "ERROR" };
 
-        let m = if !self.get_state().get_current_pointer().is_null() {
-            format!(
-                "RUNTIME {}: ({}): {}",
-                error_type_str,
-                self.get_state().get_current_pointer().get_path().unwrap(),
-                message
-            )
-        } else {
-            format!("RUNTIME {}: {}", error_type_str, message)
+        let m = match self.get_state().get_current_pointer().get_path() {
+            Some(path) => format!("RUNTIME {}: ({}): {}", error_type_str, path, message),
+            None => format!("RUNTIME {}: {}", error_type_str, message),
         };
 
         self.get_state_mut().add_error(m, is_warning);
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index dfc7e08..2f90b23 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -30,6 +30,10 @@ pub struct Story {
     state: StoryState,
     temporary_evaluation_container: Option<Rc<Container>>,
     recursive_continue_count: usize,
+    // The global declarations can't loop, so they are over in this many steps
+    max_global_decl_steps: usize,
+    // Steps left before giving up, when there's such a limit
+    steps_left: Option<usize>,
     async_continue_active: bool,
     async_saving: bool,
     prev_containers: Vec<Rc<Container>>,
@@ -71,6 +75,8 @@ mod misc {
                 state: StoryState::new(main_content_container.clone(), list_definitions.clone()),
                 temporary_evaluation_container: None,
                 recursive_continue_count: 0,
+                max_global_decl_steps: main_content_container.count_content() + 100,
+                steps_left: None,
                 async_continue_active: false,
                 async_saving: false,
                 saw_lookahead_unsafe_function_after_new_line: false,
@@ -136,13 +142,13 @@ mod misc {
                     ));
                 };
 
-            let seq_container =
-                self.get_state()
-                    .get_current_pointer()
-                    .container
-                    .ok_or_else(|| {
-                        StoryError::InvalidStoryState("Shuffle outside of a sequence".to_owned())
-                    })?;
+            let seq_container = self
+                .get_state()
+                .get_current_pointer()
+                .container
+                .ok_or_else(|| {
+                    StoryError::InvalidStoryState("Shuffle outside of a sequence".to_owned())
+                })?;
 
             let seq_count = if let Some(v) =
                 Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..538b95e 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,13 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        // Refuse the call before touching any of the continue bookkeeping.
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,11 +84,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
@@ -133,6 +135,7 @@ impl Story {
         }
 
         let mut changed_variables_to_observe = None;
+        let mut completed = false;
 
         // 4 outcomes:
         // - got newline (so finished this line of text)
@@ -193,6 +196,7 @@ impl Story {
             }
 
             self.async_continue_active = false;
+            completed = true;
         }
 
         self.recursive_continue_count -= 1;
@@ -200,7 +204,11 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // While an async continue is unfinished there may still be a snapshot to
+        // go back to, so nothing is reported until the line is complete.
+        let mut result = Ok(());
+
+        if completed && (self.get_state().has_error() || self.get_state().has_warning()) {
             match &self.on_error {
                 Some(on_err) => {
                     if self.get_state().has_error() {
@@ -210,14 +218,15 @@ impl Story {
                     }
 
                     if self.get_state().has_warning() {
-                        for err in self.get_state().get_current_warnings() {
+                        for err in self.get_state().get_unreported_warnings() {
                             on_err.borrow_mut().error(err, ErrorType::Warning);
                         }
                     }
 
                     self.reset_errors();
                 }
-                // No error handler: throw for errors, silently discard warnings
+                // No error handler: throw for errors, which stay readable until the
+                // story is reset; warnings stay readable, but aren't reported again.
                 None => {
                     if self.get_state().has_error() {
                         let mut sb = String::new();
@@ -245,12 +254,10 @@ impl Story {
                         }
                         sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
-                        return Err(StoryError::InvalidStoryState(sb));
+                        result = Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
-                    // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
+
+                    self.get_state_mut().mark_warnings_reported();
                 }
             }
         }
@@ -262,10 +269,20 @@ impl Story {
             }
         }
 
-        Ok(())
+        result
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
+        match self.steps_left {
+            Some(0) => {
+                return Err(StoryError::InvalidStoryState(
+                    "The global declarations never end".to_owned(),
+                ));
+            }
+            Some(steps) => self.steps_left = Some(steps - 1),
+            None => {}
+        }
+
         // Run main step function (walks through content)
         self.step()?;
 
@@ -422,15 +439,16 @@ impl Story {
         }
 
         // Content to add to evaluation stack or the output stream
-        if should_add_to_stream {
+        if should_add_to_stream && let Some(content_obj) = current_content_obj.clone() {
+            let mut content_obj = content_obj;
+
             // If we're pushing a variable pointer onto the evaluation stack,
             // ensure that it's specific
             // to our current (possibly temporary) context index. And make a
             // copy of the pointer
             // so that we're not editing the original runtime Object.
-            let var_pointer = Value::get_value::<&VariablePointerValue>(
-                current_content_obj.as_ref().unwrap().as_ref(),
-            );
+            let var_pointer =
+                Value::get_value::<&VariablePointerValue>(content_obj.as_ref()).cloned();
 
             if let Some(var_pointer) = var_pointer
                 && var_pointer.context_index == -1
@@ -442,21 +460,20 @@ impl Story {
                     .get_callstack()
                     .borrow()
                     .context_for_variable_named(&var_pointer.variable_name);
-                current_content_obj = Some(Rc::new(Value::new_variable_pointer(
+                content_obj = Rc::new(Value::new_variable_pointer(
                     &var_pointer.variable_name,
                     context_idx as i32,
-                )));
+                ));
+                current_content_obj = Some(content_obj.clone());
             }
 
             // Expression evaluation content
             if self.get_state().get_in_expression_evaluation() {
-                self.get_state_mut()
-                    .push_evaluation_stack(current_content_obj.as_ref().unwrap().clone());
+                self.get_state_mut().push_evaluation_stack(content_obj);
             }
             // Output stream content (i.e. not expression evaluation)
             else {
-                self.get_state_mut()
-                    .push_to_output_stream(current_content_obj.as_ref().unwrap().clone());
+                self.get_state_mut().push_to_output_stream(content_obj);
             }
         }
 
@@ -480,88 +497,90 @@ impl Story {
     }
 
     pub(crate) fn next_content(&mut self) -> Result<(), StoryError> {
-        // Setting previousContentObject is critical for
-        // VisitChangedContainersDueToDivert
-        let cp = self.get_state().get_current_pointer();
-        self.get_state_mut().set_previous_pointer(cp);
-
-        // Divert step?
-        if !self.get_state().diverted_pointer.is_null() {
-            let dp = self.get_state().diverted_pointer.clone();
-            self.get_state_mut().set_current_pointer(dp);
-            self.get_state_mut()
-                .set_diverted_pointer(pointer::NULL.clone());
-
-            // Internally uses state.previousContentObject and
-            // state.currentContentObject
-            self.visit_changed_containers_due_to_divert();
-
-            // Diverted location has valid content?
-            if !self.get_state().get_current_pointer().is_null() {
-                return Ok(());
-            }
+        loop {
+            // Setting previousContentObject is critical for
+            // VisitChangedContainersDueToDivert
+            let cp = self.get_state().get_current_pointer();
+            self.get_state_mut().set_previous_pointer(cp);
+
+            // Divert step?
+            if !self.get_state().diverted_pointer.is_null() {
+                let dp = self.get_state().diverted_pointer.clone();
+                self.get_state_mut().set_current_pointer(dp);
+                self.get_state_mut()
+                    .set_diverted_pointer(pointer::NULL.clone());
 
-            // Otherwise, if diverted location doesn't have valid content,
-            // drop down and attempt to increment.
-            // This can happen if the diverted path is intentionally jumping
-            // to the end of a container - e.g. a Conditional that's
-            // re-joining
-        }
+                // Internally uses state.previousContentObject and
+                // state.currentContentObject
+                self.visit_changed_containers_due_to_divert();
 
-        let successful_pointer_increment = self.increment_content_pointer();
+                // Diverted location has valid content?
+                if !self.get_state().get_current_pointer().is_null() {
+                    return Ok(());
+                }
 
-        // Ran out of content? Try to auto-exit from a function,
-        // or finish evaluating the content of a thread
-        if !successful_pointer_increment {
-            let mut did_pop = false;
+                // Otherwise, if diverted location doesn't have valid content,
+                // drop down and attempt to increment.
+                // This can happen if the diverted path is intentionally jumping
+                // to the end of a container - e.g. a Conditional that's
+                // re-joining
+            }
 
-            let can_pop_type = self
-                .get_state()
-                .get_callstack()
-                .as_ref()
-                .borrow()
-                .can_pop_type(Some(PushPopType::Function));
-            if can_pop_type {
-                // Pop from the call stack
-                self.get_state_mut()
-                    .pop_callstack(Some(PushPopType::Function))?;
+            let successful_pointer_increment = self.increment_content_pointer();
+
+            // Ran out of content? Try to auto-exit from a function,
+            // or finish evaluating the content of a thread
+            if !successful_pointer_increment {
+                let mut did_pop = false;
 
-                // This pop was due to dropping off the end of a function that
-                // didn't return anything,
-                // so in this case, we make sure that the evaluator has
-                // something to chomp on if it needs it
-                if self.get_state().get_in_expression_evaluation() {
+                let can_pop_type = self
+                    .get_state()
+                    .get_callstack()
+                    .as_ref()
+                    .borrow()
+                    .can_pop_type(Some(PushPopType::Function));
+                if can_pop_type {
+                    // Pop from the call stack
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Void::new()));
-                }
+                        .pop_callstack(Some(PushPopType::Function))?;
+
+                    // This pop was due to dropping off the end of a function that
+                    // didn't return anything,
+                    // so in this case, we make sure that the evaluator has
+                    // something to chomp on if it needs it
+                    if self.get_state().get_in_expression_evaluation() {
+                        self.get_state_mut()
+                            .push_evaluation_stack(Rc::new(Void::new()));
+                    }
 
-                did_pop = true;
-            } else if self
-                .get_state()
-                .get_callstack()
-                .as_ref()
-                .borrow()
-                .can_pop_thread()
-            {
-                self.get_state()
+                    did_pop = true;
+                } else if self
+                    .get_state()
                     .get_callstack()
                     .as_ref()
-                    .borrow_mut()
-                    .pop_thread()?;
+                    .borrow()
+                    .can_pop_thread()
+                {
+                    self.get_state()
+                        .get_callstack()
+                        .as_ref()
+                        .borrow_mut()
+                        .pop_thread()?;
 
-                did_pop = true;
-            } else {
-                self.get_state_mut()
-                    .try_exit_function_evaluation_from_game();
-            }
+                    did_pop = true;
+                } else {
+                    self.get_state_mut()
+                        .try_exit_function_evaluation_from_game();
+                }
 
-            // Step past the point where we last called out
-            if did_pop && !self.get_state().get_current_pointer().is_null() {
-                self.next_content()?;
+                // Step past the point where we last called out
+                if did_pop && !self.get_state().get_current_pointer().is_null() {
+                    continue;
+                }
             }
-        }
 
-        Ok(())
+            return Ok(());
+        }
     }
 
     pub(crate) fn increment_content_pointer(&self) -> bool {
@@ -575,9 +594,12 @@ impl Story {
             .get_current_element()
             .current_pointer
             .clone();
-        pointer.index += 1;
+        pointer.index = pointer.index.saturating_add(1);
 
-        let mut container = pointer.container.as_ref().unwrap().clone();
+        let mut container = match pointer.container.as_ref() {
+            Some(container) => container.clone(),
+            None => return false,
+        };
 
         // Each time we step off the end, we fall out to the next container, all
         // the
@@ -585,25 +607,23 @@ impl Story {
         while pointer.index >= container.content.len() as i32 {
             successful_increment = false;
 
-            let next_ancestor = container.get_object().get_parent();
-
-            if next_ancestor.is_none() {
-                break;
-            }
+            let next_ancestor = match container.get_object().get_parent() {
+                Some(ancestor) => ancestor,
+                None => break,
+            };
 
             let rto: Rc<dyn RTObject> = container;
-            let index_in_ancestor = next_ancestor
-                .as_ref()
-                .unwrap()
+            let index_in_ancestor = match next_ancestor
                 .content
                 .iter()
-                .position(|s| Rc::ptr_eq(s, &rto));
-            if index_in_ancestor.is_none() {
-                break;
-            }
+                .position(|s| Rc::ptr_eq(s, &rto))
+            {
+                Some(index) => index,
+                None => break,
+            };
 
-            pointer = Pointer::new(next_ancestor, index_in_ancestor.unwrap() as i32);
-            container = pointer.container.as_ref().unwrap().clone();
+            pointer = Pointer::new(Some(next_ancestor.clone()), index_in_ancestor as i32);
+            container = next_ancestor;
 
             // Increment to next content in outer container
             pointer.index += 1;
-- 
2.43.0


From fabbfcf2688bc9aceecac78f79f01b1ee6aaa497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 09/18] fix: rejected host calls change nothing

---
 runtime/src/story/choices.rs            | 18 ++++--
 runtime/src/story/control_logic.rs      | 26 +++++----
 runtime/src/story/external_functions.rs |  5 +-
 runtime/src/story/flow.rs               |  9 ++-
 runtime/src/story/navigation.rs         | 78 +++++++++++++++++--------
 runtime/src/story/state.rs              | 35 ++++++++---
 runtime/src/story/tags.rs               |  4 +-
 runtime/src/story/variable_observer.rs  | 38 +++++++-----
 8 files changed, 144 insertions(+), 69 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index a96961d..f7d2580 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
@@ -22,11 +24,18 @@ impl Story {
         // This is important in case the flow was forked by a new thread, which
         // can create multiple leading edges for the story, each of
         // which has its own context.
-        let choice_to_choose = choices.get(choice_index).unwrap();
+        let choice_to_choose = &choices[choice_index];
+        let choice_thread = choice_to_choose.get_thread_at_generation().ok_or_else(|| {
+            StoryError::InvalidStoryState("The choice has no saved thread".to_owned())
+        })?;
+
+        // Make sure that the choice leads somewhere before changing anything
+        Story::pointer_at_path(&self.main_content_container, &choice_to_choose.target_path)?;
+
         self.get_state()
             .get_callstack()
             .borrow_mut()
-            .set_current_thread(choice_to_choose.get_thread_at_generation().unwrap());
+            .set_current_thread(choice_thread);
 
         self.choose_path(&choice_to_choose.target_path, true)?;
 
@@ -163,10 +172,7 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(
-        &mut self,
-        tags: &mut Vec<String>,
-    ) -> Result<String, StoryError> {
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
         let obj = self.get_state_mut().pop_evaluation_stack()?;
         let choice_only_str_val =
             Value::get_value::<&StringValue>(obj.as_ref()).ok_or_else(|| {
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index b7a2810..b3c86c5 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -224,7 +224,9 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap_or_else(|| "end of function called from the game".to_owned())
+                            expected.unwrap_or_else(
+                                || "end of function called from the game".to_owned()
+                            )
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -306,7 +308,9 @@ impl Story {
                 CommandType::Turns => {
                     let current_turn = self.get_state().current_turn_index;
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn.wrapping_add(1))));
+                        .push_evaluation_stack(Rc::new(Value::new::<i32>(
+                            current_turn.wrapping_add(1),
+                        )));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
                     let target = self.get_state_mut().pop_evaluation_stack()?;
@@ -443,15 +447,15 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc =
-                        self.get_state()
-                            .get_current_pointer()
-                            .container
-                            .ok_or_else(|| {
-                                StoryError::InvalidStoryState(
-                                    "Visit index requested outside of any container".to_owned(),
-                                )
-                            })?;
+                    let cpc = self
+                        .get_state()
+                        .get_current_pointer()
+                        .container
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "Visit index requested outside of any container".to_owned(),
+                            )
+                        })?;
                     let count = self
                         .get_state_mut()
                         .visit_count_for_container(&cpc)
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 2a0dc58..46092d9 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -118,7 +118,10 @@ impl Story {
                 // hence these things are incompatible, you can't have unsafe functions that
                 // cause snapshot rewinding in the middle of string generation.
                 //
-                return Err(StoryError::InvalidStoryState(format!("External function {} could not be called because 1) it wasn't marked as lookaheadSafe when BindExternalFunction was called and 2) the story is in the middle of string generation, either because choice text is being generated, or because you have ink like \"hello {{func()}}\". You can work around this by generating the result of your function into a temporary variable before the string or choice gets generated: ~ temp x = {}()", func_name, func_name)));
+                return Err(StoryError::InvalidStoryState(format!(
+                    "External function {} could not be called because 1) it wasn't marked as lookaheadSafe when BindExternalFunction was called and 2) the story is in the middle of string generation, either because choice text is being generated, or because you have ink like \"hello {{func()}}\". You can work around this by generating the result of your function into a temporary variable before the string or choice gets generated: ~ temp x = {}()",
+                    func_name, func_name
+                )));
             }
 
             if !func_def.lookahead_safe && self.state_snapshot_at_last_new_line.is_some() {
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..8b431d9 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
-    /// later.
+    /// later. Does nothing in the middle of a
+    /// [`continue_async`](Story::continue_async).
     pub fn switch_to_default_flow(&mut self) {
+        if self.async_continue_active {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..77e972a 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,9 +69,7 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
-        if reset_call_stack {
-            self.reset_callstack()?;
-        } else {
+        if !reset_call_stack {
             // ChoosePathString is potentially dangerous since you can call it when the
             // stack is
             // pretty much in any state. Let's catch one of the worst offenders.
@@ -106,9 +105,26 @@ impl Story {
             }
         }
 
+        // Check everything that can be wrong with the call before changing anything
+        StoryState::check_arguments(args)?;
+
+        let target_path = Path::new_with_components_string(Some(path));
+        if Story::pointer_at_path(&self.main_content_container, &target_path)?
+            .resolve()
+            .is_none()
+        {
+            return Err(StoryError::BadArgument(format!(
+                "There is no content at path '{path}'."
+            )));
+        }
+
+        if reset_call_stack {
+            self.reset_callstack()?;
+        }
+
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target_path, true)?;
 
         Ok(())
     }
@@ -133,22 +149,30 @@ impl Story {
         }
 
         // Get the content that we need to run
-        let func_container = self.knot_container_with_name(func_name);
-        if func_container.is_none() {
-            let mut e = "Function doesn't exist: '".to_owned();
-            e.push_str(func_name);
-            e.push('\'');
+        let func_container = match self.knot_container_with_name(func_name) {
+            Some(func_container) => func_container,
+            None => {
+                let mut e = "Function doesn't exist: '".to_owned();
+                e.push_str(func_name);
+                e.push('\'');
+
+                return Err(StoryError::BadArgument(e));
+            }
+        };
 
-            return Err(StoryError::BadArgument(e));
-        }
+        StoryState::check_arguments(args)?;
 
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
 
+        // The function moves the thread's previous pointer, which the main story
+        // still needs to find out which containers it enters next.
+        let previous_pointer_before = self.get_state().get_previous_pointer();
+
         // State will temporarily replace the callstack in order to evaluate
         self.get_state_mut()
-            .start_function_evaluation_from_game(func_container.unwrap(), args)?;
+            .start_function_evaluation_from_game(func_container, args)?;
 
         // Evaluate the function, and collect the string output
         while self.can_continue() {
@@ -163,8 +187,14 @@ impl Story {
             .reset_output(Some(output_stream_before));
 
         // Finish evaluation, and see whether anything was produced
+        let result = self
+            .get_state_mut()
+            .complete_function_evaluation_from_game()?;
+
         self.get_state_mut()
-            .complete_function_evaluation_from_game()
+            .set_previous_pointer(previous_pointer_before);
+
+        Ok(result)
     }
 
     pub(crate) fn visit_changed_containers_due_to_divert(&mut self) {
@@ -201,13 +231,10 @@ impl Story {
         // If the new Object is a container itself, it will be visited
         // automatically at the next actual content step. However, we need to walk up
         // the new ancestry to see if there are more new containers
-        let current_child_of_container = pointer.resolve();
-
-        if current_child_of_container.is_none() {
-            return;
-        }
-
-        let mut current_child_of_container = current_child_of_container.unwrap();
+        let mut current_child_of_container = match pointer.resolve() {
+            Some(child) => child,
+            None => return,
+        };
 
         let mut current_container_ancestor = current_child_of_container.get_object().get_parent();
 
@@ -254,21 +281,22 @@ impl Story {
         main_content_container: &Rc<Container>,
         path: &Path,
     ) -> Result<Pointer, StoryError> {
-        if path.is_empty() {
-            return Ok(pointer::NULL.clone());
-        }
+        let last_component = match path.get_last_component() {
+            Some(last_component) => last_component,
+            None => return Ok(pointer::NULL.clone()),
+        };
 
         let mut p = Pointer::default();
         let mut path_length_to_use = path.len() as i32;
 
         let result: SearchResult =
-            if path.get_last_component().unwrap().is_index() {
+            if let Some(index) = last_component.index {
                 path_length_to_use -= 1;
                 let result = SearchResult::from_search_result(
                     &main_content_container.content_at_path(path, 0, path_length_to_use),
                 );
                 p.container = result.container();
-                p.index = path.get_last_component().unwrap().index.unwrap() as i32;
+                p.index = i32::try_from(index).unwrap_or(i32::MAX);
 
                 result
             } else {
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..b2891dd 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -31,7 +31,10 @@ impl Story {
 
             // Continue, but without validating external bindings,
             // since we may be doing this reset at initialisation time.
-            self.continue_internal(0.0)?;
+            self.steps_left = Some(self.max_global_decl_steps);
+            let result = self.continue_internal(0.0);
+            self.steps_left = None;
+            result?;
 
             self.get_state().set_current_pointer(original_pointer);
         }
@@ -50,6 +53,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
@@ -74,12 +79,10 @@ impl Story {
         // so we need to restore that.
         // If we're in the middle of saving, we may also
         // need to give the VariablesState the old patch.
-        self.state_snapshot_at_last_new_line
-            .as_mut()
-            .unwrap()
-            .restore_after_patch(); // unwrap: state_snapshot_at_last_new_line checked Some in previous fn
-
-        self.state = self.state_snapshot_at_last_new_line.take().unwrap();
+        if let Some(mut snapshot) = self.state_snapshot_at_last_new_line.take() {
+            snapshot.restore_after_patch();
+            self.state = snapshot;
+        }
 
         // If save completed while the above snapshot was
         // active, we need to apply any changes made since
@@ -116,9 +119,18 @@ impl Story {
         self.get_state().to_json()
     }
 
-    /// Loads a previously saved state in JSON format.
+    /// Loads a previously saved state in JSON format. If the state can't be
+    /// loaded, the story is left as it was.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
-        self.get_state_mut().load_json(json_state)
+        self.if_async_we_cant("load a state")?;
+
+        let mut loaded_state = self.get_state().new_for_loading();
+        loaded_state.load_json(json_state)?;
+
+        self.state = loaded_state;
+        self.state_snapshot_at_last_new_line = None;
+
+        Ok(())
     }
 
     /// Reset the Story back to its initial state as it was when it was first constructed.
@@ -129,6 +141,11 @@ impl Story {
             self.main_content_container.clone(),
             self.list_definitions.clone(),
         );
+        self.state_snapshot_at_last_new_line = None;
+        self.saw_lookahead_unsafe_function_after_new_line = false;
+        self.prev_containers.clear();
+        self.recursive_continue_count = 0;
+        self.has_validated_externals = false;
 
         self.reset_globals()?;
 
diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..41bd942 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,9 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let mut flow_container = self.content_at_path(&path).container().ok_or_else(|| {
+            StoryError::BadArgument(format!("There is no container at path '{path_string}'."))
+        })?;
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..225e599 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -65,31 +65,39 @@ impl Story {
         // Remove observer for this specific variable
         match specific_variable_name {
             Some(specific_variable_name) => {
-                if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                match self.variable_observers.get_mut(specific_variable_name) {
+                    Some(v) if v.iter().any(|x| Rc::ptr_eq(x, observer)) => {
+                        v.retain(|x| !Rc::ptr_eq(x, observer));
 
-                    if v.is_empty() {
-                        self.variable_observers.remove(specific_variable_name);
+                        if v.is_empty() {
+                            self.variable_observers.remove(specific_variable_name);
+                        }
+                    }
+                    _ => {
+                        return Err(StoryError::BadArgument(format!(
+                            "The observer isn't observing variable '{specific_variable_name}'."
+                        )));
                     }
                 }
             }
             None => {
                 // Remove observer for all variables
-                let mut keys_to_remove = Vec::new();
-
-                for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                let is_observing = self
+                    .variable_observers
+                    .values()
+                    .any(|v| v.iter().any(|x| Rc::ptr_eq(x, observer)));
 
-                    if v.is_empty() {
-                        keys_to_remove.push(k.to_string());
-                    }
+                if !is_observing {
+                    return Err(StoryError::BadArgument(
+                        "The observer isn't observing any variable.".to_owned(),
+                    ));
                 }
 
-                for key_to_remove in keys_to_remove.iter() {
-                    self.variable_observers.remove(key_to_remove);
+                for v in self.variable_observers.values_mut() {
+                    v.retain(|x| !Rc::ptr_eq(x, observer));
                 }
+
+                self.variable_observers.retain(|_, v| !v.is_empty());
             }
         }
 
-- 
2.43.0


From 3d55d4e185d876cdd1c3d06e89a2c7089ef1a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 10/18] fix: rinklecate escapes control characters and divert
 errors in JSON output

---
 rinklecate/src/player.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..fc70ee7 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -140,8 +140,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                         if opts.json_output {
                             println!(
                                 "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
+                                escape_json_string(&path),
+                                escape_json_string(&e.to_string())
                             );
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
@@ -271,6 +271,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if c.is_ascii_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From 0db3c1634d32da9ea73723d6dd4d85617210646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 11/18] verification hooks, only with --cfg verif

---
 runtime/src/lib.rs                     |   4 +
 runtime/src/list_definitions_origin.rs |  19 ++
 runtime/src/story/progress.rs          |  17 ++
 runtime/src/story/state.rs             |  16 ++
 runtime/src/verif.rs                   | 290 +++++++++++++++++++++++++
 5 files changed, 346 insertions(+)
 create mode 100644 runtime/src/verif.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..a7f41c6 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -45,6 +45,8 @@
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
 
+#![allow(unexpected_cfgs)]
+
 mod callstack;
 pub mod choice;
 mod choice_point;
@@ -74,4 +76,6 @@ pub mod value_type;
 mod variable_assigment;
 mod variable_reference;
 mod variables_state;
+#[cfg(verif)]
+pub mod verif;
 mod void;
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index d45097e..ac5631d 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -53,3 +53,22 @@ impl ListDefinitionsOrigin {
         self.all_unambiguous_list_value_cache.get(name)
     }
 }
+
+#[cfg(verif)]
+impl ListDefinitionsOrigin {
+    pub(crate) fn verif_listing(&self) -> Vec<String> {
+        let mut listing = Vec::new();
+
+        for (name, list) in &self.lists {
+            for (item, value) in list.clone().get_items() {
+                listing.push(format!("list {} item {} is {}", name, item, value));
+            }
+        }
+
+        for (name, value) in &self.all_unambiguous_list_value_cache {
+            listing.push(format!("list value {} is {}", name, value));
+        }
+
+        listing
+    }
+}
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 538b95e..01dffa5 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -121,7 +121,21 @@ impl Story {
                 break;
             }
 
+            #[cfg(verif)]
+            {
+                if self.async_continue_active
+                    && crate::verif::pause_now(|| {
+                        duration_stopwatch
+                            .as_ref()
+                            .is_some_and(|s| s.elapsed().as_millis() as f32 > millisecs_limit_async)
+                    })
+                {
+                    break;
+                }
+            }
+
             // Run out of async time?
+            #[cfg(not(verif))]
             if self.async_continue_active
                 && duration_stopwatch.as_ref().unwrap().elapsed().as_millis() as f32
                     > millisecs_limit_async
@@ -273,6 +287,9 @@ impl Story {
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
+        #[cfg(verif)]
+        crate::verif::count_step();
+
         match self.steps_left {
             Some(0) => {
                 return Err(StoryError::InvalidStoryState(
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index b2891dd..8770a41 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -152,3 +152,19 @@ impl Story {
         Ok(())
     }
 }
+
+#[cfg(verif)]
+impl Story {
+    pub(crate) fn verif_state_mut(&mut self) -> &mut StoryState {
+        &mut self.state
+    }
+
+    pub(crate) fn verif_root(&self) -> std::rc::Rc<crate::container::Container> {
+        self.main_content_container.clone()
+    }
+
+    /// Makes the story fail after this many internal steps.
+    pub fn verif_set_fuel(&mut self, steps: Option<usize>) {
+        self.steps_left = steps;
+    }
+}
diff --git a/runtime/src/verif.rs b/runtime/src/verif.rs
new file mode 100644
index 0000000..50f3cc9
--- /dev/null
+++ b/runtime/src/verif.rs
@@ -0,0 +1,290 @@
+//! Hooks for the verification harness. Only there with `--cfg verif`.
+use std::{cell::Cell, collections::hash_map::DefaultHasher, hash::Hash, hash::Hasher, rc::Rc};
+
+use crate::{
+    choice_point::ChoicePoint,
+    container::Container,
+    divert::Divert,
+    object::{Object, RTObject},
+    path::Path,
+    pointer::Pointer,
+    story::Story,
+};
+
+thread_local! {
+    static PAUSE_IN: Cell<Option<usize>> = const { Cell::new(None) };
+    static STEPS: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Makes `continue_async` pause after this many internal steps, whatever the clock says. Without
+/// it, the clock decides.
+pub fn set_pause_after(steps: Option<usize>) {
+    PAUSE_IN.with(|p| p.set(steps));
+}
+
+/// Internal steps taken so far by the stories of this thread.
+pub fn steps_taken() -> usize {
+    STEPS.with(|s| s.get())
+}
+
+pub(crate) fn count_step() {
+    STEPS.with(|s| s.set(s.get().wrapping_add(1)));
+}
+
+pub(crate) fn pause_now(out_of_time: impl Fn() -> bool) -> bool {
+    PAUSE_IN.with(|p| match p.get() {
+        Some(steps) => {
+            let left = steps.saturating_sub(1);
+            p.set(Some(left));
+            left == 0
+        }
+        None => out_of_time(),
+    })
+}
+
+fn text_hash(path: &Path) -> u64 {
+    let mut hasher = DefaultHasher::new();
+    path.hash(&mut hasher);
+    hasher.finish()
+}
+
+fn same(a: &dyn RTObject, b: &dyn RTObject) -> bool {
+    std::ptr::eq(
+        a as *const dyn RTObject as *const (),
+        b as *const dyn RTObject as *const (),
+    )
+}
+
+impl Story {
+    /// Sets the seed of the story.
+    pub fn verif_set_seed(&mut self, seed: i32) {
+        self.verif_state_mut().story_seed = seed;
+    }
+
+    /// Lists the path, kind and text of every object of the story.
+    pub fn verif_content_listing(&self) -> Vec<String> {
+        let mut listing = Vec::new();
+        list_container(&self.verif_root(), "", &mut listing);
+        listing.sort();
+        listing
+    }
+
+    /// Every object whose path doesn't lead back to it, or whose path changes when converted to
+    /// text and back.
+    pub fn verif_content_audit(&self) -> (usize, Vec<String>) {
+        let root = self.verif_root();
+        let mut count = 0;
+        let mut failures = Vec::new();
+        audit_container(&root, &root, &mut count, &mut failures);
+        (count, failures)
+    }
+}
+
+fn list_container(c: &Rc<Container>, key: &str, listing: &mut Vec<String>) {
+    listing.push(format!(
+        "{} [{}] container {:?} flags {} len {}",
+        Object::get_path(c.as_ref()),
+        key,
+        c.name,
+        c.get_count_flags(),
+        c.content.len()
+    ));
+
+    for (i, o) in c.content.iter().enumerate() {
+        if let Ok(child) = o.clone().into_any().downcast::<Container>() {
+            list_container(&child, &i.to_string(), listing);
+        } else {
+            listing.push(format!(
+                "{} [{}] {} {:?}",
+                Object::get_path(o.as_ref()),
+                i,
+                kind(o.as_ref()),
+                crate::json::json_write::write_rtobject(o.clone()).map(|j| j.to_string())
+            ));
+        }
+    }
+
+    for (name, child) in c.get_named_only_content() {
+        list_container(&child, &name, listing);
+    }
+}
+
+fn kind(o: &dyn RTObject) -> &'static str {
+    let any = o.as_any();
+    if any.is::<Divert>() {
+        "divert"
+    } else if any.is::<ChoicePoint>() {
+        "choice point"
+    } else if any.is::<crate::value::Value>() {
+        "value"
+    } else {
+        "other"
+    }
+}
+
+fn audit_container(
+    root: &Rc<Container>,
+    c: &Rc<Container>,
+    count: &mut usize,
+    failures: &mut Vec<String>,
+) {
+    let children: Vec<Rc<dyn RTObject>> = c
+        .content
+        .iter()
+        .cloned()
+        .chain(
+            c.get_named_only_content()
+                .into_values()
+                .map(|c| c as Rc<dyn RTObject>),
+        )
+        .collect();
+
+    audit_object(root, c.clone(), count, failures);
+
+    for child in children {
+        match child.clone().into_any().downcast::<Container>() {
+            Ok(child) => audit_container(root, &child, count, failures),
+            Err(_) => audit_object(root, child, count, failures),
+        }
+    }
+
+    // A position is a container and an index in it, the end included
+    for i in 0..=c.content.len() as i32 {
+        let pointer = Pointer::new(Some(c.clone()), i);
+
+        if let Some(path) = pointer.get_path() {
+            audit_path_text(&path, count, failures);
+
+            // The engine has no children beyond the last one to point to
+            if (i as usize) < c.content.len() {
+                let found = Story::pointer_at_path(root, &path);
+                let back = found.ok().and_then(|p| p.resolve());
+
+                if !back
+                    .zip(pointer.resolve())
+                    .is_some_and(|(a, b)| same(a.as_ref(), b.as_ref()))
+                {
+                    failures.push(format!("position {} is another one when read back", path));
+                }
+            }
+        }
+    }
+}
+
+fn audit_object(
+    root: &Rc<Container>,
+    o: Rc<dyn RTObject>,
+    count: &mut usize,
+    failures: &mut Vec<String>,
+) {
+    let path = Object::get_path(o.as_ref());
+
+    for path in [
+        path.clone(),
+        Path::new_with_components_string(Some(&path.to_string())),
+    ] {
+        let found = root.content_at_path(&path, 0, -1);
+
+        if found.approximate || !same(found.obj.as_ref(), o.as_ref()) {
+            failures.push(format!("path {} doesn't lead back to its object", path));
+        }
+    }
+
+    audit_path_text(&path, count, failures);
+
+    // Relative paths to its neighbours
+    if let Some(parent) = o.get_object().get_parent() {
+        let parent_path = Object::get_path(parent.as_ref());
+        let mut targets = vec![parent_path.clone()];
+
+        for sibling in parent.content.iter().take(3).chain(parent.content.last()) {
+            targets.push(Object::get_path(sibling.as_ref()));
+        }
+
+        for target in targets {
+            let relative = Object::convert_path_to_relative(&o, &target);
+            audit_path_text(&relative, count, failures);
+
+            let found = Object::resolve_path(o.clone(), &relative);
+            let wanted = root.content_at_path(&target, 0, -1);
+
+            if found.approximate || !same(found.obj.as_ref(), wanted.obj.as_ref()) {
+                failures.push(format!(
+                    "relative path {} from {} doesn't lead to {}",
+                    relative, path, target
+                ));
+            }
+
+            let text = Object::compact_path_string(o.clone(), &target);
+            let compact = Path::new_with_components_string(Some(&text));
+            let found = Object::resolve_path(o.clone(), &compact);
+
+            if found.approximate || !same(found.obj.as_ref(), wanted.obj.as_ref()) {
+                failures.push(format!(
+                    "compact path {} from {} doesn't lead to {}",
+                    text, path, target
+                ));
+            }
+        }
+    }
+}
+
+fn audit_path_text(path: &Path, count: &mut usize, failures: &mut Vec<String>) {
+    *count += 1;
+
+    let text = path.to_string();
+    let back = Path::new_with_components_string(Some(&text));
+
+    if back != *path || back.is_relative() != path.is_relative() || back.to_string() != text {
+        failures.push(format!(
+            "path {} isn't the same after parsing it back",
+            text
+        ));
+    }
+
+    if text_hash(&back) != text_hash(path) {
+        failures.push(format!("equal paths {} have different hashes", text));
+    }
+}
+
+/// What the audit does to the paths of a story, for any text: parse it, write it, parse it again.
+pub fn path_round_trip(text: &str) -> Result<String, String> {
+    let path = Path::new_with_components_string(Some(text));
+    let mut failures = Vec::new();
+    audit_path_text(&path, &mut 0, &mut failures);
+
+    match failures.pop() {
+        Some(failure) => Err(failure),
+        None => Ok(path.to_string()),
+    }
+}
+
+/// Equal paths must have equal hashes. Gives whether they are equal.
+pub fn paths_agree(a: &str, b: &str) -> Result<bool, String> {
+    let a = Path::new_with_components_string(Some(a));
+    let b = Path::new_with_components_string(Some(b));
+
+    if a == b && (text_hash(&a) != text_hash(&b) || b != a) {
+        return Err(format!("{} and {} are equal but not their hashes", a, b));
+    }
+
+    Ok(a == b)
+}
+
+/// What each of the two loaders makes of a story: the listing of its content and lists.
+pub fn listings(json: &str) -> [Result<Vec<String>, String>; 2] {
+    use crate::json::{json_read, json_read_stream};
+
+    [
+        json_read::load_from_string(json),
+        json_read_stream::load_from_string(json),
+    ]
+    .map(|loaded| {
+        let (version, root, lists) = loaded.map_err(|e| e.to_string())?;
+        let mut listing = vec![format!("version {}", version)];
+        list_container(&root, "", &mut listing);
+        listing.extend(lists.verif_listing());
+        listing.sort();
+        Ok(listing)
+    })
+}
-- 
2.43.0


From 0176acac5acbda158ca61474904b34cf39e1186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 12/18] fix: expressions: Ink's operator precedence, qualified
 list items, lists in VAR values, non-ASCII text and call-like conditions

---
 compiler/src/ast.rs                 |   2 +-
 compiler/src/emitter/conditional.rs |  10 +-
 compiler/src/emitter/context.rs     |  12 +-
 compiler/src/emitter/expression.rs  |   6 +-
 compiler/src/emitter/flow.rs        |   8 +-
 compiler/src/inline.rs              |   8 +-
 compiler/src/parser/declarations.rs |  16 +-
 compiler/src/parser/expression.rs   | 228 ++++++----------------------
 8 files changed, 87 insertions(+), 203 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..f22b778 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -85,7 +85,7 @@ pub struct GlobalVariable {
 pub struct ListDeclaration {
     pub name: String,
     /// All items in order: (item_name, value_number, initially_selected)
-    pub items: Vec<(String, u32, bool)>,
+    pub items: Vec<(String, i32, bool)>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..4ed1311 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -7,7 +7,11 @@ fn emit_condition(
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
         Condition::FunctionCall(name) => {
-            out.push(json!({"f()": name}));
+            let call = Expression::FunctionCall {
+                name: name.clone(),
+                args: Vec::new(),
+            };
+            emit_expression_ctx(&call, out, Some(context), Some(scope));
         }
         Condition::Expression(Expression::Variable(name))
             if scope.resolve_choice_label(name).is_some() =>
@@ -26,7 +30,9 @@ fn emit_condition(
             out.push(json!({"CNT?": scope.resolve_divert_target(name, context)}));
         }
         // Fully-qualified path like knot.stitch.label — treat as CNT? visit count
-        Condition::Expression(Expression::Variable(name)) if name.contains('.') => {
+        Condition::Expression(Expression::Variable(name))
+            if name.contains('.') && !context.is_qualified_list_item(name) =>
+        {
             out.push(json!({"CNT?": name}));
         }
         Condition::Expression(expression) => {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..16cbd4b 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,7 +40,7 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
+            emit_global_declarations(story.globals(), story.list_declarations(), &context)?
                 .into_json_array(None, None)?,
         );
     }
@@ -106,7 +106,7 @@ struct EmitContext {
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
     /// For each list name, a map from bare item name → (qualified name, value)
-    list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
+    list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
     /// Count flags required by explicit references to flow containers.
@@ -312,7 +312,7 @@ impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
-            let items: Vec<(String, u32)> = list_decl
+            let items: Vec<(String, i32)> = list_decl
                 .items
                 .iter()
                 .map(|(name, value, _)| (format!("{}.{}", list_decl.name, name), *value))
@@ -384,7 +384,11 @@ impl EmitContext {
 
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
-    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
+    fn is_qualified_list_item(&self, name: &str) -> bool {
+        name.contains('.') && self.resolve_list_item(name).is_some()
+    }
+
+    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
         // If already qualified (contains '.'), use as-is
         if bare_name.contains('.') {
             for items in self.list_items.values() {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..d5696c7 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -221,10 +221,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
@@ -291,6 +287,8 @@ fn emit_expression_ctx(
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
                 out.push(json!({"CNT?": path}))
+            } else if context.is_some_and(|ctx| ctx.is_qualified_list_item(name)) {
+                out.push(json!({"VAR?": name}))
             } else if name.contains('.') {
                 out.push(json!({"CNT?": name}))
             } else if let (Some(s), Some(ctx)) = (scope, context)
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..b58ffff 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,7 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +27,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            None,
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..d49a563 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -3,7 +3,7 @@ use crate::{
     error::CompilerError,
 };
 
-use crate::parser::expression::{parse_call_like, parse_expression};
+use crate::parser::expression::{parse_call_like, parse_expression, parse_path_identifier};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
     let mut nodes = Vec::new();
@@ -519,8 +519,10 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()") {
-                return Ok(Condition::FunctionCall(name.trim().to_owned()));
+            if let Some(name) = condition.strip_suffix("()").map(str::trim)
+                && parse_path_identifier(name) == Some(name)
+            {
+                return Ok(Condition::FunctionCall(name.to_owned()));
             }
 
             Ok(Condition::Expression(parse_expression(condition)?))
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..7c8382a 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -49,7 +49,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut value: i32 = 1;
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
@@ -64,8 +64,16 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
             };
         // Check for explicit value assignment: `name = number`
         if let Some((item_name, item_value)) = inner.split_once('=') {
-            let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
+            let item_name = item_name.trim();
+            // The parens can also be around the name only: `(name) = number`
+            let (item_name, selected) = match item_name
+                .strip_prefix('(')
+                .and_then(|s| s.strip_suffix(')'))
+            {
+                Some(item_name) => (item_name.trim().to_owned(), true),
+                None => (item_name.to_owned(), selected),
+            };
+            let explicit_value: i32 = item_value.trim().parse().map_err(|_| {
                 CompilerError::invalid_source(format!(
                     "invalid LIST item value: '{}'",
                     item_value.trim()
@@ -76,7 +84,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         } else {
             items.push((inner.to_owned(), value, selected));
         }
-        value += 1;
+        value = value.wrapping_add(1);
     }
 
     Ok(ListDeclaration { name, items })
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..2bd3a9a 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -49,8 +49,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
+            let rest: String = chars[index + 2..].iter().collect();
+            let parsed = parse_path_identifier(rest.trim_start()).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
@@ -179,16 +179,16 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +202,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +211,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -294,9 +294,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
@@ -324,17 +323,22 @@ impl ExpressionParser {
     }
 
     fn parse_expression(&mut self) -> Result<Expression, CompilerError> {
-        self.parse_or()
+        self.parse_binary(0)
     }
 
-    fn parse_or(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_and()?;
+    /// Parses operators that bind tighter than `min_precedence`. Operators of the same precedence
+    /// group from the left.
+    fn parse_binary(&mut self, min_precedence: u8) -> Result<Expression, CompilerError> {
+        let mut expression = self.parse_unary()?;
 
-        while self.match_token(&Token::OrOr) {
-            let right = self.parse_and()?;
+        while let Some((operator, precedence)) = self.peek_binary_operator()
+            && precedence > min_precedence
+        {
+            self.current += 1;
+            let right = self.parse_binary(precedence)?;
             expression = Expression::Binary {
                 left: Box::new(expression),
-                operator: BinaryOperator::Or,
+                operator,
                 right: Box::new(right),
             };
         }
@@ -342,160 +346,35 @@ impl ExpressionParser {
         Ok(expression)
     }
 
-    fn parse_and(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_equality()?;
-
-        while self.match_token(&Token::AndAnd) {
-            let right = self.parse_equality()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator: BinaryOperator::And,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
+    /// The precedences are those of the reference compiler, where every arithmetic operator has
+    /// one of its own.
+    fn peek_binary_operator(&self) -> Option<(BinaryOperator, u8)> {
+        Some(match self.peek()? {
+            Token::AndAnd => (BinaryOperator::And, 1),
+            Token::OrOr => (BinaryOperator::Or, 1),
+            Token::EqualEqual => (BinaryOperator::Equal, 2),
+            Token::NotEqual => (BinaryOperator::NotEqual, 2),
+            Token::Greater => (BinaryOperator::Greater, 2),
+            Token::GreaterEqual => (BinaryOperator::GreaterEqual, 2),
+            Token::Less => (BinaryOperator::Less, 2),
+            Token::LessEqual => (BinaryOperator::LessEqual, 2),
+            Token::Has => (BinaryOperator::Has, 3),
+            Token::Hasnt => (BinaryOperator::Hasnt, 3),
+            Token::Caret => (BinaryOperator::Intersect, 3),
+            Token::Plus => (BinaryOperator::Add, 4),
+            Token::Minus => (BinaryOperator::Subtract, 5),
+            Token::Star => (BinaryOperator::Multiply, 6),
+            Token::Slash => (BinaryOperator::Divide, 7),
+            Token::Percent => (BinaryOperator::Modulo, 8),
+            Token::Ident(name) if name == "mod" => (BinaryOperator::Modulo, 8),
+            _ => return None,
+        })
     }
 
     fn is_at_end(&self) -> bool {
         self.current >= self.tokens.len()
     }
 
-    fn parse_equality(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_comparison()?;
-
-        loop {
-            if self.match_token(&Token::EqualEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Equal,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::NotEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::NotEqual,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_comparison(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_addition()?;
-
-        loop {
-            if self.match_token(&Token::Greater) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Greater,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::GreaterEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::GreaterEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Less) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Less,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::LessEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::LessEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Has) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Has,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Hasnt) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Hasnt,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Caret) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Intersect,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_addition(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_multiplication()?;
-
-        while let Some(operator) = self.match_additive_operator() {
-            let right = self.parse_multiplication()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_multiplication(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_unary()?;
-
-        loop {
-            if self.match_token(&Token::Star) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Multiply,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Slash) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Divide,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Percent) || self.match_identifier("mod") {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Modulo,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
-
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
@@ -586,16 +465,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_additive_operator(&mut self) -> Option<BinaryOperator> {
-        if self.match_token(&Token::Plus) {
-            Some(BinaryOperator::Add)
-        } else if self.match_token(&Token::Minus) {
-            Some(BinaryOperator::Subtract)
-        } else {
-            None
-        }
-    }
-
     fn match_token(&mut self, token: &Token) -> bool {
         if self.peek() == Some(token) {
             self.current += 1;
@@ -605,15 +474,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_identifier(&mut self, name: &str) -> bool {
-        if self.peek() == Some(&Token::Ident(name.to_owned())) {
-            self.current += 1;
-            true
-        } else {
-            false
-        }
-    }
-
     fn advance(&mut self) -> Option<Token> {
         let token = self.tokens.get(self.current).cloned();
         if token.is_some() {
-- 
2.43.0


From 23b2f2bd83a5c7fc2b60418ad40775f85941093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 13/18] verification hooks: a path relative to its own object
 is not a defect

---
 runtime/src/verif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/verif.rs b/runtime/src/verif.rs
index 50f3cc9..b3b5d91 100644
--- a/runtime/src/verif.rs
+++ b/runtime/src/verif.rs
@@ -201,6 +201,9 @@ fn audit_object(
             targets.push(Object::get_path(sibling.as_ref()));
         }
 
+        // Nothing diverts to itself: there is no relative path for that
+        targets.retain(|target| *target != path);
+
         for target in targets {
             let relative = Object::convert_path_to_relative(&o, &target);
             audit_path_text(&relative, count, failures);
-- 
2.43.0


From 37faf4823c1772430163c0b40972b5c6deedafa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 14/18] fix: observers are told of a batched change only when
 the value differs

---
 runtime/src/value_type.rs      | 16 ++++++++
 runtime/src/variables_state.rs | 67 ++++++++++++++++++++++------------
 2 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/runtime/src/value_type.rs b/runtime/src/value_type.rs
index fa5bf4b..d101e30 100644
--- a/runtime/src/value_type.rs
+++ b/runtime/src/value_type.rs
@@ -111,6 +111,22 @@ impl ValueType {
         v.into()
     }
 
+    /// Whether the two values are of the same type and nothing can tell them apart.
+    pub(crate) fn is_same_value(&self, other: &ValueType) -> bool {
+        match (self, other) {
+            (ValueType::Bool(a), ValueType::Bool(b)) => a == b,
+            (ValueType::Int(a), ValueType::Int(b)) => a == b,
+            (ValueType::Float(a), ValueType::Float(b)) => a.to_bits() == b.to_bits(),
+            (ValueType::List(a), ValueType::List(b)) => {
+                a == b && a.get_origin_names() == b.get_origin_names()
+            }
+            (ValueType::String(a), ValueType::String(b)) => a.string == b.string,
+            (ValueType::DivertTarget(a), ValueType::DivertTarget(b)) => a == b,
+            (ValueType::VariablePointer(a), ValueType::VariablePointer(b)) => a == b,
+            _ => false,
+        }
+    }
+
     pub fn get<'val, T>(&'val self) -> Option<T>
     where
         &'val Self: TryInto<T>,
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 104dd89..14d8136 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, HashMap},
     rc::Rc,
 };
 
@@ -26,7 +26,8 @@ pub(crate) struct VariablesState {
     pub default_global_variables: HashMap<String, Rc<Value>>,
     pub batch_observing_variable_changes: bool,
     pub callstack: Rc<RefCell<CallStack>>,
-    pub changed_variables_for_batch_obs: Option<HashSet<String>>,
+    /// The globals assigned since observation started, with the value each had before.
+    pub changed_variables_for_batch_obs: Option<HashMap<String, Option<Rc<Value>>>>,
     pub patch: Option<StatePatch>,
     list_defs_origin: Rc<ListDefinitionsOrigin>,
 }
@@ -60,33 +61,48 @@ impl VariablesState {
 
     pub fn start_variable_observation(&mut self) {
         self.batch_observing_variable_changes = true;
-        self.changed_variables_for_batch_obs = Some(HashSet::new());
+        self.changed_variables_for_batch_obs = Some(HashMap::new());
     }
 
     pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = BTreeMap::new();
-
-        // Finished observing variables in a batch - now send
-        // notifications for changed variables all in one go.
-        if let Some(changed_variables_for_batch_obs) = self.changed_variables_for_batch_obs.take() {
-            for variable_name in changed_variables_for_batch_obs {
-                if let Some(current_value) = self.global_variables.get(&variable_name) {
-                    changed_vars.insert(variable_name, current_value.value.clone());
-                }
-            }
-        }
+        let mut previous_values = self
+            .changed_variables_for_batch_obs
+            .take()
+            .unwrap_or_default();
 
         // Patch may still be active - e.g. if we were in the middle of a background save
         if let Some(patch) = &self.patch {
             for variable_name in patch.changed_variables.iter() {
-                if let Some(patched_val) = patch.get_global(variable_name) {
-                    changed_vars.insert(variable_name.to_string(), patched_val.value.clone());
+                if !previous_values.contains_key(variable_name) {
+                    previous_values.insert(
+                        variable_name.clone(),
+                        self.global_variables.get(variable_name).cloned(),
+                    );
                 }
             }
         }
 
+        // Finished observing variables in a batch - now send
+        // notifications for changed variables all in one go.
+        let mut changed_vars = BTreeMap::new();
+
+        for (variable_name, previous_value) in previous_values {
+            let current_value = self
+                .patch
+                .as_ref()
+                .and_then(|patch| patch.get_global(&variable_name))
+                .or_else(|| self.global_variables.get(&variable_name).cloned());
+
+            if let Some(current_value) = current_value
+                && !previous_value
+                    .is_some_and(|previous| previous.value.is_same_value(&current_value.value))
+            {
+                changed_vars.insert(variable_name, current_value.value.clone());
+            }
+        }
+
         changed_vars
     }
 
@@ -102,15 +118,18 @@ impl VariablesState {
             None => return,
         };
 
-        for (name, value) in patch.globals.iter() {
-            self.global_variables.insert(name.clone(), value.clone());
-        }
-
         if let Some(changed_variables) = &mut self.changed_variables_for_batch_obs {
             for name in patch.changed_variables.iter() {
-                changed_variables.insert(name.clone());
+                if !changed_variables.contains_key(name) {
+                    changed_variables
+                        .insert(name.clone(), self.global_variables.get(name).cloned());
+                }
             }
         }
+
+        for (name, value) in patch.globals.iter() {
+            self.global_variables.insert(name.clone(), value.clone());
+        }
     }
 
     pub fn assign(
@@ -321,8 +340,10 @@ impl VariablesState {
             if self.batch_observing_variable_changes {
                 if let Some(patch) = &mut self.patch {
                     patch.add_changed_variable(name);
-                } else if let Some(changed_variables) = &mut self.changed_variables_for_batch_obs {
-                    changed_variables.insert(name.to_string());
+                } else if let Some(changed_variables) = &mut self.changed_variables_for_batch_obs
+                    && !changed_variables.contains_key(name)
+                {
+                    changed_variables.insert(name.to_string(), old_value);
                 }
             } else {
                 return true;
-- 
2.43.0


From 0a47f828cb16b3407f2a1f26c476ab30d74bc79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 15/18] fix: jumping to a path that only resolves approximately
 is refused

---
 runtime/src/story/navigation.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index 77e972a..c3a7271 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -109,9 +109,13 @@ impl Story {
         StoryState::check_arguments(args)?;
 
         let target_path = Path::new_with_components_string(Some(path));
-        if Story::pointer_at_path(&self.main_content_container, &target_path)?
-            .resolve()
-            .is_none()
+        if self
+            .main_content_container
+            .content_at_path(&target_path, 0, -1)
+            .approximate
+            || Story::pointer_at_path(&self.main_content_container, &target_path)?
+                .resolve()
+                .is_none()
         {
             return Err(StoryError::BadArgument(format!(
                 "There is no content at path '{path}'."
-- 
2.43.0


From ab77bb2c14ee923bfdc59a7dc810375fed719d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 16/18] fix: a divert with unbalanced parentheses is a compile
 error, not a panic

---
 compiler/src/inline.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index d49a563..e208711 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -202,6 +202,13 @@ pub fn parse_divert(input: &str) -> Result<Divert, CompilerError> {
     })
 }
 
+fn closing_parenthesis(input: &str, open: usize) -> Result<usize, CompilerError> {
+    input
+        .rfind(')')
+        .filter(|close| *close > open)
+        .ok_or_else(|| CompilerError::invalid_source("expected ')' after the arguments"))
+}
+
 pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     let trimmed = input.trim();
     if trimmed == "->->" {
@@ -217,7 +224,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
             // Parse `target` or `target(args)` from `rest`
             let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
+                let close = closing_parenthesis(rest, open)?;
                 let tname = rest[..open].trim().to_owned();
                 let args_str = &rest[open + 1..close];
                 let mut args = Vec::new();
@@ -248,7 +255,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
         if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
+            let close = closing_parenthesis(segment, open)?;
             let target = segment[..open].trim().to_owned();
             let args_str = &segment[open + 1..close];
             let mut args = Vec::new();
-- 
2.43.0


From 62a6a52d9c81170d1c6ee8015551b05cb188b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 17/18] fix: assigning an empty list changes other variables
 and the story's content, and saves lose its origins

---
 runtime/src/callstack.rs       |  9 ++++-----
 runtime/src/value.rs           | 20 ++++++++++++++++----
 runtime/src/variables_state.rs | 14 +++++++++-----
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index d9fa2f6..7aef09b 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -366,11 +366,10 @@ impl CallStack {
             )));
         }
 
-        let old_value = context_element.temporary_variables.get(&name).cloned();
-
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match context_element.temporary_variables.get(&name) {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value, value),
+            None => value,
+        };
 
         context_element.temporary_variables.insert(name, value);
 
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index e8c4f16..2f36428 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{fmt, rc::Rc};
 
 use crate::{
     ink_list::InkList,
@@ -187,13 +187,25 @@ impl Value {
         }
     }
 
-    pub fn retain_list_origins_for_assignment(old_value: &dyn RTObject, new_value: &dyn RTObject) {
+    /// The value to be stored in place of the old one: an empty list keeps the
+    /// origins of the list it replaces. The new value is shared with whatever
+    /// it comes from, so it's copied if its origins have to change.
+    pub fn retain_list_origins_for_assignment(
+        old_value: &Value,
+        new_value: Rc<Value>,
+    ) -> Rc<Value> {
         if let Some(old_list) = Self::get_value::<&InkList>(old_value)
-            && let Some(new_list) = Self::get_value::<&InkList>(new_value)
+            && let Some(new_list) = Self::get_value::<&InkList>(new_value.as_ref())
             && new_list.items.is_empty()
+            && new_list.get_origin_names() != old_list.get_origin_names()
         {
-            new_list.set_initial_origin_names(old_list.get_origin_names());
+            let list = new_list.clone();
+            list.set_initial_origin_names(old_list.get_origin_names());
+
+            return Rc::new(Value::from(list));
         }
+
+        new_value
     }
 
     pub fn get_cast_ordinal(&self) -> u8 {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 14d8136..fd19ebe 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -325,9 +325,10 @@ impl VariablesState {
             old_value = self.global_variables.get(name).cloned();
         }
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match &old_value {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value, value),
+            None => value,
+        };
 
         if let Some(patch) = &mut self.patch {
             patch.set_global(name, value.clone());
@@ -406,11 +407,14 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::Float(val) => match default_val.value {
-                ValueType::Float(default_val) => *val == default_val,
+                ValueType::Float(default_val) => val.to_bits() == default_val.to_bits(),
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                // Empty lists differ in where they come from
+                ValueType::List(default_val) => {
+                    *val == *default_val && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From 779f5f734f9f8e342e895c46404ed923ff73bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 18/18] verif: stories that make endless strings run out of
 fuel

---
 runtime/src/story/progress.rs | 7 +++++++
 runtime/src/verif.rs          | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 01dffa5..6f86d08 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -300,6 +300,13 @@ impl Story {
             None => {}
         }
 
+        #[cfg(verif)]
+        if self.steps_left.is_some()
+            && crate::verif::is_too_long(self.get_state().peek_evaluation_stack())
+        {
+            self.steps_left = Some(0);
+        }
+
         // Run main step function (walks through content)
         self.step()?;
 
diff --git a/runtime/src/verif.rs b/runtime/src/verif.rs
index b3b5d91..0e57a9f 100644
--- a/runtime/src/verif.rs
+++ b/runtime/src/verif.rs
@@ -291,3 +291,9 @@ pub fn listings(json: &str) -> [Result<Vec<String>, String>; 2] {
         Ok(listing)
     })
 }
+
+/// Whether this is a string that a story has made longer and longer.
+pub(crate) fn is_too_long(o: Option<&std::rc::Rc<dyn crate::object::RTObject>>) -> bool {
+    o.and_then(|o| crate::value::Value::get_value::<&crate::value_type::StringValue>(o.as_ref()))
+        .is_some_and(|s| s.string.len() > 8192)
+}
-- 
2.43.0

