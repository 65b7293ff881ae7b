From a9e7cf53a1449918ab18ce7fc23409f78a8d4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 01/41] verif: observation points for the model-based harness
 (cfg kompact_verif)

---
 core/src/component/actual_component.rs |  2 ++
 core/src/component/context.rs          |  4 ++++
 core/src/component/core.rs             | 16 ++++++++++++++--
 core/src/component/future_task.rs      |  2 ++
 core/src/lib.rs                        |  3 +++
 core/src/verif.rs                      | 20 ++++++++++++++++++++
 6 files changed, 45 insertions(+), 2 deletions(-)
 create mode 100644 core/src/verif.rs

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..e7e4d66 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -398,6 +398,8 @@ impl<CD: ComponentTraits> Component<CD> {
         let max_events = self.core.system.throughput();
         let max_messages = self.core.system.max_messages();
 
+        #[cfg(kompact_verif)]
+        crate::verif::point("exec-before-lock");
         match self.mutable_core.lock() {
             Ok(mut guard) => {
                 if guard.definition.ctx().is_blocking() {
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..b31f5e2 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -223,8 +223,12 @@ where
             .take()
             .expect("Called run_blocking while not blocking!");
         let component = self.typed_component();
+        #[cfg(kompact_verif)]
+        crate::verif::point("blocking-before-poll");
         match blocking_state.future.run(&component) {
             BlockingRunResult::BlockOn(f) => {
+                #[cfg(kompact_verif)]
+                crate::verif::point("blocking-pending");
                 blocking_state.future = f;
                 assert!(
                     self.blocking_future.replace(blocking_state).is_none(),
diff --git a/core/src/component/core.rs b/core/src/component/core.rs
index eaf3fd3..655bfa1 100644
--- a/core/src/component/core.rs
+++ b/core/src/component/core.rs
@@ -52,14 +52,26 @@ impl ComponentCore {
     }
 
     pub(crate) fn increment_work(&self) -> SchedulingDecision {
-        LifecycleState::increment_work(&self.state)
+        #[cfg(kompact_verif)]
+        crate::verif::point("inc-before");
+        let res = LifecycleState::increment_work(&self.state);
+        #[cfg(kompact_verif)]
+        crate::verif::point("inc-after");
+        res
     }
 
     pub(super) fn decrement_work(&self, work_done: usize) -> SchedulingDecision {
-        LifecycleState::decrement_work(&self.state, work_done)
+        #[cfg(kompact_verif)]
+        crate::verif::point("dec-before");
+        let res = LifecycleState::decrement_work(&self.state, work_done);
+        #[cfg(kompact_verif)]
+        crate::verif::point("dec-after");
+        res
     }
 
     pub(super) fn get_scheduling_decision(&self) -> SchedulingDecision {
+        #[cfg(kompact_verif)]
+        crate::verif::point("decide-before");
         LifecycleState::load(&self.state).into_scheduling_decision()
     }
 }
diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 055f324..4eb4b7e 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -16,6 +16,8 @@ where
     CD: ComponentTraits + ComponentLifecycle,
 {
     fn wake_by_ref(arc_self: &Arc<Self>) {
+        #[cfg(kompact_verif)]
+        crate::verif::point("wake-before");
         arc_self.schedule()
     }
 }
diff --git a/core/src/lib.rs b/core/src/lib.rs
index 099dbec..2fb3a7f 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -71,6 +71,7 @@
 #![allow(clippy::unused_unit)]
 #![allow(clippy::match_ref_pats)]
 #![allow(clippy::new_without_default)]
+#![allow(unexpected_cfgs)] // kompact_verif
 #![cfg_attr(nightly, feature(never_type))]
 
 #[cfg(feature = "thread_pinning")]
@@ -127,6 +128,8 @@ pub mod test_support;
 /// Reusable timer facility internals
 pub mod timer;
 mod utils;
+#[cfg(kompact_verif)]
+pub mod verif;
 
 pub use dispatch::lookup;
 
diff --git a/core/src/verif.rs b/core/src/verif.rs
new file mode 100644
index 0000000..bd28966
--- /dev/null
+++ b/core/src/verif.rs
@@ -0,0 +1,20 @@
+//! Observation points for the model-based verification harness.
+//!
+//! Only compiled with `--cfg kompact_verif`.
+
+use std::sync::OnceLock;
+
+static POINT: OnceLock<fn(&'static str)> = OnceLock::new();
+
+/// Install the function to be called at every observation point (once per process)
+pub fn install(f: fn(&'static str)) {
+    let _ = POINT.set(f);
+}
+
+/// An observation point
+#[inline]
+pub fn point(name: &'static str) {
+    if let Some(f) = POINT.get() {
+        f(name)
+    }
+}
-- 
2.43.0


From 278cbfe5aa36d5eb042b363f90caefd1c9414329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 02/41] fix: poll a future that a blocking future asks to block
 on

The replacement future was stored without ever being polled, so no waker was registered for it
and the component stayed blocked forever.
---
 core/src/component/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index b31f5e2..22f846b 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -242,7 +242,8 @@ where
                     self.blocking_future.replace(blocking_state).is_none(),
                     "Replacing a blocking future without completing it first is invalid!"
                 );
-                BlockingTaskResult::Pending
+                // The new future must be polled at least once, or nothing will ever wake us up.
+                self.run_blocking_task()
             }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
                 if blocking_state.unblock_state == StateTransition::Destroyed =>
-- 
2.43.0


From 343c9d5c8e9d69d399cb69665776e63a85f9998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 03/41] fix: run nothing of a component after it was killed

Lifecycle events and future polls that were queued behind a Kill were still handled in the same
execution (a Start even resurrected the component), and a second execution that waited for the
lock could continue with a component that had ended in the meantime.
---
 core/src/component/actual_component.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index e7e4d66..b3bc09c 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -402,6 +402,10 @@ impl<CD: ComponentTraits> Component<CD> {
         crate::verif::point("exec-before-lock");
         match self.mutable_core.lock() {
             Ok(mut guard) => {
+                // The component may have ended while we were waiting for the lock.
+                if self.is_destroyed() || self.is_faulty() {
+                    return SchedulingDecision::NoWork;
+                }
                 if guard.definition.ctx().is_blocking() {
                     match guard.definition.ctx_mut().run_blocking_task() {
                         BlockingTaskResult::Pending => return SchedulingDecision::Blocked,
@@ -463,7 +467,11 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                // nothing may run anymore, no matter what is still queued
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -492,7 +500,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From 4d6c16df83bedf175ce592d1c9b3a74c22f9a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 04/41] fix: account for timeouts that were cancelled while
 queued

Their unit of work was never given back, so the component was rescheduled forever, and all
timeouts queued behind the cancelled one had to wait for another execution.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index b3bc09c..be42497 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -534,6 +534,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // not run, but it was counted as work when it was queued
+                            count += 1;
+                            continue;
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..3a90508 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,7 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +252,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                _ => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From 84888596eb44b46d5ce11295e21bb35e6f57580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 05/41] fix: schedule components on their own scheduler for
 port events and timeouts

Port events and timeouts scheduled their target directly on the system's scheduler, so a component
with a dedicated thread was executed on the shared pool.
---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 3a90508..7f97687 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -357,8 +357,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From ca3b88a771c8a87155b18467aced493462688a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 06/41] fix: complete kill notifications of components that
 were never started

The supervisor only notified listeners of components it tracks as started, so kill_notify on
a component that had not been started never completed.
---
 core/src/supervision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..e2bb033 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,11 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From 73053bcdb88045725189c5173edc7c48fc57899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 07/41] fix: continue with the next port after a handler that
 blocked or reported an error

The port that returned early was served first again in the next execution, so a port whose handlers
block or report benign errors starved the component's other ports.
---
 macros/component-definition-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..389f1e3 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -90,13 +90,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #i + 1);
                                     }
                                     Ok(Handled::Shutdown) => {
                                         return ExecuteResult::shutdown(count, #i);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #i + 1);
                                     }
                                 }
                             }
@@ -126,13 +126,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #i + 1);
                                 }
                                 Ok(Handled::Shutdown) => {
                                     return ExecuteResult::shutdown(count, #i);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #i + 1);
                                 }
                             }
                         }
-- 
2.43.0


From bbffd0d36be06e0676cd358b9844ea2fd6ed2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 08/41] fix: keep a passive component passive when a spawned
 future blocks it

Once the blocking future completed the component became active without having been started.
---
 core/src/component/actual_component.rs | 11 ++++++++++-
 core/src/component/context.rs          |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index be42497..5d694fa 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -230,6 +230,11 @@ impl<CD: ComponentTraits> Component<CD> {
         lifecycle::set_active(&self.core.state)
     }
 
+    /// Return to the passive state without reporting a stop
+    pub(super) fn set_inactive(&self) {
+        lifecycle::set_passive(&self.core.state);
+    }
+
     pub(super) fn set_passive(&self) {
         lifecycle::set_passive(&self.core.state);
         if let Some(ref supervisor) = self.supervisor {
@@ -479,7 +484,11 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                lifecycle::ControlEvent::Poll(_) if !self.is_active() => {
+                                    // a spawned future must not start its component
+                                    StateTransition::Inactive
+                                }
+                                lifecycle::ControlEvent::Poll(_) => StateTransition::Active,
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 22f846b..e3d0bff 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -10,6 +10,7 @@ use std::task::Poll;
 pub(super) enum StateTransition {
     #[default]
     Active,
+    Inactive,
     Started,
     Passive,
     Destroyed,
@@ -259,6 +260,7 @@ where
                 if matches!(&result, Ok(Handled::Ok) | Err(HandlerError::Benign(_))) {
                     match blocking_state.unblock_state {
                         StateTransition::Active => component.set_active(),
+                        StateTransition::Inactive => component.set_inactive(),
                         StateTransition::Started => {
                             component.set_active();
                             component.notify_started();
-- 
2.43.0


From 691c1274f82bb7854358861a3c7b248449d00d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 09/41] fix: keep references equal to themselves after their
 component was deallocated

ActorRef and DynActorRef compared unequal, even to themselves, as soon as the target was gone.
---
 core/src/actors/refs.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/actors/refs.rs b/core/src/actors/refs.rs
index 04fb442..009d32c 100644
--- a/core/src/actors/refs.rs
+++ b/core/src/actors/refs.rs
@@ -200,10 +200,8 @@ impl fmt::Display for DynActorRef {
 
 impl PartialEq for DynActorRef {
     fn eq(&self, other: &DynActorRef) -> bool {
-        match (self.component.upgrade(), other.component.upgrade()) {
-            (Some(ref me), Some(ref it)) => me.id() == it.id(),
-            _ => false,
-        }
+        // Don't upgrade here, as a reference remains the same after its target was deallocated.
+        self.component.ptr_eq(&other.component)
     }
 }
 
@@ -718,10 +716,8 @@ impl<M: MessageBounds> fmt::Display for ActorRef<M> {
 
 impl<M: MessageBounds> PartialEq for ActorRef<M> {
     fn eq(&self, other: &ActorRef<M>) -> bool {
-        match (self.component.upgrade(), other.component.upgrade()) {
-            (Some(ref me), Some(ref it)) => me.id() == it.id(),
-            _ => false,
-        }
+        // Don't upgrade here, as a reference remains the same after its target was deallocated.
+        self.component.ptr_eq(&other.component)
     }
 }
 
-- 
2.43.0


From b92cfe921310a6348eedb9054320715d507cddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 10/41] fix: keep the address type of a serialised path apart
 from its transport

---
 core/src/messaging/framing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..18aa87f 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -32,7 +32,7 @@ pub enum PathType {
 }
 
 impl BitField for AddressType {
-    const POS: usize = 2;
+    const POS: usize = 5;
     const WIDTH: usize = 2;
 }
 
@@ -231,9 +231,9 @@ impl TryFrom<u8> for SystemPathHeader {
 ///
 /// # System Paths
 /// ```text
-/// +-------------------+-------------------+-----------------------+
-/// | Path type (1 bit) | Protocol (5 bits) | Address Type (2 bits) |
-/// +-------------------+-------------------+-----------------------+----------------+
+/// +-------------------+-----------------------+-------------------+
+/// | Path type (1 bit) | Address Type (2 bits) | Protocol (5 bits) |
+/// +-------------------+-----------------------+-------------------+----------------+
 /// |                   Address (4/16/ * bytes)                  ...| Port (2 bytes) |
 /// +---------------------------------------------------------------+----------------+
 /// ```
-- 
2.43.0


From 3addaf6cf92cb97bfea149056a4063e6e28c930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 11/41] fix: print IPv6 system paths so that they can be parsed
 again

---
 core/src/actors/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..b2ff820 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,7 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From 34305becae613e38e390ade87e018a3ca02f1574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 12/41] fix: answer malformed path encodings with an error
 instead of a panic or an invalid path

---
 core/src/messaging/framing.rs | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 18aa87f..9d5c00b 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -279,6 +279,9 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
+    if !buf.has_remaining() {
+        return Err(SerError::invalid_data("No bytes left for a system path"));
+    }
     let fields: u8 = buf.get_u8();
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
@@ -305,9 +308,12 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             }
         }
         AddressType::Domain => {
-            unimplemented!();
+            return Err(SerError::invalid_type("Unsupported AddressType"));
         }
     };
+    if buf.remaining() < 2 {
+        return Err(SerError::invalid_data("Could not parse 2 bytes for port"));
+    }
     let port = buf.get_u16();
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
@@ -399,6 +405,11 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
+                if buf.remaining() < 2 {
+                    return Err(SerError::invalid_data(
+                        "Could not get 2 bytes for the length of the path name",
+                    ));
+                }
                 let name_len = buf.get_u16() as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
@@ -408,21 +419,16 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes).map_err(SerError::from_debug)?;
+                    let path: Vec<String> = if name.is_empty() {
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        name.split('/').map(|s| s.to_string()).collect()
+                    };
+                    let named = system_path
+                        .into_named_with_vec(path)
+                        .map_err(SerError::from_debug)?;
+                    ActorPath::Named(named)
                 }
             }
         };
-- 
2.43.0


From c0173d9470e92914200e8c5d83aff143ebff9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 13/41] fix: answer short or malformed message content with an
 error instead of a panic or a huge allocation

---
 core/src/serialisation/default_serialisers.rs |  3 ++
 core/src/serialisation/mod.rs                 | 13 ++++++
 core/src/serialisation/ser_helpers.rs         |  3 ++
 core/src/serialisation/serde_serialisers.rs   | 42 +++++++++++--------
 4 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..7ab5ef3 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -76,8 +76,10 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
+        check_remaining(buf, 8)?;
         let len_u64 = buf.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
+        check_remaining(buf, len)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
@@ -109,6 +111,7 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
+        check_remaining(buf, 8)?;
         let num = buf.get_u64();
         Ok(num)
     }
diff --git a/core/src/serialisation/mod.rs b/core/src/serialisation/mod.rs
index 6eba60e..677e81e 100644
--- a/core/src/serialisation/mod.rs
+++ b/core/src/serialisation/mod.rs
@@ -14,6 +14,19 @@ pub mod serde_serialisers;
 
 pub use self::{core::*, default_serialisers::*, ser_helpers::deserialise_chunk_lease};
 
+/// Returns an error unless at least `len` more bytes can be read from `buf`.
+pub(crate) fn check_remaining<B: Buf + ?Sized>(buf: &B, len: usize) -> Result<(), SerError> {
+    if buf.remaining() < len {
+        Err(SerError::invalid_data(format!(
+            "Needed {} bytes, but only {} are left",
+            len,
+            buf.remaining()
+        )))
+    } else {
+        Ok(())
+    }
+}
+
 /// A trait that allows to determine the number of bytes in a `SerId`.
 pub trait SerIdSize {
     /// The number of bytes in a concrete implementation of `SerId`.
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..35e3474 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -241,6 +241,7 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
+    check_remaining(&buffer, std::mem::size_of::<SerId>())?;
     let ser_id = buffer.get_ser_id();
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
@@ -259,6 +260,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
+    check_remaining(&buffer, std::mem::size_of::<SerId>())?;
     let ser_id = buffer.get_ser_id();
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
@@ -272,6 +274,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
+    check_remaining(&buffer, std::mem::size_of::<SerId>())?;
     let ser_id = buffer.get_ser_id();
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..10cc1a9 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -468,6 +468,12 @@ impl<'de> BufDeserializer<'de> {
         BufDeserializer { buffer }
     }
 
+    /// The buffer, if at least `len` more bytes can be read from it
+    fn checked(&mut self, len: usize) -> Result<&mut dyn Buf, SerError> {
+        check_remaining(&*self.buffer, len)?;
+        Ok(&mut *self.buffer)
+    }
+
     fn counting<'a>(&'a mut self, len: usize) -> ElementCounting<'a, 'de> {
         ElementCounting::new(self, len)
     }
@@ -490,7 +496,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.checked(1)?.get_u8();
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
     }
@@ -499,7 +505,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i8();
+        let num = self.checked(1)?.get_i8();
         visitor.visit_i8(num)
     }
 
@@ -507,7 +513,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i16();
+        let num = self.checked(2)?.get_i16();
         visitor.visit_i16(num)
     }
 
@@ -515,7 +521,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i32();
+        let num = self.checked(4)?.get_i32();
         visitor.visit_i32(num)
     }
 
@@ -523,7 +529,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i64();
+        let num = self.checked(8)?.get_i64();
         visitor.visit_i64(num)
     }
 
@@ -531,7 +537,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.checked(1)?.get_u8();
         visitor.visit_u8(num)
     }
 
@@ -539,7 +545,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u16();
+        let num = self.checked(2)?.get_u16();
         visitor.visit_u16(num)
     }
 
@@ -547,7 +553,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.checked(4)?.get_u32();
         visitor.visit_u32(num)
     }
 
@@ -555,7 +561,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u64();
+        let num = self.checked(8)?.get_u64();
         visitor.visit_u64(num)
     }
 
@@ -563,7 +569,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f32();
+        let num = self.checked(4)?.get_f32();
         visitor.visit_f32(num)
     }
 
@@ -571,7 +577,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f64();
+        let num = self.checked(8)?.get_f64();
         visitor.visit_f64(num)
     }
 
@@ -579,7 +585,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.checked(4)?.get_u32();
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
         })?;
@@ -599,10 +605,11 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.checked(8)?.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
+        self.checked(len)?;
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
@@ -621,10 +628,11 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.checked(8)?.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different serde implementation, that fulfills them
+        self.checked(len)?;
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         visitor.visit_byte_buf(data)
@@ -634,7 +642,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.checked(1)?.get_u8();
         if num == 0 {
             visitor.visit_none()
         } else {
@@ -683,7 +691,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.checked(8)?.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
     }
@@ -717,7 +725,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.checked(8)?.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
     }
-- 
2.43.0


From fb6fddaf744181e634876fe38354d18c8ae6916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 14/41] fix: forward only the unread part of serialised content

---
 core/src/net/buffers/chunk_ref.rs     | 21 +++++++++++++++++++++
 core/src/serialisation/ser_helpers.rs |  6 +++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..8a76317 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -43,7 +43,10 @@ impl ChunkRef {
 
     /// Appends `new_tail` to the end of the `ChunkRef` chain
     /// Use Public ChunkLease methods into_chunk_ref_as_tail or into_chunk_ref_with_tail
+    ///
+    /// Only the *remaining* bytes of `new_tail` become part of the chain.
     pub(super) fn append_to_chain(&mut self, new_tail: ChunkRef) {
+        let new_tail = new_tail.without_consumed();
         self.chain_len += new_tail.chain_len;
         if let Some(tail) = &mut self.chain {
             // recursion
@@ -54,6 +57,24 @@ impl ChunkRef {
         }
     }
 
+    /// Drops everything before the current `read_pointer`
+    fn without_consumed(mut self) -> ChunkRef {
+        while self.read_pointer >= self.chain_head_len {
+            match self.chain.take() {
+                Some(mut chain) => {
+                    chain.read_pointer += self.read_pointer - self.chain_head_len;
+                    self = *chain;
+                }
+                None => break,
+            }
+        }
+        self.content = &self.content[self.read_pointer..];
+        self.chain_head_len -= self.read_pointer;
+        self.chain_len -= self.read_pointer;
+        self.read_pointer = 0;
+        self
+    }
+
     // Recursive method for the bytes() impl
     fn get_chunk_at(&self, pos: usize) -> &[u8] {
         if pos >= self.chain_head_len {
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 35e3474..78c0448 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -165,7 +165,7 @@ pub fn serialise_msg_with_preserialised(
     src.serialise(buf)?; // src
     dst.serialise(buf)?; // dst
     buf.get_chunk_lease().map(|mut header| {
-        let len = header.capacity() + content.capacity() - FRAME_HEAD_LEN as usize;
+        let len = header.capacity() + content.remaining() - FRAME_HEAD_LEN as usize;
         header.insert_head(FrameHead::new(FrameType::Data, len));
         header.into_chunk_ref_with_tail(content)
     })
@@ -192,7 +192,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkLease(chunk_lease) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
                 assert_eq!(
@@ -206,7 +206,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_ref);
                 assert_eq!(
-- 
2.43.0


From c44a54da47ff58c36769011eb2c2f09c5f3ccb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 15/41] fix: a chunk that has been read completely has no more
 bytes instead of panicking

---
 core/src/net/buffers/chunk_lease.rs | 3 +++
 core/src/net/buffers/chunk_ref.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..c2fb24b 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -143,6 +143,9 @@ impl ChunkLease {
         if pos >= self.chain_head_len {
             if let Some(chain) = &self.chain {
                 chain.get_chunk_at(pos - self.chain_head_len)
+            } else if pos == self.chain_head_len {
+                // Everything has been read
+                &[]
             } else {
                 panic!("Critical Bug in ChunkLease, bad chain");
             }
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index 8a76317..0917220 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -80,6 +80,9 @@ impl ChunkRef {
         if pos >= self.chain_head_len {
             if let Some(chain) = &self.chain {
                 chain.get_chunk_at(pos - self.chain_head_len)
+            } else if pos == self.chain_head_len {
+                // Everything has been read
+                &[]
             } else {
                 panic!("Critical Bug in ChunkRef, bad chain");
             }
-- 
2.43.0


From e02f744129fe3a2b178c16c43b0912181682c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 16/41] fix: give actor paths a serialisation id of their own

---
 core/src/serialisation/default_serialisers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 7ab5ef3..4e29570 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -19,13 +19,12 @@ pub mod serialisation_ids {
 
     /// Id for a `NamedPath`.
     pub const NAMED_PATH: SerId = 3;
-    //pub const SYSTEM_PATH_HEADER: SerId = 4; // this one is freed now...reuse in th future!
 
     /// Id for a `SystemPath`.
     pub const SYSTEM_PATH: SerId = 5;
 
     /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
+    pub const ACTOR_PATH: SerId = 4;
 
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
-- 
2.43.0


From f79be16cce9656918642952d81079b08c27df580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 17/41] fix: system paths can be sent locally

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9d5c00b..b006e16 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -263,7 +263,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
-- 
2.43.0


From a5c4682a3ad9f30ee6eb6112d9f75278eab4b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 18/41] fix: an empty data frame is decoded instead of
 panicking

---
 core/src/net/buffers/decode_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..9741558 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -147,6 +147,10 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            // The content of an empty frame
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
-- 
2.43.0


From 1b01583bd3bac27161580693d8915a13fe888b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 19/41] fix: control frames with invalid content are an error
 instead of a panic

---
 core/src/net/buffers/decode_buffer.rs |  5 +-
 core/src/net/frames.rs                | 69 +++++++++++++--------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 9741558..3e05939 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -205,7 +205,10 @@ impl DecodeBuffer {
                     Start::decode_from(self.read_chunk_lease(head.content_length()))
                         .map_err(|_| FramingError::InvalidFrame)
                 }
-                // Frames without content match here for expediency, Decoder doesn't allow 0 length.
+                // Frames of these types have no content.
+                FrameType::Bye | FrameType::Ack if head.content_length() > 0 => {
+                    Err(FramingError::InvalidFrame)
+                }
                 FrameType::Bye => Ok(Frame::Bye()),
                 FrameType::Ack => Ok(Frame::Ack()),
                 _ => Err(FramingError::UnsupportedFrameType),
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..4dd8c7c 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -298,25 +298,37 @@ impl FrameExt for Data {
     }
 }
 
+/// Checks that at least `len` bytes of the content of a frame are left
+fn check_content(src: &ChunkLease, len: usize) -> Result<(), FramingError> {
+    if src.remaining() < len {
+        Err(FramingError::InvalidFrame)
+    } else {
+        Ok(())
+    }
+}
+
+/// Reads the address in a Hello or Start frame
+fn decode_addr(src: &mut ChunkLease) -> Result<SocketAddr, FramingError> {
+    check_content(src, 1)?;
+    let ip = match src.get_u8() {
+        4 => {
+            check_content(src, 4)?;
+            IpAddr::V4(Ipv4Addr::from(src.get_u32()))
+        }
+        6 => {
+            check_content(src, 16)?;
+            IpAddr::V6(Ipv6Addr::from(src.get_u128()))
+        }
+        _ => return Err(FramingError::InvalidFrame),
+    };
+    check_content(src, 2)?;
+    Ok(SocketAddr::new(ip, src.get_u16()))
+}
+
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_addr(&mut src)?;
+        Ok(Frame::Hello(Hello::new(addr)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
@@ -350,25 +362,10 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_addr(&mut src)?;
+        check_content(&src, 16)?;
+        let id = SessionId::from_u128(src.get_u128());
+        Ok(Frame::Start(Start::new(addr, id)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
-- 
2.43.0


From ccab215ce03b03be2a102c2105fd6cda0dd8e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:17 +0000
Subject: [PATCH 20/41] fix: encoding a data frame writes its payload once
 instead of endlessly

---
 core/src/net/frames.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index 4dd8c7c..9e5f287 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -268,7 +268,7 @@ impl Data {
     }
 
     pub(crate) fn encoded_len(&self) -> usize {
-        self.payload.capacity()
+        self.payload.remaining()
     }
 
     /// Consumes this frame and returns the raw payload buffer
@@ -287,14 +287,12 @@ impl FrameExt for Data {
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
-        while self.payload.has_remaining() {
-            dst.put_slice(self.payload.chunk());
-        }
+        dst.put(&mut self.payload);
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.remaining()
     }
 }
 
-- 
2.43.0


From b1b0a62dd155adcc67b405ced220b91da909c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:01 +0000
Subject: [PATCH 21/41] fix: an overflow that would leave no writeable space is
 chained, not copied

---
 core/src/net/buffers/decode_buffer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 3e05939..fa4b4a8 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -11,7 +11,14 @@ use crate::net::frames::{
     Start,
 };
 use bytes::Buf;
-use std::{cmp::Ordering, fmt::Formatter, io};
+use std::{
+    cmp::{self, Ordering},
+    fmt::Formatter,
+    io,
+};
+
+/// A buffer is not written to unless it has more space than this
+const MIN_WRITEABLE_LEN: usize = 8;
 
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
@@ -93,7 +100,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -123,9 +130,13 @@ impl DecodeBuffer {
         if let Some(mut overflow_chunk) = overflow {
             // TODO: change the config parameter to a separate value?
             let overflow_len = overflow_chunk.remaining();
+            // The buffer must still be writeable afterwards.
+            let min_free_space = cmp::max(
+                self.buffer_config.encode_buf_min_free_space,
+                MIN_WRITEABLE_LEN,
+            );
             if overflow_len < self.writeable_len()
-                && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                && self.writeable_len() - overflow_len > min_free_space
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From 37b5d95eefbdfa3946a7dbd1c8b54a23ec18f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 22/41] fix: memory of a network buffer is released when its
 last holder is gone, not before

---
 core/src/net/buffers/chunk_lease.rs |  6 ++--
 core/src/net/buffers/chunk_ref.rs   |  6 ++--
 core/src/net/buffers/mod.rs         | 44 ++++++++++++++++++-----------
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index c2fb24b..1a1a23c 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,7 +1,7 @@
 use super::ChunkRef;
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
-use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
+use std::{any::Any, cmp::Ordering, ptr::NonNull, sync::Arc};
 
 /// A ChunkLease is a smart-pointer to a byte-slice, implementing [Buf](bytes::Buf) and
 /// [BufMut](bytes::BufMut) interfaces. They are created with one or many distinct slices of
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: Arc<dyn Any + Send + Sync>,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: Arc<dyn Any + Send + Sync>) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index 0917220..37a8a59 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
 use crate::prelude::Buf;
-use std::sync::Arc;
+use std::{any::Any, sync::Arc};
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: Arc<dyn Any + Send + Sync>,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: Arc<dyn Any + Send + Sync>,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..460d283 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -2,6 +2,7 @@ use crate::config::{Config, parse_config_file};
 use bytes::Buf;
 use core::fmt;
 use std::{
+    any::Any,
     convert::{TryFrom, TryInto},
     fmt::{Debug, Formatter},
     sync::Arc,
@@ -206,8 +207,8 @@ impl Chunk for DefaultChunk {
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
     chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
-    ref_count: Arc<()>,
+    /// Shared with everyone who holds some of the content
+    memory: Arc<ChunkMemory>,
     locked: bool,
 }
 
@@ -216,19 +217,30 @@ impl Debug for BufferChunk {
         f.debug_struct("BufferChunk")
             .field("Lock", &self.locked)
             .field("Length", &self.len())
-            .field("RefCount", &Arc::strong_count(&self.ref_count))
+            .field("RefCount", &Arc::strong_count(&self.memory))
             .finish()
     }
 }
 
-impl Drop for BufferChunk {
+/// The memory of a [BufferChunk](BufferChunk), released once neither the chunk itself
+/// nor anyone holding some of its content is left.
+struct ChunkMemory {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkMemory {
     fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
-        // owns the allocation uniquely at drop time.
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and nobody else refers
+        // to it at drop time.
         unsafe { self.allocator.release(self.chunk) };
     }
 }
 
+// SAFETY: the chunk is never accessed through a `ChunkMemory` except to release it.
+unsafe impl Send for ChunkMemory {}
+unsafe impl Sync for ChunkMemory {}
+
 // SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
 // pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
 // shared mutably across threads without taking ownership of the whole `BufferChunk`.
@@ -238,20 +250,17 @@ impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
-        BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
-            ref_count: Arc::new(()),
-            locked: false,
-        }
+        BufferChunk::from_chunk(allocator.get_chunk(), allocator)
     }
 
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
             chunk: raw_chunk,
-            allocator,
-            ref_count: Arc::new(()),
+            memory: Arc::new(ChunkMemory {
+                chunk: raw_chunk,
+                allocator,
+            }),
             locked: false,
         }
     }
@@ -300,14 +309,15 @@ impl BufferChunk {
     }
 
     /// Clones the lock, the BufferChunk will be locked until all given locks are deallocated
-    pub fn get_lock(&self) -> Arc<()> {
-        self.ref_count.clone()
+    /// and its memory will not be released before that.
+    pub fn get_lock(&self) -> Arc<dyn Any + Send + Sync> {
+        self.memory.clone()
     }
 
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            if Arc::strong_count(&self.memory) < 2 {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 1444f3c6da22919bb808995a6f87b5966dc93e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 23/41] fix: a failed reservation gives its buffers back to the
 pool

---
 core/src/net/buffers/buffer_pool.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..2b92271 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,6 +100,8 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
+                // Give back what was taken
+                self.pool.extend(reserved);
                 return Err(BufferError::NoAvailableBuffers(format!(
                     "try_reserve failed while reserving {} bytes. \
                     chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-- 
2.43.0


From a2a6f71c8c4f1a9e3e3a2d446db3736e76c2d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:41 +0000
Subject: [PATCH 24/41] fix: running out of buffers while skipping bytes does
 not overwrite what is already written

---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..8d8bea5 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // What is already written stays untouched
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From 89c0b4077838a096422bfea9b947f354d2f0d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 25/41] fix: an encoder has room for more after its current
 buffer is full

---
 core/src/net/buffers/encode_buffer.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 8d8bea5..dfad82a 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -147,6 +147,8 @@ pub struct BufferEncoder<'a> {
     encode_buffer: &'a mut EncodeBuffer,
     chain_head: Option<ChunkLease>,
     ser_error: Option<SerError>,
+    /// Takes what is written after an error
+    overrun: [u8; 16],
 }
 
 impl<'a> BufferEncoder<'a> {
@@ -160,6 +162,7 @@ impl<'a> BufferEncoder<'a> {
             encode_buffer,
             chain_head: None,
             ser_error: None,
+            overrun: [0; 16],
         }
     }
 
@@ -247,7 +250,8 @@ impl Drop for BufferEncoder<'_> {
 // `advance_mut` or `chunk_mut` updates or derives from that single source of truth.
 unsafe impl BufMut for BufferEncoder<'_> {
     fn remaining_mut(&self) -> usize {
-        self.encode_buffer.writeable_len()
+        // Buffers are swapped when they are full, running out of them is reported in `get_chunk_lease`.
+        usize::MAX
     }
 
     unsafe fn advance_mut(&mut self, cnt: usize) {
@@ -270,6 +274,15 @@ unsafe impl BufMut for BufferEncoder<'_> {
     }
 
     fn chunk_mut(&mut self) -> &mut UninitSlice {
+        if self.ser_error.is_none()
+            && self.encode_buffer.writeable_len() == 0
+            && let Err(err) = self.chain_and_swap()
+        {
+            self.ser_error = Some(err);
+        }
+        if self.ser_error.is_some() {
+            return UninitSlice::new(&mut self.overrun);
+        }
         // SAFETY: `write_offset` always stays within the current buffer length, so the returned
         // uninitialised slice covers exactly the remaining writable tail.
         unsafe {
@@ -316,7 +329,7 @@ unsafe impl BufMut for BufferEncoder<'_> {
                 self.advance_mut(cnt);
             }
             // Check if we need to swap
-            if self.remaining_mut() < (src.len() - off) {
+            if self.encode_buffer.writeable_len() < (src.len() - off) {
                 // The error will be returned later when get_chunk_lease is called.
                 let _ = self.chain_and_swap().map_err(|err| {
                     self.ser_error = Some(err);
-- 
2.43.0


From d44360fc2200d54261debdcbf72646cc77a4d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:45 +0000
Subject: [PATCH 26/41] fix: only a whole segment is a routing marker in a
 lookup path

---
 core/src/dispatch/lookup/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index cd958c3..0979934 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -299,16 +299,16 @@ impl ActorLookup for ActorStore {
                 path
             );
             let last_index = path.len() - 1;
-            let (lookup_path, marker_opt): (&'b [String], Option<char>) = match path[last_index]
-                .chars()
-                .next()
-                .expect("Should not be empty")
-            {
-                // this is validated above
-                BROADCAST_MARKER => (&path[..last_index], Some(BROADCAST_MARKER)),
-                SELECT_MARKER => (&path[..last_index], Some(SELECT_MARKER)),
-                _ => (path, None),
-            };
+            // a marker is only a marker if it is the whole segment
+            let mut last_segment = path[last_index].chars();
+            let (lookup_path, marker_opt): (&'b [String], Option<char>) =
+                match (last_segment.next(), last_segment.next()) {
+                    (Some(BROADCAST_MARKER), None) => {
+                        (&path[..last_index], Some(BROADCAST_MARKER))
+                    }
+                    (Some(SELECT_MARKER), None) => (&path[..last_index], Some(SELECT_MARKER)),
+                    _ => (path, None),
+                };
             match self.name_map.get_node(lookup_path) {
                 Some(node) => {
                     if let Some(entry) = node.value() {
-- 
2.43.0


From 7037a3bfe7389a8cb61185bade88c84dba7edb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:45 +0000
Subject: [PATCH 27/41] fix: a routing path without members goes to the dead
 letter box

---
 core/src/dispatch/lookup/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index 0979934..6aaaef3 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -334,7 +334,10 @@ impl ActorLookup for ActorStore {
                                         }
                                     })
                                     .collect();
-                                if let Some(marker) = marker_opt {
+                                if children.is_empty() {
+                                    // policies can't select from an empty group
+                                    LookupResult::None
+                                } else if let Some(marker) = marker_opt {
                                     // requested routing
                                     match marker {
                                         BROADCAST_MARKER => {
@@ -392,8 +395,12 @@ impl ActorLookup for ActorStore {
                                     }
                                 })
                                 .collect();
-                            let group = RoutingGroup::new(children, policy);
-                            LookupResult::Group(group)
+                            if children.is_empty() {
+                                LookupResult::None
+                            } else {
+                                let group = RoutingGroup::new(children, policy);
+                                LookupResult::Group(group)
+                            }
                         } else {
                             LookupResult::None
                         }
-- 
2.43.0


From e8a5bf07f4b690d9d730f6c5d45e41a9891d3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:45 +0000
Subject: [PATCH 28/41] fix: network messages without a receiver go to the dead
 letter box

---
 network/src/transport/network_thread.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..cea7fb2 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -574,21 +574,30 @@ impl NetworkThread {
             LookupResult::None => {
                 warn!(
                     self.log,
-                    "Could not find actor reference for destination: {:?}, dropping message",
+                    "Could not find actor reference for destination: {:?}, forwarding to DeadletterBox",
                     envelope.receiver
                 );
+                Self::deliver_to_deadletters(&lease_lookup, envelope);
             }
             LookupResult::Err(e) => {
                 error!(
                     self.log,
-                    "An error occurred during local actor lookup for destination: {:?}, dropping message. The error was: {}",
+                    "An error occurred during local actor lookup for destination: {:?}, forwarding to DeadletterBox. The error was: {}",
                     envelope.receiver,
                     e
                 );
+                Self::deliver_to_deadletters(&lease_lookup, envelope);
             }
         }
     }
 
+    fn deliver_to_deadletters(lookup: &ActorStore, envelope: NetMessage) {
+        // the empty path belongs to the deadletter box
+        if let LookupResult::Ref(deadletter) = lookup.get_by_named_path(&[]) {
+            deadletter.enqueue(envelope);
+        }
+    }
+
     fn handle_hello(&mut self, channel: &mut TcpChannel, hello: &Hello) {
         if self.block_list.socket_addr_is_blocked(&hello.addr) {
             self.drop_channel(channel);
-- 
2.43.0


From 75081e641f2676a4974cfc9f56494cd7c20e4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 29/41] fix: a value out of range for f32 is a conversion error
 and not infinity

---
 core/src/config/converters_for_other_types.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/config/converters_for_other_types.rs b/core/src/config/converters_for_other_types.rs
index 503c431..3fea315 100644
--- a/core/src/config/converters_for_other_types.rs
+++ b/core/src/config/converters_for_other_types.rs
@@ -24,9 +24,17 @@ impl ConfigValueType for F32Value {
     type Value = f32;
 
     fn from_conf(conf: &ConfigValue) -> Result<Self::Value, ConfigError> {
-        conf.as_f64()
-            .map(|v| v as f32)
-            .ok_or_else(|| ConfigError::expected::<Self::Value>(conf))
+        let wide = conf
+            .as_f64()
+            .ok_or_else(|| ConfigError::expected::<Self::Value>(conf))?;
+        let value = wide as f32;
+        if value.is_infinite() && wide.is_finite() {
+            return Err(ConfigError::ConversionError {
+                path: None,
+                description: format!("Value {wide} is out of range for f32"),
+            });
+        }
+        Ok(value)
     }
 
     fn into_config_value(value: Self::Value) -> ConfigValue {
-- 
2.43.0


From 02e79e550a7c6a02fe5316864226215e0e4b056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 30/41] fix: blocking an allowed system blocks it, and allowing
 a blocked one puts it on the allow list

---
 network/src/transport/network_thread.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index cea7fb2..7fc8e1c 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1222,14 +1222,16 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
+        // both sets must be updated, so the operator must not short-circuit
         self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+            | self.blocked_socket_addr.insert(socket_addr)
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
+        // both sets must be updated, so the operator must not short-circuit
         self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+            | self.allowed_socket_addr.insert(*socket_addr)
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From ca00d35a4d50a9dbbafbf63d3eb12d52b233b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 31/41] fix: allowing a system that is connected does not
 forget its connection

---
 network/src/dispatcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..5eacd4a 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -542,7 +542,11 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    // a system that was not blocked keeps its connection
+                    if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
-- 
2.43.0


From 057571209dac7b05786016acbfdcbf49830de45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:08 +0000
Subject: [PATCH 32/41] fix: the end of a connection is noticed however it
 ends, and lost is reported for established sessions only

---
 network/src/transport/mod.rs             |  8 ------
 network/src/transport/network_channel.rs | 28 +++++++++++++++++--
 network/src/transport/network_thread.rs  | 34 +++++++++++++-----------
 3 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index e7f47a8..e4245cf 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -533,14 +533,6 @@ pub(crate) fn no_buffer_space(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::InvalidInput
 }
 
-pub(crate) fn connection_reset(err: &io::Error) -> bool {
-    err.kind() == io::ErrorKind::ConnectionReset
-}
-
-pub(crate) fn broken_pipe(err: &io::Error) -> bool {
-    err.kind() == io::ErrorKind::BrokenPipe
-}
-
 pub(crate) fn out_of_buffers(err: &SerError) -> bool {
     err.kind() == SerErrorKind::NoBuffersAvailable
 }
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..dfc1ea7 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -66,6 +66,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// The remote end will not send anything more
+    end_of_stream: bool,
 }
 
 impl TcpChannel {
@@ -89,6 +91,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            end_of_stream: false,
         }
     }
 
@@ -110,6 +113,16 @@ impl TcpChannel {
         self.state.session_id()
     }
 
+    /// The session, if it has been established and its end has not been reported yet
+    pub fn open_session(&self) -> Option<SessionId> {
+        match self.state {
+            ChannelState::Connected(_, id)
+            | ChannelState::CloseRequested(_, id)
+            | ChannelState::CloseReceived(_, id) => Some(id),
+            _ => None,
+        }
+    }
+
     /// Internal helper function for special frames
     fn send_frame(&mut self, mut frame: Frame) {
         let len = frame.encoded_len() + FRAME_HEAD_LEN as usize;
@@ -231,7 +244,14 @@ impl TcpChannel {
                 Ok(Some(Frame::Bye()))
             }
             Ok(frame) => Ok(Some(frame)),
-            Err(FramingError::NoData) => Ok(None),
+            Err(FramingError::NoData) => {
+                // After a Bye there is nothing left to receive
+                if self.end_of_stream && !matches!(self.state, ChannelState::CloseReceived(_, _)) {
+                    Err(Error::new(ErrorKind::UnexpectedEof, "End of stream"))
+                } else {
+                    Ok(None)
+                }
+            }
             Err(_) => Err(Error::new(ErrorKind::InvalidData, "Framing Error")),
         }
     }
@@ -246,6 +266,7 @@ impl TcpChannel {
                 .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "No Buffer Space"))?;
             match self.stream.read(buf) {
                 Ok(0) => {
+                    self.end_of_stream = true;
                     return Ok(());
                 }
                 Ok(n) => {
@@ -314,7 +335,10 @@ impl TcpChannel {
     /// Shuts down the channel stream
     pub fn shutdown(&mut self) {
         let _ = self.stream.shutdown(Both); // Discard errors while closing channels for now...
-        if let ChannelState::Connected(addr, id) = self.state {
+        if let ChannelState::Connected(addr, id)
+        | ChannelState::CloseRequested(addr, id)
+        | ChannelState::CloseReceived(addr, id) = self.state
+        {
             self.state = ChannelState::Closed(addr, id);
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 7fc8e1c..e9abafe 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -397,22 +397,19 @@ impl NetworkThread {
                         self.retry_event(event);
                         return;
                     }
-                    Err(e) if connection_reset(&e) => {
-                        warn!(
-                            self.log,
-                            "Connection lost, reset by peer {}",
-                            channel.address()
-                        );
-                        self.lost_connection(channel);
+                    Err(e) if interrupted(&e) => {
+                        drop(channel);
+                        self.retry_event(event);
                         return;
                     }
                     Err(e) => {
                         warn!(
                             self.log,
-                            "Error reading from channel {}: {}",
+                            "Connection lost, error reading from channel {}: {}",
                             channel.address(),
                             &e
                         );
+                        self.lost_connection(channel);
                         return;
                     }
                 }
@@ -444,9 +441,6 @@ impl NetworkThread {
         if let Some(channel_rc) = self.get_channel_by_token(token) {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
-                Err(ref err) if broken_pipe(err) => {
-                    self.lost_connection(channel);
-                }
                 Ok(_) => {
                     if let ChannelState::CloseReceived(addr, id) = channel.state {
                         channel.state = ChannelState::Closed(addr, id);
@@ -459,13 +453,18 @@ impl NetworkThread {
                         self.reject_outbound_for_channel(&mut channel);
                     }
                 }
+                Err(e) if interrupted(&e) => {
+                    drop(channel);
+                    self.enqueue_writeable_event(token);
+                }
                 Err(e) => {
                     warn!(
                         self.log,
-                        "Unhandled error while writing to {}\n{:?}",
+                        "Connection lost, error writing to channel {}: {}",
                         channel.address(),
                         e
                     );
+                    self.lost_connection(channel);
                 }
             }
         }
@@ -896,11 +895,16 @@ impl NetworkThread {
     /// Handles all logic necessary to shutdown a channel for which the connection has been lost.
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
-        if let Some(id) = channel.session_id() {
-            self.notify_network_status(NetworkStatus::ConnectionLost(
+        match channel.open_session() {
+            Some(id) => self.notify_network_status(NetworkStatus::ConnectionLost(
                 SystemPath::with_socket(Transport::Tcp, channel.address()),
                 id,
-            ));
+            )),
+            None => {
+                // there never was a session that could be lost
+                self.drop_channel(channel.deref_mut());
+                return;
+            }
         }
         self.reject_outbound_for_channel(&mut channel);
         // Try to inform the other end that we're closing the channel
-- 
2.43.0


From 08c23133c47ec96d9da5f37d7b525d68e40baf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:09 +0000
Subject: [PATCH 33/41] fix: a connection the other end closes is closed only
 after everything sent before was written

---
 network/src/transport/network_channel.rs | 5 +++++
 network/src/transport/network_thread.rs  | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index dfc1ea7..65d301a 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -200,6 +200,11 @@ impl TcpChannel {
         }
     }
 
+    /// True if nothing is waiting to be written
+    pub fn drained(&self) -> bool {
+        self.outbound_queue.is_empty()
+    }
+
     pub fn swap_buffer(&mut self, new_buffer: &mut BufferChunk) {
         self.input_buffer.swap_buffer(new_buffer);
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index e9abafe..cfa68c8 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -442,7 +442,9 @@ impl NetworkThread {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
                 Ok(_) => {
-                    if let ChannelState::CloseReceived(addr, id) = channel.state {
+                    if let ChannelState::CloseReceived(addr, id) = channel.state
+                        && channel.drained()
+                    {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
-- 
2.43.0


From 3636602ec3712ea022739cf4f8eef901db11f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:47 +0000
Subject: [PATCH 34/41] fix: a frame that was written in part, or that is not a
 message, is not sent again over the next connection

---
 network/src/transport/network_channel.rs | 37 ++++++++++++++++++++----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 65d301a..7786b51 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -3,7 +3,7 @@ use crate::{
     messaging::SerialisedFrame,
     net::{
         buffers::{BufferChunk, BufferPool, DecodeBuffer},
-        frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start},
+        frames::{FRAME_HEAD_LEN, Frame, FrameType, FramingError, Hello, Start},
     },
 };
 use bytes::{Buf, BytesMut};
@@ -68,6 +68,8 @@ pub(crate) struct TcpChannel {
     nodelay: bool,
     /// The remote end will not send anything more
     end_of_stream: bool,
+    /// The first part of the frame at the front of the outbound queue has been written already
+    partially_written: bool,
 }
 
 impl TcpChannel {
@@ -92,6 +94,7 @@ impl TcpChannel {
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
             end_of_stream: false,
+            partially_written: false,
         }
     }
 
@@ -209,12 +212,16 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Empties the outbound queue and returns the messages in it that can be sent on another channel.
+    ///
+    /// These are the data frames of which nothing has been written to this channel yet.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
-        let mut ret = Vec::new();
-        while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
-        }
-        ret
+        let started = usize::from(self.partially_written);
+        self.outbound_queue
+            .drain(..)
+            .skip(started)
+            .filter(is_data_frame)
+            .collect()
     }
 
     /// Performs receive and decode, should be called repeatedly
@@ -295,6 +302,10 @@ impl TcpChannel {
 
     /// Enqueues a Bye message, and attempts to drain the message, returning Ok if the bye was sent
     pub fn send_bye(&mut self) -> io::Result<()> {
+        if self.partially_written && self.outbound_queue.is_empty() {
+            // The rest of a frame was discarded, so that anything that follows would be taken for a part of it
+            return Err(Error::new(ErrorKind::InvalidData, "bye not sent"));
+        }
         let mut bye = Frame::Bye();
         let mut bye_bytes = BytesMut::with_capacity(128);
         let len = bye.encoded_len() + FRAME_HEAD_LEN as usize;
@@ -378,18 +389,21 @@ impl TcpChannel {
                     match &mut serialized_frame {
                         // Split the data and continue sending the rest later if we sent less than the full frame
                         SerialisedFrame::Bytes(bytes) => {
+                            self.partially_written = n < bytes.len();
                             if n < bytes.len() {
                                 let _ = bytes.split_to(n); // Discard the already sent split off part.
                                 self.outbound_queue.push_front(serialized_frame);
                             }
                         }
                         SerialisedFrame::ChunkLease(chunk) => {
+                            self.partially_written = n < chunk.remaining();
                             if n < chunk.remaining() {
                                 chunk.advance(n);
                                 self.outbound_queue.push_front(serialized_frame);
                             }
                         }
                         SerialisedFrame::ChunkRef(chunk) => {
+                            self.partially_written = n < chunk.remaining();
                             if n < chunk.remaining() {
                                 chunk.advance(n);
                                 self.outbound_queue.push_front(serialized_frame);
@@ -434,6 +448,17 @@ impl TcpChannel {
     }
 }
 
+/// Tells the frames that carry messages from those that open and close channels
+fn is_data_frame(frame: &SerialisedFrame) -> bool {
+    match frame {
+        // The control frames are the ones the channel makes itself
+        SerialisedFrame::Bytes(bytes) => {
+            bytes.get(FRAME_HEAD_LEN as usize - 1) == Some(&(FrameType::Data as u8))
+        }
+        SerialisedFrame::ChunkLease(_) | SerialisedFrame::ChunkRef(_) => true,
+    }
+}
+
 impl std::fmt::Debug for TcpChannel {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("TcpChannel")
-- 
2.43.0


From 16baad44299f6bf5236524e49578765dc794a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:09 +0000
Subject: [PATCH 35/41] fix: replacing a connection that is being closed
 reports the end of its session

---
 network/src/transport/network_channel.rs | 18 +++----------
 network/src/transport/network_thread.rs  | 32 +++++++++++++-----------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 7786b51..c36b077 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -37,8 +37,6 @@ pub(crate) enum ChannelState {
     CloseReceived(SocketAddr, SessionId),
     /// The channel is closing, will be dropped once the local `NetworkDispatcher` Acks the closing.
     Closed(SocketAddr, SessionId),
-    /// There has been a fatal error on the Channel
-    Error(Error),
 }
 
 impl ChannelState {
@@ -51,7 +49,6 @@ impl ChannelState {
             ChannelState::CloseRequested(_, session) => Some(*session),
             ChannelState::CloseReceived(_, session) => Some(*session),
             ChannelState::Closed(_, session) => Some(*session),
-            ChannelState::Error(_) => None,
         }
     }
 }
@@ -141,18 +138,9 @@ impl TcpChannel {
         }
     }
 
-    /// Checks the socket for errors and returns the current state
-    pub fn read_state(&mut self) -> &ChannelState {
-        match self.stream.take_error() {
-            Ok(Some(error)) => {
-                self.state = ChannelState::Error(error);
-            }
-            Err(error) => {
-                self.state = ChannelState::Error(error);
-            }
-            _ => (), // ignore
-        }
-        &self.state
+    /// True if there is an error pending on the socket
+    pub fn has_error(&self) -> bool {
+        !matches!(self.stream.take_error(), Ok(None))
     }
 
     pub fn initialise(&mut self, addr: &SocketAddr) {
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index cfa68c8..7b87e70 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -622,33 +622,25 @@ impl NetworkThread {
             return;
         }
         if let Some(other_channel_rc) = self.get_channel_by_address(&start.addr) {
-            let mut other_channel = other_channel_rc.borrow_mut();
+            let other_channel = other_channel_rc.borrow_mut();
             debug!(
                 self.log,
                 "Merging channels {:?} and {:?}", channel, other_channel
             );
-            match other_channel.read_state() {
-                ChannelState::Connected(_, _) => {
-                    if other_channel.messages == 0 {
-                        self.drop_channel(channel);
-                        return;
-                    } else {
-                        self.lost_connection(other_channel);
-                    }
-                }
-                ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
+            match other_channel.state {
+                _ if other_channel.has_error() => self.lost_connection(other_channel),
+                ChannelState::Connected(_, _) if other_channel.messages == 0 => {
                     self.drop_channel(channel);
                     return;
                 }
-                ChannelState::Initialised(_, other_id)
+                ChannelState::Requested(_, other_id) | ChannelState::Initialised(_, other_id)
                     if other_id.as_u128() > start.id.as_u128() =>
                 {
                     self.drop_channel(channel);
                     return;
                 }
-                _ => {
-                    self.drop_channel(other_channel.deref_mut());
-                }
+                // reports the end of the session, if there was one
+                _ => self.lost_connection(other_channel),
             }
         }
         self.reregister_channel_address(channel.address(), start.addr);
@@ -727,6 +719,16 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    debug!(
+                        self.log,
+                        "Requested connection to host while still closing the last one {}",
+                        &address
+                    );
+                    // will be re-requested
+                    self.lost_connection(channel);
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
-- 
2.43.0


From 64db677beb0161eddf14f9edb929feba95343e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 36/41] fix: frames that are malformed or out of turn end the
 connection they came over and not the network thread

---
 network/src/transport/network_channel.rs | 18 ++++++++++++++++++
 network/src/transport/network_thread.rs  | 10 +++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index c36b077..de7627f 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -234,6 +234,10 @@ impl TcpChannel {
             };
         }
         match self.decode() {
+            Ok(frame) if !self.expects(&frame) => Err(Error::new(
+                ErrorKind::InvalidData,
+                format!("Unexpected frame {:?}", frame.frame_type()),
+            )),
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
             Ok(Frame::Ack()) => {
                 self.handle_ack();
@@ -256,6 +260,20 @@ impl TcpChannel {
         }
     }
 
+    /// Whether the remote end may send the frame in the current state
+    fn expects(&self, frame: &Frame) -> bool {
+        match frame {
+            Frame::Hello(_) => matches!(self.state, ChannelState::Requested(_, _)),
+            Frame::Start(_) => matches!(self.state, ChannelState::Initialising),
+            Frame::Ack() => matches!(self.state, ChannelState::Initialised(_, _)),
+            Frame::Data(_) => matches!(
+                self.state,
+                ChannelState::Connected(_, _) | ChannelState::CloseRequested(_, _)
+            ),
+            _ => true,
+        }
+    }
+
     /// This tries to read from the Tcp buffer into the DecodeBuffer, nothing else.
     fn receive(&mut self) -> io::Result<()> {
         let mut interrupts = 0;
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 7b87e70..1c5937a 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -558,9 +558,13 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => warn!(self.log, "Dropping a message that is malformed: {}", e),
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From a209b4af64ff1f2cfb56aa66735b2f9188922fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:59 +0000
Subject: [PATCH 37/41] fix: a connection that is being closed already is not
 dropped without a report

---
 network/src/transport/network_thread.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 1c5937a..b4d201c 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -894,7 +894,7 @@ impl NetworkThread {
             if channel_mut.connected() {
                 channel_mut.initiate_graceful_shutdown();
                 self.update_lru(&channel_mut.token);
-            } else {
+            } else if channel_mut.open_session().is_none() {
                 self.drop_channel(channel_mut.deref_mut());
             }
         }
@@ -1005,7 +1005,7 @@ impl NetworkThread {
                         "Dropping channel to blocked socket: {:?}", socket_addr
                     );
                     let mut channel = channel_rc.borrow_mut();
-                    if channel.connected() {
+                    if channel.open_session().is_some() {
                         self.notify_network_status(NetworkStatus::ConnectionDropped(
                             SystemPath::with_socket(Transport::Tcp, socket_addr),
                         ));
@@ -1071,7 +1071,7 @@ impl NetworkThread {
                     "Dropping channel to blocked socket: {:?}", socket_addr
                 );
                 let mut channel = channel_rc.borrow_mut();
-                if channel.connected() {
+                if channel.open_session().is_some() {
                     self.notify_network_status(NetworkStatus::ConnectionDropped(
                         SystemPath::with_socket(Transport::Tcp, socket_addr),
                     ));
-- 
2.43.0


From 85b2308d001983d65b88ebaf052480c96e271043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:23 +0000
Subject: [PATCH 38/41] fix: what a connection that ended had not sent goes
 before what was sent later

---
 network/src/dispatcher.rs               |  4 ++++
 network/src/events.rs                   |  4 ++++
 network/src/queue_manager.rs            |  5 +++++
 network/src/transport/network_thread.rs | 10 ++++++++--
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 5eacd4a..e4bba28 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -571,6 +571,10 @@ impl NetworkDispatcher {
                 self.queue_manager.enqueue_priority_data(*data, addr);
                 self.retry_map.entry(addr).or_insert(0);
             }
+            NetworkDispatcherEvent::ReturnedData((addr, data)) => {
+                self.queue_manager.return_data(*data, addr);
+                self.retry_map.entry(addr).or_insert(0);
+            }
         }
     }
 
diff --git a/network/src/events.rs b/network/src/events.rs
index 2484392..087d58e 100644
--- a/network/src/events.rs
+++ b/network/src/events.rs
@@ -74,4 +74,8 @@ pub(crate) enum NetworkDispatcherEvent {
     Network(NetworkStatus),
     /// Data that the transport thread could not deliver and must requeue.
     RejectedData((SocketAddr, Box<DispatchData>)),
+    /// Data that a channel had accepted and did not send before it ended.
+    ///
+    /// It is older than everything that was rejected, and is returned newest first.
+    ReturnedData((SocketAddr, Box<DispatchData>)),
 }
diff --git a/network/src/queue_manager.rs b/network/src/queue_manager.rs
index 2fae941..bb86274 100644
--- a/network/src/queue_manager.rs
+++ b/network/src/queue_manager.rs
@@ -31,6 +31,11 @@ impl QueueManager {
         self.priority_queue.entry(dst).or_default().push_back(data);
     }
 
+    /// Puts the given frame in front of everything else on the SocketAddr's queue
+    pub fn return_data(&mut self, data: DispatchData, dst: SocketAddr) {
+        self.priority_queue.entry(dst).or_default().push_front(data);
+    }
+
     /// Extracts the next queue-up frame for the SocketAddr, if one exists
     ///
     /// If the SocketAddr exists but its queue is empty, the entry is removed.
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b4d201c..2dbb1fc 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -922,8 +922,14 @@ impl NetworkThread {
     }
 
     fn reject_outbound_for_channel(&mut self, channel: &mut TcpChannel) {
-        for rejected_frame in channel.take_outbound() {
-            self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
+        // Newest first, as each of them is put in front of the others
+        for frame in channel.take_outbound().into_iter().rev() {
+            self.dispatcher_ref.tell(DispatchEnvelope::Event(Box::new(
+                NetworkDispatcherEvent::ReturnedData((
+                    channel.address(),
+                    Box::new(DispatchData::Serialised(frame)),
+                )),
+            )));
         }
     }
 
-- 
2.43.0


From a6039122205a13f3c1db7c94182ec3dbbf96f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:35 +0000
Subject: [PATCH 39/41] fix: bytes left over from a UDP datagram are not taken
 for the start of the next one

---
 core/src/net/buffers/decode_buffer.rs | 9 +++++++++
 network/src/transport/udp_state.rs    | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index fa4b4a8..5a41f54 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -115,6 +115,15 @@ impl DecodeBuffer {
         Ok(false)
     }
 
+    /// Discards everything that was written but not read yet, including a partially read frame.
+    ///
+    /// The next frame is expected to start with the bytes written next.
+    pub fn discard_readable(&mut self) -> () {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     /// Swaps the underlying buffer in place with `other`.
     ///
     /// Afterwards `other` owns the used up bytes and is locked.
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..30eda56 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -110,6 +110,8 @@ impl UdpState {
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // Whatever wasn't decoded must not be taken for a part of the next datagram
+                        self.input_buffer.discard_readable();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From a432d126903786b2ea476fbfcbdb20153608ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:35 +0000
Subject: [PATCH 40/41] fix: an empty UDP datagram does not stop the reading of
 the ones behind it

---
 network/src/transport/udp_state.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 30eda56..22a90a6 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -105,7 +105,6 @@ impl UdpState {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
-- 
2.43.0


From d9cead617da591f60038337188deb3dfb9a3f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:35 +0000
Subject: [PATCH 41/41] fix: a UDP message that cannot be sent does not block
 the messages behind it

---
 network/src/transport/udp_state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 22a90a6..c9feb0f 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -69,10 +69,15 @@ impl UdpState {
                         return Err(err);
                     }
                 }
-                // Other errors we'll consider fatal.
+                // This datagram can't be sent, but that says nothing about the others.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
-                    return Err(err);
+                    warn!(
+                        self.logger,
+                        "Dropping UDP message to {} of {} bytes: {}",
+                        addr,
+                        frame.len(),
+                        err
+                    );
                 }
             }
         }
-- 
2.43.0

