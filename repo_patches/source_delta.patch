From 91e146a388a538dbf0b5cb782ee3f0fbf7f8368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:27 +0000
Subject: [PATCH 01/15] fix: bound derived generics on Collectable instead of
 heapsize::HeapSize

Deriving Collectable on a type with a generic parameter generated a bound on a
trait from a crate which is not a dependency, so the derive never compiled.
---
 dumpster_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..2ea9643 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
-- 
2.43.0


From bd99d0d3353452ffb10c9d4018c94a57726b7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:27 +0000
Subject: [PATCH 02/15] fix: avoid a name collision between derived code and
 user generics

A derived type with a parameter named V failed to compile because the generated
method declared a generic parameter of the same name.
---
 dumpster_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 2ea9643..96bb7dd 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
-- 
2.43.0


From 800fd01c2d5c2c0b797ae144458c38e085d9e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:27 +0000
Subject: [PATCH 03/15] fix: allow deriving Collectable on enums without
 variants

Matching on a reference to an uninhabited enum is not exhaustive, so the derived
code was rejected by the compiler.
---
 dumpster_derive/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 96bb7dd..65cefaf 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -86,6 +86,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             }
             Fields::Unit => quote! { std::result::Result::Ok(()) },
         },
+        Data::Enum(e) if e.variants.is_empty() => quote! { match *self {} },
         Data::Enum(e) => {
             let mut delegate_visit = TokenStream::new();
             for var in &e.variants {
-- 
2.43.0


From d15ccec0e403460f42f93d6d3823ac109b76e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:53 +0000
Subject: [PATCH 04/15] fix: visit the contents of poisoned locks instead of
 panicking

A panic while holding a Mutex or RwLock poisons it.  Any later drop or collection
which visited such a lock panicked as well, even though its data is accessible.
---
 dumpster/src/impls.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..388b38f 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -90,26 +90,24 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RefCell<T> {
 unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_lock() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // poisoning does not make the data inaccessible
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
 unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_read() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // poisoning does not make the data inaccessible
+            Err(TryLockError::Poisoned(e)) => e.get_ref().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From 21f42a439e218ec3db9beb432a884d55fc726e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:54 +0000
Subject: [PATCH 05/15] fix: require T: Eq for Gc<T>: Eq

Gc compares by value, so claiming a total equivalence for values which are only
PartialEq (such as floats) made Gc<f32> compare unequal to itself.
---
 dumpster/src/sync/mod.rs   | 2 +-
 dumpster/src/unsync/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..757f949 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -631,7 +631,7 @@ where
     }
 }
 
-impl<T> Eq for Gc<T> where T: Collectable + Send + Sync + ?Sized + PartialEq {}
+impl<T> Eq for Gc<T> where T: Collectable + Send + Sync + ?Sized + Eq {}
 
 impl<T: Collectable + Send + Sync + ?Sized> AsRef<T> for Gc<T> {
     fn as_ref(&self) -> &T {
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..a7da3ce 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -561,7 +561,7 @@ where
     }
 }
 
-impl<T> Eq for Gc<T> where T: Collectable + ?Sized + PartialEq {}
+impl<T> Eq for Gc<T> where T: Collectable + ?Sized + Eq {}
 
 impl CollectInfo {
     #[must_use]
-- 
2.43.0


From 227e84c3f4a98abeecad1dc105568206c63e812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:55 +0000
Subject: [PATCH 06/15] fix: skip dead Gcs while traversing allocations

A Gc which outlived its allocation may be stored inside of a live allocation.
Traversing that allocation panicked because the pointer was unwrapped.
---
 dumpster/src/sync/collect.rs   |  9 +++++++--
 dumpster/src/unsync/collect.rs | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..11031d6 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -397,7 +397,9 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = (unsafe { *gc.ptr.get() }).as_option() else {
+            return;
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -507,7 +509,10 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
+            let Some(ptr) = (unsafe { *gc.ptr.get() }).as_option() else {
+                return;
+            };
+            let id = AllocationId::from(ptr);
             if matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..7ac6889 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -245,7 +245,9 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -284,7 +286,9 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -311,7 +315,9 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return;
+        };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
             unsafe {
-- 
2.43.0


From d3b1d0a5e9fdef0c84d32877c499d0805cc6bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:33 +0000
Subject: [PATCH 07/15] fix: allow dereferencing live Gcs from destructors
 during a collection

unsync::Gc panicked on every dereference made by a destructor which ran during a
collection, and Gc::try_deref panicked too.  Only dead Gcs, whose pointer has been
nulled out, need to panic.
---
 dumpster/src/unsync/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index a7da3ce..38530c8 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
-- 
2.43.0


From bd124d5cf0a36889b7e9e54b663781c1b1795952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:56 +0000
Subject: [PATCH 08/15] fix: let unsync Gcs be dropped while thread-locals are
 destroyed

A Gc stored in a thread-local could be dropped after the thread's dumpster, which
panicked inside of a destructor and aborted the process.
---
 dumpster/src/unsync/mod.rs | 55 +++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index 38530c8..1cd3cf9 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -213,7 +213,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        let _ = DUMPSTER.try_with(Dumpster::notify_created_gc);
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
@@ -468,7 +468,7 @@ impl<T: Collectable + ?Sized> Clone for Gc<T> {
                 .ref_count
                 .set(box_ref.ref_count.get().saturating_add(1));
         }
-        DUMPSTER.with(|d| {
+        let _ = DUMPSTER.try_with(|d| {
             d.notify_created_gc();
             // d.mark_cleaned(self.ptr);
         });
@@ -490,35 +490,34 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-        DUMPSTER.with(|d| {
-            let box_ref = unsafe { ptr.as_ref() };
-            match box_ref.ref_count.get() {
-                NonZeroUsize::MIN => {
-                    d.mark_cleaned(ptr);
-                    unsafe {
-                        // this was the last reference, drop unconditionally
-                        drop_in_place(addr_of_mut!(ptr.as_mut().value));
-                        // note: `box_ref` is no longer usable
-                        dealloc(ptr.as_ptr().cast::<u8>(), Layout::for_value(ptr.as_ref()));
-                    }
+        // the dumpster is inaccessible once this thread has begun destroying its thread-locals
+        let box_ref = unsafe { ptr.as_ref() };
+        match box_ref.ref_count.get() {
+            NonZeroUsize::MIN => {
+                let _ = DUMPSTER.try_with(|d| d.mark_cleaned(ptr));
+                unsafe {
+                    // this was the last reference, drop unconditionally
+                    drop_in_place(addr_of_mut!(ptr.as_mut().value));
+                    // note: `box_ref` is no longer usable
+                    dealloc(ptr.as_ptr().cast::<u8>(), Layout::for_value(ptr.as_ref()));
                 }
-                n => {
-                    // decrement the ref count - but another reference to this data still
-                    // lives
-                    box_ref
-                        .ref_count
-                        .set(NonZeroUsize::new(n.get() - 1).unwrap());
-
-                    if contains_gcs(&box_ref.value).unwrap_or(true) {
-                        // remaining references could be a cycle - therefore, mark it as dirty
-                        // so we can check later
-                        d.mark_dirty(ptr);
-                    }
+            }
+            n => {
+                // decrement the ref count - but another reference to this data still
+                // lives
+                box_ref
+                    .ref_count
+                    .set(NonZeroUsize::new(n.get() - 1).unwrap());
+
+                if contains_gcs(&box_ref.value).unwrap_or(true) {
+                    // remaining references could be a cycle - therefore, mark it as dirty
+                    // so we can check later
+                    let _ = DUMPSTER.try_with(|d| d.mark_dirty(ptr));
                 }
             }
-            // Notify that a GC has been dropped, potentially triggering a cleanup
-            d.notify_dropped_gc();
-        });
+        }
+        // Notify that a GC has been dropped, potentially triggering a cleanup
+        let _ = DUMPSTER.try_with(Dumpster::notify_dropped_gc);
     }
 }
 
-- 
2.43.0


From 7d2ac1bafb0e1c14f214544d15e88559e6c8e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:02 +0000
Subject: [PATCH 09/15] fix: let sync Gcs be dropped while thread-locals are
 destroyed

A Gc stored in a thread-local could be dropped after the thread's dumpster, which
panicked inside of a destructor and aborted the process.  Allocations which become
dirty that late are handed to the garbage truck directly.
---
 dumpster/src/sync/collect.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 11031d6..42a1e06 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -143,7 +143,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -170,10 +170,8 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
-        if dumpster
-            .contents
-            .borrow_mut()
+    let insert = |contents: &mut HashMap<AllocationId, TrashCan>| {
+        if contents
             .insert(
                 AllocationId::from(box_ref),
                 TrashCan {
@@ -185,7 +183,14 @@ where
         {
             box_ref.weak.fetch_add(1, Ordering::Acquire);
         }
-    });
+    };
+    if DUMPSTER
+        .try_with(|dumpster| insert(&mut dumpster.contents.borrow_mut()))
+        .is_err()
+    {
+        // this thread's dumpster was already destroyed, so deliver straight to the truck
+        insert(&mut GARBAGE_TRUCK.contents.lock());
+    }
 }
 
 /// Mark an allocation as "clean," implying that it has already been cleaned up and does not
@@ -194,7 +199,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    let _ = DUMPSTER.try_with(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
-- 
2.43.0


From d0f87c207ad4b1017e6e9e0aba69f7930f96d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:46 +0000
Subject: [PATCH 10/15] fix: survive destructors which panic or collect during
 an unsync collection

A destructor which panicked left the thread marked as collecting forever, so no
later Gc was ever released.  A destructor which called collect() panicked because
the set of candidate allocations was still borrowed by the ongoing collection.
---
 dumpster/src/unsync/collect.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 7ac6889..a085df5 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -106,6 +106,20 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
     pub fn collect_all(&self) {
+        /// Marks the end of a collection, even if a destructor panics.
+        struct Collecting;
+
+        impl Drop for Collecting {
+            fn drop(&mut self) {
+                COLLECTING.with(|c| c.set(false));
+            }
+        }
+
+        if COLLECTING.with(|c| c.replace(true)) {
+            // a destructor running as part of a collection requested another one
+            return;
+        }
+        let _collecting = Collecting;
         self.n_ref_drops.set(0);
 
         unsafe {
@@ -149,16 +163,13 @@ impl Dumpster {
                 reachable: &mark.visited,
             };
 
-            COLLECTING.with(|c| c.set(true));
-            for cleanup in self
-                .to_collect
-                .borrow_mut()
-                .drain()
+            let to_collect = self.to_collect.take();
+            for cleanup in to_collect
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
-            COLLECTING.with(|c| c.set(false));
         }
     }
 
-- 
2.43.0


From d1de2bc7941ac97a501e88084094b0fef74ea27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:36 +0000
Subject: [PATCH 11/15] fix: let Gcs dropped during a sync collection release
 their own counts

While a collection ran, dropping a Gc did nothing, and the collector decremented
the count of surviving pointees on behalf of the values it destroyed.  A Gc moved
out of a destructor was therefore never counted and dangled later on, a clone made
by a destructor leaked, a panicking destructor disabled all later drops, and a
destructor which triggered a collection deadlocked.
---
 dumpster/src/sync/collect.rs | 29 +++++++++++++++++++++--------
 dumpster/src/sync/mod.rs     |  7 ++-----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 42a1e06..bea5e25 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -131,6 +131,10 @@ thread_local! {
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
     DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    if currently_cleaning() {
+        // called by a destructor during a collection, which this thread must not wait for
+        return;
+    }
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
@@ -279,6 +283,20 @@ impl GarbageTruck {
     /// if they are inaccessible.
     /// If so, drop those allocations.
     fn collect_all(&self) {
+        /// Marks the end of a collection, even if a destructor panics.
+        struct Cleaning;
+
+        impl Drop for Cleaning {
+            fn drop(&mut self) {
+                CLEANING.with(|c| c.set(false));
+            }
+        }
+
+        if CLEANING.with(|c| c.replace(true)) {
+            // a destructor running as part of a collection requested another one
+            return;
+        }
+        let _cleaning = Cleaning;
         let collecting_guard = self.collecting_lock.write();
         self.n_gcs_dropped.store(0, Ordering::Relaxed);
         let to_collect = take(&mut *self.contents.lock());
@@ -303,7 +321,6 @@ impl GarbageTruck {
             mark(root_id, &mut ref_graph);
         }
 
-        CLEANING.with(|c| c.set(true));
         // set of allocations which must be destroyed because we were the last weak pointer to it
         let mut weak_destroys = Vec::new();
         for (id, node) in &ref_graph {
@@ -325,7 +342,6 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
@@ -502,7 +518,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for nulling out `Gc`s to other unreachable allocations.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -518,11 +534,8 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 return;
             };
             let id = AllocationId::from(ptr);
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            // `Gc`s to surviving allocations release their count as usual when they are dropped
+            if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 757f949..ed3c258 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -44,8 +44,8 @@ use std::{
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-    notify_created_gc, notify_dropped_gc,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing, notify_created_gc,
+    notify_dropped_gc,
 };
 
 /// A thread-safe garbage-collected pointer.
@@ -453,9 +453,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
-- 
2.43.0


From 77b0520cf93a8c2b0930df292067aadb5e1e65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:00 +0000
Subject: [PATCH 12/15] fix: let Gcs dropped during an unsync collection
 release their own counts

While a collection ran, dropping a Gc did nothing, and the collector decremented
the count of surviving pointees on behalf of the values it destroyed.  A Gc moved
out of a destructor was therefore never counted and dangled later on, and a clone
made by a destructor leaked.
---
 dumpster/src/unsync/collect.rs | 11 +++--------
 dumpster/src/unsync/mod.rs     |  5 +----
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index a085df5..0df5751 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -26,7 +26,7 @@ use super::{CollectCondition, GcBox};
 
 thread_local! {
     /// Whether the current thread is running a cleanup process.
-    pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
+    static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
     pub(super) static DUMPSTER: Dumpster = Dumpster {
         to_collect: RefCell::new(HashMap::new()),
@@ -331,10 +331,7 @@ impl Visitor for DropAlloc<'_> {
         };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+            // the pointee survives, so `gc` releases its count as usual when it is dropped
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
@@ -349,9 +346,7 @@ impl Visitor for DropAlloc<'_> {
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
-/// Also, drop the allocation when done.
+/// Destroy an unreachable allocation along with any unreachable allocations it can find.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
     if visitor
         .visited
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index 1cd3cf9..1758893 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{Dumpster, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -484,9 +484,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From c7c7f7c4cebdecf0fd2c4c6786560403e85dda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 13/15] fix: stop counting Gcs which the collector has nulled
 out as existing

Gcs inside of collected allocations were counted as existing forever, which made
the default collection condition trigger less and less often.
---
 dumpster/src/sync/collect.rs   | 1 +
 dumpster/src/unsync/collect.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index bea5e25..8520aff 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -539,6 +539,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 0df5751..3de95bb 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -161,6 +161,7 @@ impl Dumpster {
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
+                n_refs_living: &self.n_refs_living,
             };
 
             let to_collect = self.to_collect.take();
@@ -312,6 +313,8 @@ struct DropAlloc<'a> {
     visited: HashSet<AllocationId>,
     /// The set of unreachable allocations.
     reachable: &'a HashSet<AllocationId>,
+    /// The number of references that currently exist in the entire heap and stack.
+    n_refs_living: &'a Cell<usize>,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -335,6 +338,7 @@ impl Visitor for DropAlloc<'_> {
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        self.n_refs_living.set(self.n_refs_living.get() - 1);
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
-- 
2.43.0


From e5a26702665e21d842a85bcf56aa066d32a6cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:18 +0000
Subject: [PATCH 14/15] fix: synchronize with droppers before the collector
 frees an allocation

A thread dropping a Gc may still read the value after decrementing the strong
count, and publishes that it is done by decrementing the weak count.  The collector
has to acquire that decrement before it destroys the allocation.
---
 dumpster/src/sync/collect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 8520aff..d8ed439 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -330,7 +330,7 @@ impl GarbageTruck {
                     destroy_fn(node.ptr, &ref_graph);
                 },
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
+                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1
                         && header_ref.strong.load(Ordering::Acquire) == 0
                     {
                         // we are the last reference to the allocation.
-- 
2.43.0


From 2a2962815f71baea7eceed377344744864cb2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 15/15] fix: never destroy allocations whose value could not be
 traversed

An unsync allocation whose value was inaccessible, for instance because the guard
of a RefCell was leaked, could be considered unreachable.  The collector then
panicked when it tried to traverse the value again in order to destroy it.
---
 dumpster/src/unsync/collect.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 3de95bb..2f2ddc3 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -85,7 +85,7 @@ impl Cleanup {
     /// Construct a new cleanup for an allocation.
     fn new<T: Collectable + ?Sized>(box_ptr: NonNull<GcBox<T>>) -> Cleanup {
         Cleanup {
-            dfs_fn: apply_visitor::<T, Dfs>,
+            dfs_fn: dfs::<T>,
             mark_fn: apply_visitor::<T, Mark>,
             drop_fn: drop_assist::<T>,
             ptr: Erased::new(box_ptr),
@@ -93,6 +93,18 @@ impl Cleanup {
     }
 }
 
+/// Build out the part of the reference graph which is reachable from an allocation.
+///
+/// # Safety
+///
+/// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
+unsafe fn dfs<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
+    let specified: NonNull<GcBox<T>> = ptr.specify();
+    if specified.as_ref().value.accept(dfs).is_err() {
+        dfs.inaccessible.insert(AllocationId::from(specified));
+    }
+}
+
 /// Apply a visitor to some erased pointer.
 ///
 /// # Safety
@@ -126,6 +138,7 @@ impl Dumpster {
             let mut dfs = Dfs {
                 visited: HashSet::with_capacity(self.to_collect.borrow().len()),
                 ref_graph: HashMap::with_capacity(self.to_collect.borrow().len()),
+                inaccessible: HashSet::new(),
             };
 
             for (k, v) in &*self.to_collect.borrow() {
@@ -137,11 +150,9 @@ impl Dumpster {
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
             };
-            for (id, reachability) in dfs
-                .ref_graph
-                .iter()
-                .filter(|(_, reachability)| reachability.n_unaccounted != 0)
-            {
+            for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
+                reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
+            }) {
                 mark.visited.insert(*id);
                 (reachability.mark_fn)(reachability.ptr, &mut mark);
             }
@@ -230,6 +241,8 @@ struct Dfs {
     visited: HashSet<AllocationId>,
     /// A map from allocation identifiers to information about their reachability.
     ref_graph: HashMap<AllocationId, Reachability>,
+    /// The set of allocations whose values could not be accessed, and so must not be destroyed.
+    inaccessible: HashSet<AllocationId>,
 }
 
 #[derive(Debug)]
@@ -273,8 +286,8 @@ impl Visitor for Dfs {
                 });
             }
         }
-        if self.visited.insert(next_id) {
-            let _ = unsafe { ptr.as_ref() }.value.accept(self);
+        if self.visited.insert(next_id) && unsafe { ptr.as_ref() }.value.accept(self).is_err() {
+            self.inaccessible.insert(next_id);
         }
     }
 }
-- 
2.43.0

