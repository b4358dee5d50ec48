From 8c50d899736649d794e840733fbe2bbb27c7a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 1/5] fix: let CoordinationSystem::commit_start step the
 journal so commits can start

commit_start required the journal to take its CommitStart step without
changing state, but that step needs in_flight to be None and sets it to
Some. The transition was therefore never enabled: no superblock write was
ever issued and a sync request after a put could never be acknowledged.
---
 .../abstract_system/AbstractCrashAwareSystemRefinement_v.rs   | 2 +-
 Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
index 5a66632..04fd89e 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
@@ -723,7 +723,7 @@ verus! {
             v.inv(),
             CoordinationSystem::State::next(v, vp, label),
             CoordinationSystem::State::next_by(v, vp, label, step),
-            matches!(step, CoordinationSystem::Step::commit_start(_)),
+            matches!(step, CoordinationSystem::Step::commit_start(_, _)),
         ensures
             vp.inv()
     {
diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
index c1f7e24..afdb4cd 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
@@ -527,6 +527,7 @@ state_machine!{ CoordinationSystem {
     commit_start(
       label: Label,
       new_boundary_lsn: LSN,
+      new_journal: CrashTolerantJournal::State,
     ) {
       require pre.ephemeral is Some;
       let pre_ephemeral = pre.ephemeral.get_Some_0();
@@ -536,7 +537,7 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantJournal::State::next(
         pre.journal,
-        pre.journal,
+        new_journal,
         CrashTolerantJournal::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
           max_lsn: pre_ephemeral.map_lsn,
@@ -551,6 +552,7 @@ state_machine!{ CoordinationSystem {
         }
       );
 
+      update journal = new_journal;
       update superblock_in_flight = true;
 
       // ephemeral unchanged
-- 
2.43.0


From f23df179959731e73e3950b07ce0472d39b863bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 2/5] fix: do not allocate by an unchecked count when parsing a
 resizable sequence

---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..90fc36a 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -529,7 +529,7 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
             None => { None },
             Some(len) => {
                 let mut i: usize = 0;
-                let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
+                let mut result:Vec<EltFormat::U> = Vec::new();
                 while i < len
                 invariant
                     i <= len,
-- 
2.43.0


From 8fa5009eaa68640c6e8562db75de5f6fb8c35805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 3/5] fix: let JournalCoordinationSystem::put step the journal
 so messages can be put

---
 .../src/implementation/JournalCoordinationSystem_v.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 8df8b14..d91dce0 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -187,10 +187,11 @@ state_machine!{ JournalCoordinationSystem{
         require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
     }}
 
-    transition!{ put(lbl: Label) {
+    transition!{ put(lbl: Label, new_journal: CachedJournal::State) {
         require let Label::Put{messages} = lbl;
         let journal_lbl = CachedJournal::Label::Put{messages};
-        require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
+        require CachedJournal::State::next(pre.journal, new_journal, journal_lbl);
+        update journal = new_journal;
     }}
 
     transition!{ discard_old(lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) {
@@ -363,7 +364,11 @@ state_machine!{ JournalCoordinationSystem{
     fn query_end_lsn_inductive(pre: Self, post: Self, lbl: Label) { }
    
     #[inductive(put)]
-    fn put_inductive(pre: Self, post: Self, lbl: Label) { }
+    fn put_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State)
+    {
+        reveal(CachedJournal::State::next);
+        reveal(CachedJournal::State::next_by);
+    }
    
     #[inductive(discard_old)]
     fn discard_old_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) 
-- 
2.43.0


From 27d8c607e70816575c68c53c0d2fd96954e63e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 4/5] fix: keep the journal read from the superblock at
 recovery

---
 Splinter/src/implementation/Implementation_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/implementation/Implementation_v.rs b/Splinter/src/implementation/Implementation_v.rs
index c81be97..d53e38a 100644
--- a/Splinter/src/implementation/Implementation_v.rs
+++ b/Splinter/src/implementation/Implementation_v.rs
@@ -867,7 +867,7 @@ impl Implementation {
 
             let superblock = unmarshall(&raw_page);
             // Record our learnings in the physical model.
-            // self.store = superblock.store;
+            self.journal = superblock.journal;
 
             assume(false);
 
-- 
2.43.0


From b1f13a4a880ff3aef96b8379addf8a33c5313f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 5/5] fix: a branch buffer contains the keys its query finds,
 not the others

linked_contains of a buffer stored as a branch was inverted, so a
compaction accepted a buffer with other messages than its inputs and
refused the right one.
---
 Splinter/src/allocation_layer/AllocationBranch_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/allocation_layer/AllocationBranch_v.rs b/Splinter/src/allocation_layer/AllocationBranch_v.rs
index 840468a..0b95192 100644
--- a/Splinter/src/allocation_layer/AllocationBranch_v.rs
+++ b/Splinter/src/allocation_layer/AllocationBranch_v.rs
@@ -28,7 +28,7 @@ pub type BranchNode = Node<Summary>;
 impl Buffer for BranchNode {
     open spec fn linked_contains(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> bool 
     {
-        self.linked_query(dv, addr, key) == Message::Update{ delta: nop_delta() }
+        self.linked_query(dv, addr, key) != Message::Update{ delta: nop_delta() }
     }
 
     open spec fn linked_query(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> Message 
-- 
2.43.0

