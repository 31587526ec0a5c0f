From 2e267a831fa6fd4795a5706ae39d014721436e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 01/35] fix: propagate adjoints whose value is zero but carry
 higher-order derivatives

computeAdjoints skipped statements whose adjoint compares equal to zero. For
nested active types the comparison only looks at the value, so a zero adjoint
with non-zero tangent (or a recorded one) was dropped, giving wrong second
order derivatives.
---
 src/Tape.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..3550c45 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -547,6 +547,29 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// checks if an adjoint has nothing to propagate - for nested active types it is not enough to
+// look at the value, as a zero value may still carry (higher order) derivatives
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const T& a)
+{
+    return a == T();
+}
+
+template <class T>
+bool is_zero_adjoint(const AReal<T>& a);
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const FReal<T>& a)
+{
+    return is_zero_adjoint(a.value()) && is_zero_adjoint(a.derivative());
+}
+
+template <class T>
+XAD_FORCE_INLINE bool is_zero_adjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && is_zero_adjoint(a.value());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -581,7 +604,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -599,7 +622,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From 7d44831ba99ff94090ce0299444a75790f50eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 02/35] fix: keep variables of checkpoint callbacks off slots
 with pending adjoints

When a checkpoint callback runs, the statements before the checkpoint have not
been interpreted yet. Variables which were released before computeAdjoints may
therefore still have adjoints pending in their slots, but the callback could
register new variables in the very same slots (at the end of the tape, or in a
re-usable range), which gave wrong derivatives. Also reset prevMax_ if the
callback throws.
---
 src/Tape.cpp     | 86 ++++++++++++++++++++++++++++++++++++++++++++----
 src/XAD/Tape.hpp |  1 +
 2 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 3550c45..01bd55e 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -491,6 +491,82 @@ void Tape<T>::computeAdjoints()
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
 }
 
+// Puts the current recording into the state required for running a checkpoint callback, and reverts
+// that when the callback is done (also if it exits with an exception).
+//
+// Slots of variables that are not alive anymore may still have adjoints pending at this point (the
+// statements before the checkpoint have not been interpreted yet), so variables registered in the
+// callback must not re-use them.
+template <class T>
+struct Tape<T>::CallbackScope
+{
+    explicit CallbackScope(Tape* tape)
+        : tape_(tape),
+          rec_(tape->currentRec_),
+          iDerivative_(rec_->iDerivative_),
+          firstSlot_(rec_->maxDerivative_)
+    {
+        // keep the prevMax stored, so we can resize the der. vector on a
+        // subrecording
+        rec_->prevMax_ = rec_->maxDerivative_;
+        rec_->iDerivative_ = firstSlot_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        startRange_ = rec_->startRange_;
+        latestRange_ = rec_->latestRange_;
+        rec_->startRange_ = rec_->latestRange_ = tape_->reusable_ranges_.end();
+#endif
+    }
+
+    ~CallbackScope()
+    {
+        if (tape_->currentRec_ != rec_)  // nested recording left open
+            return;
+        rec_->prevMax_ = INVALID_SLOT;
+        if (rec_->iDerivative_ <= firstSlot_)
+        {
+            // all variables registered in the callback are gone
+            rec_->iDerivative_ = (std::min)(rec_->iDerivative_, iDerivative_);
+#ifdef XAD_TAPE_REUSE_SLOTS
+            tape_->reusable_ranges_.erase(rec_->startRange_, tape_->reusable_ranges_.end());
+            rec_->startRange_ = startRange_;
+            rec_->latestRange_ = latestRange_;
+#endif
+        }
+#ifdef XAD_TAPE_REUSE_SLOTS
+        else
+        {
+            // some variables are still alive, so the slots skipped above become re-usable
+            if (iDerivative_ != firstSlot_)
+            {
+                try
+                {
+                    tape_->reusable_ranges_.emplace(rec_->startRange_, iDerivative_, firstSlot_);
+                }
+                catch (const std::bad_alloc&)
+                {
+                    // these slots just won't be re-used
+                }
+            }
+            rec_->startRange_ = tape_->reusable_ranges_.begin();
+            rec_->latestRange_ = tape_->reusable_ranges_.end();
+        }
+#endif
+    }
+
+    CallbackScope(const CallbackScope&) = delete;
+    CallbackScope& operator=(const CallbackScope&) = delete;
+
+  private:
+    Tape* tape_;
+    SubRecording* rec_;
+    slot_type iDerivative_;
+    slot_type firstSlot_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    typename range_list::iterator startRange_;
+    typename range_list::iterator latestRange_;
+#endif
+};
+
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
@@ -511,12 +587,10 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
-        // keep the prevMax stored, so we can resize the der. vector on a
-        // subrecording
-        currentRec_->prevMax_ = currentRec_->maxDerivative_;
-
-        cb->computeAdjoint(this);
-        currentRec_->prevMax_ = INVALID_SLOT;
+        {
+            CallbackScope scope(this);
+            cb->computeAdjoint(this);
+        }
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..aa36ee8 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -305,6 +305,7 @@ class Tape
 #endif
         bool derivativesInitialized_;
     };
+    struct CallbackScope;
     std::stack<SubRecording> nestedRecordings_;
     SubRecording* currentRec_;
 };
-- 
2.43.0


From 6ea477bc232ce0a29c86e9a6c5515e96f61ef5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 03/35] fix: nested recordings outside of callbacks and
 repeated ones within a callback

Starting a nested recording outside of a checkpoint callback resized the
derivatives to INVALID_SLOT elements. A second nested recording within the same
callback lost track of the variables that the callback had registered before,
so accessing their derivatives threw OutOfRange.
---
 src/Tape.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 01bd55e..241db01 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -342,13 +342,16 @@ void Tape<T>::newNestedRecording()
     newr.latestRange_ = newr.startRange_;
 #endif
     // clearDerivativesAfter(position_type(statement_.size())-1);
-    derivatives_.resize(currentRec_->prevMax_);
-    currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    if (currentRec_->prevMax_ != INVALID_SLOT)  // in a checkpoint callback
+        currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    derivatives_.resize(currentRec_->maxDerivative_);
 
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.iDerivative_ = (std::max)(newr.iDerivative_, newr.startDerivative_);
+    newr.maxDerivative_ = newr.iDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
-- 
2.43.0


From e0d6429d1a84280e47b303f153c1d4c9b8c162d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 04/35] fix: track re-usable slots of a nested recording if
 outer ones exist

The first re-usable range of a nested recording was only recognised as such if
the enclosing recordings had none. Otherwise it survived the end of the nested
recording and its slots were handed out twice later.
---
 src/Tape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 241db01..9bb417e 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -205,7 +205,7 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 reusable_ranges_.emplace_back(slot, slot + 1);
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
+                if (currentRec_->startRange_ == reusable_ranges_.end())
                     currentRec_->startRange_ = currentRec_->latestRange_;
             }
             else
-- 
2.43.0


From c34e2c2a205c23661916805557fe08dc8e22b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 05/35] fix: resetTo left dangling iterators to re-usable slot
 ranges

---
 src/Tape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 9bb417e..74a212e 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -786,6 +786,10 @@ void Tape<T>::resetTo(position_type pos)
             {
                 auto it2 = it;
                 --it2;
+                if (currentRec_->startRange_ == it)
+                    currentRec_->startRange_ = reusable_ranges_.end();
+                if (currentRec_->latestRange_ == it)
+                    currentRec_->latestRange_ = reusable_ranges_.end();
                 reusable_ranges_.erase(it);
                 it = it2;
             }
-- 
2.43.0


From e5b2bbd7d944864e6ddaa6f38e6cd7de276f82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 06/35] fix: ignore released variables that do not belong to
 the current recording

A variable registered before clearAll, in a nested recording that has ended, or
in an enclosing recording with other variables pending, was released into the
bookkeeping of the current recording: the number of variables wrapped around
and slots that are not free were handed out again.
---
 src/XAD/Tape.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index aa36ee8..5dbf94b 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -213,6 +213,10 @@ class Tape
 
     XAD_INLINE void unregisterVariable(slot_type slot)
     {
+        // nothing to release if the variable does not belong to the current recording, i.e.
+        // a variable from before clearAll or of an enclosing or finished nested recording
+        if (slot >= currentRec_->iDerivative_ || slot < currentRec_->startDerivative_)
+            return;
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
-- 
2.43.0


From 7e3db2e39ad855b952d032e9d6bee44ef7454e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 07/35] fix: out of bounds access if recording continues after
 setting derivatives

---
 src/Tape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 74a212e..a7ff617 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -573,6 +573,8 @@ struct Tape<T>::CallbackScope
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // more variables might have been registered since the derivatives have been set
+    initDerivatives();
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From 930ce790ea2a249ef7514ababde9c2bbd0ea2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 08/35] fix: ChunkContainer destroyed its elements twice after
 being moved from

The size of the moved-from container was kept, so its destructor accessed
chunks it no longer has if the element type has a non-trivial destructor.
---
 src/XAD/ChunkContainer.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..1d06395 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,14 +135,18 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.set_empty();
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
     {
+        if (this == &o)
+            return *this;
         _free_memory();
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.set_empty();
         return *this;
     }
 
@@ -449,6 +453,13 @@ class ChunkContainer
 
     void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
 
+    // state after moving from it - no elements left that would need destruction
+    void set_empty()
+    {
+        chunkList_.clear();
+        chunk_ = idx_ = 0;
+    }
+
     void _free_memory()
     {
         clear();
-- 
2.43.0


From cb2084c40059f324671df27cb2a9dd396aaf3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 09/35] fix: moving tapes

Moving an active tape terminated the program as activating the target throws
TapeAlreadyActive while the source is still active, move assignment leaked the
callbacks owned by the target, and with re-used slots the iterators to the end
of the ranges still referred to the source.
---
 src/Tape.cpp     | 26 ++++++++++++++++++++------
 src/XAD/Tape.hpp |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index a7ff617..69796ce 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -67,31 +67,45 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    finishMove(o);
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
     derivatives_ = std::move(o.derivatives_);
     checkpoints_ = std::move(o.checkpoints_);
     callbacks_ = std::move(o.callbacks_);
+    o.callbacks_.clear();
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    finishMove(o);
+    return *this;
+}
+
+template <class T>
+void Tape<T>::finishMove(Tape& o) noexcept
+{
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // the end iterators are not carried over when moving the list
+    if (currentRec_->startRange_ == o.reusable_ranges_.end())
+        currentRec_->startRange_ = reusable_ranges_.end();
+    if (currentRec_->latestRange_ == o.reusable_ranges_.end())
+        currentRec_->latestRange_ = reusable_ranges_.end();
+#endif
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
-    return *this;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 5dbf94b..5924c60 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -275,6 +275,7 @@ class Tape
     range_list reusable_ranges_;
 #endif
 
+    void finishMove(Tape& o) noexcept;
     void foldSubrecordings();
     void foldSubrecording();
 
-- 
2.43.0


From f9d1585512285233841b2bffe3ada7082659cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 10/35] fix: chunk leaked if growing the list of chunks fails

---
 src/XAD/ChunkContainer.hpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 1d06395..73a40cf 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -161,14 +161,7 @@ class ChunkContainer
         if (nc > chunkList_.size())
         {
             size_type d = nc - chunkList_.size();
-            for (size_type i = 0; i < d; ++i)
-            {
-                char* chunk = reinterpret_cast<char*>(
-                    detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
-                if (chunk == NULL)
-                    throw std::bad_alloc();
-                chunkList_.push_back(chunk);
-            }
+            for (size_type i = 0; i < d; ++i) add_chunk();
         }
     }
 
@@ -434,18 +427,26 @@ class ChunkContainer
     static size_type getNumElements(size_type chunks) { return chunks * chunk_size; }
 
   private:
+    void add_chunk()
+    {
+        // make room in the list first, so that we don't lose the chunk if that throws
+        chunkList_.push_back(nullptr);
+        char* chunk = reinterpret_cast<char*>(
+            detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
+        if (chunk == NULL)
+        {
+            chunkList_.pop_back();
+            throw std::bad_alloc();
+        }
+        chunkList_.back() = chunk;
+    }
+
     void check_space()
     {
         if (idx_ == chunk_size)
         {
             if (chunk_ == chunkList_.size() - 1)
-            {
-                char* chunk = reinterpret_cast<char*>(
-                    detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
-                if (chunk == NULL)
-                    throw std::bad_alloc();
-                chunkList_.push_back(chunk);
-            }
+                add_chunk();
             ++chunk_;
             idx_ = 0;
         }
-- 
2.43.0


From f1520b6530ffcc01904051828498321f7d318822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 11/35] fix: ChunkContainer resize, assign, and
 uninitialized_extend over chunk boundaries

Growing to an exact multiple of the chunk size left the position in a chunk that
is not allocated, assign filled the wrong chunk when shrinking, and extending
over more than one chunk boundary only advanced by one.
---
 src/XAD/ChunkContainer.hpp | 71 ++++++++++++--------------------------
 1 file changed, 22 insertions(+), 49 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 73a40cf..3a708b9 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -216,12 +216,7 @@ class ChunkContainer
     void uninitialized_extend(size_type i)
     {
         reserve(size() + i);
-        idx_ += i;
-        if (idx_ > chunk_size)
-        {
-            ++chunk_;
-            idx_ = idx_ - chunk_size;
-        }
+        set_size(size() + i);
     }
 
     void push_back(const_reference v)
@@ -269,10 +264,10 @@ class ChunkContainer
         }
 
         size_type lc = getLowPart(s);  // maybe 0
-        std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
-                                  v);
-        idx_ = lc;
-        chunk_ = nc_new;
+        if (lc > 0)
+            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix,
+                                      lc - ix, v);
+        set_size(s);
     }
 
     template <class It>
@@ -368,44 +363,11 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
-        size_type nc = getHighPart(s);
-        size_type lc = getLowPart(s);
-
-        if (s <= size())
-        {
-            if (s < size())
-                destructAllImpl<std::is_trivially_destructible<value_type>::value>::make(this, s,
-                                                                                         size());
-            // all assignments
-            for (size_type i = 0; i < nc; ++i)
-                std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                          reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
-
-            return;
-        }
-
-        // here we have something bigger than it was - assign existing and fill rest
-        for (int i = 0; i < chunk_; ++i)
-            std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                      reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-        std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                  reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_, v);
-
-        size_type fillsize = nc > chunk_ ? chunk_size : lc;
-        std::uninitialized_fill(reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_,
-                                reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
-        for (size_type i = chunk_ + 1; i < nc; ++i)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
-        return;
+        reserve(s);
+        const value_type val(v);  // might refer to one of our elements
+        // assign existing elements up to the new size, and construct / destruct the rest
+        for (size_type i = 0, e = (std::min)(s, size()); i < e; ++i) (*this)[i] = val;
+        resize(s, val);
     }
 
     reference operator[](size_type i)
@@ -452,7 +414,18 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
+    // sets the position to the given size, staying in the last chunk if it is full
+    // (i.e. always refers to a chunk that is allocated)
+    void set_size(size_type s)
+    {
+        if (s == 0)
+        {
+            chunk_ = idx_ = 0;
+            return;
+        }
+        chunk_ = getHighPart(s - 1);
+        idx_ = getLowPart(s - 1) + 1;
+    }
 
     // state after moving from it - no elements left that would need destruction
     void set_empty()
-- 
2.43.0


From 02d9fc1923030f640a10c9b3875a00e8850a1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 12/35] fix: running out of memory when releasing a variable
 terminated the program

Variables release their slot in the destructor, where inserting a new range of
re-usable slots may throw std::bad_alloc.
---
 src/Tape.cpp     | 24 ++++++++++++++++++++++--
 src/XAD/Tape.hpp |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 69796ce..14b1662 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -162,6 +162,22 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     return ret;
 }
 
+template <class T>
+bool Tape<T>::insertReusableRange(typename range_list::iterator it, slot_type slot) noexcept
+{
+    // this is called from destructors, so we can't let an exception escape - if there is no memory
+    // the slot just won't be re-used
+    try
+    {
+        reusable_ranges_.emplace(it, slot, slot + 1);
+        return true;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return false;
+    }
+}
+
 template <class T>
 void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
 {
@@ -216,7 +232,8 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
             if (reusable_ranges_.empty() || slot > reusable_ranges_.back().second())
             {
                 // insert a new range at the end
-                reusable_ranges_.emplace_back(slot, slot + 1);
+                if (!insertReusableRange(reusable_ranges_.end(), slot))
+                    return;
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
                 if (currentRec_->startRange_ == reusable_ranges_.end())
@@ -236,7 +253,10 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 else
                 {
                     // insert a new range
-                    currentRec_->latestRange_ = reusable_ranges_.emplace(it, slot, slot + 1);
+                    if (!insertReusableRange(it, slot))
+                        return;
+                    currentRec_->latestRange_ = it;
+                    --currentRec_->latestRange_;
                     if (it == currentRec_->startRange_)
                         currentRec_->startRange_ = currentRec_->latestRange_;
                 }
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 5924c60..c0d8ffd 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -273,6 +273,7 @@ class Tape
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
     range_list reusable_ranges_;
+    bool insertReusableRange(typename range_list::iterator it, slot_type slot) noexcept;
 #endif
 
     void finishMove(Tape& o) noexcept;
-- 
2.43.0


From b011f19fe469d4940f6c2839dbe246b0751a36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 13/35] hook: XAD_SIM_CHUNK_SIZE selects the tape's chunk size
 (off by default)

---
 src/XAD/TapeContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/XAD/TapeContainer.hpp b/src/XAD/TapeContainer.hpp
index 982652e..6437216 100644
--- a/src/XAD/TapeContainer.hpp
+++ b/src/XAD/TapeContainer.hpp
@@ -32,7 +32,12 @@ namespace xad
 template <class T>
 struct TapeContainerTraits
 {
+#ifdef XAD_SIM_CHUNK_SIZE
+    // simulation hook: small chunks, so that tapes cross chunk boundaries after few operations
+    typedef ChunkContainer<T, XAD_SIM_CHUNK_SIZE> type;
+#else
     typedef ChunkContainer<T> type;
+#endif
 };
 
 }  // namespace xad
-- 
2.43.0


From deab96c621b9306368fa98a62b6fabd67133833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 14/35] fix: close nested recordings that a throwing checkpoint
 callback left open

---
 src/Tape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 14b1662..37c9f24 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -556,7 +556,10 @@ struct Tape<T>::CallbackScope
 
     ~CallbackScope()
     {
-        if (tape_->currentRec_ != rec_)  // nested recording left open
+        // the callback might have left nested recordings open (if it has thrown)
+        while (tape_->currentRec_ != rec_ && tape_->nestedRecordings_.size() > 1)
+            tape_->foldSubrecording();
+        if (tape_->currentRec_ != rec_)
             return;
         rec_->prevMax_ = INVALID_SLOT;
         if (rec_->iDerivative_ <= firstSlot_)
-- 
2.43.0


From 87f984984dd95ae51ceeb05c5bdaec73a4ace20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 15/35] fix: tape that ran out of memory in its constructor
 stayed active

---
 src/Tape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 37c9f24..b232551 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -48,9 +48,10 @@ Tape<T>::Tape(bool activateNow)
 
     nestedRecordings_.push(SubRecording(this));
     currentRec_ = &nestedRecordings_.top();
+    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
+    // last, as a tape that fails to construct must not stay active
     if (activateNow)
         activate();
-    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
 }
 
 template <class T>
-- 
2.43.0


From 47fa3fea0fdd51b639db87f17a4e68cb6fa36213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 16/35] fix: moving tapes could terminate the program and
 clearAll break the tape if memory runs out

---
 src/Tape.cpp     | 6 +++---
 src/XAD/Tape.hpp | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index b232551..a0deb71 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -127,10 +127,10 @@ void Tape<T>::clearAll()
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_.clear();
 #endif
-    while (!nestedRecordings_.empty()) nestedRecordings_.pop();
-    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
-    nestedRecordings_.push(SubRecording(this));
+    while (nestedRecordings_.size() > 1) nestedRecordings_.pop();
     currentRec_ = &nestedRecordings_.top();
+    *currentRec_ = SubRecording(this);
+    statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index c0d8ffd..39086ec 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -312,7 +312,8 @@ class Tape
         bool derivativesInitialized_;
     };
     struct CallbackScope;
-    std::stack<SubRecording> nestedRecordings_;
+    // list, as moving it must not allocate memory
+    std::stack<SubRecording, std::list<SubRecording> > nestedRecordings_;
     SubRecording* currentRec_;
 };
 
-- 
2.43.0


From 4f3f35c080fb01f575be6b3905923ec00316c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 17/35] fix: out of bounds read of the derivative of a variable
 registered after setting derivatives

---
 src/Tape.cpp     | 3 +++
 src/XAD/Tape.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index a0deb71..9771fc5 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -462,6 +462,9 @@ const T& Tape<T>::derivative(slot_type s) const
             "attempt to get derivative value from const object without setting "
             "derivatives first");
 #endif
+    // variables may have been registered since the derivatives were initialized
+    if (s >= derivatives_.size() && s < currentRec_->maxDerivative_)
+        derivatives_.resize(currentRec_->maxDerivative_, T());
     return derivatives_[s];
 }
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 39086ec..319dfde 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -263,7 +263,7 @@ class Tape
     typename TapeContainerTraits<Real>::type multiplier_;
     TapeContainerTraits<slot_type>::type slot_;
     TapeContainerTraits<std::pair<slot_type, slot_type> >::type statement_;
-    std::vector<Real> derivatives_;
+    mutable std::vector<Real> derivatives_;
     typedef std::pair<position_type, CheckpointCallback<Tape>*> chkpt_type;
     std::vector<chkpt_type> checkpoints_;
     std::vector<CheckpointCallback<Tape>*> callbacks_;
-- 
2.43.0


From a7c9c52d39dc5f85f562f90182b2da5443d7c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 18/35] fix: derivatives of ldexp and frexp for negative
 exponents

---
 src/XAD/UnaryMathFunctors.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..d8de803 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -27,6 +27,7 @@
 #include <XAD/Macros.hpp>
 #include <XAD/MathFunctions.hpp>
 #include <XAD/UnaryFunctors.hpp>
+#include <cmath>
 #include <type_traits>
 
 namespace xad
@@ -203,7 +204,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(std::ldexp(1.0, exp_)); }
     int exp_;
 };
 
@@ -217,7 +218,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(std::ldexp(1.0, -*exp_));
     }
     int* exp_;
 };
-- 
2.43.0


From 727ddb2f8d06250d29feecc7240cd6d57a5e68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 19/35] fix: nested recordings accumulated into derivatives of
 earlier recordings

---
 src/Tape.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 9771fc5..6e97ec3 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -379,7 +379,11 @@ void Tape<T>::newNestedRecording()
     // clearDerivativesAfter(position_type(statement_.size())-1);
     if (currentRec_->prevMax_ != INVALID_SLOT)  // in a checkpoint callback
         currentRec_->maxDerivative_ = currentRec_->prevMax_;
-    derivatives_.resize(currentRec_->maxDerivative_);
+    // the nested recording accumulates into the derivatives of this one
+    if (!currentRec_->derivativesInitialized_ &&
+        derivatives_.size() > currentRec_->startDerivative_)
+        std::fill(derivatives_.begin() + currentRec_->startDerivative_, derivatives_.end(), T());
+    derivatives_.resize(currentRec_->maxDerivative_, T());
 
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
-- 
2.43.0


From 9999bfbe5cbb6e08b227c809ecc7bec6792c05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 20/35] fix: clearDerivativesAfter corrupted the bookkeeping of
 slots

---
 src/Tape.cpp     | 15 ++++++++++-----
 src/XAD/Tape.hpp |  3 +++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 6e97ec3..1984657 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -391,6 +391,7 @@ void Tape<T>::newNestedRecording()
     newr.startDerivative_ = currentRec_->maxDerivative_;
     newr.iDerivative_ = (std::max)(newr.iDerivative_, newr.startDerivative_);
     newr.maxDerivative_ = newr.iDerivative_;
+    newr.clearedFrom_ = INVALID_SLOT;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -416,6 +417,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->clearedFrom_ = INVALID_SLOT;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -448,7 +450,7 @@ void Tape<T>::initDerivatives()
 template <class T>
 T& Tape<T>::derivative(slot_type s)
 {
-    if (s >= currentRec_->maxDerivative_)
+    if (s >= currentRec_->maxDerivative_ || s >= currentRec_->clearedFrom_)
         throw OutOfRange("given derivative slot is out of range - did you register the outputs?");
 
     initDerivatives();
@@ -459,7 +461,7 @@ template <class T>
 const T& Tape<T>::derivative(slot_type s) const
 {
 #ifndef NDEBUG
-    if (s >= currentRec_->maxDerivative_)
+    if (s >= currentRec_->maxDerivative_ || s >= currentRec_->clearedFrom_)
         throw OutOfRange("given derivative slot is out of range");
     if (!currentRec_->derivativesInitialized_)
         throw DerivativesNotInitialized(
@@ -889,9 +891,12 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // the slots stay in use, so only the derivatives are reset and not accessible until
+    // further variables are registered
+    slot_type first = statement_[pos].second + 1;
+    if (derivatives_.size() > first)
+        std::fill(derivatives_.begin() + first, derivatives_.end(), T());
+    currentRec_->clearedFrom_ = first;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 319dfde..31861bc 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -204,6 +204,7 @@ class Tape
     slot_type registerVariable()
     {
         ++currentRec_->numDerivatives_;
+        currentRec_->clearedFrom_ = INVALID_SLOT;
 #ifdef XAD_TAPE_REUSE_SLOTS
         return registerVariableReuseSlots();
 #else
@@ -286,6 +287,7 @@ class Tape
             : numDerivatives_(),
               iDerivative_(),
               maxDerivative_(),
+              clearedFrom_(slot_type(-1)),
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
@@ -301,6 +303,7 @@ class Tape
         slot_type numDerivatives_;
         slot_type iDerivative_;
         slot_type maxDerivative_;
+        slot_type clearedFrom_;  // by clearDerivativesAfter, not accessible
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
-- 
2.43.0


From bac64780009208cc168b9acd3062195df48412dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 21/35] fix: endless loop in resetTo if the last slots are
 re-usable

---
 src/Tape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 1984657..ee5e606 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -829,7 +829,7 @@ void Tape<T>::resetTo(position_type pos)
     {
         auto it = reusable_ranges_.end();
         --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
+        while (!reusable_ranges_.empty() && it->second() > currentRec_->maxDerivative_)
         {
             if (it->first() >= currentRec_->maxDerivative_)
             {
-- 
2.43.0


From 3d7345e407715b1ad67111394524cf11a1a454c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 22/35] fix: ChunkContainer lost elements if copying to it
 threw

---
 src/XAD/ChunkContainer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 3a708b9..a3a18d5 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -260,6 +260,7 @@ class ChunkContainer
         {
             std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]) + ix,
                                       chunk_size - ix, v);
+            set_size((i + 1) * chunk_size);  // in case copying to the next chunk throws
             ix = 0;
         }
 
@@ -282,21 +283,19 @@ class ChunkContainer
 #endif
         {
             auto dst = reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_;
-            for (size_type i = 0; i < n; ++i) ::new (dst++) value_type(*first++);
-            idx_ += n;
+            // copying might throw, so count every element as we go
+            for (size_type i = 0; i < n; ++i, ++idx_) ::new (dst++) value_type(*first++);
         }
         else
         {
             assert(chunk_size - idx_ < n);
             auto dst = reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_;
             auto endn = chunk_size - idx_;
-            for (size_type i = 0; i < endn; ++i) ::new (dst++) value_type(*first++);
-            idx_ = chunk_size;
+            for (size_type i = 0; i < endn; ++i, ++idx_) ::new (dst++) value_type(*first++);
             check_space();  // appends a chunk, moves idx_ / chunk_
             endn = static_cast<size_type>(std::distance(first, last));
             dst = reinterpret_cast<value_type*>(chunkList_[chunk_]);
-            for (size_type i = 0; i < endn; ++i) ::new (dst++) value_type(*first++);
-            idx_ += endn;
+            for (size_type i = 0; i < endn; ++i, ++idx_) ::new (dst++) value_type(*first++);
         }
     }
 
-- 
2.43.0


From c989a57695e783b25c04c75950548f084bd8fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 23/35] fix: ChunkContainer iterators beyond the next chunk,
 and at the end

---
 src/XAD/ChunkContainer.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index a3a18d5..ee98419 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -317,10 +317,12 @@ class ChunkContainer
     struct iterator
     {
         pointer point_;
-        pointer next_chunk_;
+        const std::vector<char*>* chunks_;
+        size_type next_chunk_;
         int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        explicit iterator(pointer point = nullptr, int space_left = 0,
+                          const std::vector<char*>* chunks = nullptr, size_type next = 0)
+            : point_(point), chunks_(chunks), next_chunk_(next), space_left_(space_left)
         {
         }
 
@@ -329,7 +331,10 @@ class ChunkContainer
             ++point_;
             if (--space_left_ == 0)
             {
-                point_ = next_chunk_;
+                point_ = next_chunk_ < chunks_->size()
+                             ? reinterpret_cast<pointer>((*chunks_)[next_chunk_])
+                             : nullptr;
+                ++next_chunk_;
                 space_left_ = chunk_size;
             }
             return *this;
@@ -350,8 +355,10 @@ class ChunkContainer
     {
         auto nc = getHighPart(i);
         auto lc = getLowPart(i);
-        return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
+        return iterator(nc < chunkList_.size()
+                            ? &reinterpret_cast<value_type*>(chunkList_[nc])[lc]
+                            : nullptr,
+                        int(chunk_size - lc), &chunkList_, nc + 1);
     }
 
     void assign(size_type s, const_reference v = value_type())
-- 
2.43.0


From 67d4f00ec9f969ef9b7ef68a1f85502f7a875127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 24/35] fix: Jacobian and Hessian with a given tape that is not
 active

---
 src/XAD/Hessian.hpp  |  4 +++-
 src/XAD/Jacobian.hpp |  5 ++++-
 src/XAD/Tape.hpp     | 25 +++++++++++++++++++++++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..8c19f12 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -64,9 +64,11 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     std::unique_ptr<Tape<FReal<T>>> t;
     if (!tape)
     {
-        t = std::unique_ptr<Tape<FReal<T>>>(new Tape<FReal<T>>());
+        t = std::unique_ptr<Tape<FReal<T>>>(new Tape<FReal<T>>(false));
         tape = t.get();
     }
+    // the tape isn't necessarily the active one
+    detail::ScopedActiveTape<Tape<FReal<T>>> scope(tape);
 
     auto v(vec);
     tape->registerInputs(v);
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..fc17d63 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -41,6 +41,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
     Tape<T> *tape = Tape<T>::getActive())
 {
+    detail::ScopedActiveTape<Tape<T>> scope(tape);
     auto v(vec);
     std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
@@ -60,9 +61,11 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
     std::unique_ptr<Tape<T>> t;
     if (!tape)
     {
-        t = std::unique_ptr<Tape<T>>(new Tape<T>());
+        t = std::unique_ptr<Tape<T>>(new Tape<T>(false));
         tape = t.get();
     }
+    // the tape isn't necessarily the active one
+    detail::ScopedActiveTape<Tape<T>> scope(tape);
 
     auto v(vec);
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 31861bc..88658fe 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -320,6 +320,31 @@ class Tape
     SubRecording* currentRec_;
 };
 
+namespace detail
+{
+// makes the given tape the active one, restoring the previously active tape at the end
+template <class TapeType>
+class ScopedActiveTape
+{
+  public:
+    explicit ScopedActiveTape(TapeType* tape) : previous_(TapeType::getActive())
+    {
+        change(tape);
+    }
+    ~ScopedActiveTape() { change(previous_); }
+    ScopedActiveTape(const ScopedActiveTape&) = delete;
+    ScopedActiveTape& operator=(const ScopedActiveTape&) = delete;
+
+  private:
+    static void change(TapeType* tape)
+    {
+        TapeType::deactivateAll();
+        TapeType::setActive(tape);
+    }
+    TapeType* previous_;
+};
+}  // namespace detail
+
 template <class T>
 XAD_INLINE void Tape<T>::pushRhs(const T& multiplier, slot_type slot)
 {
-- 
2.43.0


From cf96e4d15fc30895c451a78f231a5502435704e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 25/35] fix: Jacobian and Hessian only checked the size of the
 first row

---
 src/XAD/Hessian.hpp    |  6 ++----
 src/XAD/Jacobian.hpp   |  4 ++--
 src/XAD/TypeTraits.hpp | 12 ++++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 8c19f12..f39ab06 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -56,8 +56,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain || !detail::all_rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -111,8 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
 {
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
-    if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+    if (std::distance(first, last) != domain || !detail::all_rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index fc17d63..09f1a08 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -54,7 +54,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::all_rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -107,7 +107,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::all_rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/TypeTraits.hpp b/src/XAD/TypeTraits.hpp
index 17c2928..7d6439e 100644
--- a/src/XAD/TypeTraits.hpp
+++ b/src/XAD/TypeTraits.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <cstddef>
+#include <iterator>
 #include <type_traits>
 
 namespace xad
@@ -42,5 +44,15 @@ struct has_begin : decltype(has_begin_impl<U>(0))
 {
 };
 
+// checks that all rows in the range have the given size
+template <typename RowIterator>
+bool all_rows_have_size(RowIterator first, RowIterator last, std::size_t n)
+{
+    for (; first != last; ++first)
+        if (static_cast<std::size_t>(std::distance(first->cbegin(), first->cend())) != n)
+            return false;
+    return true;
+}
+
 }  // namespace detail
 }  // namespace xad
-- 
2.43.0


From 4fdca9e9ed93418d1255f31431b047d15b89a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 26/35] fix: Jacobian and Hessian of variables that carry
 derivatives already

---
 src/XAD/Hessian.hpp  | 8 ++++++++
 src/XAD/Jacobian.hpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index f39ab06..f9a7911 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -71,6 +71,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
 
     auto v(vec);
     tape->registerInputs(v);
+    // the given variables may carry derivatives already
+    for (auto& x : v) derivative(value(x)) = 0.0;
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
@@ -116,6 +118,12 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    // the given variables may carry derivatives already
+    for (auto& x : v)
+    {
+        derivative(value(x)) = 0.0;
+        derivative(x) = 0.0;
+    }
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 09f1a08..ba59bb3 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -119,6 +119,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
 
+    // the given variables may carry derivatives already
+    for (auto& x : v) derivative(x) = 0.0;
+
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
-- 
2.43.0


From 9373f8899b06cd0a1ed2e690df5bc07a3de6aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 27/35] fix: Jacobian and Hessian of functions that change
 their argument

---
 src/XAD/Hessian.hpp  |  6 ++++--
 src/XAD/Jacobian.hpp | 15 +++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index f9a7911..e1dbd63 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -79,7 +79,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto x(v);  // as the function might change its argument
+        AReal<FReal<T>> y = foo(x);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -133,7 +134,8 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
         for (unsigned int j = 0; j < domain; j++, col++)
         {
             derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto x(v);  // as the function might change its argument
+            FReal<FReal<T>> y = foo(x);
             *col = derivative(derivative(y));
             derivative(value(v[j])) = 0.0;
         }
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index ba59bb3..d9f26ad 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -43,7 +43,7 @@ std::vector<std::vector<T>> computeJacobian(
 {
     detail::ScopedActiveTape<Tape<T>> scope(tape);
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
     return matrix;
 }
@@ -71,7 +71,8 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    auto x(v);  // as the function might change its argument
+    auto y = foo(x);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
@@ -96,7 +97,7 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo)
 {
     auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix));
     return matrix;
 }
@@ -113,20 +114,22 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                   "RowIterator must dereference to a type that implements a begin() method");
 
     auto v(vec);
+    auto x(v);  // as the function might change its argument
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = static_cast<unsigned int>(foo(x).size());
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
 
     // the given variables may carry derivatives already
-    for (auto& x : v) derivative(x) = 0.0;
+    for (auto& vi : v) derivative(vi) = 0.0;
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
         derivative(v[i]) = 1.0;
-        auto y = foo(v);
+        x = v;
+        auto y = foo(x);
         derivative(v[i]) = 0.0;
         for (unsigned int j = 0; j < codomain; j++)
         {
-- 
2.43.0


From eda6b1061ecad28cb5d1c3334fcf2c3e197fd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 28/35] fix: keep the slot ranges of outer recordings excluded
 when variables registered in a checkpoint callback stay alive

The recording's start of excluded ranges was reset to the first range when a
variable registered in a checkpoint callback outlived the callback. Within a
nested recording, this took over the ranges of the recording it is nested in,
which were then removed when the nested recording ended.
---
 src/Tape.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index ee5e606..35d6081 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -590,14 +590,17 @@ struct Tape<T>::CallbackScope
             {
                 try
                 {
-                    tape_->reusable_ranges_.emplace(rec_->startRange_, iDerivative_, firstSlot_);
+                    rec_->startRange_ = tape_->reusable_ranges_.emplace(rec_->startRange_,
+                                                                        iDerivative_, firstSlot_);
                 }
                 catch (const std::bad_alloc&)
                 {
                     // these slots just won't be re-used
                 }
             }
-            rec_->startRange_ = tape_->reusable_ranges_.begin();
+            // the ranges of the recording this one is nested in remain excluded
+            if (startRange_ != tape_->reusable_ranges_.end())
+                rec_->startRange_ = startRange_;
             rec_->latestRange_ = tape_->reusable_ranges_.end();
         }
 #endif
-- 
2.43.0


From 50a6c24444031c2b601d0848b8675570258520c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 29/35] fix: derivative of fmod for quotients below zero

---
 src/XAD/BinaryMathFunctors.hpp | 6 +++++-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..a9df257 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,11 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the quotient is truncated towards zero
+        return -round((a - fmod(a, b)) / b);
+    }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index d8de803..aa4cf23 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,7 +193,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From 278c0e6eb8cf64c9d6cfdc069a81a5334dd0c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 30/35] fix: derivatives of remainder and remquo for quotients
 of 8 and more

---
 src/XAD/BinaryMathFunctors.hpp | 19 ++++++++-----------
 src/XAD/UnaryMathFunctors.hpp  | 19 ++++++++-----------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index a9df257..01788b8 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -268,29 +268,26 @@ struct remainder_op
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // not using remquo, as that gives the lowest bits of the quotient only
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index aa4cf23..d6d4cb5 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -375,11 +375,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar operator()(const Scalar& a) const { return remainder(b_, a); }
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // not using remquo, as that gives the lowest bits of the quotient only
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
     T2 b_;
 };
@@ -396,18 +393,18 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        return -round((Scalar(b_) - remainder(b_, a)) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From f7453ef7aa93f4874965fad6da5b00a55bcd9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 31/35] fix: derivative of a power with exponent zero

---
 src/XAD/UnaryMathFunctors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index d6d4cb5..6ae0581 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,10 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+// (an exponent of zero is separate, as one less might be a large number or give an infinite power)
+XAD_MAKE_UNARY_BINFUNCTOR(pow,
+                          b == T2(0) ? Scalar(0) : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
+                          log(b) * v)
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
-- 
2.43.0


From b931dac81870f6d373cf943d915130acf2f97a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 32/35] fix: derivative of frexp when its exponent has been
 overwritten

---
 src/XAD/UnaryMathFunctors.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 6ae0581..40eaa59 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -214,16 +214,20 @@ struct ldexp_op
 template <class Scalar>
 struct frexp_op
 {
-    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
-    XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
+    XAD_INLINE explicit frexp_op(int* exp) : exp_(exp), e_() {}
+    XAD_INLINE Scalar operator()(const Scalar& a) const
+    {
+        Scalar v = frexp(a, &e_);
+        *exp_ = e_;
+        return v;
+    }
     XAD_INLINE Scalar derivative(const Scalar&) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return Scalar(std::ldexp(1.0, -*exp_));
+        // operator() is always called before, but *exp_ might have been changed since
+        return Scalar(std::ldexp(1.0, -e_));
     }
     int* exp_;
+    mutable int e_;
 };
 
 namespace detail
-- 
2.43.0


From 306aa044f6e5b07df698a26bea83240c8da63487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 33/35] fix: hypot of a variable and a number recorded a copy
 of the variable

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..12b2798 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From cbbc0259d58215a536d2ef170a6bcc474a8f95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 34/35] fix: nested recordings within nested recordings of a
 callback made variables of the outer one inaccessible

The value of maxDerivative_ before the callback was inherited by recordings nested
in it, and the number of slots was reset with variables alive. The slots are now
given back when the callback is done, otherwise a loop with such callbacks would
grow the derivatives without bound.
---
 src/Tape.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 35d6081..090681f 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -377,8 +377,9 @@ void Tape<T>::newNestedRecording()
     newr.latestRange_ = newr.startRange_;
 #endif
     // clearDerivativesAfter(position_type(statement_.size())-1);
-    if (currentRec_->prevMax_ != INVALID_SLOT)  // in a checkpoint callback
-        currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    if (currentRec_->prevMax_ != INVALID_SLOT && derivatives_.size() > currentRec_->prevMax_)
+        derivatives_.resize(currentRec_->prevMax_);  // in a checkpoint callback
+    newr.prevMax_ = INVALID_SLOT;
     // the nested recording accumulates into the derivatives of this one
     if (!currentRec_->derivativesInitialized_ &&
         derivatives_.size() > currentRec_->startDerivative_)
@@ -642,6 +643,7 @@ void Tape<T>::computeAdjointsTo(position_type pos)
 
         resetTo(end - 1);  // removes up to and incl. the checkpoint from statements
 
+        slot_type maxDerivative = currentRec_->maxDerivative_;
         {
             CallbackScope scope(this);
             cb->computeAdjoint(this);
@@ -649,6 +651,11 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         // std::cout << "********Reset to " << end-1 << std::endl;
 
         resetTo(end - 1);  // another reset, in case the checkpoint added to the tape again
+        // the slots of the callback's variables are not needed anymore, unless they are still alive
+        if (derivatives_.size() > maxDerivative)
+            derivatives_.resize(maxDerivative);
+        if (currentRec_->iDerivative_ <= maxDerivative)
+            currentRec_->maxDerivative_ = maxDerivative;
         // clearDerivativesAfter(end-1);
         start = end - 1;  // skip over the checkpoint itself (?)
         LOG_DEBUG("new start=" << start);
-- 
2.43.0


From 000393b9e8e15465a7b3bf43005dca809c3f6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 35/35] fix: moving a tape with an open nested recording broke
 the slot bookkeeping of the outer ones

---
 src/Tape.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 090681f..0f3a2fa 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -98,10 +98,18 @@ void Tape<T>::finishMove(Tape& o) noexcept
 {
 #ifdef XAD_TAPE_REUSE_SLOTS
     // the end iterators are not carried over when moving the list
-    if (currentRec_->startRange_ == o.reusable_ranges_.end())
-        currentRec_->startRange_ = reusable_ranges_.end();
-    if (currentRec_->latestRange_ == o.reusable_ranges_.end())
-        currentRec_->latestRange_ = reusable_ranges_.end();
+    typedef std::stack<SubRecording, std::list<SubRecording> > stack_type;
+    struct Recordings : stack_type
+    {
+        using stack_type::c;
+    };
+    for (auto& rec : nestedRecordings_.*&Recordings::c)
+    {
+        if (rec.startRange_ == o.reusable_ranges_.end())
+            rec.startRange_ = reusable_ranges_.end();
+        if (rec.latestRange_ == o.reusable_ranges_.end())
+            rec.latestRange_ = reusable_ranges_.end();
+    }
 #endif
     if (o.isActive())
         active_tape_ = this;
-- 
2.43.0

