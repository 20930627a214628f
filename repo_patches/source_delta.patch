From 6419e42a53b26867a3351c4fdaab264d21282b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 001/130] fix: DelayLine::Resize must grow past the requested
 latency

A latency equal to the current (power of two) size left the size unchanged:
entries before the current position were then moved past the end of the
vector, and the new entry was stored in the current slot, so that a later
resize delayed it again.
---
 mpact/sim/generic/delay_line.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..300f3ed 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -118,17 +118,16 @@ class DelayLine : public DelayLineInterface {
   // resized so the latency is covered.
   void Resize(
       uint32_t min_size) /*ABSL_EXCLUSIVE_LOCKS_REQUIRED(delay_line_lock_)*/ {
-    // Compute a new size that's >= min_size and is a power of 2
-    // Given that the initial size is a power of two, multiplying the
-    // current size by two until it's greater or equal to min_size is
-    // sufficient.
+    // Compute a new size that's > min_size and is a power of 2. It has to be
+    // strictly greater than the latency, so that an entry with that latency
+    // does not wrap around to the current position.
     uint32_t prev_size = delay_line_.size();
 
     if (min_size < prev_size) {
       return;
     }
 
-    uint32_t new_size = absl::bit_ceil(min_size);
+    uint32_t new_size = absl::bit_ceil(min_size + 1);
 
     mask_ = new_size - 1;
     delay_line_.resize(new_size);
-- 
2.43.0


From a32d649cc42b8e4562884a1c0870e56e5e6af844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:54 +0000
Subject: [PATCH 002/130] fix: DataBufferFactory::Clear left dangling pointers
 to large buffers

The loop over the free lists of buffers above the short size iterated over
copies, so the deleted buffers stayed in the lists: they were handed out again
by Allocate() and deleted a second time by the next Clear() or the destructor.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From b72a332252b5eb89889882cb6a6f597f6f38ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:54 +0000
Subject: [PATCH 003/130] fix: a newly allocated DataBuffer has no destination

The destination, delay line and latency were uninitialized in a new buffer and
stale in a recycled one, so Submit() without set_destination() followed a wild
or stale pointer instead of just releasing the buffer.
---
 mpact/sim/generic/data_buffer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..ed09949 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -270,9 +270,9 @@ class DataBuffer : public ReferenceCount {
  private:
   explicit DataBuffer(unsigned size);
   DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
@@ -307,6 +307,10 @@ class DataBufferDelayRecord {
 // This method is only call from DataBuffer instance, so no need to check for
 // db == nullptr.
 inline void DataBufferFactory::Recycle(DataBuffer* db) {
+  // The next user must not inherit where (and when) this buffer was written.
+  db->delay_line_ = nullptr;
+  db->destination_ = nullptr;
+  db->latency_ = 0;
   int size = db->size<uint8_t>();
   if (size <= kShortSize) {
     short_free_list_[size].push_back(db);
-- 
2.43.0


From 2488d4636216a53d20f2ada4affffc5e8a90cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 004/130] fix: RegisterBase::SetDataBuffer recycled the buffer
 it was given

Setting a register to its current data buffer dropped the only reference
before taking the new one, so the buffer was put on the free list while it
remained the value of the register.
---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7031b99 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, as db may be the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From ea8251be8d0d1dfcdc83afde81714946947d7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 005/130] fix: StatusRegister::SetDataBuffer dropped the
 caller's reference

DataBuffer::Submit and the data buffer delay line release their own reference
after SetDataBuffer, so a write to a status register decremented the count
twice and recycled buffers that were still referenced.
---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..9b97172 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so ignore the value. The caller keeps (and drops)
+    // its own reference.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From b77482f03f499678459bae27be5b9e90f1d99e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:50 +0000
Subject: [PATCH 006/130] fix: TemplateNegate::Evaluate returned an OK status
 for a failing operand

When the operand is constant but its value cannot be computed (e.g. a function
that fails) Evaluate built its result from the OK status of the operand's
evaluation, which StatusOr rejects (it aborts), and leaked the operand.
---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From fac5a566c48e71770995ad4d9ec08037998c35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:34 +0000
Subject: [PATCH 007/130] fix: FPTypeInfo of 64-bit integers described the
 single precision format

---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From 47ac340c9a2e4ea901e54deb246a01dd39743967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:34 +0000
Subject: [PATCH 008/130] fix: FPTypeInfo<signed int>::SignBit was never true

---
 mpact/sim/generic/type_helpers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..13b9c85 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,7 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -359,7 +359,7 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -417,7 +417,7 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From ff2824f49b7d792b89cc49d840a4900914afa487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 009/130] fix: ResourceBitSet::Set wrote past the end of a set
 that has to grow

---
 mpact/sim/generic/resource_bitset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..aba21b5 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -58,7 +58,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From 4c3b1c238d74d32210976fb93d81f49c0905db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 010/130] fix: ResourceBitSet self-assignment read freed memory

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index aba21b5..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
-- 
2.43.0


From 87f112152f86cdc77de690df29f0609ec923b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:31 +0000
Subject: [PATCH 011/130] fix: ResourceBitSet::Resize to a smaller size cleared
 the wrong bits

---
 mpact/sim/generic/resource_bitset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 5d42bec..e91bd6b 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -128,8 +128,8 @@ void ResourceBitSet::Resize(int bit_size) {
   if (new_size <= size_) {
     int bit_offset = bit_size % kBitsInUint;
     UInt mask = ~(std::numeric_limits<UInt>::max() << bit_offset);
-    for (int i = new_size; i < size_; ++i) {
-      bits_[i] = bits_[i] & ~mask;
+    for (int i = bit_size / kBitsInUint; i < size_; ++i) {
+      bits_[i] = bits_[i] & mask;
       mask = 0;
     }
     return;
-- 
2.43.0


From a3caa9597cd14eca4da04e648deb0bc74813ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 012/130] fix: a SimpleResourceOperand with latency 0 held its
 resources for a whole turn of the delay line

---
 mpact/sim/generic/simple_resource_operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..36bbbdc 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -81,7 +81,7 @@ class SimpleResourceOperand : public ResourceOperandInterface {
   void Acquire() override {
     resource_set_->Acquire();
     // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    Release(latency_);
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From a6bb9319b9394c804dfea9b7c6c8fa2ab758e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 013/130] fix: ComplexResourceOperand::SetCycleMask(begin, end)
 wrote past its array when end is a multiple of 64

---
 mpact/sim/generic/complex_resource_operand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..16c1251 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
-- 
2.43.0


From a9e887465314600ff07cfd68a6997b9a68435065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 014/130] fix: ComplexResourceOperand::SetCycleMask(span)
 rejected valid masks and changed the operand on error

---
 mpact/sim/generic/complex_resource_operand.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index 16c1251..e485ab2 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -73,10 +73,11 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. Only
+  // the last, partially used, word of a full length mask can have such bits.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span.back() >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +93,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From dedc3b354968ab601bd62891e85efa423b15aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:46 +0000
Subject: [PATCH 015/130] fix: TokenFifo::Push takes no token and keeps no
 reservation for a rejected element

When FifoBase::Push() rejected the element (more slots reserved than tokens
available) a token was taken all the same and true was returned.
---
 mpact/sim/generic/token_fifo.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..affdeb2 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -61,13 +61,9 @@ bool TokenFifoBase::IsOverSubscribed() const {
 }
 
 bool TokenFifoBase::Push(DataBuffer* db) {
-  if (token_store_->available() == 0) {
-    if (nullptr != overflow_program_error()) {
-      overflow_program_error()->Raise("Overflow in fifo " + name());
-    }
-    return false;
-  }
-  FifoBase::Push(db);
+  // The base class checks for full (which includes the token store) and raises
+  // the overflow error. A rejected element must not take a token.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
-- 
2.43.0


From f3c251be2fd9aa856b910a5cadac8a15ba6c68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:46 +0000
Subject: [PATCH 016/130] fix: TokenFifo::Pop releases no token when there is
 no element

With reserved slots and no element IsEmpty() is false, and a token that was
never acquired was returned to the store.
---
 mpact/sim/generic/token_fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index affdeb2..8ba190e 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -77,7 +77,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  // IsEmpty() is false if there are reserved slots, even if there is no element.
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From 2fe26de164a3b9ccb71d7e19c53991879b392b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:46 +0000
Subject: [PATCH 017/130] fix: FifoWithNotify notifies of transitions only

Popping an empty fifo, or pushing to a fifo that rejects the element, invoked
the callbacks without any transition from/to empty.
---
 mpact/sim/generic/fifo_with_notify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..9958092 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -29,15 +29,16 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
   if (!IsEmpty()) return FifoBase::Push(db);
 
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = IsEmpty();
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From 9fa74a06ce8611a050636f8b71ad88db2e8f793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:46 +0000
Subject: [PATCH 018/130] fix: Fifo registers its depth configuration entry

The entry was never added to the component, so an imported depth was ignored
and the capacity could not be configured.
---
 mpact/sim/generic/fifo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..441d523 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,7 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  (void)AddConfig(&depth_);
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From ca990ce17050db6ad7d595354e5b0859919e4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:39 +0000
Subject: [PATCH 019/130] fix: ActionPointManagerBase::PerformActions returns
 if there is no action point

The end iterator was dereferenced, contrary to the documented "no action is
performed".
---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From b3bacb34d9ac7c9f6c9d5b8ac2784d3100d7705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:39 +0000
Subject: [PATCH 020/130] fix: ActionPoint operations that fail to write memory
 have no effect

EnableAction(), DisableAction() and ClearAction() changed the state of the
action before writing memory, and left it changed when the write failed. An
action was then enabled without a breakpoint instruction in memory (or the
other way around), and a breakpoint whose removal failed could be neither
cleared nor set again.
---
 .../sim/generic/action_point_manager_base.cc  | 31 ++++++++++---------
 mpact/sim/generic/breakpoint_manager.cc       | 14 ++++++---
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..364383d 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,17 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If that fails the action remains in place.
+  if (action_info->is_enabled && (ap->num_active == 1)) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active -= action_info->is_enabled ? 1 : 0;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +116,14 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If this is the only active action, write a breakpoint instruction. If that
+  // fails the action remains disabled.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +143,15 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  // If that fails the action remains enabled.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
diff --git a/mpact/sim/generic/breakpoint_manager.cc b/mpact/sim/generic/breakpoint_manager.cc
index d942e98..6ad7895 100644
--- a/mpact/sim/generic/breakpoint_manager.cc
+++ b/mpact/sim/generic/breakpoint_manager.cc
@@ -106,11 +106,17 @@ absl::Status BreakpointManager::EnableBreakpoint(uint64_t address) {
 }
 
 void BreakpointManager::ClearAllBreakpoints() {
-  for (auto const& [unused, bp_ptr] : breakpoint_map_) {
-    (void)action_point_manager_->ClearAction(bp_ptr->address, bp_ptr->id);
-    delete bp_ptr;
+  for (auto iter = breakpoint_map_.begin(); iter != breakpoint_map_.end();) {
+    auto* bp = iter->second;
+    auto status = action_point_manager_->ClearAction(bp->address, bp->id);
+    // If the action could not be removed, the breakpoint remains.
+    if (!status.ok() && !absl::IsNotFound(status)) {
+      ++iter;
+      continue;
+    }
+    iter = breakpoint_map_.erase(iter);
+    delete bp;
   }
-  breakpoint_map_.clear();
 }
 
 bool BreakpointManager::IsBreakpoint(uint64_t address) const {
-- 
2.43.0


From 23330b740562e1597290072606e3ad9de0ed1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 021/130] fix: Instruction::SetAttributes frees the array it
 replaces with delete[]

Also copies before freeing, so that the current attributes may be passed in,
and does not pass a null pointer to memcpy for empty attributes.
---
 mpact/sim/generic/instruction.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..8e712b0 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -14,8 +14,8 @@
 
 #include "mpact/sim/generic/instruction.h"
 
+#include <algorithm>
 #include <cstdint>
-#include <cstring>
 #include <string>
 
 #include "absl/types/span.h"
@@ -112,10 +112,10 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
-  attribute_array_ = new int[attributes.size()];
-  std::memcpy(attribute_array_, attributes.data(),
-              attributes.size() * sizeof(int));
+  int* attribute_array = new int[attributes.size()];
+  std::copy(attributes.begin(), attributes.end(), attribute_array);
+  delete[] attribute_array_;
+  attribute_array_ = attribute_array;
   attributes_ = absl::Span<const int>(attribute_array_, attributes.size());
 }
 
-- 
2.43.0


From 233faeb1478f374dbe54b2999904715cf1bc5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 022/130] fix: Instruction destructor resets the parent of all
 its children

Only the first child was reset. Another child that was still referenced kept a
dangling parent pointer, which its own destructor wrote through.
---
 mpact/sim/generic/instruction.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 8e712b0..624f8f9 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -103,7 +103,11 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // All the children in the list refer to this instruction, not just the
+    // first one.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From 4e15bfcf50dd5bf4ee42d64c73684ee89bf2c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 023/130] fix: DecodeCache::Create returns nullptr for an
 invalid pc increment

The destructor of the rejected cache dereferenced its null instruction array,
and an increment of zero shifted by a negative amount.
---
 mpact/sim/generic/decode_cache.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..c4facaf 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -28,14 +28,13 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
     : decoder_(decoder), instruction_cache_(nullptr) {
   num_entries_ = absl::bit_ceil(props.num_entries);
-  address_shift_ =
-      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
-  address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
     // minimum pc increment not a power of 2.
-    instruction_cache_ = nullptr;
     return;
   }
+  address_shift_ =
+      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
+  address_inc_ = 1 << address_shift_;
   address_mask_ = (num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
@@ -110,6 +109,7 @@ void DecodeCache::InvalidateRange(uint64_t start_address,
 }
 
 void DecodeCache::InvalidateAll() {
+  if (instruction_cache_ == nullptr) return;
   for (int entry = 0; entry < num_entries_; ++entry) {
     if (instruction_cache_[entry] != nullptr) {
       instruction_cache_[entry]->DecRef();
-- 
2.43.0


From 85b030496c2947e01ea018b303e61b5e37719b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 024/130] fix: DecodeCache computes the address mask in 64 bits

When the cache spans 2 GB or more of addresses the shift overflowed int, and
the (sign extended) mask gave indices outside of the cache.
---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index c4facaf..d4e9951 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -35,7 +35,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
   address_shift_ =
       (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
   address_inc_ = 1 << address_shift_;
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From fab5f9f42ec31706c32ed37e25202d232c54f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 025/130] fix: DecodeCache::InvalidateRange drops all
 instructions in the range

With a start address that is not a multiple of the pc increment no aligned
instruction was dropped, instructions at unaligned addresses were missed, and a
range reaching the end of the address space did not terminate.
---
 mpact/sim/generic/decode_cache.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index d4e9951..24f6ab2 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -103,8 +103,20 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (start_address >= end_address) return;
+  // Visit each entry that may hold an instruction in the range at most once.
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t num_entries = num_entries_;
+  uint64_t count = last - first < num_entries ? last - first + 1 : num_entries;
+  for (uint64_t i = 0; i < count; ++i) {
+    uint64_t entry = (first + i) & (num_entries - 1);
+    Instruction* inst = instruction_cache_[entry];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      instruction_cache_[entry] = nullptr;
+      inst->DecRef();
+    }
   }
 }
 
-- 
2.43.0


From 9023cfebf09eb35c0a6944210327a78fa4ed424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:51 +0000
Subject: [PATCH 026/130] fix: FlatMemory keeps the instruction of a delayed
 load alive

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..d84df06 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From b2b260204d6ccc3c2d022e1943728c21ada173c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:48 +0000
Subject: [PATCH 027/130] fix: FlatMemory unit stride vector accesses step in
 addressable units

---
 mpact/sim/util/memory/flat_memory.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..a49f39c 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -111,8 +111,10 @@ class FlatMemory : public MemoryInterface {
     bool gather = addresses.size() > 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
-        uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+        // Addresses are in terms of addressable units.
+        uint64_t address = gather ? addresses[entry]
+                                  : addresses[0] +
+                                        ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -131,8 +133,10 @@ class FlatMemory : public MemoryInterface {
     bool gather = addresses.size() > 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
-        uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+        // Addresses are in terms of addressable units.
+        uint64_t address = gather ? addresses[entry]
+                                  : addresses[0] +
+                                        ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From ef77397900d38ccf17aebed303807f8cf6ba4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:48 +0000
Subject: [PATCH 028/130] fix: FlatDemandMemory unit stride vector accesses
 step in addressable units

---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..90b4cc7 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -97,7 +97,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -160,7 +161,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
-- 
2.43.0


From 01a2e4da483d8d15d45c5a500fd0b14978f9f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 029/130] fix: FlatDemandMemory with a base address and no size
 reaches to the top of the address space

---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 90b4cc7..2898855 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <utility>
 
 #include "absl/base/macros.h"
@@ -40,6 +41,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
       (addressable_unit_size != 0) &&
       ((addressable_unit_size & (addressable_unit_size - 1)) == 0));
   addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  // The memory ends at the top of the address space at the latest.
+  if (max_address_ < base_address_) {
+    max_address_ = std::numeric_limits<uint64_t>::max();
+  }
 }
 
 // Delete all the allocated blocks.
-- 
2.43.0


From 390b62a62a624c659033dcbe5902a26a3d21f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 030/130] fix: TaggedFlatDemandMemory vector stores clear the
 tags of the elements they store

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..3aac24e 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // If there is only one address, this is a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From c7015542acb2b5eeb8e853c2f959e06cca021010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 031/130] fix: TaggedFlatDemandMemory tags with addressable
 units above one byte and ends inside a granule

---
 .../util/memory/tagged_flat_demand_memory.cc  | 45 ++++++++++++++-----
 .../util/memory/tagged_flat_demand_memory.h   |  5 +++
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 3aac24e..d079c94 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <bit>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
@@ -42,12 +43,20 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                                unsigned tag_granule)
     : tag_granule_(tag_granule) {
   if (!absl::has_single_bit(tag_granule_)) return;
+  addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
   data_memory_ = new FlatDemandMemory(memory_size_in_units, base_address,
                                       addressable_unit_size, fill);
-  // 8 tags per byte, so shift by log2(granule).
+  // One tag per granule, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // The tag memory covers all granules that overlap the memory.
+  uint64_t last_address = base_address + memory_size_in_units - 1;
+  if (last_address < base_address) {
+    last_address = std::numeric_limits<uint64_t>::max();
+  }
+  uint64_t tag_base = TagAddress(base_address);
+  uint64_t num_tags = TagAddress(last_address) - tag_base +
+                      TagCount(last_address, addressable_unit_size);
+  tag_memory_ = new FlatDemandMemory(num_tags, tag_base, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
@@ -71,7 +80,7 @@ void TaggedFlatDemandMemory::Load(uint64_t address, DataBuffer* db,
     data_memory_->Load(address, db, nullptr, nullptr);
   }
   int latency = (db != nullptr) ? db->latency() : tags->latency();
-  tag_memory_->Load(address >> tag_granule_shift_, tags, nullptr, nullptr);
+  tag_memory_->Load(TagAddress(address), tags, nullptr, nullptr);
   FinishLoad(latency, inst, context);
 }
 
@@ -80,7 +89,7 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db,
   if (!CheckRequest(address, db, tags)) return;
   // Store data and tags.
   data_memory_->Store(address, db);
-  tag_memory_->Store(address >> tag_granule_shift_, tags);
+  tag_memory_->Store(TagAddress(address), tags);
 }
 
 // Untagged load is passed directly to the data memory.
@@ -119,8 +128,8 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     // Clear any affected tags.
-    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
-              el_size);
+    uint64_t offset = (i * el_size) >> addressable_unit_shift_;
+    ClearTags(scatter ? address_span[i] : address_span[0] + offset, el_size);
   }
 }
 
@@ -128,7 +137,7 @@ bool TaggedFlatDemandMemory::CheckRequest(uint64_t address,
                                           const DataBuffer* db,
                                           const DataBuffer* tags) {
   uint64_t mask = (1ULL << tag_granule_shift_) - 1;
-  if (address & mask) {
+  if ((address << addressable_unit_shift_) & mask) {
     LOG(ERROR) << absl::StrCat(
         "Tagged load to ", absl::Hex(address, absl::kZeroPad16),
         " not aligned to tag granule (", tag_granule_, ")");
@@ -175,15 +184,27 @@ void TaggedFlatDemandMemory::FinishLoad(int latency, Instruction* inst,
 
 // Clear the tags for the given range of memory.
 void TaggedFlatDemandMemory::ClearTags(uint64_t address, unsigned size) {
-  uint64_t lo = address >> tag_granule_shift_;
-  uint64_t hi = (address + size - 1) >> tag_granule_shift_;
-  int num_tags = hi - lo + 1;
+  int num_tags = TagCount(address, size);
   auto* tag_db = db_factory_->Allocate(num_tags);
   std::memset(tag_db->raw_ptr(), 0, num_tags);
-  tag_memory_->Store(lo, tag_db);
+  tag_memory_->Store(TagAddress(address), tag_db);
   tag_db->DecRef();
 }
 
+// Addresses are in terms of addressable units, the tag granule is in bytes.
+uint64_t TaggedFlatDemandMemory::TagAddress(uint64_t address) const {
+  if (tag_granule_shift_ >= addressable_unit_shift_) {
+    return address >> (tag_granule_shift_ - addressable_unit_shift_);
+  }
+  return address << (addressable_unit_shift_ - tag_granule_shift_);
+}
+
+unsigned TaggedFlatDemandMemory::TagCount(uint64_t address,
+                                          unsigned size) const {
+  unsigned offset = (address << addressable_unit_shift_) & (tag_granule_ - 1);
+  return ((offset + size - 1) >> tag_granule_shift_) + 1;
+}
+
 }  // namespace util
 }  // namespace sim
 }  // namespace mpact
diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.h b/mpact/sim/util/memory/tagged_flat_demand_memory.h
index 1c7bbf1..e170e92 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.h
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.h
@@ -123,9 +123,14 @@ class TaggedFlatDemandMemory : public TaggedMemoryInterface {
                   generic::ReferenceCount* context);
   // Clear the tags for the specified range of memory.
   void ClearTags(uint64_t address, unsigned size);
+  // Return the address in tag memory of the tag of the given address.
+  uint64_t TagAddress(uint64_t address) const;
+  // Return the number of tags of 'size' bytes starting at 'address'.
+  unsigned TagCount(uint64_t address, unsigned size) const;
 
   unsigned tag_granule_;
   unsigned tag_granule_shift_;
+  unsigned addressable_unit_shift_ = 0;
   FlatDemandMemory* data_memory_ = nullptr;
   FlatDemandMemory* tag_memory_ = nullptr;
   generic::DataBufferFactory* db_factory_ = nullptr;
-- 
2.43.0


From f181c1987d372e61263fabd1aaaeed678ad8c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 032/130] fix: TaggedToUntaggedMemoryTransactor executes the
 instruction of a tag only load

---
 .../tagged_to_untagged_memory_transactor.cc   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..b240b3d 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,8 +61,23 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
-  target_mem_->Load(address, db, inst, context);
+  if (db != nullptr) {
+    target_mem_->Load(address, db, inst, context);
+    return;
+  }
+  // This is only a load of tags, so there is no load to forward.
+  if (inst == nullptr) return;
+  if (tags->latency() == 0) {
+    inst->Execute(context);
+    return;
+  }
+  inst->IncRef();
+  if (context != nullptr) context->IncRef();
+  inst->state()->function_delay_line()->Add(tags->latency(), [inst, context]() {
+    inst->Execute(context);
+    if (context != nullptr) context->DecRef();
+    inst->DecRef();
+  });
 }
 
 // For tagged stores, ignore the tags. just forward to the target mem interface.
-- 
2.43.0


From ce789b9a0ef6445029e718a8175be6990ef73555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 033/130] fix: AtomicTaggedMemory tagged stores keep their tags

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..7357a06 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -146,7 +146,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
   if (ptr != ll_tag_set_.end()) {
     ll_tag_set_.erase(ptr);
   }
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 9c5109492de6446856d7d0ce8e5e9fa8d8fd0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 034/130] fix: AtomicMemory stores remove the reservations of
 all granules they write and no other

---
 mpact/sim/util/memory/atomic_memory.cc | 29 ++++++++++++++++----------
 mpact/sim/util/memory/atomic_memory.h  |  2 ++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..9a4b8cf 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,21 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearTags(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of each element that is stored. If there is only one
+  // address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (int i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -261,6 +259,15 @@ void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+// Remove the tag of each granule that is written.
+void AtomicMemory::ClearTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..310ed34 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -76,6 +76,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the tags of the granules in the given address range.
+  void ClearTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   MemoryInterface* memory_ = nullptr;
-- 
2.43.0


From aedb30029dfbded8093c728fd8e4c4be1c97fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 035/130] fix: AtomicTaggedMemory stores remove the
 reservations of all granules they write and no other

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 35 ++++++++++---------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 ++
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 7357a06..36e0a30 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,27 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of each element that is stored. If there is only one
+  // address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (int i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -281,6 +275,15 @@ void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+// Remove the tag of each granule that is written.
+void AtomicTaggedMemory::ClearTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicTaggedMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..c63430b 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -82,6 +82,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the tags of the granules in the given address range.
+  void ClearTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   TaggedMemoryInterface* tagged_memory_ = nullptr;
-- 
2.43.0


From 92d429b97d1eda16c9a16c19a1deada96fe1fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 036/130] fix: AtomicMemory read-modify-write operations remove
 the reservation

---
 mpact/sim/util/memory/atomic_memory.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 9a4b8cf..6f2f5d6 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -208,6 +208,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
+    ClearTags(address, el_size);
     memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
@@ -235,6 +236,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
+  ClearTags(address, el_size);
   memory_->Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
-- 
2.43.0


From 3124148507e6a7b5d9d331e961f55ebf1cec581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 037/130] fix: AtomicTaggedMemory read-modify-write operations
 remove the reservation

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 36e0a30..2008557 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -224,6 +224,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
+    ClearTags(address, el_size);
     tagged_memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
@@ -251,6 +252,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
+  ClearTags(address, el_size);
   tagged_memory_->Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
-- 
2.43.0


From ad20be9d3be8d40e89711c5c1deccdda9610b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 038/130] fix: AtomicMemory refuses a store conditional of an
 illegal size before storing

---
 mpact/sim/util/memory/atomic_memory.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 6f2f5d6..c0ed125 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -166,6 +166,12 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     memory_->Load(address, db, inst, context);
     return absl::OkStatus();
   }
+  // The operations below only support the integer type sizes.
+  auto* tmp_db = GetDb(el_size);
+  if (tmp_db == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
+
   // Store-conditional.
   if (op == Operation::kStoreConditional) {
     uint64_t tag = address >> kTagShift;
@@ -184,11 +190,6 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
 
   // Load the data from memory.
-  auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
-- 
2.43.0


From 97ff8e7aed3b13bfa1de7eec75f67d315b82ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 039/130] fix: AtomicTaggedMemory refuses a store conditional
 of an illegal size before storing

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 2008557..d5df130 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -182,6 +182,12 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     tagged_memory_->Load(address, db, inst, context);
     return absl::OkStatus();
   }
+  // The operations below only support the integer type sizes.
+  auto* tmp_db = GetDb(el_size);
+  if (tmp_db == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
+
   // Store-conditional.
   if (op == Operation::kStoreConditional) {
     uint64_t tag = address >> kTagShift;
@@ -200,11 +206,6 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
 
   // Load the data from memory.
-  auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   tagged_memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
-- 
2.43.0


From 6ceed9fd24c87058acf691c71e804b6690fa06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:04 +0000
Subject: [PATCH 040/130] fix: MemoryWatcher watches unit stride vector
 accesses

A vector access with one address accesses consecutive elements from that
address (see memory_interface.h), but the watch loops indexed the address
buffer by element and read beyond its end.
---
 mpact/sim/util/memory/memory_watcher.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..02b9841 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -110,11 +110,14 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
   if (!ld_watch_actions_.empty()) {
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
+    bool unit_stride = address_db->size<uint64_t>() == 1;
     auto masks = mask_db->Get<bool>();
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address denotes the base of a unit stride access.
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -146,11 +149,14 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
   if (!st_watch_actions_.empty()) {
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
+    bool unit_stride = address_db->size<uint64_t>() == 1;
     auto masks = mask_db->Get<bool>();
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address denotes the base of a unit stride access.
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 755334210cc586f9e2644bcdbd673ce2d1d30678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:04 +0000
Subject: [PATCH 041/130] fix: TaggedMemoryWatcher watches unit stride vector
 accesses

A vector access with one address accesses consecutive elements from that
address (see memory_interface.h), but the watch loops indexed the address
buffer by element and read beyond its end.
---
 mpact/sim/util/memory/tagged_memory_watcher.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..073a073 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -111,11 +111,14 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
   if (!ld_watch_actions_.empty()) {
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
+    bool unit_stride = address_db->size<uint64_t>() == 1;
     auto masks = mask_db->Get<bool>();
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address denotes the base of a unit stride access.
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -162,11 +165,14 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
   if (!st_watch_actions_.empty()) {
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
+    bool unit_stride = address_db->size<uint64_t>() == 1;
     auto masks = mask_db->Get<bool>();
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address denotes the base of a unit stride access.
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 4c265551eec9c0e17aab413ac325aea92f149016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:17 +0000
Subject: [PATCH 042/130] fix: Router sends untagged accesses to the target
 that contains them

One lookup for plain and vector loads and stores. Before, a plain store just
below a mapped range did not reach the default target (the range looked up was
one byte too long), a vector access was forwarded to the target of its first
elements when a later element had no target, the elements after the first of a
unit stride vector access were not looked up, tagged targets did not get vector
stores to their last element, and a default memory target took accesses from the
tagged targets they are mapped to.
---
 .../util/memory/single_initiator_router.cc    | 235 ++++--------------
 .../sim/util/memory/single_initiator_router.h |   7 +
 2 files changed, 59 insertions(+), 183 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..ea0aa4d 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -124,36 +124,59 @@ absl::Status SingleInitiatorRouter::AddDefaultTarget<AtomicMemoryOpInterface>(
 // interfaces. These perform lookups to find an appropriate target. Failing that
 // they log an error and return.
 
-// Plain memory load.
-void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
-                                 Instruction* inst, ReferenceCount* context) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size - 1});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Load(address, db, inst, context);
-    }
+// Untagged accesses can occur in both MemoryInterface and
+// TaggedMemoryInterface, so both maps have to be checked.
+MemoryInterface* SingleInitiatorRouter::FindTarget(uint64_t address,
+                                                   int size) const {
+  uint64_t last = address + size - 1;
+  auto it = memory_targets_.find({address, last});
+  if ((it != memory_targets_.end()) && (it->first.base <= address) &&
+      (it->first.top >= last)) {
+    return it->second;
+  }
+  auto tagged_it = tagged_targets_.find({address, last});
+  if ((tagged_it != tagged_targets_.end()) &&
+      (tagged_it->first.base <= address) && (tagged_it->first.top >= last)) {
+    return tagged_it->second;
   }
   // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Load(address, db, inst, context);
+  if ((it != memory_targets_.end()) || (tagged_it != tagged_targets_.end())) {
+    return nullptr;
   }
-  // Since the plain memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Load(address, db, inst, context);
+  if (default_memory_target_ != nullptr) return default_memory_target_;
+  return default_tagged_target_;
+}
+
+// Check each element that is not masked off. Vector memory accesses will not be
+// split across multiple targets.
+MemoryInterface* SingleInitiatorRouter::FindTarget(DataBuffer* address_db,
+                                                   DataBuffer* mask_db,
+                                                   int el_size) const {
+  // A single address is the base of a unit stride access.
+  bool unit_stride = address_db->size<uint64_t>() == 1;
+  int count = unit_stride ? mask_db->size<uint8_t>()
+                          : address_db->size<uint64_t>();
+  MemoryInterface* memory = nullptr;
+  for (int i = 0; i < count; i++) {
+    if (!mask_db->Get<uint8_t>(i)) continue;
+    auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                               : address_db->Get<uint64_t>(i);
+    auto* tmp_memory = FindTarget(address, el_size);
+    if (tmp_memory == nullptr) return nullptr;
+    if ((memory != nullptr) && (tmp_memory != memory)) {
+      LOG(ERROR) << "Multiple targets found for address vector access";
+      return nullptr;
     }
+    memory = tmp_memory;
   }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Load(address, db, inst, context);
-  }
+  return memory;
+}
+
+// Plain memory load.
+void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
+                                 Instruction* inst, ReferenceCount* context) {
+  auto* memory = FindTarget(address, db->size<uint8_t>());
+  if (memory != nullptr) return memory->Load(address, db, inst, context);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
@@ -162,75 +185,10 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  int el_size, DataBuffer* db, Instruction* inst,
                                  ReferenceCount* context) {
-  // This is a vector load, so check each address that is not masked off.
-  // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindTarget(address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Load(address_db, mask_db, el_size, db, inst, context);
   }
-  // Since the vector memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size - 1});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Load(address_db, mask_db, el_size, db, inst, context);
-  }
   LOG(ERROR) << "No target found for vector load";
 }
 
@@ -264,33 +222,8 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Store(address, db);
-  }
-  // Since the plain memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Store(address, db);
-  }
+  auto* memory = FindTarget(address, db->size<uint8_t>());
+  if (memory != nullptr) return memory->Store(address, db);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
@@ -298,74 +231,10 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
 // Vector memory store.
 void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
-  // This is a vector store, so check each address that is not masked off.
-  // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindTarget(address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Store(address_db, mask_db, el_size, db);
   }
-  // Since the vector memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Store(address_db, mask_db, el_size, db);
-  }
   LOG(ERROR) << "No target found for vector store";
 }
 
diff --git a/mpact/sim/util/memory/single_initiator_router.h b/mpact/sim/util/memory/single_initiator_router.h
index 27e5785..0002c11 100644
--- a/mpact/sim/util/memory/single_initiator_router.h
+++ b/mpact/sim/util/memory/single_initiator_router.h
@@ -106,6 +106,13 @@ class SingleInitiatorRouter : public TaggedMemoryInterface,
   std::string_view name() const { return name_; }
 
  private:
+  // Returns the target for an untagged load/store of size bytes at address, or
+  // nullptr if there is none.
+  MemoryInterface* FindTarget(uint64_t address, int size) const;
+  // As above, for an untagged vector load/store.
+  MemoryInterface* FindTarget(DataBuffer* address_db, DataBuffer* mask_db,
+                              int el_size) const;
+
   std::string name_;
   // These maps are used to look up target interfaces based on addresses.
   InterfaceMap<MemoryInterface> memory_targets_;
-- 
2.43.0


From a2abdcd6b610af4ccfa3ba71747df3e04b21ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 043/130] fix: Cache constructors for tagged memories name all
 counters

The counters of non cacheable accesses had no names, so that adding the second
one failed and the constructor terminated the program.
---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 0ddd868c19f188e71d17ec91af9ccd0e3afda0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 044/130] fix: Cache lines allocated by a write are dirty

A line allocated upon a write miss was marked clean, so that its write back was
not counted when it was replaced.
---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From af3b927b6024df5ceca94b5018893983d91af7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 045/130] fix: Cache loads release the context and handle
 latency without data

A load without an instruction leaked the reference to its context and lost the
latency of its data buffer. A tag only load with a latency dereferenced the
missing data buffer.
---
 mpact/sim/util/memory/cache.cc | 16 +++++++++++++---
 mpact/sim/util/memory/cache.h  |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..46ce55b 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -304,6 +304,11 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   if (db) {
     db->set_latency(0);
     db->IncRef();
+  } else {
+    // The latency of a tag only load is that of the tags.
+    cache_context->tags = tags;
+    tags->set_latency(0);
+    tags->IncRef();
   }
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
   cache_context->DecRef();
@@ -344,13 +349,15 @@ void Cache::LoadChild(const Instruction* inst) {
   auto* cache_context = static_cast<CacheContext*>(inst->context());
   auto* og_context = cache_context->context;
   auto* db = cache_context->db;
+  auto* tags = cache_context->tags;
   auto* og_inst = cache_context->inst;
-  // Reset the db latency to the original value.
+  // Reset the latency to the original value.
+  if (db != nullptr) db->set_latency(cache_context->latency);
+  if (tags != nullptr) tags->set_latency(cache_context->latency);
   if (nullptr != og_inst) {
     if (cache_context->latency > 0) {
-      if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
@@ -360,8 +367,11 @@ void Cache::LoadChild(const Instruction* inst) {
       if (og_context != nullptr) og_context->DecRef();
       og_inst->DecRef();
     }
+  } else if (og_context != nullptr) {
+    og_context->DecRef();
   }
   if (db) db->DecRef();
+  if (tags) tags->DecRef();
 }
 
 // Cache lookup function.
diff --git a/mpact/sim/util/memory/cache.h b/mpact/sim/util/memory/cache.h
index 711a844..7b7b82b 100644
--- a/mpact/sim/util/memory/cache.h
+++ b/mpact/sim/util/memory/cache.h
@@ -70,6 +70,8 @@ class Cache : public Component, public TaggedMemoryInterface {
     ReferenceCount* context;
     // Original data buffer.
     DataBuffer* db;
+    // Tag data buffer of a tag only load, for which db is nullptr.
+    DataBuffer* tags = nullptr;
     // Instruction to be executed upon memory access completion.
     Instruction* inst;
     // Latency of the memory access.
-- 
2.43.0


From 03ebb94ada7aafe1f534ba068a07cbd5d5e8cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 046/130] fix: Cache looks up every element of unit stride
 vector accesses

A vector access with one address accesses consecutive elements from that address
(see memory_interface.h), of which only the first was looked up.
---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 46ce55b..6787317 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address is the base of a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -325,9 +329,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address is the base of a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 977cb737db09ef16e95face226450f40a26bcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 047/130] fix: Cache::Configure applies a configuration only if
 it is valid

A configuration that was refused had already replaced the associativity and the
allocation policy of the cache in use, which made it access lines beyond the end
of the cache, and cacheable ranges of earlier configurations stayed in effect.
---
 mpact/sim/util/memory/cache.cc | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6787317..47815ee 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <limits>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "absl/functional/bind_front.h"
@@ -117,7 +118,6 @@ absl::Status Cache::Configure(const std::string& config,
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -145,20 +145,23 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
+  uint64_t num_sets = std::stoull(config_vec[2], &size);
   if (size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate = false;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
   // If there are more than 4 entries, check for cacheable, or non-cacheable
   // memory ranges. Format is: [c|nc]:<start_address>:<size>
+  absl::btree_multiset<AddressRange, AddressRangeLess> non_cacheable_ranges;
+  absl::btree_multiset<AddressRange, AddressRangeLess> cacheable_ranges;
   for (int i = 4; i < config_vec.size(); i++) {
     std::vector<std::string> range_vec = absl::StrSplit(config_vec[i], ':');
     if (range_vec.size() != 3) {
@@ -185,19 +188,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -207,7 +208,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -220,19 +221,27 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid, so apply it.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  has_cacheable_ = !cacheable_ranges.empty();
+  has_non_cacheable_ = !non_cacheable_ranges.empty();
+  cacheable_ranges_ = std::move(cacheable_ranges);
+  non_cacheable_ranges_ = std::move(non_cacheable_ranges);
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets_) - 1)) - 1;
-  set_shift_ = absl::bit_width(num_sets_) - 1;
+  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets) - 1)) - 1;
+  set_shift_ = absl::bit_width(num_sets) - 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 64f48be4ce0732c20f002ee28b9b0ff02eff30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 048/130] fix: Cache::Configure refuses fields that are not
 numbers

std::stoull throws an exception when there is no number or it is out of range.
---
 mpact/sim/util/memory/cache.cc | 42 ++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 47815ee..e8a2876 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,7 +16,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
 #include <utility>
@@ -113,6 +115,21 @@ Cache::~Cache() {
   cache_inst_->DecRef();
 }
 
+namespace {
+
+// Parses the number at the start of text, and sets size to its length. Returns
+// false if there is no number, or if it is out of range.
+bool ParseUint64(const std::string& text, int base, uint64_t* value,
+                 std::string::size_type* size) {
+  char* end;
+  errno = 0;
+  *value = std::strtoull(text.c_str(), &end, base);
+  *size = end - text.c_str();
+  return (*size > 0) && (errno == 0);
+}
+
+}  // namespace
+
 absl::Status Cache::Configure(const std::string& config,
                               CounterValueOutputBase<uint64_t>* cycle_counter) {
   if (cycle_counter == nullptr) {
@@ -125,7 +142,10 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  if (!ParseUint64(config_vec[0], 10, &cache_size, &size)) {
+    return absl::InvalidArgumentError("Invalid value for cache size");
+  }
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -140,13 +160,15 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
-  if (size != config_vec[1].size()) {
+  uint64_t line_size;
+  if (!ParseUint64(config_vec[1], 10, &line_size, &size) ||
+      (size != config_vec[1].size())) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  uint64_t num_sets = std::stoull(config_vec[2], &size);
-  if (size != config_vec[2].size()) {
+  uint64_t num_sets;
+  if (!ParseUint64(config_vec[2], 10, &num_sets, &size) ||
+      (size != config_vec[2].size())) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
@@ -168,13 +190,15 @@ absl::Status Cache::Configure(const std::string& config,
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
-    if (size != range_vec[1].size()) {
+    uint64_t range_start;
+    if (!ParseUint64(range_vec[1], 0, &range_start, &size) ||
+        (size != range_vec[1].size())) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
-    if (size != range_vec[2].size()) {
+    uint64_t range_end;
+    if (!ParseUint64(range_vec[2], 0, &range_end, &size) ||
+        (size != range_vec[2].size())) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid size");
     }
-- 
2.43.0


From df3a47ad2b7404890eb60d30035ac7bb49573772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:34 +0000
Subject: [PATCH 049/130] fix: decoders for several encoding groups declare
 their result once

---
 mpact/sim/decoder/instruction_group.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..1bb39a3 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -215,10 +215,11 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
-                    "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    // The variable is declared by the first group only.
+    absl::StrAppend(&top_level_decoder, i == 0 ? "  auto" : " ",
+                    " opcode = Decode", name, "(inst_word).first;\n");
+    absl::StrAppend(&w_format_top_level_decoder, i == 0 ? "  auto" : " ",
+                    " opcode_format = Decode", name, "(inst_word);\n");
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 3d5b819e4eba40cd9504632df0c320dd54ff3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:34 +0000
Subject: [PATCH 050/130] fix: unconditional instructions with specializations
 close their if once

---
 mpact/sim/decoder/encoding_group.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..2f10d8f 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -583,8 +583,10 @@ int EncodingGroup::EmitEncodingIfStatement(
     // Close the if statements.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    if (count > 0) {
+      indent_str = indent_str.substr(2);
+      absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    }
   }
   return count != 0 ? 1 : 0;
 }
-- 
2.43.0


From 015243e0faf8d6b1adbc342fd7b6c9884488d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:14 +0000
Subject: [PATCH 051/130] fix: numbers in encoding descriptions may exceed 31
 bits and use separators

---
 mpact/sim/decoder/bin_format_visitor.cc | 20 +++++++++++++++-----
 mpact/sim/decoder/bin_format_visitor.h  |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..eda9e28 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -15,7 +15,9 @@
 #include "mpact/sim/decoder/bin_format_visitor.h"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <deque>
 #include <filesystem>  // NOLINT: third party.
 #include <fstream>
@@ -511,14 +513,22 @@ BinaryNum BinFormatVisitor::ParseBinaryNum(TerminalNode* node) {
 }
 
 // Parse a number string and return the value.
-int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+int64_t BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
   // Binary has to be handled separately.
   auto bin_number = ctx->BIN_NUMBER();
   if (bin_number != nullptr) {
-    return static_cast<int>(ParseBinaryNum(bin_number).value);
+    return ParseBinaryNum(bin_number).value;
+  }
+  // Hex, octal and decimal. Remove any digit separators before converting.
+  std::string text = ctx->getText();
+  text.erase(std::remove(text.begin(), text.end(), '\''), text.end());
+  errno = 0;
+  int64_t ret_val = std::strtoll(text.c_str(), nullptr, 0);
+  if (errno == ERANGE) {
+    error_listener_->semanticError(
+        ctx->start, absl::StrCat("Number out of range: ", ctx->getText()));
+    return 0;
   }
-  // Hex, octal and decimal.
-  int ret_val = std::stoi(ctx->getText(), nullptr, 0);
   return ret_val;
 }
 
@@ -1249,7 +1259,7 @@ void BinFormatVisitor::VisitConstraint(Format* format, FieldConstraintCtx* ctx,
         }
       }
     }
-    int value = ConvertToInt(ctx->number());
+    int64_t value = ConvertToInt(ctx->number());
     if (constraint_type == ConstraintType::kEq) {
       status = inst_encoding->AddEqualConstraint(field_name, value);
     } else {
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index e1ba70f..37145ee 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -118,7 +118,7 @@ class BinFormatVisitor {
   // Utility methods to parse certain nodes.
   BinaryNum ParseBinaryNum(TerminalNode* node);
   BitRange GetBitIndexRange(BitIndexRangeCtx* ctx);
-  int ConvertToInt(NumberCtx* ctx);
+  int64_t ConvertToInt(NumberCtx* ctx);
   // Methods that visit the nodes of the parse tree.
   std::unique_ptr<BinEncodingInfo> ProcessTopLevel(
       const std::string& decoder_name);
-- 
2.43.0


From 4585af9fa1ead38ab7f3b99765daffab2e03b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 052/130] fix: encoding constraints on fields and overlays
 wider than 31 bits

---
 mpact/sim/decoder/encoding_group.cc       |  2 +-
 mpact/sim/decoder/instruction_encoding.cc | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 2f10d8f..8a008c7 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -478,7 +478,7 @@ void EncodingGroup::ProcessConstraint(
   std::string name = absl::StrCat(overlay->name(), "_value");
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  auto result = overlay->GetBitField((1ULL << overlay->declared_width()) - 1);
   if (result.ok()) {
     mask = result.value();
   } else {
diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..8dca335 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1ULL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -181,9 +181,14 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  if (width >= 64) {
+    return absl::OutOfRangeError(
+        absl::StrCat("Overlay '", field_name,
+                     "' is too wide to create constraint - must be < 64 bits"));
+  }
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value < 0) || (value >= (1ULL << width))) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +199,22 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -(1LL << (width - 1));
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
+      value = value & ((1ULL << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= (1ULL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From f349d1261ae912b26b4cac099efca00d1f87a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 053/130] fix: decoders keep same-named fields of different
 formats apart

---
 mpact/sim/decoder/encoding_group.cc | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 8a008c7..51e6146 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -59,6 +59,18 @@ static bool EncodingLess(uint64_t mask, InstructionEncoding* lhs,
   return lhs_val < rhs_val;
 }
 
+// Return the names of the variables that hold the values of fields and overlays
+// in the generated code. Formats may use the same name for different bits, so
+// the name of the format is part of the variable name.
+static std::string ValueName(const Field* field) {
+  return absl::StrCat(field->format->name(), "_", field->name, "_value");
+}
+
+static std::string ValueName(const Overlay* overlay) {
+  return absl::StrCat(overlay->format()->name(), "_", overlay->name(),
+                      "_value");
+}
+
 EncodingGroup::EncodingGroup(InstructionGroup* inst_group, uint64_t ignore)
     : EncodingGroup(nullptr, inst_group, ignore) {}
 
@@ -461,7 +473,7 @@ void EncodingGroup::ProcessConstraint(
   if (constraint->field != nullptr) {
     // Field constraint.
     Field* field = constraint->field;
-    std::string name = absl::StrCat(field->name, "_value");
+    std::string name = ValueName(field);
     if (extracted.contains(name)) return;
     uint64_t mask = ((1ULL << field->width) - 1);
     // If the bits in the field are already handled by a parent or
@@ -475,7 +487,7 @@ void EncodingGroup::ProcessConstraint(
 
   // It's an overlay constraint.
   Overlay* overlay = constraint->overlay;
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
   auto result = overlay->GetBitField((1ULL << overlay->declared_width()) - 1);
@@ -595,7 +607,7 @@ void EncodingGroup::EmitFieldExtraction(
     const Field* field, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(field->name, "_value");
+  std::string name = ValueName(field);
   if (!extracted.contains(name)) {
     std::string data_type;
     if (field->width > inst_group_->width()) {
@@ -625,7 +637,7 @@ void EncodingGroup::EmitOverlayExtraction(
     const Overlay* overlay, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   if (!extracted.contains(name)) {
     auto ovl_width = overlay->declared_width();
     std::string data_type;
@@ -687,17 +699,15 @@ int EncodingGroup::EmitOtherConstraintConditions(
     if (constraint->can_ignore) continue;
 
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
-    std::string lhs_name = absl::StrCat((constraint->field != nullptr)
-                                            ? constraint->field->name
-                                            : constraint->overlay->name(),
-                                        "_value");
+    std::string lhs_name = (constraint->field != nullptr)
+                               ? ValueName(constraint->field)
+                               : ValueName(constraint->overlay);
     std::string rhs;
     if ((constraint->rhs_field != nullptr) ||
         (constraint->rhs_overlay != nullptr)) {
-      rhs = absl::StrCat((constraint->rhs_field != nullptr)
-                             ? constraint->rhs_field->name
-                             : constraint->rhs_overlay->name(),
-                         "_value");
+      rhs = (constraint->rhs_field != nullptr)
+                ? ValueName(constraint->rhs_field)
+                : ValueName(constraint->rhs_overlay);
     } else {
       rhs = absl::StrCat("0x", absl::Hex(constraint->value));
     }
@@ -717,10 +727,9 @@ int EncodingGroup::EmitConstraintConditions(
   for (auto const* constraint : constraints) {
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
     if (constraint->can_ignore) continue;
-    std::string name = absl::StrCat((constraint->field != nullptr)
-                                        ? constraint->field->name
-                                        : constraint->overlay->name(),
-                                    "_value");
+    std::string name = (constraint->field != nullptr)
+                           ? ValueName(constraint->field)
+                           : ValueName(constraint->overlay);
     absl::StrAppend(condition, connector, "(", name, " ", comparison, " 0x",
                     absl::Hex(constraint->value), ")");
     connector = " &&\n          ";
-- 
2.43.0


From 9104fa793a5e827e14094a67f893d9d5346cb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:32 +0000
Subject: [PATCH 054/130] fix: overlay extractors are well defined past bit 31
 and for zero constants

---
 mpact/sim/decoder/overlay.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..fcf3a51 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -233,7 +233,9 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      // Values that reach past bit 30 need a literal wider than an int.
+      absl::StrAppend(&output, "  ", result, assign, bin_num.value,
+                      component->position() > 30 ? "ULL" : "");
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
@@ -241,9 +243,12 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     } else {
       // Field or format references are added.
       uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
-      absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
-                      absl::Hex(mask), ")");
       int diff = component->high() - component->position();
+      // The overlay may be wider than the value it is extracted from.
+      bool widen = (diff < 0) && (component->position() > 30);
+      absl::StrAppend(&output, "  ", result, assign,
+                      widen ? "static_cast<uint64_t>(" : "(", value, " & 0x",
+                      absl::Hex(mask), ")");
       if (diff < 0) {
         absl::StrAppend(&output, " << ", -diff);
       } else if (diff > 0) {
@@ -253,6 +258,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // If all the bits are constant zeros, there is nothing to 'or' in.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From f79eea0424661b65c6dd6a2027d91acdb1680b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 055/130] fix: extractors are only shared by formats that agree
 on the bits

---
 mpact/sim/decoder/format.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..ee3d937 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -48,10 +48,13 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
-    if (high_ != rhs.high_) return false;
-    if (size_ != rhs.size_) return false;
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
   } else {
     if (format_ != rhs.format_) return false;
+    if (high_ != rhs.high_) return false;
+    if (size_ != rhs.size_) return false;
   }
   return true;
 }
-- 
2.43.0


From 0f7e431ca341bfe1db17b43859c3cecb9ef34169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 056/130] fix: extractors of repeated formats index like their
 inserters

---
 mpact/sim/decoder/format.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index ee3d937..3437a3b 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -841,14 +841,13 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      shift = absl::StrCat("(", low, " - index * ", width, ")");
     } else {
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
       uint64_t mask = (1ULL << width) - 1;
-      expr =
-          absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
+      expr = absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask));
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
       absl::StrAppend(&h_output,
@@ -879,7 +878,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From 51899df0b1ad7e0207fd429454afa5e6f6867e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 057/130] fix: inserters of repeated formats leave the bits
 below them alone

---
 mpact/sim/decoder/format.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 3437a3b..2444c62 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -698,8 +698,9 @@ std::string Format::GenerateReplicatedFormatInserter(
     uint64_t mask = (1ULL << width) - 1;
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
-                    absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
+                    "  return (inst_word & ~(0x",
+                    absl::Hex(mask), "ULL << low))",
+                    " | ((static_cast<uint64_t>(value) << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
     absl::StrAppend(
-- 
2.43.0


From b9db5786c610e1eb0f81ebc26b10095bd2e7a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 058/130] fix: overlay inserters replace the previous value of
 the bits

---
 mpact/sim/decoder/format.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 2444c62..f8182ff 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -35,6 +35,15 @@ namespace bin_format {
 
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask with the low 'width' bits set.
+uint64_t LowMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -550,7 +559,9 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   std::string result_type_name = GetUIntType(computed_width_);
   std::string overlay_type_name;
   if (computed_width_ <= 128) {
-    overlay_type_name = result_type_name;
+    // The constant bits may make the overlay wider than the format.
+    overlay_type_name =
+        GetUIntType(std::max(computed_width_, overlay->declared_width()));
   } else {
     overlay_type_name = GetUIntType(overlay->declared_width());
   }
@@ -611,7 +622,14 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
     if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+      // Replace the previous value of the bits.
+      std::string mask = use_mask_variable
+                             ? "mask"
+                             : absl::StrCat("static_cast<", result_type_name,
+                                            ">(0x", absl::Hex(LowMask(width)),
+                                            "ULL)");
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~(", mask, shift,
+                      ")) | (tmp ", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
-- 
2.43.0


From 6f119e6f029346336fdb929a13b90f899ea3a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:10 +0000
Subject: [PATCH 059/130] fix: fields and overlays may be 64 bits wide

---
 mpact/sim/decoder/format.cc  | 12 ++++++------
 mpact/sim/decoder/overlay.cc | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index f8182ff..ef01aa1 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -409,7 +409,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = LowMask(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
@@ -511,7 +511,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = LowMask(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -612,7 +612,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
                       width, ") - 1;\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = LowMask(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -713,7 +713,7 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = LowMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
                     "  return (inst_word & ~(0x",
@@ -770,7 +770,7 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = LowMask(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
@@ -865,7 +865,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
+      uint64_t mask = LowMask(width);
       expr = absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask));
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index fcf3a51..68d8676 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,15 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask with the low 'width' bits set.
+uint64_t LowMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +168,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= LowMask(component->width()) << component->low();
     }
     position -= component->width();
   }
@@ -182,7 +191,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +206,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowMask(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -242,7 +251,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       // The overlay may be wider than the value it is extracted from.
       bool widen = (diff < 0) && (component->position() > 30);
-- 
2.43.0


From a3ca6264ad244d27f5ff8549ee93c4635f58cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 060/130] fix: a conflict among derived formats stops the
 promotion of an extractor

---
 mpact/sim/decoder/format.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index ef01aa1..31ed636 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -259,10 +259,17 @@ void Format::PropagateExtractorsUp() {
   if (base_format_ != nullptr) {
     // Try to propagate extractors up the inheritance tree.
     for (auto const& [name, field_or_format_ptr] : extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (field_or_format_ptr == nullptr) continue;
       auto iter = base_format_->extractors_.find(name);
+      // Those that have a nullptr have already failed to be promoted. Make sure
+      // that other formats don't promote the name further either.
+      if (field_or_format_ptr == nullptr) {
+        bool is_own = (iter != base_format_->extractors_.end()) &&
+                      std::find(base_format_->field_vec_.begin(),
+                                base_format_->field_vec_.end(),
+                                iter->second) != base_format_->field_vec_.end();
+        if (!is_own) base_format_->extractors_[name] = nullptr;
+        continue;
+      }
       // If it isn't in the parent, add it.
       if (iter == base_format_->extractors_.end()) {
         base_format_->extractors_.insert(
@@ -277,10 +284,15 @@ void Format::PropagateExtractorsUp() {
       }
     }
     for (auto const& [name, overlay_ptr] : overlay_extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (overlay_ptr == nullptr) continue;
       auto iter = base_format_->overlay_extractors_.find(name);
+      // Those that have a nullptr have already failed to be promoted. Make sure
+      // that other formats don't promote the name further either.
+      if (overlay_ptr == nullptr) {
+        if (base_format_->GetOverlay(name) == nullptr) {
+          base_format_->overlay_extractors_[name] = nullptr;
+        }
+        continue;
+      }
       // If it isn't in the parent, add it.
       if (iter == base_format_->overlay_extractors_.end()) {
         base_format_->overlay_extractors_.insert(
-- 
2.43.0


From f6e94243c6269aa0a561039a12d871e6abe80d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:33 +0000
Subject: [PATCH 061/130] fix: CLIForwarder implements halt requests with a
 reason

It did not override two of the pure virtual methods of CoreDebugInterface and
could not be instantiated.
---
 mpact/sim/util/renode/cli_forwarder.cc | 10 ++++++++++
 mpact/sim/util/renode/cli_forwarder.h  |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/mpact/sim/util/renode/cli_forwarder.cc b/mpact/sim/util/renode/cli_forwarder.cc
index 3a05645..0ec806f 100644
--- a/mpact/sim/util/renode/cli_forwarder.cc
+++ b/mpact/sim/util/renode/cli_forwarder.cc
@@ -40,6 +40,16 @@ CLIForwarder::CLIForwarder(RenodeCLITop* top) : top_(top) {}
 
 absl::Status CLIForwarder::Halt() { return top_->CLIHalt(); }
 
+absl::Status CLIForwarder::Halt(HaltReason halt_reason) {
+  top_->CLIRequestHalt(halt_reason, nullptr);
+  return absl::OkStatus();
+}
+
+absl::Status CLIForwarder::Halt(HaltReasonValueType halt_reason) {
+  top_->CLIRequestHalt(halt_reason, nullptr);
+  return absl::OkStatus();
+}
+
 absl::StatusOr<int> CLIForwarder::Step(int num) { return top_->CLIStep(num); }
 
 absl::Status CLIForwarder::Run() { return top_->CLIRun(); }
diff --git a/mpact/sim/util/renode/cli_forwarder.h b/mpact/sim/util/renode/cli_forwarder.h
index f253c4b..abbe7b2 100644
--- a/mpact/sim/util/renode/cli_forwarder.h
+++ b/mpact/sim/util/renode/cli_forwarder.h
@@ -46,6 +46,8 @@ class CLIForwarder : public CoreDebugInterface {
 
   // Request that core stop running.
   absl::Status Halt() override;
+  absl::Status Halt(HaltReason halt_reason) override;
+  absl::Status Halt(HaltReasonValueType halt_reason) override;
   // Step the core by num instructions.
   absl::StatusOr<int> Step(int num) override;
   // Allow the core to free-run. The loop to run the instructions should be
-- 
2.43.0


From 042bde578406fe4dd3c9838d309820086a4a2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:45 +0000
Subject: [PATCH 062/130] fix: a halt during RenodeStep does not end the
 program

A breakpoint hit while Renode is stepping set program_done_, after which the
command line counted as in control even without a quantum to step in: the next
CLIStep looped over Step(0) forever with the run control mutex held.
---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From 0faf89107091a928718c2115bddaa21d15057106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:03 +0000
Subject: [PATCH 063/130] fix: MemoryUseTracker marks every word an access uses

Double word accesses marked a single word, unaligned accesses and accesses
across segments lost words, and an access to address 0 before any other
dereferenced a null pointer.
---
 mpact/sim/util/memory/memory_use_profiler.cc | 66 ++++++++++----------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 +
 2 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..ff447e8 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -39,17 +38,6 @@ MemoryUseTracker::~MemoryUseTracker() {
   memory_use_map_.clear();
 }
 
-// Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
-  // Shift right by two, so that every byte offset becomes a word offset.
-  uint64_t word_offset = byte_offset >> 2;
-  // Byte offs
-  uint64_t byte_index = word_offset >> 3;
-  int bit_index = word_offset & 0b111;
-
-  bits[byte_index] |= (mask << bit_index);
-}
-
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   // The profiling is done on a word boundary, so word or smaller is marked by
   // a single bit, double words by 2 bits.
@@ -57,29 +45,41 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+  // Unaligned accesses may use one word more.
+  uint64_t first = address & ~static_cast<uint64_t>(kGranularity - 1);
+  uint64_t last =
+      (address + size - 1) & ~static_cast<uint64_t>(kGranularity - 1);
+  MarkWordUsed(first);
+  for (uint64_t word = first; word != last;) {
+    word += kGranularity;
+    MarkWordUsed(word);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
-  if (it == memory_use_map_.end()) {
-    // Compute new base and top addresses.
-    uint64_t start = address & ~kBaseMask;
-    uint64_t end = start + kSegmentSize - 1;
-    auto* bits = new uint8_t[kBitsSize];
-    std::memset(bits, 0, kBitsSize);
-
-    it = memory_use_map_
-             .insert(
-                 std::make_pair(MemoryWatcher::AddressRange{start, end}, bits))
-             .first;
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  if ((last_used_ == nullptr) || (address < last_start_) ||
+      (address > last_end_)) {
+    auto it =
+        memory_use_map_.find(MemoryWatcher::AddressRange{address, address});
+    if (it == memory_use_map_.end()) {
+      // Compute new base and top addresses.
+      uint64_t start = address & ~static_cast<uint64_t>(kBaseMask);
+      uint64_t end = start + kSegmentSize - 1;
+      auto* bits = new uint8_t[kBitsSize];
+      std::memset(bits, 0, kBitsSize);
+
+      it = memory_use_map_
+               .insert(std::make_pair(MemoryWatcher::AddressRange{start, end},
+                                      bits))
+               .first;
+    }
+    last_start_ = it->first.start;
+    last_end_ = it->first.end;
+    last_used_ = it->second;
   }
-  last_start_ = it->first.start;
-  last_end_ = it->first.end;
-  last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  // Each bit covers a word, each byte of bits covers 8 words.
+  uint64_t word_offset = (address - last_start_) / kGranularity;
+  last_used_[word_offset >> 3] |= 1 << (word_offset & 0b111);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..0ee6651 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Marks the word at the given (word aligned) address.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From 8ee04a8da326ddcabd52676f8436fdaffdd6e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 064/130] fix: WriteUseProfile ends ranges at the end of the
 tracked memory

A range that extended to the end of the last segment was not written, and
ranges of segments that are not adjacent were merged.
---
 mpact/sim/util/memory/memory_use_profiler.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index ff447e8..9bddd63 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -88,8 +88,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   uint64_t range_start = 0;
   uint64_t range_end = 0;
   bool range_started = false;
+  uint64_t segment_end = 0;
+  // Writes a range that extends to the end of the previous segment.
+  auto write_to_segment_end = [&]() {
+    range_end = segment_end - (kGranularity - 1);
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
+                          range_end - range_start + 4);
+    range_started = false;
+  };
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range only continues into this segment if it is adjacent.
+    if (range_started && (segment_end + 1 != base)) write_to_segment_end();
+    segment_end = range.end;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -128,6 +139,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  if (range_started) write_to_segment_end();
 }
 
 }  // namespace internal
-- 
2.43.0


From 8ab0bc5922a7bef86d3ca6b4677891d88a9b1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 065/130] fix: memory use profilers profile every element of
 unit stride vector accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 45 ++++++++------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 9bddd63..a3314c2 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -144,6 +144,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
 
 }  // namespace internal
 
+// Mark the elements of a vector access that are enabled in the mask. If there
+// is only one address, it's that of the first of consecutive elements.
+static void MarkVectorUsed(DataBuffer* address_db, DataBuffer* mask_db,
+                           int el_size, internal::MemoryUseTracker& tracker) {
+  bool gather = address_db->size<uint64_t>() > 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (!mask_db->Get<uint8_t>(i)) continue;
+    uint64_t address = gather ? address_db->Get<uint64_t>(i)
+                              : address_db->Get<uint64_t>(0) + i * el_size;
+    tracker.MarkUsed(address, el_size);
+  }
+}
+
 MemoryUseProfiler::MemoryUseProfiler() : MemoryUseProfiler(nullptr) {}
 
 MemoryUseProfiler::MemoryUseProfiler(MemoryInterface* memory)
@@ -158,13 +171,7 @@ void MemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) MarkVectorUsed(address_db, mask_db, el_size, tracker_);
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
 
@@ -175,13 +182,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) MarkVectorUsed(address_db, mask_db, el_size, tracker_);
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
 
@@ -201,13 +202,7 @@ void TaggedMemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) MarkVectorUsed(address_db, mask_db, el_size, tracker_);
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -227,13 +222,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) MarkVectorUsed(address_db, mask_db, el_size, tracker_);
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
 
-- 
2.43.0


From 24e995017d96ae18f4ea64a0bf0540102a30985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:39 +0000
Subject: [PATCH 066/130] fix: InstructionProfiler has a counter for every
 instruction of a range

The counter arrays were one or two entries short, samples just past a range
were counted, and the last instruction was left out of the profile.
---
 mpact/sim/util/other/instruction_profiler.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..391574e 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,8 +75,8 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
-    for (auto i = 0; i < size; ++i) {
+    uint64_t size = range.end - range.start + 1;
+    for (uint64_t i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
                             counters[i]);
@@ -114,17 +114,17 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
+    size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
+    uint64_t size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-- 
2.43.0


From c4b78fe0e95b6df511035e9797ddeda8a5a28f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 067/130] fix: InstructionProfiler ranges keep their own size,
 and no sample hits an unset range

---
 mpact/sim/util/other/instruction_profiler.cc | 6 +++---
 mpact/sim/util/other/instruction_profiler.h  | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 391574e..ff6e111 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -114,9 +114,9 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    uint64_t range_size = end - begin;
+    uint64_t* counters = new uint64_t[range_size];
+    ::memset(counters, 0, range_size * sizeof(uint64_t));
     profile_ranges_.insert(
         std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..02dfe61 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -74,8 +74,9 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
   absl::btree_map<MemoryWatcher::AddressRange, uint64_t*,
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
+  // Initially an empty range.
   uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From bc1ad6671707f925671dfca75f90242846b60723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:44 +0000
Subject: [PATCH 068/130] fix: RenodeAgent::Step reports 64 bit counts and
 accepts a null status

The number of executed instructions was truncated to 32 bits, and stepping
zero instructions or after a semihosting halt wrote through a null status.
---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..266b1e3 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -371,7 +371,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -389,11 +391,13 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From 4ce412ba27bf7fa0089f27eb9383f265c853f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:44 +0000
Subject: [PATCH 069/130] fix: RenodeAgent::Construct names the simulator after
 its own id

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 266b1e3..9b76ce7 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From c4f3e4f5fe09910ad9f7879e909b73c4394390c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:44 +0000
Subject: [PATCH 070/130] fix: RenodeAgent::Destroy forgets the name length of
 the instance

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 9b76ce7..629e9ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From 37c5157d70b7abcede682a671781e12828d617c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:57 +0000
Subject: [PATCH 071/130] fix: SimpleUart's scratch register is initialized

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From 9b24aa55059e94b98e83f7849f6470a1942eaeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:45 +0000
Subject: [PATCH 072/130] fix: ElfProgramLoader forgets the previous program
 when it loads another

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..35c9c9b 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -68,6 +68,17 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     return absl::NotFoundError(
         absl::StrCat("Unable to open elf file: '", file_name, "'"));
   }
+  // Forget any program loaded previously, its sections are released by the elf
+  // reader when it loads the new file.
+  loaded_ = false;
+  for (auto* symtab : symbol_accessors_) {
+    delete symtab;
+  }
+  symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
+  has_stack_size_ = false;
+  stack_size_ = 0;
   if (!elf_reader_.load(file_name)) {
     return absl::InternalError(
         absl::StrCat("Elf loading error for '", file_name, "'"));
-- 
2.43.0


From bd04de01df0244982c206143397df6374d2f43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:27 +0000
Subject: [PATCH 073/130] fix: ElfProgramLoader finds functions whose ranges
 overlap others

---
 .../util/program_loader/elf_program_loader.cc  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 35c9c9b..ceaec69 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -16,6 +16,7 @@
 
 #include <sys/stat.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <string>
@@ -110,8 +111,21 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
-        function_range_map_.insert(
-            std::make_pair(AddressRange(value, size / text_size_scale_), name));
+        // Add the parts of the range that are not covered by the functions
+        // added previously.
+        uint64_t start = value;
+        uint64_t end = value + size / text_size_scale_;
+        while (start < end) {
+          auto iter = function_range_map_.lower_bound(AddressRange(start));
+          bool last = iter == function_range_map_.end();
+          uint64_t stop = last ? end : std::min(end, iter->first.start);
+          if (start < stop) {
+            function_range_map_.emplace_hint(
+                iter, AddressRange(start, stop - start), name);
+          }
+          if (last) break;
+          start = iter->first.end;
+        }
       }
     }
   }
-- 
2.43.0


From 5bd720728ec6668cc40d0f1a8f075171ee951e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 074/130] fix: SimpleAssembler emits the bytes .align and
 .space reserve in text and data

---
 mpact/sim/util/asm/simple_assembler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9419fc4..908da8b 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
+    // Pad the section contents, bss doesn't have any.
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "bss") {
     // .bss
     SetBssSection(".bss");
@@ -873,6 +875,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     size = res.value();
+    // Fill the section contents, bss doesn't have any.
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "string") {
     // .string
     auto res = GetValues<std::string>(remainder);
-- 
2.43.0


From e5e2b49b228ebedbdf4ecd9ee49f8b979f98d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 075/130] fix: SimpleAssembler rejects .align 0

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 908da8b..9ac8359 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -805,7 +805,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     if (!res.ok()) return res.status();
     uint64_t align = res.value();
     // Verify that the alignment is a power of two.
-    if ((align & (align - 1)) != 0) {
+    if ((align == 0) || ((align & (align - 1)) != 0)) {
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
-- 
2.43.0


From e6e836f45fff006acb2b46870f62fb04ee4283d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 076/130] fix: SimpleAssembler .align pads the same in both
 passes and aligns the section

---
 mpact/sim/util/asm/simple_assembler.cc | 10 ++++++++--
 mpact/sim/util/asm/simple_assembler.h  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9ac8359..36d262c 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -541,6 +541,7 @@ absl::Status SimpleAssembler::CreateExecutable(
   section_address_map_[text_section_] = text_segment_start;
   section_address_map_[data_section_] = data_segment_start;
   section_address_map_[bss_section_] = bss_segment_start;
+  section_start_map_ = section_address_map_;
 
   std::function<void()> cleanup = []() {};
   if (symbol_resolver == nullptr) {
@@ -809,8 +810,13 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
-    uint64_t address = section_address_map_[section];
-    size = ((address + align - 1) & ~(align - 1)) - address;
+    // The section has to be aligned accordingly for the alignment to hold once
+    // it is placed. The padding depends on the offset in the section, so that
+    // it is the same in both passes.
+    if (section->get_addr_align() < align) section->set_addr_align(align);
+    uint64_t offset =
+        section_address_map_[section] - section_start_map_[section];
+    size = ((offset + align - 1) & ~(align - 1)) - offset;
     // Pad the section contents, bss doesn't have any.
     if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "bss") {
diff --git a/mpact/sim/util/asm/simple_assembler.h b/mpact/sim/util/asm/simple_assembler.h
index e2ed324..a0aa3b9 100644
--- a/mpact/sim/util/asm/simple_assembler.h
+++ b/mpact/sim/util/asm/simple_assembler.h
@@ -174,6 +174,8 @@ class SimpleAssembler {
   ELFIO::section* strtab_ = nullptr;
   // Map that tracks the current address of each section.
   absl::flat_hash_map<ELFIO::section*, uint64_t> section_address_map_;
+  // Map that has the start address of each section (zero until it is placed).
+  absl::flat_hash_map<ELFIO::section*, uint64_t> section_start_map_;
 
   std::vector<std::string> lines_;
   // Section pointers.
-- 
2.43.0


From da479a9e7d1a7543a722f0aea6baca2ccac0c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 077/130] fix: SimpleAssembler's second pass starts outside of
 any section

---
 mpact/sim/util/asm/simple_assembler.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 36d262c..fb9d442 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -733,7 +733,8 @@ absl::Status SimpleAssembler::ParsePassTwo(
     std::vector<RelocationInfo>& relo_vector,
     ResolverInterface* symbol_resolver) {
   // Now fill in the sections. Parse each of the lines saved in the first
-  // pass.
+  // pass, starting outside of any section, as the first pass did.
+  current_section_ = nullptr;
   for (auto const& line : lines_) {
     std::vector<uint8_t> byte_vector;
     absl::Status status;
@@ -748,6 +749,10 @@ absl::Status SimpleAssembler::ParsePassTwo(
                                       byte_vector, relo_vector);
     }
     if (!status.ok()) return status;
+    if ((section == nullptr) &&
+        (!byte_vector.empty() || (relo_vector.size() > relo_size))) {
+      return absl::InternalError("Data is added to a null section");
+    }
     // Update section information in the relocation vector.
     for (int i = relo_size; i < relo_vector.size(); ++i) {
       relo_vector[i].section_index = section->get_index();
@@ -757,9 +762,6 @@ absl::Status SimpleAssembler::ParsePassTwo(
     if (byte_vector.empty()) continue;
     // Add data to the section, but first make sure it's not bss.
     if (section != bss_section_) {
-      if (section == nullptr) {
-        return absl::InternalError("Data is added to a null section");
-      }
       section->append_data(reinterpret_cast<const char*>(byte_vector.data()),
                            byte_vector.size());
     }
-- 
2.43.0


From 94eccf8bf9ccc054fdab731da8473db35be51537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 078/130] fix: SimpleAssembler reports errors found in the
 second pass

---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index fb9d442..12f7643 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -742,11 +742,11 @@ absl::Status SimpleAssembler::ParsePassTwo(
     auto relo_size = relo_vector.size();
     auto address = section_address_map_[section];
     if (line[0] == '.') {
-      auto status = ParseAsmDirective(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmDirective(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     } else {
-      auto status = ParseAsmStatement(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmStatement(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     }
     if (!status.ok()) return status;
     if ((section == nullptr) &&
-- 
2.43.0


From e2433032bdada82aeb3f4df575859bd74dac1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 079/130] fix: SimpleAssembler rejects duplicate labels on
 directives

---
 mpact/sim/util/asm/simple_assembler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 12f7643..9fef396 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -954,6 +954,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
+    if (!status.ok()) return status;
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 9c12686644f96ea2556917d40b30cf42617cc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 080/130] fix: SimpleAssembler rejects labels outside of a
 section

---
 mpact/sim/util/asm/simple_assembler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9fef396..b59b96a 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -365,6 +365,11 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         lines_.push_back(statement);
       } else if (!label.empty()) {
         // This is just a single label definition. Add it to the symbol table.
+        if (section == nullptr) {
+          cleanup();
+          return absl::InvalidArgumentError(
+              absl::StrCat("Label: '", label, "' defined outside of a section"));
+        }
         uint64_t symbol_address = address;
         if ((current_section_ == data_section_) ||
             (current_section_ == bss_section_)) {
-- 
2.43.0


From 298f8b2fc942b5f7f8e82bf054e55e1be6bec91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 081/130] fix: SimpleAssembler rejects malformed items in lists
 of values

---
 mpact/sim/util/asm/simple_assembler.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index b59b96a..dbb20ab 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -168,6 +168,16 @@ std::string ExpandEscapes(absl::string_view text) {
   return result;
 }
 
+// Returns an error if there is anything left of a list of values, i.e., if there
+// is an item that isn't valid.
+absl::Status CheckEndOfList(absl::string_view remainder) {
+  if (remainder.find_first_not_of(" \t") == absl::string_view::npos) {
+    return absl::OkStatus();
+  }
+  return absl::InvalidArgumentError(
+      absl::StrCat("Invalid value: '", remainder, "'"));
+}
+
 // This function is used to parse a list of values from the remainder of an
 // assembly directive. The values are separated by commas. The type T is the
 // type of the values, and must be an integer type or char. The resolver
@@ -184,6 +194,8 @@ absl::StatusOr<std::vector<T>> GetValues(
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
+  auto status = CheckEndOfList(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -201,6 +213,8 @@ absl::StatusOr<std::vector<char>> GetValues<char>(absl::string_view remainder,
           absl::StrCat("Invalid character: '", match, "'"));
     values.push_back(expanded[0]);
   }
+  auto status = CheckEndOfList(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -214,6 +228,8 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
+  auto status = CheckEndOfList(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -227,6 +243,8 @@ absl::StatusOr<std::vector<std::string>> GetLabels(
   while (RE2::Consume(&remainder, label_re, &match)) {
     values.push_back(match);
   }
+  auto status = CheckEndOfList(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
-- 
2.43.0


From 4ffb4cd6733f42298a26e5a52a02df0967a1cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 082/130] fix: SimpleAssembler strings may contain escaped
 quotes

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index dbb20ab..6a45a31 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -224,7 +224,7 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
     absl::string_view remainder, ResolverInterface* resolver) {
   std::vector<std::string> values;
   std::string match;
-  static RE2 value_re("\\s*\"([^\"]*)\"\\s*(?:,|$)");
+  static RE2 value_re("\\s*\"((?:[^\"\\\\]|\\\\.)*)\"\\s*(?:,|$)");
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
-- 
2.43.0


From ee7edd19540a21df9fac3930545e3f93c52003f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 083/130] fix: SimpleAssembler joins lines that end with an
 escaped newline

---
 mpact/sim/util/asm/simple_assembler.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 6a45a31..01dfd08 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -349,8 +349,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       // If there is an escaped newline then append the line, up to the  '\',
       // and continue.
       if ((len >= 1) && (tmp[len - 1] == '\\')) {
-        // Insert the escaped newline that getline removed.
-        absl::StrAppend(&line, tmp, "\n");
+        absl::StrAppend(&line, tmp.substr(0, len - 1));
         continue;
       }
       absl::StrAppend(&line, tmp);
-- 
2.43.0


From d89f8c0dd1b18fc3b900c2906db1d3f20949f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 084/130] fix: SimpleAssembler doesn't create executables with
 undefined symbols

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 01dfd08..4ec0f79 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -410,6 +410,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
+    if (symbol_indices_.contains(symbol)) continue;
     auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
     if (!status.ok()) {
       cleanup();
@@ -417,7 +418,6 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           "Failed to add undefined symbol '", symbol, "': ", status.message()));
     }
   }
-  undefined_symbols_.clear();
 
   if (bss_section_ != nullptr) {
     bss_section_->set_size(section_address_map_[bss_section_]);
-- 
2.43.0


From 7df4f43a4326540e7c4fcb8d4b7d77387e5bde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 085/130] fix: SimpleAssembler relocation sections refer to the
 section they apply to

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 4ec0f79..7821a6f 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -726,7 +726,7 @@ absl::Status SimpleAssembler::CreateRelocatable(
                                        ? sizeof(ELFIO::Elf64_Rela)
                                        : sizeof(ELFIO::Elf32_Rela));
       rela_section->set_link(symtab_->get_index());
-      rela_section->set_info(text_section_->get_index());
+      rela_section->set_info(section_index);
       rela_section->set_addr_align(8);
       // Process the relocation vector entries.
       absl::Status status;
-- 
2.43.0


From a8bdcff40c8831bdb3f3f2004bdac357f26bf4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 086/130] fix: SimpleAssembler's symbol indices are those of
 the executable's symbol table

---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 7821a6f..97b4037 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -601,7 +601,15 @@ absl::Status SimpleAssembler::CreateExecutable(
   }
   uint64_t entry_point_value = res.value();
 
+  // Rearrange local symbols in the symbol table so that they are at the
+  // beginning (ELF requirement), and update the symbol_indices_ map.
   symbol_accessor_->arrange_local_symbols();
+  symbol_indices_.clear();
+  if (elf_file_class_ == ELFIO::ELFCLASS64) {
+    UpdateSymtabHeaderInfo<ELFIO::Elf64_Sym>();
+  } else {
+    UpdateSymtabHeaderInfo<ELFIO::Elf32_Sym>();
+  }
   writer_.set_entry(entry_point_value);
   cleanup();
   return absl::OkStatus();
-- 
2.43.0


From 6c02c38a2317655502771b7e8fa1e096ad97ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:19 +0000
Subject: [PATCH 087/130] fix: SimpleAssembler makes undefined symbols global,
 so that they can be linked

---
 mpact/sim/util/asm/simple_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 97b4037..3cc73f7 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -411,7 +411,8 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
     if (symbol_indices_.contains(symbol)) continue;
-    auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
+    auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, ELFIO::STB_GLOBAL,
+                            0, nullptr);
     if (!status.ok()) {
       cleanup();
       return absl::InternalError(absl::StrCat(
-- 
2.43.0


From 807dadf9cbd78817bb85aaf5a9ca4d1c4d3b1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 088/130] fix: generated code for slot instances compiles

---
 mpact/sim/decoder/instruction_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 796cc74..87b58ec 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -426,7 +426,7 @@ std::string InstructionSet::GenerateClassDefinitions(
     } else {
       for (auto const index : instance_vec) {
         absl::StrAppend(&output, "  tmp_inst = ", slot_name,
-                        "_decoder_->Decode(address, encoding, , ", enum_name,
+                        "_decoder_->Decode(address, encoding, ", enum_name,
                         ", ", index,
                         ");\n"
                         "  if (tmp_inst != nullptr) size += tmp_inst->size();\n"
-- 
2.43.0


From 984d7e7d23cd79a1610862b4197a25f453023287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 089/130] fix: generated code for arrays of complex resources
 compiles

---
 mpact/sim/decoder/instruction_set_visitor.cc |  2 +-
 mpact/sim/decoder/slot.cc                    | 16 +++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d6a0b21..1631e0f 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2363,7 +2363,7 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       "  virtual std::vector<ResourceOperandInterface *> "
       "GetComplexResourceOperands",
       "(", optional_instruction,
-      "SlotEnum slot, int entry, OpcodeEnum opcode, ComplexResourceEnum "
+      "SlotEnum slot, int entry, OpcodeEnum opcode, ListComplexResourceEnum "
       "resource_op, int begin, int end) { return {}; }\n");
   // For each operand type, declare the pure virtual method that returns the
   // given operand.
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 85756e4..eef6be8 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -972,13 +972,12 @@ std::string Slot::GenerateResourceSetterFcn(
     }
     if (complex->is_array) {
       absl::StrAppend(
-          &output, "  auto res_op_vec = enc->GetComplexResourceOperands(",
+          &output, "  for (auto *op : enc->GetComplexResourceOperands(",
           optional_inst, "slot, entry, ", opcode_enum,
           ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
-          *begin, ", ", *end, ");\n");
+          ", ", *begin, ", ", *end, ")) {\n");
       absl::StrAppend(&output,
-                      "  for (auto res_op : res_op_vec) {\n"
-                      "    inst->AppendResourceHold(res_op);\n"
+                      "    inst->AppendResourceHold(op);\n"
                       "  }\n");
     } else {
       absl::StrAppend(&output, "  res_op = enc->GetComplexResourceOperand(",
@@ -1078,15 +1077,14 @@ std::string Slot::GenerateResourceSetterFcn(
       int* end = std::get_if<int>(&end_value.value());
       if (complex->is_array) {
         absl::StrAppend(&output,
-                        "  auto res_op_vec = "
+                        "  for (auto *op : "
                         "enc->GetComplexResourceOperands(",
                         optional_inst, "slot, entry, ", opcode_enum,
                         ", ListComplexResourceEnum::k",
-                        complex->resource->pascal_name(), *begin, ", ", *end,
-                        ");\n");
+                        complex->resource->pascal_name(), ", ", *begin, ", ",
+                        *end, ")) {\n");
         absl::StrAppend(&output,
-                        "  for (auto res_op : res_op_vec) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceHold(op);\n"
                         "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
-- 
2.43.0


From ec6dd21f32b74d37ff1f29b16b68180d35d5cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 090/130] fix: generated decoders acquire complex resources

---
 mpact/sim/decoder/slot.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index eef6be8..96e37bd 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1084,7 +1084,7 @@ std::string Slot::GenerateResourceSetterFcn(
                         complex->resource->pascal_name(), ", ", *begin, ", ",
                         *end, ")) {\n");
         absl::StrAppend(&output,
-                        "    inst->AppendResourceHold(op);\n"
+                        "    inst->AppendResourceAcquire(op);\n"
                         "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
@@ -1094,7 +1094,7 @@ std::string Slot::GenerateResourceSetterFcn(
         absl::StrAppend(&output, *begin, ", ", *end, ");\n");
         absl::StrAppend(&output,
                         "  if (res_op != nullptr) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(res_op);\n"
                         "  }\n");
       }
     }
-- 
2.43.0


From 99c1c36c35846cc61e1caf7ea6a913ff30ae150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 091/130] fix: generated decoders number operands by their
 position

---
 mpact/sim/decoder/slot.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 96e37bd..73426a2 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1195,7 +1195,7 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
                       "  {\n"
                       "    auto vec = enc->GetSources",
                       "(", optional_inst, "slot, entry, opcode, ", src_op_enum,
-                      ", ", source_no,
+                      ", ", source_no++,
                       ");\n"
                       "    for (auto *op : vec) inst->AppendSource(op);\n"
                       "  }\n");
@@ -1249,7 +1249,6 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
       absl::StrAppend(&output, "  inst->AppendDestination(enc->GetDestination(",
                       optional_inst, "slot, entry, opcode, ", dest_op_enum,
                       ", ", dest_no, ", ", latency, "));\n");
-      dest_no++;
     }
     dest_no++;
   }
-- 
2.43.0


From 3bceaf9ac2d15209a3bbf6a245ae51cf635a72f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 092/130] fix: disassembly of operands of the second child
 instruction

---
 mpact/sim/decoder/slot.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 73426a2..50b32dc 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -64,12 +64,9 @@ static absl::StatusOr<std::string> TranslateLocator(
     const OperandLocator& locator) {
   std::string code;
   absl::StrAppend(&code, "inst->");
-  if (locator.op_spec_number > 0) {
+  for (int i = 0; i < locator.op_spec_number; i++) {
     absl::StrAppend(&code, "child()->");
   }
-  for (int i = 1; i < locator.op_spec_number; i++) {
-    absl::StrAppend(&code, "next()->");
-  }
   if (locator.type == 'p') {
     absl::StrAppend(&code, "Predicate()");
   } else if (locator.type == 's' || locator.type == 't') {
-- 
2.43.0


From e3d69ea55ff3509bfee4cea7f9e93b2e55b07ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 093/130] fix: default instructions have the default size of
 their slot

---
 mpact/sim/decoder/slot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 50b32dc..994b378 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1276,7 +1276,7 @@ std::string Slot::CreateFuncGetterGlobalArray(absl::string_view encoding_type) {
       GenerateResourceSetter(default_instruction_, encoding_type), ",\n",
       "    ", GenerateAttributeSetter(default_instruction_), ",\n",
       "    SemFuncSetter{", default_instruction_->semfunc_code_string(), "}, ",
-      default_instruction_->opcode()->instruction_size(), "}),\n");
+      default_instruction_size_, "}),\n");
   for (auto const& [unused, inst_ptr] : instruction_map_) {
     auto* instruction = inst_ptr;
     std::string opcode_name = instruction->opcode()->pascal_name();
-- 
2.43.0


From 6da379159323d89f9acf969d6e112a15291f29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 094/130] fix: generated setter functions are shared only if
 their bodies are the same

---
 mpact/sim/decoder/slot.cc | 116 +++-----------------------------------
 mpact/sim/decoder/slot.h  |   3 -
 2 files changed, 9 insertions(+), 110 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 994b378..012d80e 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -27,7 +27,6 @@
 #include <vector>
 
 #include "absl/base/no_destructor.h"
-#include "absl/container/btree_set.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
@@ -223,34 +222,7 @@ bool Slot::HasInstruction(const std::string& opcode_name) const {
 
 static std::string indent_string(int n) { return std::string(n, ' '); }
 
-// Generates a string that is a unique key for the attributes to determine which
-// instructions can share attribute setter functions.
-std::string Slot::CreateAttributeLookupKey(const Instruction* inst) const {
-  std::string key;
-  int count = attribute_names_.size();
-  for (auto const& [name, expr] : inst->attribute_map()) {
-    count--;
-    std::string value;
-    auto result = expr->GetValue();
-    if (!result.ok()) {
-      absl::StrAppend(&key, name, "[e1]:");
-      continue;
-    }
-    auto* value_ptr = std::get_if<int>(&result.value());
-    if (value_ptr == nullptr) {
-      absl::StrAppend(&key, name, "[e2]:");
-      continue;
-    }
-    absl::StrAppend(&key, name, "[", *value_ptr, "]:");
-  }
-  for (int i = 0; i < count; ++i) {
-    absl::StrAppend(&key, "[]:");
-  }
-  return key;
-}
-
-// Generate the attribute setter function that matches the "key" of the given
-// instruction.
+// Generate the attribute setter function for the given instruction.
 std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
                                              const Instruction* inst) const {
   std::string output;
@@ -288,7 +260,8 @@ std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
 // Return a function call string that will set the attributes for the given
 // instruction. If no such appropriate function exists, create one.
 std::string Slot::GenerateAttributeSetter(const Instruction* inst) {
-  auto key = CreateAttributeLookupKey(inst);
+  // Functions with the same body can be shared.
+  auto key = GenerateAttributeSetterFcn("", inst);
   auto iter = attribute_setter_name_map_->find(key);
   if (iter == attribute_setter_name_map_->end()) {
     auto index = attribute_setter_name_map_->size();
@@ -741,15 +714,8 @@ std::string Slot::GenerateDisasmSetterFcn(absl::string_view name,
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateDisassemblySetter(const Instruction* inst) {
-  std::string key;
-  // First combine the disassembly fragments.
-  for (auto const* format : inst->disasm_format_vec()) {
-    for (auto const& frag : format->format_fragment_vec) {
-      absl::StrAppend(&key, frag);
-    }
-  }
-  // Then add the resources.
-  absl::StrAppend(&key, ":", CreateOperandLookupKey(inst->opcode()));
+  // Functions with the same body can be shared.
+  std::string key = GenerateDisasmSetterFcn("", inst);
   std::string func_name = absl::StrCat(
       pascal_name(), "Slot", inst->opcode()->pascal_name(), "SetDisasm");
   auto iter = disasm_setter_name_map_->find(key);
@@ -811,77 +777,13 @@ std::string Slot::GenerateAssemblerFcn(const Instruction* inst,
   return output;
 }
 
-// Generate a string that is a unique identifier from the resources to
-// determine which instructions can share resource setter functions.
-std::string Slot::CreateResourceKey(
-    const std::vector<const ResourceReference*>& refs) const {
-  std::string key;
-  std::vector<const ResourceReference*> complex_refs;
-  std::vector<const ResourceReference*> simple_refs;
-  absl::btree_set<std::string> names;
-  // Iterate over use resources.
-  for (auto const* ref : refs) {
-    if (!ref->resource->is_simple()) {
-      complex_refs.push_back(ref);
-    } else {
-      simple_refs.push_back(ref);
-    }
-  }
-  // Simple use resources.
-  for (auto const* ref : simple_refs) {
-    std::string name = "S$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    names.insert(name);
-  }
-  std::string sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  names.clear();
-  absl::StrAppend(&key, ":");
-
-  // Complex use resources.
-  for (auto const* ref : complex_refs) {
-    std::string name = "C$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    auto begin_value = ref->begin_expression->GetValue();
-    if (!begin_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&begin_value.value()));
-    }
-    auto end_value = ref->end_expression->GetValue();
-    if (!end_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&end_value.value()));
-    }
-    names.insert(name);
-  }
-  sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  return key;
-}
-
 // Generate a resource setter function call for the resource "key" of the
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateResourceSetter(const Instruction* inst,
                                          absl::string_view encoding_type) {
-  std::string key = CreateResourceKey(inst->resource_use_vec());
-  absl::StrAppend(&key, ":", CreateResourceKey(inst->resource_acquire_vec()));
+  // Functions with the same body can be shared.
+  std::string key = GenerateResourceSetterFcn("", inst, encoding_type);
   auto iter = resource_setter_name_map_->find(key);
   if (iter == resource_setter_name_map_->end()) {
     auto index = resource_setter_name_map_->size();
@@ -902,8 +804,8 @@ std::string Slot::GenerateResourceSetterFcn(
   std::string output;
   absl::StrAppend(&output, "void ", name, "(Instruction *inst, ", encoding_type,
                   " *enc, SlotEnum slot, int entry) {\n");
-  std::string opcode_name = inst->opcode()->pascal_name();
-  std::string opcode_enum = absl::StrCat("OpcodeEnum::k", opcode_name);
+  // The function may be shared by several opcodes.
+  std::string opcode_enum = "static_cast<OpcodeEnum>(inst->opcode())";
   if (!inst->resource_use_vec().empty() ||
       !inst->resource_acquire_vec().empty()) {
     absl::StrAppend(&output, "  ResourceOperandInterface *res_op;\n");
diff --git a/mpact/sim/decoder/slot.h b/mpact/sim/decoder/slot.h
index 640ff0c..1c071fe 100644
--- a/mpact/sim/decoder/slot.h
+++ b/mpact/sim/decoder/slot.h
@@ -181,8 +181,6 @@ class Slot {
                                        const Opcode* opcode) const;
   // These functions generate the functions that are called by the decoder to
   // set the instruction resources.
-  std::string CreateResourceKey(
-      const std::vector<const ResourceReference*>& refs) const;
   std::string GenerateResourceSetter(const Instruction* inst,
                                      absl::string_view encoding_type);
   std::string GenerateResourceSetterFcn(absl::string_view name,
@@ -198,7 +196,6 @@ class Slot {
   std::string GenerateAttributeSetter(const Instruction* inst);
   std::string GenerateAttributeSetterFcn(absl::string_view name,
                                          const Instruction* inst) const;
-  std::string CreateAttributeLookupKey(const Instruction* inst) const;
   // Generates a string that defines a global constexpr array of instruction
   // opcodes and instruction info structs. Also populates the setter function
   // string 'setter_functions_' with the setters.
-- 
2.43.0


From e4c1d16bc570ab83779c7f10bab41eff2b50033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 095/130] fix: instruction attributes without a value are 1

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 1631e0f..fc8c0a4 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1322,7 +1322,7 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       attributes.emplace(name, expr);
       continue;
     }
-    attributes.emplace(name, new TemplateConstant(0));
+    attributes.emplace(name, new TemplateConstant(1));
   }
   // Are we parsing attributes for an instruction?
   if (inst != nullptr) {
-- 
2.43.0


From abd7855a18bef2e80cabc59e9c0dbe1643f1462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 096/130] fix: the .isa generator doesn't crash on invalid
 attribute expressions

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index fc8c0a4..54fb782 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1319,6 +1319,8 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       context_file_map_.insert(
           {attribute->expression(), context_file_map_.at(slot->ctx())});
       auto* expr = VisitExpression(attribute->expression(), slot, inst);
+      // The error has been reported.
+      if (expr == nullptr) continue;
       attributes.emplace(name, expr);
       continue;
     }
-- 
2.43.0


From cf6e021349540b3ae26189582a87b059b3c9b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 097/130] fix: global constants can be used in opcode
 specifications

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 54fb782..daaae50 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1060,6 +1060,8 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
     if (inst != nullptr) {
       auto* op = inst->GetDestOp(ident);
       if (op == nullptr) {
+        auto* expr = GetConstExpression(ident);
+        if (expr != nullptr) return expr->DeepCopy();
         error_listener()->semanticError(
             file_names_[context_file_map_.at(ctx)], ctx->start,
             absl::StrCat("'", ident,
-- 
2.43.0


From 2823b7f0d5676e37d02c33c45a725409e5b74a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 098/130] fix: opcodes of any of the base slots can be
 overridden

---
 mpact/sim/decoder/instruction_set_visitor.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index daaae50..d1eeb50 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1185,9 +1185,9 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
         }
       }
     }
-    // Perform the overrides.
-    PerformOpcodeOverrides(overridden_ops_set, slot);
   }
+  // Perform the overrides.
+  PerformOpcodeOverrides(overridden_ops_set, slot);
   // Add the declared opcodes.
   for (auto* inst : instruction_vec) {
     absl::Status status = slot->AppendInstruction(inst);
@@ -1202,7 +1202,10 @@ void InstructionSetVisitor::PerformOpcodeOverrides(
     absl::flat_hash_set<OpcodeSpecCtx*> overridden_ops_set, Slot* slot) {
   for (auto* override_ctx : overridden_ops_set) {
     std::string name = override_ctx->name->getText();
-    auto* inst = slot->instruction_map().at(name);
+    auto iter = slot->instruction_map().find(name);
+    // The instruction wasn't inherited due to an error.
+    if (iter == slot->instruction_map().end()) continue;
+    auto* inst = iter->second;
     VisitOpcodeAttributes(override_ctx->opcode_attribute_list(), inst, slot);
   }
 }
-- 
2.43.0


From 37a90f2958ab8a56e9ad920cd4888fa5021cd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 099/130] fix: the .isa generator doesn't crash on inheritance
 errors of slots without opcodes

---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d1eeb50..6ab7a6d 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1180,8 +1180,8 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
             slot->AppendInheritedInstruction(inst_ptr, base_slot.arguments);
         if (!status.ok()) {
           error_listener()->semanticError(
-              file_names_[context_file_map_.at(ctx)], ctx->start,
-              status.message());
+              file_names_[context_file_map_.at(slot->ctx())],
+              slot->ctx()->start, status.message());
         }
       }
     }
-- 
2.43.0


From 18e86144bd59899aecbad4d31e14db04426dcbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 100/130] fix: unknown operands in shift expressions of
 disassembly formats are errors

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 6ab7a6d..16f45d7 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2205,6 +2205,12 @@ absl::StatusOr<FormatInfo*> InstructionSetVisitor::ParseFormatExpression(
       return res.status();
     }
     auto [ident, new_pos] = res.value();
+    if (!op->op_locator_map().contains(ident)) {
+      delete format_info;
+      return absl::InternalError(absl::StrCat("Invalid operand '", ident,
+                                              "' used in format for opcode'",
+                                              op->name(), "'"));
+    }
     format_info->op_name = ident;
 
     pos = skip_space(expr, new_pos);
-- 
2.43.0


From 5daacedec29173a06ea48525d34a5468879e61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 101/130] fix: resource cycles of templated slots can depend on
 their parameters

---
 mpact/sim/decoder/instruction_set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 87b58ec..2b63295 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -105,6 +105,9 @@ Slot* InstructionSet::GetSlot(absl::string_view slot_name) const {
 
 absl::Status InstructionSet::AnalyzeResourceUse() {
   for (auto const* slot : slot_order_) {
+    // The expressions of templated slots depend on the template arguments. They
+    // are evaluated in the slots that inherit from them.
+    if (slot->is_templated()) continue;
     for (auto& [unused, inst_ptr] : slot->instruction_map()) {
       for (auto const* def : inst_ptr->resource_acquire_vec()) {
         if (def->begin_expression != nullptr) {
-- 
2.43.0


From 2b1427faecdcbda083db11a818821c29dffdb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 102/130] fix: latencies of child instructions are validated

---
 mpact/sim/decoder/slot.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 012d80e..f87809d 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -174,11 +174,20 @@ Slot::~Slot() {
   attribute_map_.clear();
 }
 
+// Checks the latencies of the instruction and of its child instructions.
+static bool HasValidLatencies(const Instruction* inst) {
+  for (; inst != nullptr; inst = inst->child()) {
+    if (!inst->opcode()->ValidateDestLatencies(
+            [](int l) -> bool { return l >= 0; })) {
+      return false;
+    }
+  }
+  return true;
+}
+
 absl::Status Slot::AppendInstruction(Instruction* inst) {
   if (!is_templated()) {
-    bool valid = inst->opcode()->ValidateDestLatencies(
-        [](int l) -> bool { return l >= 0; });
-    if (!valid) {
+    if (!HasValidLatencies(inst)) {
       return absl::InternalError(absl::StrCat("Invalid latency for opcode '",
                                               inst->opcode()->name(), "'"));
     }
@@ -200,9 +209,7 @@ absl::Status Slot::AppendInheritedInstruction(Instruction* inst,
 
     if (derived.ok()) {
       if (!is_templated()) {
-        bool valid = derived.value()->opcode()->ValidateDestLatencies(
-            [](int l) -> bool { return l >= 0; });
-        if (!valid) {
+        if (!HasValidLatencies(derived.value())) {
           return absl::InternalError(absl::StrCat(
               "Invalid latency for opcode '", inst->opcode()->name(), "'"));
         }
-- 
2.43.0


From 5e1e834001004c678ba72057edcf78028fbf58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 103/130] fix: slots that inherit from themselves are errors

---
 mpact/sim/decoder/instruction_set_visitor.cc | 8 ++++++++
 mpact/sim/decoder/instruction_set_visitor.h  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 16f45d7..e33d9fb 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -690,6 +690,7 @@ void InstructionSetVisitor::VisitSlotDeclaration(
       }
     }
   }
+  open_slots_.insert(ctx);
   // Set the base slot if it inherits.
   if (ctx->base_item_list() != nullptr) {
     // For each entry in the list of slots to derive from.
@@ -706,6 +707,12 @@ void InstructionSetVisitor::VisitSlotDeclaration(
       // If the slot hasn't been visited, visit it.
       auto* base = instruction_set->GetSlot(base_name);
       if (base == nullptr) {
+        if (open_slots_.contains(slot_iter->second)) {
+          error_listener()->semanticError(
+              file_names_[context_file_map_.at(ctx)], base_item->start,
+              absl::StrCat("Slot '", base_name, "' inherits from itself"));
+          continue;
+        }
         VisitSlotDeclaration(slot_iter->second, instruction_set);
         base = instruction_set->GetSlot(base_name);
       }
@@ -782,6 +789,7 @@ void InstructionSetVisitor::VisitSlotDeclaration(
     int size = std::stoi(ctx->size_spec()->NUMBER()->getText(), nullptr, 0);
     slot->set_size(size);
   }
+  open_slots_.erase(ctx);
   // Add the slot to the ISA.
   instruction_set->AddSlot(slot);
   for (auto* decl_ctx : ctx->const_and_default_decl()) {
diff --git a/mpact/sim/decoder/instruction_set_visitor.h b/mpact/sim/decoder/instruction_set_visitor.h
index 83fa3ba..a35ba7b 100644
--- a/mpact/sim/decoder/instruction_set_visitor.h
+++ b/mpact/sim/decoder/instruction_set_visitor.h
@@ -208,6 +208,8 @@ class InstructionSetVisitor {
   // Slot and bundle maps - these point to the contexts for every slot and
   // bundle that have been declared.
   absl::flat_hash_map<std::string, SlotDeclCtx*> slot_decl_map_;
+  // Slots whose declarations are being visited.
+  absl::flat_hash_set<SlotDeclCtx*> open_slots_;
   absl::flat_hash_map<std::string, BundleDeclCtx*> bundle_decl_map_;
   absl::flat_hash_map<std::string, IsaDeclCtx*> isa_decl_map_;
 
-- 
2.43.0


From 4a67968d32acb9390c6fabb593b661a1996b5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 104/130] fix: the .isa generator accepts formats of the
 instruction address alone

---
 mpact/sim/decoder/slot.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index f87809d..a685598 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -413,8 +413,13 @@ std::tuple<std::string, std::vector<OperandLocator>> Slot::GenerateRegEx(
           absl::StrAppend(&output, "(?:");
         }
         std::string op_name = (*format_iter)->op_name;
-        absl::StrAppend(&output, "(\\S*?)");
-        opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        if (op_name.empty()) {
+          // The instruction address isn't an operand.
+          absl::StrAppend(&output, "\\S*?");
+        } else {
+          absl::StrAppend(&output, "(\\S*?)");
+          opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        }
         if ((fragment_iter != fragment_end) && (!(*fragment_iter).empty())) {
           char c = (*fragment_iter)[0];
           // If the next fragment is not alnum or underscore, add a space
-- 
2.43.0


From 464d5469ea71fd419142941944f96fb59609cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:42 +0000
Subject: [PATCH 105/130] fix: the .isa generator doesn't crash on invalid
 resource expressions

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index e33d9fb..3851653 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1500,6 +1500,12 @@ InstructionSetVisitor::ProcessResourceReference(
         {resource_item->end_cycle, context_file_map_.at(slot->ctx())});
     end_expr = VisitExpression(resource_item->end_cycle, slot, inst);
   }
+  // Any error has been reported.
+  if ((begin_expr == nullptr) || (end_expr == nullptr)) {
+    delete begin_expr;
+    delete end_expr;
+    return return_value;
+  }
   auto* ref =
       new ResourceReference(resource, is_array, dest_op, begin_expr, end_expr);
   return std::optional<ResourceReference*>(ref);
-- 
2.43.0


From fa4f73d3615df5e765512fa1746f5a4e34b85117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:30 +0000
Subject: [PATCH 106/130] fix: generated opcodes keep the tokens of the
 GENERATE specification

---
 mpact/sim/decoder/instruction_set_visitor.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 3851653..421ef8d 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -74,6 +74,17 @@ static absl::StatusOr<TemplateValue> AbsoluteValueTemplateFunc(
   return TemplateValue(return_value);
 }
 
+// Returns the text of the parse tree with its tokens separated by spaces, so
+// that it is parsed as the same sequence of tokens.
+static std::string GetTokenText(antlr4::tree::ParseTree* tree) {
+  if (tree->children.empty()) return tree->getText();
+  std::string text;
+  for (auto* child : tree->children) {
+    absl::StrAppend(&text, GetTokenText(child), " ");
+  }
+  return text;
+}
+
 InstructionSetVisitor::InstructionSetVisitor() {
   template_function_evaluators_.insert(std::make_pair(
       "abs", TemplateFunctionEvaluator(AbsoluteValueTemplateFunc, 1)));
@@ -1885,7 +1896,7 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
     }
   }
   // Check that all binding variable references are valid.
-  std::string input_text = ctx->generator_opcode_spec_list()->getText();
+  std::string input_text = GetTokenText(ctx->generator_opcode_spec_list());
   std::string::size_type start_pos = 0;
   auto pos = input_text.find_first_of('$', start_pos);
   while (pos != std::string::npos) {
-- 
2.43.0


From 99a55ac2045e1f98ddb5cc22aac8503835538038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:42 +0000
Subject: [PATCH 107/130] fix: syntax errors in opcodes generated by GENERATE
 are errors

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 421ef8d..9199fe7 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1925,6 +1925,8 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
   // Parse and process the generated text.
   auto* parser = new IsaAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto opcode_spec_vec = parser->parser()->opcode_spec_list()->opcode_spec();
   // Process the opcode spec.
-- 
2.43.0


From 30cd437b7dd286035754464e462d0f3bd5c527aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:42 +0000
Subject: [PATCH 108/130] fix: syntax errors in instructions generated by
 GENERATE are errors

---
 mpact/sim/decoder/bin_format_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index eda9e28..7a3ffb1 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1174,6 +1174,8 @@ void BinFormatVisitor::ProcessInstructionDefGenerator(
   // Parse and process the generated text.
   auto* parser = new BinFmtAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto instruction_defs =
       parser->parser()->instruction_def_list()->instruction_def();
-- 
2.43.0


From d6b6a64190e4e9e2c2f318684c4e4d03d97c4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:31 +0000
Subject: [PATCH 109/130] fix: generated encoders of destination array operands
 compile

---
 mpact/sim/decoder/instruction_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 2b63295..6b74f71 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -841,7 +841,7 @@ std::string InstructionSet::GenerateOperandEncoder(
                       "\n");
       absl::StrAppend(
           &output,
-          "  result = encoder->GetListDestOpEncoding(addres, operands[",
+          "  result = encoder->GetListDestOpEncoding(address, operands[",
           position,
           "], slot, "
           "entry, opcode, ",
-- 
2.43.0


From c5ad2adb03c9d00fa469091f6ac070819fbc16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 110/130] fix: generated encoders use the operands of the
 opcode in each slot

---
 mpact/sim/decoder/instruction_set.cc         | 124 ++++++++++---------
 mpact/sim/decoder/instruction_set.h          |   8 --
 mpact/sim/decoder/instruction_set_visitor.cc |   1 -
 mpact/sim/decoder/slot.cc                    |   4 +-
 4 files changed, 69 insertions(+), 68 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 6b74f71..bf62e91 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -918,71 +918,81 @@ std::tuple<std::string, std::string> InstructionSet::GenerateEncClasses(
                   "std::vector<RelocationInfo> &) {\n"
                   "  return absl::NotFoundError(\"No such opcode\");\n"
                   "}\n\n");
-  std::string array;
   absl::StrAppend(
-      &array,
+      &cc_output,
       "using EncodeFcn = absl::StatusOr<std::tuple<uint64_t, int>> (*)(",
       encoder,
       "*, SlotEnum, int, OpcodeEnum, uint64_t, const "
       "std::vector<std::string> "
-      "&, ResolverInterface *, std::vector<RelocationInfo> &);\n"
-      "EncodeFcn encode_fcns[] = {\n"
-      "  EncodeNone,\n");
-  for (auto& [name, inst_ptr] : instruction_map_) {
-    std::string prefix;
-    std::string suffix;
-    auto* opcode = inst_ptr->opcode();
-    absl::StrAppend(&array, "  Encode", opcode->pascal_name(), ",\n");
-    absl::StrAppend(&prefix, "absl::StatusOr<std::tuple<uint64_t, int>> Encode",
-                    opcode->pascal_name(), "(\n     ", encoder,
-                    " *encoder, SlotEnum slot, int entry, OpcodeEnum opcode,\n"
-                    "     uint64_t address, const "
-                    "std::vector<std::string> &operands,\n"
-                    "     ResolverInterface *resolver, "
-                    "std::vector<RelocationInfo> &relocations) "
-                    "{\n");
-    absl::StrAppend(&suffix,
-                    "  auto res_opcode = encoder->GetOpcodeEncoding(slot, "
-                    "entry, opcode, resolver);\n"
-                    "  if (!res_opcode.ok()) return res_opcode.status();\n"
-                    "  auto [encoding, bit_size] = res_opcode.value();\n"
-                    "  absl::StatusOr<uint64_t> result;\n");
-    int position = 0;
-    for (auto const* disasm_format : inst_ptr->disasm_format_vec()) {
-      for (auto const* format_info : disasm_format->format_info_vec) {
-        if (format_info->op_name.empty()) continue;
-        auto iter = opcode->op_locator_map().find(format_info->op_name);
-        if (iter == opcode->op_locator_map().end()) {
-          absl::StrAppend(&suffix, "  #error ", format_info->op_name,
-                          " not found in instruction opcodes\n");
-          continue;
+      "&, ResolverInterface *, std::vector<RelocationInfo> &);\n\n");
+  // The formats and operands of an opcode may differ between the slots, so the
+  // encode functions are generated for each slot.
+  for (auto* slot : slot_order_) {
+    if (!slot->is_referenced()) continue;
+    std::string array;
+    absl::StrAppend(&array, "EncodeFcn ", slot->name(),
+                    "_encode_fcns[] = {\n"
+                    "  EncodeNone,\n");
+    for (auto& [name, inst_ptr] : slot->instruction_map()) {
+      std::string prefix;
+      std::string suffix;
+      auto* opcode = inst_ptr->opcode();
+      std::string function_name =
+          absl::StrCat("Encode", slot->pascal_name(), "Slot",
+                       opcode->pascal_name());
+      absl::StrAppend(&array, "  ", function_name, ",\n");
+      absl::StrAppend(&prefix, "absl::StatusOr<std::tuple<uint64_t, int>> ",
+                      function_name, "(\n     ", encoder,
+                      " *encoder, SlotEnum slot, int entry, OpcodeEnum opcode,\n"
+                      "     uint64_t address, const "
+                      "std::vector<std::string> &operands,\n"
+                      "     ResolverInterface *resolver, "
+                      "std::vector<RelocationInfo> &relocations) "
+                      "{\n");
+      absl::StrAppend(&suffix,
+                      "  auto res_opcode = encoder->GetOpcodeEncoding(slot, "
+                      "entry, opcode, resolver);\n"
+                      "  if (!res_opcode.ok()) return res_opcode.status();\n"
+                      "  auto [encoding, bit_size] = res_opcode.value();\n"
+                      "  absl::StatusOr<uint64_t> result;\n");
+      int position = 0;
+      for (auto const* disasm_format : inst_ptr->disasm_format_vec()) {
+        for (auto const* format_info : disasm_format->format_info_vec) {
+          if (format_info->op_name.empty()) continue;
+          auto iter = opcode->op_locator_map().find(format_info->op_name);
+          if (iter == opcode->op_locator_map().end()) {
+            absl::StrAppend(&suffix, "  #error ", format_info->op_name,
+                            " not found in instruction opcodes\n");
+            continue;
+          }
+          auto locator = iter->second;
+          absl::StrAppend(&suffix,
+                          GenerateOperandEncoder(position++, format_info->op_name,
+                                                 locator, opcode));
         }
-        auto locator = iter->second;
-        absl::StrAppend(&suffix,
-                        GenerateOperandEncoder(position++, format_info->op_name,
-                                               locator, opcode));
       }
+      absl::StrAppend(&suffix,
+                      "  return std::make_tuple(encoding, bit_size);\n"
+                      "}\n\n");
+      absl::StrAppend(&cc_output, prefix,
+                      "  auto num_args = operands.size();\n"
+                      "  if (num_args != ",
+                      position,
+                      ") {\n"
+                      "    return absl::InvalidArgumentError(\n"
+                      "        absl::StrCat(\"",
+                      opcode->pascal_name(),
+                      ": Invalid number of operands (\", "
+                      "num_args, \") - expected ",
+                      position,
+                      "\"));\n"
+                      "  }\n",
+                      suffix);
     }
-    absl::StrAppend(&suffix,
-                    "  return std::make_tuple(encoding, bit_size);\n"
-                    "}\n\n");
-    absl::StrAppend(&cc_output, prefix,
-                    "  auto num_args = operands.size();\n"
-                    "  if (num_args != ",
-                    position,
-                    ") {\n"
-                    "    return absl::InvalidArgumentError(\n"
-                    "        absl::StrCat(\"",
-                    opcode->pascal_name(),
-                    ": Invalid number of operands (\", "
-                    "num_args, \") - expected ",
-                    position,
-                    "\"));\n"
-                    "  }\n",
-                    suffix);
-  }
-  absl::StrAppend(&array, "};\n\n");
-  absl::StrAppend(&cc_output, array, "\n}  // namespace\n\n");
+    absl::StrAppend(&array, "};\n\n");
+    absl::StrAppend(&cc_output, array);
+  }
+  absl::StrAppend(&cc_output, "\n}  // namespace\n\n");
 
   // Generate the regex matcher base class.
   absl::StrAppend(
diff --git a/mpact/sim/decoder/instruction_set.h b/mpact/sim/decoder/instruction_set.h
index ea92ef3..249dc3d 100644
--- a/mpact/sim/decoder/instruction_set.h
+++ b/mpact/sim/decoder/instruction_set.h
@@ -20,7 +20,6 @@
 #include <tuple>
 #include <vector>
 
-#include "absl/container/btree_map.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
@@ -79,11 +78,6 @@ class InstructionSet {
   // defined.
   StringPair GenerateEnums(absl::string_view file_name);
 
-  void AddInstruction(Instruction* inst) {
-    if (instruction_map_.contains(inst->opcode()->name())) return;
-    instruction_map_.emplace(inst->opcode()->name(), inst);
-  }
-
   // Getters and setters.
   std::vector<std::string>& namespaces() { return namespaces_; }
   const std::string& name() const { return name_; }
@@ -130,8 +124,6 @@ class InstructionSet {
   // Name in PascalCase.
   std::string pascal_name_;
   Bundle* bundle_ = nullptr;
-  // Map from instruction name to pointer.
-  absl::btree_map<std::string, Instruction*> instruction_map_;
   // Maps from names to bundle/slot pointers.
   absl::flat_hash_map<std::string, Bundle*> bundle_map_;
   absl::flat_hash_map<std::string, Slot*> slot_map_;
diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 9199fe7..e3c5afb 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1676,7 +1676,6 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
 
   Opcode* top = result.value();
   auto inst = new Instruction(top, slot);
-  slot->instruction_set()->AddInstruction(inst);
 
   // Get the size of the instruction if specified, otherwise use default size.
   if (opcode_ctx->size_spec() != nullptr) {
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index a685598..bf62939 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -584,8 +584,8 @@ std::tuple<std::string, std::string> Slot::GenerateAsmRegexMatcher() const {
     if (!Extract(text, index, values)) continue;
     int opcode_index = index_to_opcode_map_.at(index);
 )",
-      "    auto result = encode_fcns[opcode_index](encoder_, SlotEnum::k",
-      pascal_name(),
+      "    auto result = ", name(),
+      "_encode_fcns[index](encoder_, SlotEnum::k", pascal_name(),
       ", entry, \n"
       "                                     "
       "static_cast<OpcodeEnum>(opcode_index), address, values, resolver, "
-- 
2.43.0


From 7d53aa8b0acaa8b3be8ced1a334ddcce18d8993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 111/130] fix: generated encoders of several relocatable
 operands compile

---
 mpact/sim/decoder/instruction_set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index bf62e91..eb66551 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -785,7 +785,7 @@ std::string InstructionSet::GenerateOperandEncoder(
       absl::StrAppend(&output, "  // Source operand ", op_name, "\n");
       if (locator.is_reloc) {
         absl::StrAppend(&output,
-                        "  auto status = encoder->AppendSrcOpRelocation(\n"
+                        "  status = encoder->AppendSrcOpRelocation(\n"
                         "      address, operands[",
                         position, "], slot, entry, opcode, ", source_op, ", ",
                         locator.instance,
@@ -819,7 +819,7 @@ std::string InstructionSet::GenerateOperandEncoder(
       absl::StrAppend(&output, "  // Destination operand ", op_name, "\n");
       if (locator.is_reloc) {
         absl::StrAppend(&output,
-                        "  auto status = encoder->AppendDestOpRelocation(\n"
+                        "  status = encoder->AppendDestOpRelocation(\n"
                         "      address, operands[",
                         position, "], slot, entry, opcode, ", dest_op, ", ",
                         locator.instance,
@@ -954,6 +954,7 @@ std::tuple<std::string, std::string> InstructionSet::GenerateEncClasses(
                       "entry, opcode, resolver);\n"
                       "  if (!res_opcode.ok()) return res_opcode.status();\n"
                       "  auto [encoding, bit_size] = res_opcode.value();\n"
+                      "  absl::Status status;\n"
                       "  absl::StatusOr<uint64_t> result;\n");
       int position = 0;
       for (auto const* disasm_format : inst_ptr->disasm_format_vec()) {
-- 
2.43.0


From b577e4fb974faa8bda1a59ff20b2b230596aeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 112/130] fix: generated assemblers don't crash on empty lines

---
 mpact/sim/decoder/slot.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index bf62939..97d8314 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -511,7 +511,9 @@ std::tuple<std::string, std::string> Slot::GenerateAsmRegexMatcher() const {
                   "  std::string error;\n"
                   "  int index = regex_set_.Add(\"^$\", &error);\n"
                   "  if (index == -1) return absl::InternalError(error);\n"
-                  "  regex_vec_.push_back(new RE2(\"^$\"));\n");
+                  "  regex_vec_.push_back(new RE2(\"^$\"));\n"
+                  "  index_to_opcode_map_.insert({index, "
+                  "static_cast<int>(OpcodeEnum::kNone)});\n");
   std::vector<std::string> formats;
   for (auto const& [name, inst_ptr] : instruction_map_) {
     auto [regex, opnd_locators] = GenerateRegEx(inst_ptr, formats);
-- 
2.43.0


From f05757faa522dba2eb7ca580fd162e093da50716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:19 +0000
Subject: [PATCH 113/130] fix: generated assemblers don't encode blank lines as
 opcodes without formats

---
 mpact/sim/decoder/instruction_set.cc | 2 ++
 mpact/sim/decoder/slot.cc            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index eb66551..6d2d02d 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -934,6 +934,8 @@ std::tuple<std::string, std::string> InstructionSet::GenerateEncClasses(
                     "_encode_fcns[] = {\n"
                     "  EncodeNone,\n");
     for (auto& [name, inst_ptr] : slot->instruction_map()) {
+      // Opcodes without formats have no assembly syntax.
+      if (inst_ptr->disasm_format_vec().empty()) continue;
       std::string prefix;
       std::string suffix;
       auto* opcode = inst_ptr->opcode();
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 97d8314..fc01678 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -516,6 +516,8 @@ std::tuple<std::string, std::string> Slot::GenerateAsmRegexMatcher() const {
                   "static_cast<int>(OpcodeEnum::kNone)});\n");
   std::vector<std::string> formats;
   for (auto const& [name, inst_ptr] : instruction_map_) {
+    // Opcodes without formats have no assembly syntax.
+    if (inst_ptr->disasm_format_vec().empty()) continue;
     auto [regex, opnd_locators] = GenerateRegEx(inst_ptr, formats);
     max_args = std::max(max_args, opnd_locators.size());
     std::string opcode_name =
-- 
2.43.0


From c6e60e05d1776ed9384c9a043e7b6634565b2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 114/130] fix: generated assemblers only add the relocations of
 the returned encoding

---
 mpact/sim/decoder/slot.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index fc01678..8b1e6eb 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -583,29 +583,36 @@ std::tuple<std::string, std::string> Slot::GenerateAsmRegexMatcher() const {
     return absl::NotFoundError(error_message);
   }
   std::vector<std::tuple<uint64_t, int>> encodings;
+  std::vector<RelocationInfo> encoding_relocations;
   for (auto index : matches) {
     std::vector<std::string> values;
     if (!Extract(text, index, values)) continue;
     int opcode_index = index_to_opcode_map_.at(index);
+    std::vector<RelocationInfo> inst_relocations;
 )",
       "    auto result = ", name(),
       "_encode_fcns[index](encoder_, SlotEnum::k", pascal_name(),
       ", entry, \n"
       "                                     "
       "static_cast<OpcodeEnum>(opcode_index), address, values, resolver, "
-      "relocations);\n",
+      "inst_relocations);\n",
       R"(
     if (!result.status().ok()) {
       absl::StrAppend(&error_message, "\n    ", result.status().message());
       continue;
     }
     encodings.push_back(result.value());
+    encoding_relocations = std::move(inst_relocations);
   }
   if (encodings.empty()) return absl::NotFoundError(error_message);
   if (encodings.size() > 1) {
     return absl::NotFoundError(
         absl::StrCat("Failed to encode '", text, "': ambiguous"));
   }
+  // Only add the relocations of the encoding that is returned.
+  for (auto &relocation : encoding_relocations) {
+    relocations.push_back(relocation);
+  }
   return encodings[0];
 }
 
-- 
2.43.0


From 0a25efa5170559650346fcfb6e1110da8162793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 115/130] fix: gdbserver doesn't duplicate escaped characters

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..6fb956c 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -57,9 +57,8 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   std::string command;
   for (int i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
-    if (c == 0x7d) {
+    if (c == 0x7d && i + 1 < escaped_command.size()) {
       c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
     }
     command.push_back(c);
   }
-- 
2.43.0


From 2057fb742be142901ad5f75f62ad6b59ef0637d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 116/130] fix: gdbserver doesn't write packets past the end of
 its buffer

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 6fb956c..5a47f66 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -222,6 +222,12 @@ bool GdbServer::Connect(int port) {
         Terminate();
         return false;
       }
+      // Leave room for the checksum.
+      if (buffer_pos + 3 > sizeof(buffer_)) {
+        LOG(ERROR) << absl::StrFormat("Command on port %d is too long", port);
+        Terminate();
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From 151192fd5dd27c0e82d65b8d11283f8903ad5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 117/130] fix: gdbserver accepts commands without arguments

---
 mpact/sim/util/gdbserver/gdbserver.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 5a47f66..71fd4a1 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -384,6 +384,8 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  // An empty command isn't supported.
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -692,7 +694,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (!absl::StartsWith(command, ";")) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -812,6 +814,9 @@ void GdbServer::GdbDetach() {
 
 void GdbServer::GdbSelectThread(std::string_view command) {
   int thread_id;
+  if (command.empty()) {
+    return SendError("invalid thread id");
+  }
   char op = command.front();
   command.remove_prefix(1);
   if (command == "-1") {
@@ -1082,6 +1087,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1317,7 +1323,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (absl::StartsWith(command, ":")) {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From 6c854d770538c6cc82d09f70f956f7f193b56aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 118/130] fix: gdbserver rejects threads that don't exist

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 71fd4a1..6cce136 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -305,13 +305,15 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
       // If it hasn't been set, default to thread id 1.
       return 1;
     }
+    // Only valid thread ids are selected.
     return iter->second;
   } else {
     std::string thread_id_str;
     if (RE2::FullMatch(command, *thread_re_, &thread_id_str)) {
       int thread_id;
       bool success = absl::SimpleAtoi(thread_id_str, &thread_id);
-      if (!success) {
+      if (!success || (thread_id < 1) ||
+          (thread_id > core_debug_interfaces_.size())) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
         return 1;
       }
@@ -828,6 +830,9 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if ((thread_id < 0) || (thread_id > core_debug_interfaces_.size())) {
+    return SendError("invalid thread id");
+  }
   thread_select_[op] = thread_id;
   Respond("OK");
 }
-- 
2.43.0


From 3c838b0ff445d085542226732c4e49a36ce5c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 119/130] fix: gdbserver reports the exit of the program
 without a thread

---
 mpact/sim/util/gdbserver/gdbserver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 6cce136..8f69767 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -595,8 +595,8 @@ std::string GdbServer::GetHaltReason(int thread_id) {
       break;
     case *HaltReason::kProgramDone:
     case *HaltReason::kSemihostHaltRequest:
-      halt_reason_str = "W00thread:1;";
-      break;
+      // There is nothing more to report about a program that has exited.
+      return "W00";
   }
   return absl::StrCat(halt_reason_str, encoded_pc);
 }
-- 
2.43.0


From 7cc82e1511e0ee96a10b3be4b2d7d257f8b79ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 120/130] fix: gdbserver reports the address of watchpoints

---
 mpact/sim/util/gdbserver/gdbserver.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 8f69767..f93a797 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -781,17 +781,19 @@ void GdbServer::GdbVContinue(std::string_view command) {
       return Respond("T05thread:1;hwbreak:;");
     case *HaltReason::kDataWatchPoint: {
       core_debug_interfaces_[0]->GetWatchpointInfo(address, access_type);
-      std::string encoded_address =
-          HexEncodeNumberInTargetEndianness(debug_info_.GetGprWidth(), address);
+      std::string encoded_address = absl::StrCat(absl::Hex(address));
       // Need to differentiate between write (watch), read (rwatch), and
       // read/write (awatch) watch points.
       switch (access_type) {
         case generic::AccessType::kLoad:
-          return Respond(absl::StrCat("T05thread:1;rwatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;rwatch:", encoded_address,
+                                      ";", encoded_pc));
         case generic::AccessType::kStore:
-          return Respond(absl::StrCat("T05thread:1;watch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;watch:", encoded_address,
+                                      ";", encoded_pc));
         case generic::AccessType::kLoadStore:
-          return Respond(absl::StrCat("T05thread:1;awatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;awatch:", encoded_address,
+                                      ";", encoded_pc));
         default:
           LOG(ERROR) << "Invalid access type: "
                      << static_cast<int>(access_type);
-- 
2.43.0


From dd9fb5d9b1ad669c0a847b298093ac748f450407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 121/130] fix: gdbserver applies the leftmost vCont action to
 each thread

---
 mpact/sim/util/gdbserver/gdbserver.cc | 47 +++++++++++++++------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index f93a797..7e71a2f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -701,34 +701,39 @@ void GdbServer::GdbVContinue(std::string_view command) {
   }
   command.remove_prefix(1);
   std::vector<std::string> parts = absl::StrSplit(command, ';');
+  // The action for each thread. The leftmost action that applies to a thread
+  // is the one that is used.
+  std::vector<char> actions(core_debug_interfaces_.size(), '\0');
   for (std::string& part : parts) {
     std::string_view part_view = part;
-    std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
-    if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          StepThread(tid);
+    size_t pos = part_view.find(':');
+    std::string_view action = part_view.substr(0, pos);
+    if ((action != "c") && (action != "s")) {
+      return SendError("invalid vCont action");
+    }
+    int first = 1;
+    int last = core_debug_interfaces_.size();
+    // The action applies to all threads if there is no thread id or if it is
+    // -1. Otherwise it applies to the specified thread (0 is any thread).
+    if (pos != std::string_view::npos) {
+      std::string_view tid_str = part_view.substr(pos + 1);
+      if (tid_str != "-1") {
+        int tid;
+        bool success = absl::SimpleHexAtoi(tid_str, &tid);
+        if (!success || (tid < 0) || (tid > last)) {
+          return SendError("invalid thread id");
         }
+        first = last = (tid == 0) ? 1 : tid;
       }
-      continue;
     }
-    // Otherwise, apply the action to the specified thread.
-    int tid;
-    bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
-      SendError("invalid thread id");
-      return;
+    for (int tid = first; tid <= last; ++tid) {
+      if (actions[tid - 1] == '\0') actions[tid - 1] = action[0];
     }
-    if (action == "c") {
+  }
+  for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    if (actions[tid - 1] == 'c') {
       ContinueThread(tid);
-    } else if (action == "s") {
+    } else if (actions[tid - 1] == 's') {
       StepThread(tid);
     }
   }
-- 
2.43.0


From f9b513c30cbec246eb241d60eee1e46aead00d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 122/130] fix: gdbserver rejects data that isn't hexadecimal

---
 mpact/sim/util/gdbserver/gdbserver.cc | 67 +++++++++++++++++----------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7e71a2f..d122b1a 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -65,6 +66,22 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Converts the hex digits of a command to bytes. Returns false if they are
+// not a sequence of two digit bytes.
+bool HexDecode(std::string_view hex, std::vector<uint8_t>* bytes) {
+  if (hex.size() % 2 != 0) return false;
+  for (size_t i = 0; i < hex.size(); i += 2) {
+    uint8_t value = 0;
+    for (char c : hex.substr(i, 2)) {
+      if (!absl::ascii_isxdigit(c)) return false;
+      value <<= 4;
+      value |= absl::ascii_isdigit(c) ? c - '0' : absl::ascii_tolower(c) - 'a' + 10;
+    }
+    bytes->push_back(value);
+  }
+  return true;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -923,17 +940,15 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
-  int num_bytes = 0;
-  for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
-    num_bytes++;
-    std::string_view byte = data.substr(0, 2);
-    data.remove_prefix(2);
-    uint32_t value_tmp;
-    (void)absl::SimpleHexAtoi(byte, &value_tmp);
-    uint8_t value = static_cast<uint8_t>(value_tmp);
-    buffer_[i] = value;
-  }
-  if (num_bytes != length) {
+  std::vector<uint8_t> bytes;
+  if (!HexDecode(data, &bytes)) {
+    LOG(ERROR) << "Invalid memory write data";
+    if (error_message_supported_) {
+      return SendError("invalid memory write data");
+    }
+    return Respond("E01");
+  }
+  if (bytes.size() != length) {
     LOG(ERROR) << "Length does not match data size";
     if (error_message_supported_) {
       return SendError("length does not match data size");
@@ -941,7 +956,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     return Respond("E01");
   }
   auto result =
-      core_debug_interfaces_[0]->WriteMemory(address, buffer_, num_bytes);
+      core_debug_interfaces_[0]->WriteMemory(address, bytes.data(), length);
   if (!result.ok()) {
     LOG(ERROR) << "Failed to write memory: " << result.status().message();
     if (error_message_supported_) {
@@ -983,6 +998,12 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   int thread_index = thread_id - 1;
+  std::vector<uint8_t> bytes;
+  if (!HexDecode(data, &bytes)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  size_t pos = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
     if (it == debug_info_.debug_register_map().end()) {
@@ -993,15 +1014,11 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
     for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
+      if (pos >= bytes.size()) {
         LOG(ERROR) << "Invalid data format";
         return SendError("Invalid data format");
       }
-      std::string_view byte_str = data.substr(0, 2);
-      data.remove_prefix(2);
-      uint32_t byte_value_tmp;
-      (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-      byte = static_cast<uint8_t>(byte_value_tmp);
+      byte = bytes[pos++];
     }
   }
   Respond("OK");
@@ -1087,13 +1104,15 @@ void GdbServer::GdbWriteRegister(int thread_id,
                << result.status().message();
     return SendError(result.status().message());
   }
+  std::vector<uint8_t> bytes;
+  if (!HexDecode(register_value_str, &bytes)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
+  size_t pos = 0;
   for (auto& byte : result.value()->Get<uint8_t>()) {
-    if (register_value_str.empty()) break;
-    std::string_view byte_str = register_value_str.substr(0, 2);
-    register_value_str.remove_prefix(2);
-    uint32_t byte_value_tmp;
-    (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-    byte = static_cast<uint8_t>(byte_value_tmp);
+    if (pos >= bytes.size()) break;
+    byte = bytes[pos++];
   }
   Respond("OK");
 }
-- 
2.43.0


From ea83130387b14c57ec6f45bbacff151af59ad5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 123/130] fix: gdbserver writes the general registers that it
 reads

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index d122b1a..7083484 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1006,13 +1006,16 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   size_t pos = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    // If the register is not found, go to the next one (see
+    // GdbReadGprRegisters).
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
     for (auto& byte : result.value()->Get<uint8_t>()) {
       if (pos >= bytes.size()) {
         LOG(ERROR) << "Invalid data format";
-- 
2.43.0


From d585fde29149b7d833f6a65e637c6efd5a4cd4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 124/130] fix: gdbserver escapes the target description

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7083484..c65c9f7 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1435,7 +1435,16 @@ void GdbServer::GdbXferReadTarget(std::string_view offset_str,
   std::string_view response =
       debug_info_.GetGdbTargetXml().substr(offset, length);
   LOG(INFO) << "response length: " << response.size();
-  Respond(absl::StrCat(packet_type, response));
+  // Escape the characters that have a meaning in packets.
+  std::string escaped;
+  for (char c : response) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped.push_back('}');
+      c ^= 0x20;
+    }
+    escaped.push_back(c);
+  }
+  Respond(absl::StrCat(packet_type, escaped));
 }
 
 }  // namespace mpact::sim::util::gdbserver
-- 
2.43.0


From 6e84d7580fa241624828a582258bedfc4156448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 125/130] fix: gdbserver closes its sockets once

---
 mpact/sim/util/gdbserver/gdbserver.cc | 2 ++
 mpact/sim/util/gdbserver/gdbserver.h  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index c65c9f7..276eab1 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -270,6 +270,7 @@ void GdbServer::Terminate() {
       (void)shutdown(cli_fd_, SHUT_RDWR);
       (void)close(cli_fd_);
     }
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
@@ -277,6 +278,7 @@ void GdbServer::Terminate() {
     if (res >= 0) {
       (void)close(server_socket_);
     }
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..004ab14 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -46,7 +46,8 @@ using ::mpact::sim::generic::DebugInfo;
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
+  // The file descriptor is closed by the server.
+  ~GdbSocketStreambuf() override = default;
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-- 
2.43.0


From aba9c5abc078833920dade54da5ab04943f0754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:25 +0000
Subject: [PATCH 126/130] fix: gdbserver starts every session afresh

---
 mpact/sim/util/gdbserver/gdbserver.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 276eab1..6fe8885 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -193,8 +193,18 @@ bool GdbServer::Connect(int port) {
     return false;
   }
   good_ = true;
+  // Nothing that was negotiated in an earlier session applies to this one.
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  error_message_supported_ = false;
+  thread_suffix_ = false;
+  thread_select_.clear();
   // Create the input and output buffers and streams to handle reads and writes
   // to the socket.
+  delete os_;
+  delete is_;
+  delete out_buf_;
+  delete in_buf_;
   out_buf_ = new GdbSocketStreambuf(cli_fd_);
   in_buf_ = new GdbSocketStreambuf(cli_fd_);
   os_ = new std::ostream(out_buf_);
-- 
2.43.0


From 5314d07b62b3a7b05f5385a5f7a7cba28e5ac3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 127/130] fix: actions may change the action points while being
 performed

---
 .../sim/generic/action_point_manager_base.cc  | 20 +++++++++----------
 mpact/sim/generic/action_point_manager_base.h |  5 +++--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index 364383d..6875d67 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -15,6 +15,7 @@
 #include "mpact/sim/generic/action_point_manager_base.h"
 
 #include <cstdint>
+#include <memory>
 #include <utility>
 
 #include "absl/log/log.h"
@@ -30,10 +31,6 @@ ActionPointManagerBase::ActionPointManagerBase(
 
 ActionPointManagerBase::~ActionPointManagerBase() {
   for (auto& [unused, ap_ptr] : action_point_map_) {
-    for (auto& [unused, ai_ptr] : ap_ptr->action_map) {
-      ai_ptr->action_fcn = nullptr;
-      delete ai_ptr;
-    }
     ap_ptr->action_map.clear();
     delete ap_ptr;
   }
@@ -65,8 +62,8 @@ absl::StatusOr<int> ActionPointManagerBase::SetAction(uint64_t address,
   }
   // Add the function as an enabled action.
   int id = ap->next_id++;
-  auto* action_info =
-      new ActionInfo(std::move(action_fcn), /*is_enabled=*/true);
+  auto action_info =
+      std::make_shared<ActionInfo>(std::move(action_fcn), /*is_enabled=*/true);
   ap->action_map.insert(std::make_pair(id, action_info));
   ap->num_active++;
   return id;
@@ -86,7 +83,7 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  auto* action_info = action_it->second;
+  auto action_info = action_it->second;
   // If there are no other active actions, write back the original instruction.
   // If that fails the action remains in place.
   if (action_info->is_enabled && (ap->num_active == 1)) {
@@ -96,7 +93,7 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
   // Remove the action.
   ap->action_map.erase(action_it);
   ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  action_info->is_enabled = false;
   return absl::OkStatus();
 }
 
@@ -179,7 +176,7 @@ bool ActionPointManagerBase::IsActionEnabled(uint64_t address, int id) const {
 void ActionPointManagerBase::ClearAllActionPoints() {
   for (auto& [address, ap_ptr] : action_point_map_) {
     for (auto& [unused, action_ptr] : ap_ptr->action_map) {
-      delete action_ptr;
+      action_ptr->is_enabled = false;
     }
     ap_ptr->action_map.clear();
     (void)ap_memory_interface_->WriteOriginalInstruction(ap_ptr->address);
@@ -196,7 +193,10 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
     return;
   }
 
-  for (auto& [id, action_ptr] : it->second->action_map) {
+  // The actions may set, clear, enable and disable actions themselves, so work
+  // from a copy of the map. Cleared actions are no longer enabled.
+  auto action_map = it->second->action_map;
+  for (auto& [id, action_ptr] : action_map) {
     if (action_ptr->is_enabled) action_ptr->action_fcn(address, id);
   }
 }
diff --git a/mpact/sim/generic/action_point_manager_base.h b/mpact/sim/generic/action_point_manager_base.h
index 798c461..e6b8fc8 100644
--- a/mpact/sim/generic/action_point_manager_base.h
+++ b/mpact/sim/generic/action_point_manager_base.h
@@ -111,8 +111,9 @@ class ActionPointManagerBase {
     int next_id = 0;
     // Number of 'actions' that are enabled.
     int num_active = 0;
-    // Map from id to action function struct.
-    absl::btree_map<int, ActionInfo*> action_map;
+    // Map from id to action function struct. Shared, since an action may be
+    // cleared while it is being performed.
+    absl::btree_map<int, std::shared_ptr<ActionInfo>> action_map;
     ActionPointInfo(uint64_t address) : address(address) {}
   };
 
-- 
2.43.0


From 816ecb5f2f8247cbdc900d800e7dde02d594ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 128/130] fix: instruction deletes a predicate that is replaced

---
 mpact/sim/generic/instruction.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 624f8f9..2925db9 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -49,6 +49,8 @@ void Instruction::Append(Instruction* inst) {
 }
 
 void Instruction::SetPredicate(PredicateOperandInterface* predicate) {
+  // The instruction owns its predicate.
+  if (predicate_ != predicate) delete predicate_;
   predicate_ = predicate;
 }
 
-- 
2.43.0


From 575073a0f8897bfb3d0ae7de10303f03e1027060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 129/130] fix: SocketStreambuf reports broken connections and
 closes its socket once

---
 mpact/sim/util/renode/socket_streambuf.h | 52 ++++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..b495261 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -14,8 +14,12 @@
 #ifndef MPACT_SIM_UTIL_RENODE_SOCKET_STREAMBUF_H_
 #define MPACT_SIM_UTIL_RENODE_SOCKET_STREAMBUF_H_
 
+#include <sys/socket.h>
+#include <sys/types.h>
 #include <unistd.h>
 
+#include <cerrno>
+#include <cstddef>
 #include <cstdio>
 #include <streambuf>
 
@@ -31,35 +35,59 @@ namespace renode {
 class SocketStreambuf : public std::streambuf {
  public:
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override { close(fd_); }
+  SocketStreambuf(const SocketStreambuf&) = delete;
+  SocketStreambuf& operator=(const SocketStreambuf&) = delete;
+  ~SocketStreambuf() override { Close(); }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) {
-      close(fd_);
+      Close();
       return c;
     }
-    if (c == '\xa') {
-      write(fd_, "\r\n", 2);
-      return c;
-    }
-    write(fd_, &c, 1);
-    return c;
+    char ch = traits_type::to_char_type(c);
+    bool ok = ch == '\xa' ? Send("\r\n", 2) : Send(&ch, 1);
+    return ok ? c : traits_type::eof();
   }
 
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
-    int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (!Receive()) return traits_type::eof();
     if (ch_ == '\r') {
-      count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      if (!Receive()) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
 
  private:
+  // Close the socket, unless it has been closed already.
+  void Close() {
+    if (fd_ >= 0) close(fd_);
+    fd_ = -1;
+  }
+
+  // Send all the data. Returns false if the connection is closed or broken.
+  bool Send(const char* data, size_t size) {
+    while (size > 0) {
+      ssize_t count = send(fd_, data, size, MSG_NOSIGNAL);
+      if (count < 0 && errno == EINTR) continue;
+      if (count <= 0) return false;
+      data += count;
+      size -= count;
+    }
+    return true;
+  }
+
+  // Read one character. Returns false if the connection is closed or broken.
+  bool Receive() {
+    ssize_t count;
+    do {
+      count = read(fd_, &ch_, 1);
+    } while (count < 0 && errno == EINTR);
+    return count == 1;
+  }
+
   char ch_;
   int fd_;
 };
-- 
2.43.0


From c95f659056aae53db1b756f2447713b7a4728eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 130/130] fix: SocketCLI closes its connection once and always
 terminates

---
 mpact/sim/util/renode/socket_cli.cc | 70 ++++++++++++++++-------------
 mpact/sim/util/renode/socket_cli.h  |  7 ++-
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index 4185f38..3587630 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -14,10 +14,10 @@
 
 #include "mpact/sim/util/renode/socket_cli.h"
 
-#include <fcntl.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <unistd.h>
 
 #include <cerrno>
 #include <cstring>
@@ -29,6 +29,7 @@
 
 #include "absl/functional/any_invocable.h"
 #include "absl/log/log.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/renode/socket_streambuf.h"
 
@@ -80,64 +81,69 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
     good_ = false;
     LOG(ERROR) << "Failed to listen on port " << port << ": "
                << strerror(errno);
+    return;
   }
 
   // Launch CLI thread.
   cli_thread_ = std::thread([this, port]() {
     // Accept the connection and set up streams.
-    cli_fd_ = accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
-    if (cli_fd_ == -1) {
+    int fd = accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
+    if (fd == -1) {
       good_ = false;
       LOG(ERROR) << "Failed to accept connection on port " << port << ": "
                  << strerror(errno);
-    } else {
-      good_ = true;
+      return;
+    }
+    {
+      absl::MutexLock lock(&fd_mutex_);
+      if (closing_) {
+        good_ = false;
+        close(fd);
+        return;
+      }
+      cli_fd_ = fd;
+    }
+    {
       // Create input and output streams attached to the socket from which the
-      // cli will read commands/write responses.
-      SocketStreambuf out_buf(cli_fd_);
-      SocketStreambuf in_buf(cli_fd_);
+      // cli will read commands/write responses. Each stream buffer closes its
+      // own file descriptor.
+      SocketStreambuf out_buf(dup(fd));
+      SocketStreambuf in_buf(dup(fd));
       std::ostream os(&out_buf);
-      if (!os.good()) return;
       std::istream is(&in_buf);
-      if (!is.good()) return;
       // Notify that CLI is connected.
       is_connected_cb_(true);
       // Start the CLI.
       os << "CLI connected:\n";
       dbg_shell_.Run(is, os);
       // Notify that CLI is disconnected.
+      good_ = false;
       is_connected_cb_(false);
     }
-    good_ = false;
+    // The CLI is done, so end the connection.
+    absl::MutexLock lock(&fd_mutex_);
+    (void)shutdown(fd, SHUT_RDWR);
+    cli_fd_ = -1;
+    close(fd);
   });
 }
 
 SocketCLI::~SocketCLI() {
-  // Shutdown the connection.
-  if (cli_fd_ != -1) {
-    (void)shutdown(cli_fd_, SHUT_RDWR);
-    int err = close(cli_fd_);
-    if (err != 0) {
-      LOG(ERROR) << "Failed to close client socket " << cli_fd_ << ": "
-                 << strerror(errno);
-    }
+  // Shutdown the connection, which makes the thread finish.
+  {
+    absl::MutexLock lock(&fd_mutex_);
+    closing_ = true;
+    if (cli_fd_ != -1) (void)shutdown(cli_fd_, SHUT_RDWR);
   }
+  if (server_socket_ != -1) (void)shutdown(server_socket_, SHUT_RDWR);
+  if (cli_thread_.joinable()) cli_thread_.join();
   if (server_socket_ != -1) {
-    int res = shutdown(server_socket_, SHUT_RDWR);
-    if (res != 0) {
-      LOG(ERROR) << "Failed to shutdown server socket " << server_socket_
-                 << ": " << strerror(errno);
-    }
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      int err = close(server_socket_);
-      if (err != 0) {
-        LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
-                   << strerror(errno);
-      }
+    int err = close(server_socket_);
+    if (err != 0) {
+      LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
+                 << strerror(errno);
     }
   }
-  if (cli_thread_.joinable()) cli_thread_.join();
 }
 
 }  // namespace renode
diff --git a/mpact/sim/util/renode/socket_cli.h b/mpact/sim/util/renode/socket_cli.h
index 74124a8..7af15ff 100644
--- a/mpact/sim/util/renode/socket_cli.h
+++ b/mpact/sim/util/renode/socket_cli.h
@@ -5,9 +5,11 @@
 #include <sys/socket.h>
 #include <sys/types.h>
 
+#include <atomic>
 #include <thread>  // NOLINT
 
 #include "absl/functional/any_invocable.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/program_loader/elf_program_loader.h"
 
@@ -38,9 +40,12 @@ class SocketCLI {
  private:
   DebugCommandShellInterface& dbg_shell_;
   std::thread cli_thread_;
-  bool good_ = false;
+  std::atomic<bool> good_ = false;
   int server_socket_ = -1;
+  // Guards the socket of the connection.
+  absl::Mutex fd_mutex_;
   int cli_fd_ = -1;
+  bool closing_ = false;
   absl::AnyInvocable<void(bool)> is_connected_cb_;
 };
 
-- 
2.43.0

