From 38c37b429daa958fdfb5c129fc99934ab2b78e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 01/31] fix: do not return stale cache bits after a read which
 reached end of the stream

---
 runtime/src/zserio/BitStreamReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..296865f 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -301,6 +301,7 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
+        ctx.cacheNumBits = 0; // the cache is consumed, keep the context consistent even if the load throws
 
         // load next piece of buffer into cache
         loadCacheNext(ctx, numBits);
-- 
2.43.0


From 800a9b36b1d5385016377790f9c31e38a899acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 02/31] fix: reject bit sizes near the maximum of size_t
 instead of wrapping to a zero byte size

---
 runtime/src/zserio/BitBuffer.h         | 6 +++---
 runtime/src/zserio/BitStreamReader.cpp | 8 +++++---
 runtime/src/zserio/BitStreamWriter.cpp | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..c91bf03 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + ((bitSize % 8) != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -293,7 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + ((bitSize % 8) != 0 ? 1 : 0);
     if (buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -312,7 +312,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + ((bitSize % 8) != 0 ? 1 : 0);
     if (m_buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 296865f..023b010 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -385,16 +385,18 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t minByteSize = bufferBitSize / 8 + ((bufferBitSize % 8) != 0 ? 1 : 0);
+    if (buffer.size() < minByteSize)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << minByteSize << "')!";
     }
 }
 
 BitStreamReader::BitStreamReader(
         const uint8_t* buffer, size_t bufferBitSize, BitsTag, ArrayPreallocation maxArrayPrealloc) :
-        m_context(Span<const uint8_t>(buffer, (bufferBitSize + 7) / 8), bufferBitSize, maxArrayPrealloc)
+        m_context(Span<const uint8_t>(buffer, bufferBitSize / 8 + ((bufferBitSize % 8) != 0 ? 1 : 0)),
+                bufferBitSize, maxArrayPrealloc)
 {}
 
 uint32_t BitStreamReader::readUnsignedBits32(uint8_t numBits)
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..da84346 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -319,7 +319,7 @@ static const std::array<int64_t, 65> MAX_I64_VALUES = {
 BitStreamWriter::InsufficientCapacityException::~InsufficientCapacityException() = default;
 
 BitStreamWriter::BitStreamWriter(uint8_t* buffer, size_t bufferBitSize, BitsTag) :
-        m_buffer(buffer, (bufferBitSize + 7) / 8),
+        m_buffer(buffer, bufferBitSize / 8 + ((bufferBitSize % 8) != 0 ? 1 : 0)),
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {}
@@ -339,10 +339,11 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t minByteSize = bufferBitSize / 8 + ((bufferBitSize % 8) != 0 ? 1 : 0);
+    if (buffer.size() < minByteSize)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << minByteSize << "')!";
     }
 }
 
-- 
2.43.0


From 55a4ec9258f3db4e4c2508ec7ce283bf9dfb8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 03/31] fix: align bit streams to alignments which need to skip
 more than 64 bits

---
 runtime/src/zserio/BitStreamReader.cpp | 3 +--
 runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 023b010..0b67c36 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -868,8 +868,7 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        setBitPosition(getBitPosition() + (alignment - offset));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index da84346..231b014 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -534,8 +534,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From fe28052de139920a27bd8000d898eabeb47f74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 04/31] fix: write floats beyond the 16-bit float range as
 infinity and keep NaN values NaN

---
 runtime/src/zserio/FloatUtil.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..089589c 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,22 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN must not become infinity when its payload is in the discarded bits only
+            significand16 = 1;
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From 29edf5ba9c4edac90618256a18272b3c3b19a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 05/31] fix: reject varsize values which do not fit into 32
 bits

The longest varsize encoding carries 36 bits of value. They were accumulated in 32 bits, so the
topmost bits were lost before the range check and e.g. 90 80 80 80 00 was read as zero.
---
 runtime/src/zserio/BitStreamReader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 0b67c36..c89f450 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -785,31 +785,31 @@ VarUInt BitStreamReader::readVarUInt()
 VarSize BitStreamReader::readVarSize()
 {
     uint8_t byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 1
-    uint32_t result = byte & VARUINT_BYTE;
+    uint64_t result = byte & VARUINT_BYTE; // the longest encoding has more than 32 bits
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 2
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 3
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 4
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
@@ -819,7 +819,7 @@ VarSize BitStreamReader::readVarSize()
                 << result << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(result);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From 3b89e5c56405f260689fa7725c8acbb7256839ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 06/31] fix: initializeOffsets of a bit buffer calls bitSizeOf

The function called did not exist, so the template could not be instantiated.
---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index c91bf03..f66e034 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -591,7 +591,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 9b6dd704ae8a5fc79b1686d5d35ac69f6488e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 07/31] fix: writeBytes and writeString of 512 MB and more

The number of bits was computed in 32 bits, so that the writer checked the wrapped size against its
capacity but copied all the bytes, behind its buffer.
---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 231b014..5635de8 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -485,7 +485,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -511,7 +511,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
-- 
2.43.0


From 9a9ef3511a5f9ed636668eb1285d1fc12a90da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 08/31] fix: order bit buffers whose bytes are the same by
 their bit size

They were neither equal nor less than each other.
---
 runtime/src/zserio/BitBuffer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index f66e034..2ffc017 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -407,7 +407,12 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    if ((first1 == last1) && (first2 == last2))
+    {
+        return m_bitSize < other.m_bitSize;
+    }
+
+    return first1 == last1;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 0de991cc71fd073520c612728cd628f1e1b23020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 09/31] fix: hash code of bit buffers of 2 GB and more

The byte size was converted to int, so the loop ran outside the buffer.
---
 runtime/src/zserio/BitBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 2ffc017..a83a778 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -424,7 +424,8 @@ uint32_t BasicBitBuffer<ALLOC>::hashCode() const
     {
         if (byteSize > 1)
         {
-            auto lastIt = m_buffer.begin() + static_cast<int>(byteSize) - 1;
+            using DifferenceType = typename std::vector<uint8_t, ALLOC>::iterator::difference_type;
+            auto lastIt = m_buffer.begin() + static_cast<DifferenceType>(byteSize - 1);
             for (auto it = m_buffer.begin(); it != lastIt; ++it)
             {
                 result = calcHashCode(result, *it);
-- 
2.43.0


From 6768023dd3eb06fb881c6be8339491f4929e0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 10/31] fix: do not leak the heap holder when copying or moving
 of the value throws in Any

---
 runtime/src/zserio/Any.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..4c22db3 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -186,7 +186,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +206,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
-- 
2.43.0


From 9455eb291a8d001154baeee2e4e78ea694446702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 11/31] fix: keep Any empty when copying of the value stored in
 place throws

The storage shared with the pointer to the heap holder had already been overwritten, so that the
destructor called a virtual method on an address within the virtual table.
---
 runtime/src/zserio/Any.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4c22db3..7eb8e06 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -617,7 +617,16 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                // the storage has been already overwritten
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From 2c25718523754ac67595f285c366755b94f5056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 12/31] fix: swap allocators of Any before the values are moved

Values were moved to blocks of the old allocator and freed later by the swapped one.
---
 runtime/src/zserio/Any.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 7eb8e06..96d52e9 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -475,14 +475,17 @@ public:
         else
         {
             BasicAny tmp(std::move(*this), get_allocator_ref());
-            move(std::move(other));
-            other.move(std::move(tmp));
+            BasicAny otherTmp(std::move(other), other.get_allocator_ref());
 
+            // swap allocators while both holders are empty, the values have to be freed by what allocated them
             if constexpr (AllocTraits::propagate_on_container_swap::value)
             {
                 using std::swap;
                 swap(get_allocator_ref(), other.get_allocator_ref());
             }
+
+            move(std::move(otherTmp));
+            other.move(std::move(tmp));
         }
     }
 
-- 
2.43.0


From 7c462b62bf03564d139628d5014d6360755dc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 13/31] fix: do not keep a holder without a value when
 construction of the value throws in Any

Any claimed to have a value of the new type which did not exist and a variant holding it claimed an
alternative which did not exist.
---
 runtime/src/zserio/Any.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 96d52e9..4b97098 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,11 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    bool hasValue() const
+    {
+        return m_typedHolder.has_value();
+    }
+
     T& get()
     {
         return m_typedHolder.value();
@@ -505,7 +510,19 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder();
+            }
+            throw;
+        }
     }
 
     /**
@@ -516,8 +533,19 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder();
+            }
+            throw;
+        }
     }
 
     /**
-- 
2.43.0


From 43062b22f568c2a8074e9408d11b2cc4aaa546fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 14/31] fix: swap indexes of variants before their data

When moving of a value threw in swap of variants with different allocators, the first variant
had the value of the second one but named its own previous alternative.
---
 runtime/src/zserio/Variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..eb3f2eb 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -346,8 +346,9 @@ public:
      */
     void swap(BasicVariant& other)
     {
-        m_data.swap(other.m_data);
+        // indexes first, swapping of the data can throw when some data have been already swapped
         std::swap(m_index, other.m_index);
+        m_data.swap(other.m_data);
     }
 
     /**
-- 
2.43.0


From 9fc4eda7bcf84a43fc19d1d32252984b468cfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 15/31] fix: leave an empty bit buffer behind when it is moved
 from

The bit size was kept while the bytes were gone, so that comparison, hash code or copying of the
moved bit buffer accessed bytes which it did not have.
---
 runtime/src/zserio/BitBuffer.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index a83a778..54aac28 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -6,6 +6,7 @@
 #include <functional>
 #include <string_view>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "zserio/BitSize.h"
@@ -127,8 +128,9 @@ public:
     BasicBitBuffer(const BasicBitBuffer&) = default;
     BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
 
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>);
     /**
      * \}
      */
@@ -330,8 +332,31 @@ template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
         m_bitSize(other.m_bitSize)
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0;
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(std::exchange(other.m_bitSize, 0))
 {}
 
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>)
+{
+    if (this != &other)
+    {
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = std::exchange(other.m_bitSize, 0);
+        other.m_buffer.clear();
+    }
+
+    return *this;
+}
+
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
 {
-- 
2.43.0


From 15fe2e91cd2a317ae98108454f9ed42d04502ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 16/31] fix: two variants without a value are equal

---
 runtime/src/zserio/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index eb3f2eb..c34fb97 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -425,7 +425,7 @@ public:
             return false;
         }
 
-        bool ret = false;
+        bool ret = !m_data.hasValue(); // two valueless variants are equal
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
             ret = elem1 == elem2;
         });
-- 
2.43.0


From fc5fce0baebb53f2e2a89925e806e397a4104fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 17/31] fix: offsets of arrays of dynamic bit fields can be
 initialised

---
 runtime/src/zserio/DeltaContext.h | 6 ++++++
 runtime/src/zserio/View.h         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..479a5b2 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -441,6 +441,12 @@ BitSize bitSizeOf(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSi
     return deltaContext.bitSizeOf(view);
 }
 
+template <typename T>
+BitSize initializeOffsets(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSize bitPosition)
+{
+    return bitSizeOf(deltaContext, view, bitPosition);
+}
+
 template <typename T>
 void write(DeltaContext& deltaContext, BitStreamWriter& writer, View<DynIntWrapper<T>> view)
 {
diff --git a/runtime/src/zserio/View.h b/runtime/src/zserio/View.h
index 45a5103..488b73b 100644
--- a/runtime/src/zserio/View.h
+++ b/runtime/src/zserio/View.h
@@ -240,6 +240,12 @@ BitSize bitSizeOf(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize =
     return view.numBits();
 }
 
+template <typename VALUE_TYPE>
+BitSize initializeOffsets(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize bitPosition)
+{
+    return bitSizeOf(view, bitPosition);
+}
+
 template <typename VALUE_TYPE>
 void write(BitStreamWriter& writer, const View<detail::DynIntWrapper<VALUE_TYPE>>& view)
 {
-- 
2.43.0


From d6e96a535c36fc47e89a259de6a68be0ea27567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 18/31] fix: packed floats are written to a bit stream writer

---
 runtime/src/zserio/DeltaContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 479a5b2..913bbc3 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -496,7 +496,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0


From c383535fcce67a08e1c4ad6f6bcfbb5806ce6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 19/31] fix: do not drop a JSON value at the end of the stream
 when the chunk before it ended with whitespaces

---
 runtime/src/zserio/JsonTokenizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..2221571 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -234,6 +234,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            m_token = JsonToken::UNKNOWN; // a previous chunk might have ended with whitespaces only
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0


From 725673728cb3c925622525e97cafdebf1477d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 20/31] fix: decode JSON numbers only from the given input

---
 runtime/src/zserio/JsonDecoder.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..ee8947a 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -1,10 +1,11 @@
 #ifndef ZSERIO_JSON_DECODER_H_INC
 #define ZSERIO_JSON_DECODER_H_INC
 
-#include <cerrno>
+#include <charconv>
 #include <cmath>
 #include <cstdlib>
 #include <string_view>
+#include <system_error>
 #include <utility>
 
 #include "zserio/AllocatorHolder.h"
@@ -415,13 +416,12 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const int64_t value = std::strtoll(pBegin, &pEnd, 10);
+    // note that the input doesn't have to be null-terminated
+    int64_t value = 0;
+    const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), value);
 
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
+    const size_t numRead = static_cast<size_t>(result.ptr - input.data());
 
     return DecoderResult(numRead, value, overflow, get_allocator());
 }
@@ -429,13 +429,12 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeS
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
+    // note that the input doesn't have to be null-terminated
+    uint64_t value = 0;
+    const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), value);
 
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
+    const size_t numRead = static_cast<size_t>(result.ptr - input.data());
 
     return DecoderResult(numRead, value, overflow, get_allocator());
 }
@@ -444,7 +443,9 @@ template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
         std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    // note that the input doesn't have to be null-terminated
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.data(), numChars, get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
     if (static_cast<size_t>(pEnd - pBegin) != numChars)
-- 
2.43.0


From e0702653adf475f599e63abccd17b1f7f72315c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 21/31] fix: compute the byte size of a serialized object in
 size_t

---
 runtime/src/zserio/SerializeUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SerializeUtil.h b/runtime/src/zserio/SerializeUtil.h
index 31e680a..20638b2 100644
--- a/runtime/src/zserio/SerializeUtil.h
+++ b/runtime/src/zserio/SerializeUtil.h
@@ -336,7 +336,7 @@ Vector<uint8_t, ALLOC> serializeToBytes(const View<T>& view, const ALLOC& alloca
 {
     detail::validate(view, "");
     const BitSize bitSize = detail::initializeOffsets(view, 0);
-    Vector<uint8_t, ALLOC> buffer((bitSize + 7) / 8, allocator);
+    Vector<uint8_t, ALLOC> buffer((static_cast<size_t>(bitSize) + 7) / 8, allocator);
     BitStreamWriter writer(buffer);
     detail::write(writer, view);
 
-- 
2.43.0


From 0fa44fc12c89c42150036c66c3245d19800d66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:02 +0000
Subject: [PATCH 22/31] fix: report errors which show up when a written file is
 closed

---
 runtime/src/zserio/FileUtil.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..19c90fe 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -20,6 +20,12 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
+
+    stream.close(); // writes all what is still buffered
+    if (!stream)
+    {
+        throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
+    }
 }
 
 BitBuffer readBufferFromFile(std::string_view fileName)
-- 
2.43.0


From edfb358011207dfee5366daacb61dfeba605eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:02 +0000
Subject: [PATCH 23/31] fix: do not mistake the size of a big file for a
 failure

---
 runtime/src/zserio/FileUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 19c90fe..4e9b9c5 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -40,7 +40,7 @@ BitBuffer readBufferFromFile(std::string_view fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From 069f7373839afdab7d0536448f89bb6485bdc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:02 +0000
Subject: [PATCH 24/31] fix: open exactly the file whose name was given

---
 runtime/src/zserio/FileUtil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 4e9b9c5..50839ab 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <string>
 #include <string_view>
 
 #include "zserio/CppRuntimeException.h"
@@ -9,7 +10,7 @@ namespace zserio
 
 void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::string_view fileName)
 {
-    std::ofstream stream(fileName.data(), std::ofstream::binary | std::ofstream::trunc);
+    std::ofstream stream(std::string(fileName), std::ofstream::binary | std::ofstream::trunc);
     if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to open '") << fileName << "' for writing!";
@@ -30,7 +31,7 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
 
 BitBuffer readBufferFromFile(std::string_view fileName)
 {
-    std::ifstream stream(fileName.data(), std::ifstream::binary);
+    std::ifstream stream(std::string(fileName), std::ifstream::binary);
     if (!stream)
     {
         throw CppRuntimeException("readBufferFromFile: Cannot open '") << fileName << "' for reading!";
-- 
2.43.0


From 2c960ad3c8b474b2566da383533933f1930297d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 25/31] fix: keep the tree creator consistent when a field
 cannot be opened

---
 runtime/src/zserio/ZserioTreeCreator.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..b8d9001 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -615,15 +615,17 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
                 << fieldInfo.schemaName << "' is not an array!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
-
     // note that we cannot just call getField() in case that the array is not optional like we do it in
     // setValue() and beginCompound() methods because in case of arrays we would join multiple arrays together
     // when this method is called multiple times with the same name - thus we will just create a new array
     //
     // moreover we need to properly initialize arrays of dynamic bit fields
     // see https://github.com/ndsev/zserio/issues/414
-    m_valueStack.push_back(m_valueStack.back()->createField(name));
+    //
+    // the field is created before anything is pushed, so that the stacks stay consistent when it throws
+    auto arrayValue = m_valueStack.back()->createField(name);
+    m_fieldInfoStack.push_back(fieldInfo);
+    m_valueStack.push_back(std::move(arrayValue));
 
     m_state = detail::CreatorState::IN_ARRAY;
 }
@@ -662,16 +664,13 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
                 << fieldInfo.schemaName << "' is not a compound!";
     }
 
+    // optional field, or field within choice or union -> create the new compound
+    // the field is obtained before anything is pushed, so that the stacks stay consistent when it throws
+    const bool createCompound = TypeInfoUtil::hasChoice(parentTypeInfo.getCppType()) || fieldInfo.isOptional;
+    auto compoundValue =
+            createCompound ? m_valueStack.back()->createField(name) : m_valueStack.back()->getField(name);
     m_fieldInfoStack.push_back(fieldInfo);
-    if (TypeInfoUtil::hasChoice(parentTypeInfo.getCppType()) || fieldInfo.isOptional)
-    {
-        // optional field, or field within choice or union -> create the new compound
-        m_valueStack.push_back(m_valueStack.back()->createField(name));
-    }
-    else
-    {
-        m_valueStack.push_back(m_valueStack.back()->getField(name));
-    }
+    m_valueStack.push_back(std::move(compoundValue));
 
     m_state = detail::CreatorState::IN_COMPOUND;
 }
-- 
2.43.0


From cef038784242483422860872a05bc15b3686ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:11 +0000
Subject: [PATCH 26/31] fix: regex walk filter matches compound elements of
 arrays by their own path

---
 runtime/src/zserio/Walker.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..095d1cb 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -810,11 +810,6 @@ bool BasicRegexWalkFilter<ALLOC>::beforeCompound(const IBasicReflectableDataCons
         const BasicFieldInfo<ALLOC>& fieldInfo, size_t elementIndex)
 {
     appendPath(fieldInfo, elementIndex);
-    if (std::regex_match(getCurrentPath(), m_pathRegex))
-    {
-        return true; // the compound itself matches
-    }
-
     return matchSubtree(compound, fieldInfo);
 }
 
@@ -864,6 +859,12 @@ template <typename ALLOC>
 bool BasicRegexWalkFilter<ALLOC>::matchSubtree(
         const IBasicReflectableDataConstPtr<ALLOC>& value, const BasicFieldInfo<ALLOC>& fieldInfo) const
 {
+    // try to match the value itself (note that it can be a compound element of an array)
+    if (std::regex_match(getCurrentPath(), m_pathRegex))
+    {
+        return true;
+    }
+
     if (value != nullptr && TypeInfoUtil::isCompound(fieldInfo.typeInfo.getSchemaType()))
     {
         // is a not null compound, try to find match within its subtree
@@ -873,11 +874,8 @@ bool BasicRegexWalkFilter<ALLOC>::matchSubtree(
         walker.walk(value);
         return subtreeFilter.matches();
     }
-    else
-    {
-        // try to match a simple value or null compound
-        return std::regex_match(getCurrentPath(), m_pathRegex);
-    }
+
+    return false;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 20c8dd2f4e386cefb90ad4d4793c8f2c0cde5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 27/31] fix: do not let one JSON document affect the next one
 read

---
 runtime/src/zserio/JsonReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..2bd7ddd 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -497,6 +497,10 @@ template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
     m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    // drop what is left from the last document, which could have been refused in the middle
+    m_keyStack.clear();
+    m_object.reset();
+    m_objectValueAdapter.reset();
 }
 
 template <typename ALLOC>
-- 
2.43.0


From dcd3c51315abd2f86aac9b183cce8227a4920973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 28/31] fix: binding of dynamic bit field columns takes its
 arguments as all others

---
 runtime/src/zserio/SqliteUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..b834cb9 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -181,7 +181,7 @@ int bindColumn(sqlite3_stmt& stmt, int index, FixedIntWrapper<BIT_SIZE, IS_SIGNE
 }
 
 template <typename ALLOC, typename T>
-int bindColumn(sqlite3_stmt& stmt, DynIntWrapper<T> value, BitSize, int index, const ALLOC&)
+int bindColumn(sqlite3_stmt& stmt, int index, DynIntWrapper<T> value, BitSize, const ALLOC&)
 {
     return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(value));
 }
-- 
2.43.0


From 43717f43d6d4a97826bbea1f8ec1b63aa2c648c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 29/31] fix: read text columns in their whole length

---
 runtime/src/zserio/SqliteUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index b834cb9..ef09147 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -129,7 +129,8 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    const int textLength = sqlite3_column_bytes(&stmt, index);
+    column.emplace(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength));
 }
 
 template <typename T>
-- 
2.43.0


From 0d5edb3ea38103fd84fd3f534eb81db9050ac6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 30/31] fix: bind an object of zero size as empty blob

---
 runtime/src/zserio/SqliteUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index ef09147..4d2d715 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -152,6 +152,10 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitBuffer.getByteSize() == 0)
+    {
+        return sqlite3_bind_zeroblob(&stmt, index, 0); // binding of null pointer would store NULL
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
-- 
2.43.0


From 2e1aecd51ea17d300c9a693f8bd48af6715fa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 31/31] fix: do not cut the size of texts bound to columns

---
 runtime/src/zserio/SqliteUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 4d2d715..6592977 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -206,7 +206,7 @@ int bindColumn(sqlite3_stmt& stmt, int index, FloatWrapper<VALUE_TYPE, FLOAT_TYP
 template <typename ALLOC>
 int bindColumn(sqlite3_stmt& stmt, int index, std::string_view value, BitSize, const ALLOC&)
 {
-    return sqlite3_bind_text(&stmt, index, value.data(), static_cast<int>(value.size()), SQLITE_TRANSIENT);
+    return sqlite3_bind_text64(&stmt, index, value.data(), value.size(), SQLITE_TRANSIENT, SQLITE_UTF8);
 }
 
 } // namespace detail
-- 
2.43.0

