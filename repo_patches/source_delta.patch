From 82c6a941698ae885904ec8b7d4cce07a8e7d5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 01/19] fix: do not free the caller's object buffer when
 deserialization throws

deserializeType(data, allocBuf) owned the object through a unique_ptr while
unpacking, so an exception passed the caller's memory to operator delete.
---
 src/checkpoint/dispatch/dispatch.impl.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..3680861 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -275,11 +275,18 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
   auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
-    Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+  T* t_buf = Standard::construct<T>(mem);
+  try {
+    return Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf, data);
+  } catch (...) {
+    // Memory passed by the user is owned by the user: only destroy the object
+    if (allocBuf) {
+      t_buf->~T();
+    } else {
+      delete t_buf;
+    }
+    throw;
+  }
 }
 
 template <typename T>
-- 
2.43.0


From f151f0b0a5222408a7adc006e5e8a00cbd99dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 02/19] fix: do not leak the new object when reading a file or
 stream throws

deserializeFromFile and deserializeFromStream held the object in a raw pointer
while unpacking, so it was neither destroyed nor freed on an exception.
---
 src/checkpoint/checkpoint_api.impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..13bf35e 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -109,11 +109,11 @@ void serializeToFile(T& target, std::string const& file) {
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
   auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T>
@@ -134,11 +134,11 @@ void serializeToStream(T& target, StreamT& stream) {
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
+  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+    t.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T, typename StreamT>
-- 
2.43.0


From c9757c5dd2bd36dbb653d770d1244ad553f0f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 03/19] fix: destroy the temporaries that deserialization
 builds on scratch memory

Elements (or prototypes) reconstructed on a dispatch::Allocator buffer were
copied or moved into the container, optional or variant but never destroyed.
---
 src/checkpoint/container/list_serialize.h     |  2 ++
 src/checkpoint/container/map_serialize.h      |  1 +
 src/checkpoint/container/optional_serialize.h |  2 ++
 src/checkpoint/container/queue_serialize.h    |  2 ++
 src/checkpoint/container/variant_serialize.h  |  1 +
 src/checkpoint/container/vector_serialize.h   |  2 ++
 src/checkpoint/dispatch/allocator.h           | 16 ++++++++++++++++
 7 files changed, 26 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..632a327 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -68,6 +68,7 @@ deserializeOrderedElems(
 
   Alloc allocated;
   auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -89,6 +90,7 @@ deserializeOrderedElems(
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..0a37ae1 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -70,6 +70,7 @@ inline typename std::enable_if_t<
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..c953f3b 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_OPTIONAL_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/allocator.h"
 
 #include <optional>
 
@@ -64,6 +65,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
   s | *has_value;
   if (*has_value) {
     auto* value = ValReconstructor::construct(valAllocated.buf);
+    dispatch::ScopedDestroy<T> destroy{value};
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..caba6cc 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_QUEUE_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/dispatch/allocator.h"
 
 #include <queue>
 #include <stack>
@@ -59,6 +60,7 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<T> destroy{reconstructed};
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..623c15c 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -69,6 +69,7 @@ struct SerializeEntry<Arg, Args...> {
           dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
         auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::ScopedDestroy<Arg> destroy{reconstructed};
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..8f61321 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -87,6 +87,7 @@ void constructVectorData(
 
   Alloc allocated;
   auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ScopedDestroy<T> destroy{reconstructed};
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -102,6 +103,7 @@ void constructVectorData(
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<T> destroy{reconstructed};
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..9d0bfb4 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -58,6 +58,22 @@ struct Allocator {
   SerialByteType* buf;
 };
 
+/**
+ * \struct ScopedDestroy
+ *
+ * \brief Destroy (without deallocating) a temporary object that was constructed
+ * on an \c Allocator buffer when the scope is left
+ */
+template <typename T>
+struct ScopedDestroy {
+  explicit ScopedDestroy(T* in_ptr) : ptr(in_ptr) { }
+  ScopedDestroy(ScopedDestroy const&) = delete;
+  ScopedDestroy& operator=(ScopedDestroy const&) = delete;
+  ~ScopedDestroy() { ptr->~T(); }
+
+  T* ptr;
+};
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From 8d1b64b6f20b6bbdc5da7b4aa52a2c83bf88dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 04/19] fix: replace, not extend, containers when deserializing
 in place

Maps, sets, queues, lists and vectors of move-only elements kept their previous
elements (and sets ignored new equivalent ones) on in-place deserialization.
---
 src/checkpoint/container/list_serialize.h   | 1 +
 src/checkpoint/container/map_serialize.h    | 1 +
 src/checkpoint/container/queue_serialize.h  | 1 +
 src/checkpoint/container/vector_serialize.h | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 632a327..6e904ec 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -88,6 +88,7 @@ deserializeOrderedElems(
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 0a37ae1..697f5f2 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -68,6 +68,7 @@ inline typename std::enable_if_t<
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index caba6cc..c4cfb2c 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -58,6 +58,7 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   dispatch::Allocator<T> allocated;
+  q = std::queue<T>{};
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<T> destroy{reconstructed};
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 8f61321..099c254 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -101,6 +101,7 @@ void constructVectorData(
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
+  vec.clear();
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<T> destroy{reconstructed};
-- 
2.43.0


From 5a24ff368a2a7a1467016c9da5bd22574e9aaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 05/19] fix: close the file descriptor when setting up an
 IOBuffer fails

The constructor throws when fstat, fallocate, ftruncate, fsync or mmap fails
(e.g. for an empty file), so the destructor never closed the open descriptor.
---
 src/checkpoint/buffer/io_buffer.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..9c6089e 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,22 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    // The destructor will not run: release the descriptor (mapping the file is
+    // the last step, so if any step failed nothing is mapped)
+    if (fd_ != -1) {
+      close(fd_);
+      fd_ = -1;
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From f4bbd7a68ba3b9f5b27fbea80a925ca8a790e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 06/19] fix: report errors when a written file is synced,
 unmapped or closed

IOBuffer's (implicitly noexcept) destructor threw, terminating the program, and
skipped the remaining steps. serializeToFile now closes the file explicitly,
every step is attempted, and the first error is thrown as std::runtime_error.
---
 src/checkpoint/buffer/io_buffer.cc   | 37 +++++++++++++++++-----------
 src/checkpoint/buffer/io_buffer.h    | 19 ++++++++++++--
 src/checkpoint/checkpoint_api.impl.h |  4 ++-
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 9c6089e..2607e30 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -249,6 +249,18 @@ void IOBuffer::closeFile() {
 
   int ret = 0;
 
+  /*
+   * Every step is attempted, so nothing leaks if an earlier one fails; the
+   * first error is reported at the end
+   */
+  std::string err = "";
+  auto fail = [&err](char const* what) {
+    if (err.empty()) {
+      err = std::string(what) + ": errno=" + std::to_string(errno) + ": " +
+            strerror(errno);
+    }
+  };
+
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
@@ -259,18 +271,14 @@ void IOBuffer::closeFile() {
     ret = msync64(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      fail("msync64 failed on file after write");
     }
 
 #   else
     ret = msync(addr, size_, MS_SYNC);
 
     if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      fail("msync failed on file after write");
     }
 #   endif
   }
@@ -284,18 +292,14 @@ void IOBuffer::closeFile() {
   ret = munmap64(addr, size_);
 
   if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("munmap64 failed on after write");
   }
 
 # else
   ret = munmap(addr, size_);
 
   if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("munmap failed on file after write");
   }
 # endif
 
@@ -307,12 +311,15 @@ void IOBuffer::closeFile() {
   ret = close(fd_);
 
   if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    fail("close on file descriptor failed");
   }
 
   fd_ = -1;
+  buffer_ = nullptr;
+
+  if (not err.empty()) {
+    throw std::runtime_error(err);
+  }
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..eddf0d1 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,28 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  /**
+   * \brief Write out (when writing), unmap and close the file
+   *
+   * Called by the destructor if it was not called before, but the destructor
+   * cannot report errors.
+   *
+   * \throws std::runtime_error if any of these steps fails
+   */
+  void closeFile();
+
+  virtual ~IOBuffer() {
+    try {
+      closeFile();
+    } catch (...) {
+      // Destructors must not throw
+    }
+  }
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 13bf35e..c814fd5 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,9 +101,11 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  // Report errors while writing out and closing the file
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
-- 
2.43.0


From 1ce1949e0ff5ec92a82dee82233fbe047e662476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 07/19] fix: throw instead of reading past the end of a
 truncated file

UnpackerBuffer<IOBuffer> read past the mapping of a file shorter than the image
(SIGBUS or SIGSEGV, or zeros up to the end of the page).
---
 src/checkpoint/serializers/unpacker.h      |  1 +
 src/checkpoint/serializers/unpacker.impl.h | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/checkpoint/serializers/unpacker.h b/src/checkpoint/serializers/unpacker.h
index 85e9a85..9492600 100644
--- a/src/checkpoint/serializers/unpacker.h
+++ b/src/checkpoint/serializers/unpacker.h
@@ -47,6 +47,7 @@
 #include "checkpoint/common.h"
 #include "checkpoint/serializers/memory_serializer.h"
 #include "checkpoint/buffer/user_buffer.h"
+#include "checkpoint/buffer/io_buffer.h"
 
 namespace checkpoint {
 
diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..6daa669 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -50,6 +50,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
+#include <type_traits>
 
 namespace checkpoint {
 
@@ -92,6 +94,15 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // The size of a file is known: a truncated one must not be read past its end
+  if (
+    std::is_same<BufferT, buffer::IOBuffer>::value and
+    len > buffer_->getSize() - usedSize_
+  ) {
+    throw std::runtime_error("File does not hold the required number of bytes!");
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   std::memcpy(ptr, spot, len);
 
-- 
2.43.0


From 47617586af0be05eccba2c037ee5fdb456701bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 08/19] fix: detect size/pack mismatches for files and streams,
 without overrunning

Only in-memory serialization compared the packed with the sized bytes, and only
after PackerBuffer had written past the end of the buffer.
---
 src/checkpoint/checkpoint_api.impl.h           | 4 +++-
 src/checkpoint/serializers/packer.impl.h       | 6 +++++-
 src/checkpoint/serializers/stream_serializer.h | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index c814fd5..de689bc 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -104,6 +104,7 @@ void serializeToFile(T& target, std::string const& file) {
   auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
   // Report errors while writing out and closing the file
   p.extractPackedBuffer()->closeFile();
 }
@@ -128,9 +129,10 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  auto p = dispatch::Standard::pack<T, StreamPacker<StreamT>>(
     target, len, stream
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T, typename StreamT>
diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..cd76c74 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -126,7 +126,11 @@ void PackerBuffer<BufferT>::contiguousBytes(
 #elif __has_warning("-Wmaybe-uninitialized")
   #pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
 #endif
-  std::memcpy(spot, ptr, len);
+  // Never write past the buffer if more is packed than was sized (the total is
+  // still counted, so the mismatch is detected)
+  if (usedSize_ <= size_ and len <= size_ - usedSize_) {
+    std::memcpy(spot, ptr, len);
+  }
   #pragma GCC diagnostic pop
 
   usedSize_ += len;
diff --git a/src/checkpoint/serializers/stream_serializer.h b/src/checkpoint/serializers/stream_serializer.h
index 2974009..7b8ed08 100644
--- a/src/checkpoint/serializers/stream_serializer.h
+++ b/src/checkpoint/serializers/stream_serializer.h
@@ -64,7 +64,7 @@ struct StreamPacker : BaseSerializer {
     n_bytes += size*num_elms;
   }
 
-  SerialSizeType usedBufferSize() {
+  SerialSizeType usedBufferSize() const {
     return n_bytes;
   }
 
@@ -85,7 +85,7 @@ struct StreamUnpacker : BaseSerializer {
     n_bytes += size*num_elms;
   }
 
-  SerialSizeType usedBufferSize() {
+  SerialSizeType usedBufferSize() const {
     return n_bytes;
   }
 
-- 
2.43.0


From a53823a073e52ed330d96a591496d080541856b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 09/19] fix: serialize polymorphic objects to any standard
 stream

Polymorphic objects are registered for StreamPacker<std::ostream> and
StreamUnpacker<std::istream> only, so with an std::ofstream or std::stringstream
argument the serializer of the derived class was not found.
---
 src/checkpoint/checkpoint_api.impl.h           |  6 +++---
 src/checkpoint/serializers/stream_serializer.h | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index de689bc..a7ca894 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -129,7 +129,7 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
   auto len = getSize<T>(target);
-  auto p = dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  auto p = dispatch::Standard::pack<T, StreamPacker<detail::OutStreamType<StreamT>>>(
     target, len, stream
   );
   dispatch::validatePackerBufferSize<T>(p, len);
@@ -139,7 +139,7 @@ template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
   auto mem = dispatch::Standard::allocate<T>();
   auto t = std::unique_ptr<T>(dispatch::Standard::construct<T>(mem));
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpacker<detail::InStreamType<StreamT>>>(
     t.get(), stream
   );
   return t;
@@ -147,7 +147,7 @@ std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, StreamUnpacker<detail::InStreamType<StreamT>>>(
     t, stream
   );
 }
diff --git a/src/checkpoint/serializers/stream_serializer.h b/src/checkpoint/serializers/stream_serializer.h
index 7b8ed08..54429e0 100644
--- a/src/checkpoint/serializers/stream_serializer.h
+++ b/src/checkpoint/serializers/stream_serializer.h
@@ -48,6 +48,7 @@
 #include "checkpoint/serializers/base_serializer.h"
 #include <ostream>
 #include <istream>
+#include <type_traits>
 
 namespace checkpoint {
 
@@ -94,6 +95,22 @@ private:
   SerialSizeType n_bytes = 0;
 };
 
+namespace detail {
+
+// Polymorphic objects are registered for the serializers of the standard stream
+// base classes, thus any stream derived from them is used through its base
+template <typename StreamT>
+using OutStreamType = typename std::conditional<
+  std::is_base_of<std::ostream, StreamT>::value, std::ostream, StreamT
+>::type;
+
+template <typename StreamT>
+using InStreamType = typename std::conditional<
+  std::is_base_of<std::istream, StreamT>::value, std::istream, StreamT
+>::type;
+
+} /* end namespace detail */
+
 } /* end namespace checkpoint */
 
 #endif /*INCLUDED_SRC_CHECKPOINT_SERIALIZERS_STREAM_SERIALIZER_H*/
-- 
2.43.0


From b5eade3e2d907237aa2589494b5bb563b757de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 10/19] fix: serialize every element of an array of polymorphic
 objects

For arrays and vectors whose elements are virtually serializable objects, only
the first element was traversed; the others were silently lost.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From 17e645e8c6b7ab537d201b794b7171b685e0933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:20 +0000
Subject: [PATCH 11/19] fix: do not modify the type name registry when
 reporting a wrong type

Looking up the name of an index read from a bad image inserted it into the
global map: concurrent failing deserializations corrupted it and crashed, and
every bad image made it grow.
---
 src/checkpoint/dispatch/type_registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..c3a6c23 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,11 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  // Do not insert: this may run concurrently, and for invalid indices
+  static std::string const unknown = "unknown type";
+  auto const& names = getRegisteredNames();
+  auto const iter = names.find(typeIdx);
+  return iter == names.end() ? unknown : iter->second;
 }
 
 template <typename ObjT>
-- 
2.43.0


From 2aca15791d8a67ad3c50cf3742a98e2fea71eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 12/19] fix: throw instead of aborting on a damaged polymorphic
 type index

In a torn file the index of a polymorphic pointee can name an abstract class, or
another class than the object deserialized into in place; both hit an assertion
(or, with NDEBUG, undefined behaviour) although the error is reportable.
---
 src/checkpoint/dispatch/reconstructor.h       |  6 ++++--
 src/checkpoint/dispatch/vrt/object_registry.h | 11 +++++++++-
 .../dispatch/vrt/virtual_serialize.h          | 20 ++++++++++++++-----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/checkpoint/dispatch/reconstructor.h b/src/checkpoint/dispatch/reconstructor.h
index 98c8016..73259e1 100644
--- a/src/checkpoint/dispatch/reconstructor.h
+++ b/src/checkpoint/dispatch/reconstructor.h
@@ -50,6 +50,8 @@
 
 #include <tuple>
 #include <cstdlib>
+#include <memory>
+#include <stdexcept>
 
 namespace checkpoint { namespace dispatch {
 
@@ -163,8 +165,8 @@ struct Reconstructor {
       "or reconstruct()",
       typeid(T).name()
     );
-    checkpointAssert(false, msg.get());
-    return nullptr;
+    // Reached with a damaged type index (e.g. in a torn file): not a crash
+    throw std::runtime_error(msg.get());
   }
 
   // Used for instantiating reconstructor on abstract types that might not be
diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..3c21afb 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,21 +58,24 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Deallocator, typename Constructor>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
+    Deallocator&& in_deallocator,
     Constructor&& in_constructor
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
+      deallocator_(in_deallocator),
       constructor_(in_constructor)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
+  std::function<void(void*)> deallocator_; /**< Undo allocation of object */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
 };
 
@@ -110,6 +113,7 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
+      [](void* buf) -> void        { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); },
       [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
     }
   );
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline auto deallocateConcreteType(TypeIdx han, void* buf) {
+  return getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..a6d1db8 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -47,6 +47,8 @@
 #include "checkpoint/dispatch/vrt/base.h"
 #include "checkpoint/dispatch/vrt/derived.h"
 
+#include <stdexcept>
+
 namespace checkpoint { namespace dispatch { namespace vrt {
 
 /**
@@ -120,8 +122,11 @@ struct SerializeVirtualTypeIfNeeded<
 
     if (target != nullptr) {
       // Support deserialization in place, and make sure it's safe
-      checkpointAssert(entry == target->_checkpointDynamicTypeIndex(),
-                       "Trying to deserialize in place over a mismatched type");
+      if (entry != target->_checkpointDynamicTypeIndex()) {
+        throw std::runtime_error(
+          "Trying to deserialize in place over a mismatched type"
+        );
+      }
     }
 
     return entry;
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+                             dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+                             );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From 64a15f314cb8f36d3b9db677defb55de59cefe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 13/19] fix: move, not copy, the restored value into an
 optional

The copy dropped the reserved capacity of vectors inside the optional (which is
restored everywhere else) and rejected move-only values.
---
 src/checkpoint/container/optional_serialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c953f3b..11cf272 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -67,7 +67,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
     auto* value = ValReconstructor::construct(valAllocated.buf);
     dispatch::ScopedDestroy<T> destroy{value};
     s | *value;
-    optional = *value;
+    optional = std::move(*value);
   } else {
     optional.reset();
   }
-- 
2.43.0


From d0c4a16126d77c0abfb0d856df107b33ab5d45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 14/19] fix: create optionals empty when deserializing, not
 through the value's tagged constructor

---
 src/checkpoint/container/optional_serialize.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index 11cf272..c6caae9 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -46,9 +46,27 @@
 
 #include "checkpoint/common.h"
 #include "checkpoint/dispatch/allocator.h"
+#include "checkpoint/dispatch/reconstructor.h"
 
+#include <new>
 #include <optional>
 
+namespace checkpoint { namespace dispatch {
+
+/*
+ * An optional is always created empty. It would otherwise be constructed from
+ * the tag whenever its value type has a tagged constructor, creating a value
+ * that is then discarded.
+ */
+template <typename T>
+struct Reconstructor<std::optional<T>> {
+  static std::optional<T>* construct(void* buf) {
+    return new (buf) std::optional<T>{};
+  }
+};
+
+}} /* end namespace checkpoint::dispatch */
+
 namespace checkpoint {
 
 template <typename SerializerT, typename T>
-- 
2.43.0


From 8cd4dc27cf7d86ad5813f9cc840166f303e25cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 15/19] fix: size the elements of a const Kokkos view, not
 default ones

---
 src/checkpoint/container/view_serialize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/view_serialize.h b/src/checkpoint/container/view_serialize.h
index e4dfe74..bc22024 100644
--- a/src/checkpoint/container/view_serialize.h
+++ b/src/checkpoint/container/view_serialize.h
@@ -421,7 +421,8 @@ inline void serialize_const(SerializerT& s, Kokkos::View<T,Args...>& view) {
   using ViewType = Kokkos::View<T,Args...>;
   using T_non_const = typename ViewType::traits::non_const_data_type;
   Kokkos::View<T_non_const,Args...> tmp_non_const(view.label(), view.layout());
-  if (s.isPacking()) {
+  // The elements are needed for sizing too: their sizes may vary
+  if (not s.isUnpacking()) {
     deepCopyWithLocalFence(tmp_non_const, view);
   }
   serialize_impl(s, tmp_non_const);
-- 
2.43.0


From 7d7621c5a1c59fcb545afb3cde94a56fa87a8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 16/19] fix: write every element of a Kokkos::UnorderedMap
 exactly once

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index 8118345..8a201af 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -68,9 +68,10 @@ void serializeKokkosUnorderedMapElems(
     typename Kokkos::UnorderedMap<Key, Value, Device, Hasher, EqualTo>::size_type;
 
   for (mapSizeType i = 0; i < map.capacity(); i++) {
-    Key keyAtI = map.key_at(i);
-    if (map.exists(keyAtI)) {
-      Value val = map.value_at(map.find(keyAtI));
+    // Unused slots hold stale or default keys, which may exist elsewhere
+    if (map.valid_at(i)) {
+      Key keyAtI = map.key_at(i);
+      Value val = map.value_at(i);
 
       s | keyAtI;
       s | val;
-- 
2.43.0


From 1baadd5a452ce5eb866471e20de7d9e9c37c58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:52 +0000
Subject: [PATCH 17/19] fix: remove the old elements of a Kokkos::UnorderedMap
 read in place

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index 8a201af..fb593bf 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -97,8 +97,9 @@ void deserializeInsertElems(
   using ValReconstructor =
     dispatch::Reconstructor<typename dispatch::CleanType<Value>::CleanT>;
 
-  // resize unordered map
+  // resize unordered map, leaving none of the elements it might have had
   map.rehash(map_capacity);
+  map.clear();
 
   KeyAlloc keyAllocated;
   ValueAlloc valAllocated;
-- 
2.43.0


From 5d3c1a34c21433ae1255c3a60f7d846128266523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:04 +0000
Subject: [PATCH 18/19] fix: destroy the temporaries a Kokkos::UnorderedMap is
 restored through

---
 src/checkpoint/container/kokkos_unordered_map_serialize.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checkpoint/container/kokkos_unordered_map_serialize.h b/src/checkpoint/container/kokkos_unordered_map_serialize.h
index fb593bf..f5b25a6 100644
--- a/src/checkpoint/container/kokkos_unordered_map_serialize.h
+++ b/src/checkpoint/container/kokkos_unordered_map_serialize.h
@@ -105,7 +105,9 @@ void deserializeInsertElems(
   ValueAlloc valAllocated;
   for (SerialSizeType i = 0; i < map_size; i++) {
     auto* key = KeyReconstructor::construct(keyAllocated.buf);
+    dispatch::ScopedDestroy<Key> destroy_key{key};
     auto* val = ValReconstructor::construct(valAllocated.buf);
+    dispatch::ScopedDestroy<Value> destroy_val{val};
 
     s | *key;
     s | *val;
-- 
2.43.0


From c5d8bb5672b41ef7a79480dd8c880961f10a36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:43 +0000
Subject: [PATCH 19/19] fix: compare Kokkos views of every rank, not only of
 rank one

---
 src/checkpoint/container/view_traverse_ndim.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/checkpoint/container/view_traverse_ndim.h b/src/checkpoint/container/view_traverse_ndim.h
index 18dfd7d..4bebed9 100644
--- a/src/checkpoint/container/view_traverse_ndim.h
+++ b/src/checkpoint/container/view_traverse_ndim.h
@@ -141,7 +141,7 @@ struct TraverseRecurImplBase {
       auto const ret = ChildT::apply(
         view,nd,std::tuple_cat(idx,std::tuple<SizeType>(i)),call
       );
-      neq += !ret;
+      neq += ret;
     }
     return neq;
   }
@@ -156,7 +156,7 @@ struct TraverseRecurImplBase {
       auto const ret = ChildT::apply(
         view,nd,std::tuple_cat(idx,std::tuple<SizeType>(i)),call
       );
-      neq += !ret;
+      neq += ret;
     }
     return neq;
   }
@@ -242,8 +242,11 @@ struct TraverseRecurImpl {
     return true;
   }
 
-  static bool apply(ViewT const& view, unsigned, TupleT tup, Callable call) {
-    return dispatchViewType(view,call,tup);
+  // Return the number of calls that returned false
+  static CountType apply(
+    ViewT const& view, unsigned, TupleT tup, Callable call
+  ) {
+    return dispatchViewType(view,call,tup) ? 0 : 1;
   }
 };
 
-- 
2.43.0

