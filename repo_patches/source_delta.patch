From c0e27b74327bb082d8e9f1bc2e4bbdbcfd58a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 01/22] sim: allow overriding the thread pool's spin-wait
 iterations (off by default)

---
 src/thread_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..ef32f21 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -305,7 +305,11 @@ namespace
 		}
 	};
 
+#ifdef MUU_SIM_SPIN_ITERATIONS // only defined when building for deterministic simulation
+	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = MUU_SIM_SPIN_ITERATIONS;
+#else
 	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = 100;
+#endif
 
 	class thread_pool_worker
 	{
-- 
2.43.0


From 797f29fce60dd54b2debe978227fa6fe05cb4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 02/22] fix: thread_pool::wait() could return before a finished
 task's callable was destroyed

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index ef32f21..ce8dc3a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -369,8 +369,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
-										 monitor->decrement();
 										 t->~task();
+										 monitor->decrement();
 									 }
 								 }
 							 } };
-- 
2.43.0


From b427013c904c49b4e3d90f0ba141cc8e026443a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 03/22] fix: thread_pool constructor hung when creating one of
 the worker threads failed

---
 src/thread_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index ce8dc3a..9eebe38 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -479,6 +479,10 @@ namespace
 			size_t constructed_workers	 = {};
 			auto unwind_workers			 = scope_guard{ [&]() noexcept
 												{
+												   for (size_t i = worker_count; i-- > 0_sz;)
+													   queue(i).terminate();
+												   for (size_t i = constructed_workers; i-- > 0_sz;)
+													   worker(i).terminate();
 												   for (size_t i = constructed_workers; i-- > 0_sz;)
 													   worker(i).~thread_pool_worker();
 											   } };
-- 
2.43.0


From a799c754d7a58cecf1656e0b82cadbb0b7561e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 04/22] fix: thread_pool constructor dereferenced null when
 allocation failed

---
 src/thread_pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 9eebe38..6137415 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -13,6 +13,7 @@
 #include "muu/math.h"
 #include "muu/thread_name.h"
 #include "muu/impl/std_string.h"
+#include "muu/impl/std_new.h"
 #include "muu/pause.h"
 #include "os.h"
 #if !MUU_HAS_EXCEPTIONS
@@ -701,6 +702,11 @@ extern "C" //
 			if (!buffer_ptr)
 				std::terminate();
 		}
+#else
+		{
+			if (!buffer_ptr)
+				throw std::bad_alloc{};
+		}
 #endif
 
 		const auto unwind = scope_fail{ [=]() noexcept { muu::aligned_free(buffer_ptr); } };
-- 
2.43.0


From f51d3aa8d7ad0ec05d190c74327b2afb644dcb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 05/22] fix: thread_pool move-assignment leaked the assigned-to
 pool and its threads

---
 include/muu/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..3a5c643 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,11 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (&rhs != this)
+			{
+				if (auto storage = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+					::muu_impl_thread_pool_destroy(storage);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 8303ca73ea1d09c1b72e7f687219c2af20397bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 06/22] fix: emplacement_array constructor ignored allocation
 failure

---
 include/muu/emplacement_array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..c2d2035 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -115,12 +115,16 @@ namespace muu
 			if (capacity_)
 			{
 				storage_ = static_cast<std::byte*>(muu::aligned_alloc(sizeof(T) * capacity_, alignof(T)));
-				MUU_ASSERT(storage_ && "aligned_alloc() failed!");
 #if !MUU_HAS_EXCEPTIONS
 				{
 					if (!storage_)
 						std::terminate();
 				}
+#else
+				{
+					if (!storage_)
+						throw std::bad_alloc{};
+				}
 #endif
 			}
 		}
-- 
2.43.0


From e3ffb1d8316b7f35894d52e7662166ea71ee803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 07/22] fix: emplacement_array self-move-assignment destroyed
 its elements

---
 include/muu/emplacement_array.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index c2d2035..2f30662 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -144,13 +144,16 @@ namespace muu
 		/// \brief Move-assignment operator.
 		emplacement_array& operator=(emplacement_array&& rhs) noexcept
 		{
-			release();
-			count_		  = rhs.count_;
-			capacity_	  = rhs.capacity_;
-			storage_	  = rhs.storage_;
-			rhs.count_	  = 0;
-			rhs.capacity_ = 0;
-			rhs.storage_  = nullptr;
+			if (&rhs != this)
+			{
+				release();
+				count_		  = rhs.count_;
+				capacity_	  = rhs.capacity_;
+				storage_	  = rhs.storage_;
+				rhs.count_	  = 0;
+				rhs.capacity_ = 0;
+				rhs.storage_  = nullptr;
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 4c2753ddd3199c4ae933ffbbc77a86a9b3edbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:53 +0000
Subject: [PATCH 08/22] fix: blob ignored allocation failure and could release
 its data before copying from it

---
 include/muu/blob.h | 48 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..77fb6fe 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -10,6 +10,10 @@
 #include "aligned_alloc.h"
 #include "impl/std_memcpy.h"
 #include "impl/std_utility.h"
+#include "impl/std_new.h"
+#if !MUU_HAS_EXCEPTIONS
+	#include "impl/std_exception.h" // std::terminate()
+#endif
 #include "impl/header_start.h"
 
 namespace muu
@@ -38,6 +42,22 @@ namespace muu
 				return align > impl::aligned_alloc_min_align ? align : impl::aligned_alloc_min_align;
 			return align > big_align_ ? align : big_align_;
 		}
+
+		MUU_NODISCARD
+		MUU_ATTR(returns_nonnull)
+		static void* allocate(size_t size, size_t align)
+		{
+			auto ptr = aligned_alloc(size, align);
+			if (!ptr)
+			{
+#if MUU_HAS_EXCEPTIONS
+				throw std::bad_alloc{};
+#else
+				std::terminate();
+#endif
+			}
+			return ptr;
+		}
 		/// \endcond
 
 	  public:
@@ -57,7 +77,7 @@ namespace muu
 		explicit blob(size_t size, const void* src = nullptr, size_t align = {})
 			: alignment_{ actual_alignment(size, align) },
 			  size_{ size },
-			  data_{ size_ ? aligned_alloc(size_, alignment_) : nullptr }
+			  data_{ size_ ? allocate(size_, alignment_) : nullptr }
 		{
 			if (data_ && src)
 				MUU_MEMCPY(data_, src, size_);
@@ -106,11 +126,12 @@ namespace muu
 		{
 			new_align = actual_alignment(sz, new_align);
 
-			// check if this is effectively a resize with a copy or move
-			if (new_align <= alignment_)
-			{
+			if (new_align < alignment_)
 				new_align = alignment_;
 
+			// check if this is effectively just a resize or a copy
+			if (new_align == alignment_ && (sz == size_ || !src))
+			{
 				resize(sz); // no-op if the same size as current
 				MUU_ASSERT(size_ == sz);
 
@@ -120,14 +141,15 @@ namespace muu
 				return *this;
 			}
 
-			// changing alignment; must deallocate and reallocate
+			// must reallocate; the old data is released last (src may point into it, and the allocation may fail)
+			auto new_data = sz ? allocate(sz, new_align) : nullptr;
+			if (src && new_data)
+				MUU_MEMCPY(new_data, src, sz);
 			if (data_)
 				aligned_free(data_);
 			alignment_ = new_align;
 			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
-			if (src && data_)
-				MUU_MEMCPY(data_, src, size_);
+			data_	   = new_data;
 			return *this;
 		}
 
@@ -139,7 +161,7 @@ namespace muu
 		/// \param	rhs	The blob to copy.
 		///
 		/// \return	A reference to the LHS blob.
-		blob& operator=(const blob& rhs) noexcept
+		blob& operator=(const blob& rhs)
 		{
 			return assign(rhs.size_, rhs.data_, rhs.alignment_);
 		}
@@ -171,7 +193,7 @@ namespace muu
 		/// \param	sz New size.
 		///
 		/// \return	A reference to the blob.
-		blob& resize(size_t sz) noexcept
+		blob& resize(size_t sz)
 		{
 			if (size_ == sz)
 				return *this;
@@ -191,8 +213,7 @@ namespace muu
 				// something -> something
 				else
 				{
-					auto new_data = aligned_alloc(sz, alignment_);
-					MUU_ASSERT(new_data);
+					auto new_data = allocate(sz, alignment_);
 
 					MUU_MEMCPY(new_data, data_, min(sz, size_));
 					aligned_free(data_);
@@ -203,8 +224,7 @@ namespace muu
 			// nothing -> something
 			else
 			{
-				data_ = aligned_alloc(sz, alignment_);
-				MUU_ASSERT(data_);
+				data_ = allocate(sz, alignment_);
 			}
 
 			size_ = sz;
-- 
2.43.0


From 00c075b2f7bf398c1bc097bf78a6aa13bcd5ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 09/22] fix: printing vector types terminated the program if
 the stream threw

---
 src/vector_types_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector_types_common.cpp b/src/vector_types_common.cpp
index cdb6941..37116c0 100644
--- a/src/vector_types_common.cpp
+++ b/src/vector_types_common.cpp
@@ -16,7 +16,7 @@ MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 namespace
 {
 	template <typename Char, typename T>
-	static void print_vector(std::basic_ostream<Char>& os, const T* x, size_t dims) noexcept
+	static void print_vector(std::basic_ostream<Char>& os, const T* x, size_t dims)
 	{
 		auto saver	= stream_saver{ os }; // restores flags, precision, width and fill
 		saver.width = 0;				  // operator<< consumes width
@@ -246,7 +246,7 @@ namespace muu::impl
 namespace
 {
 	template <typename Char, typename T>
-	static void print_matrix(std::basic_ostream<Char>& os, const T* m, size_t rows, size_t cols) noexcept
+	static void print_matrix(std::basic_ostream<Char>& os, const T* m, size_t rows, size_t cols)
 	{
 		if (rows == 1)
 		{
@@ -499,7 +499,7 @@ namespace
 	template <typename Char, typename T>
 	static void print_compound_vector(std::basic_ostream<Char>& os,
 									  const impl::compound_vector_elem<T>* elem,
-									  size_t count) noexcept
+									  size_t count)
 	{
 		MUU_ASSERT(elem);
 		MUU_ASSERT(count);
-- 
2.43.0


From 03cb6f9440788ecbfccf139631aee3816d56531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 10/22] fix: uuid::generate() seeded each thread from a single
 32-bit word, making duplicate uuids likely

---
 src/uuid.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index c2e55f0..f9fc004 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -77,10 +77,30 @@ namespace
 		return rdev;
 	}
 
+	// seeds the whole engine state from the system (a single 32-bit word makes collisions between threads likely)
+	struct random_device_seeder
+	{
+		using result_type = std::uint_least32_t;
+
+		template <typename It>
+		void generate(It begin, It end)
+		{
+			for (; begin != end; ++begin)
+				*begin = static_cast<result_type>(random_device()());
+		}
+	};
+
+	MUU_NODISCARD
+	static std::mt19937 make_mersenne_twister() noexcept
+	{
+		random_device_seeder seeder;
+		return std::mt19937{ seeder };
+	}
+
 	MUU_NODISCARD
 	static std::mt19937& mersenne_twister() noexcept
 	{
-		thread_local std::mt19937 engine{ random_device()() };
+		thread_local std::mt19937 engine = make_mersenne_twister();
 		return engine;
 	}
 
-- 
2.43.0


From 4feb9d96ef6b3d44f4d85883f8996366e408806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 11/22] fix: aligned_alloc() wrapped huge sizes around instead
 of failing

---
 include/muu/aligned_alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..64c2958 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,7 +36,9 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
-		size	  = (size + alignment - 1u) & ~(alignment - 1u);
+		if (size > ~size_t{} - (alignment - 1u)) // would wrap around when rounding up
+			return nullptr;
+		size = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
 		return muu::assume_aligned<impl::aligned_alloc_min_align>(_aligned_malloc(size, alignment));
-- 
2.43.0


From 716f75b95b2d7ff7e6378e750c9d8ace83360f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 12/22] fix: emplacement_array wrapped huge capacities around
 instead of failing

---
 include/muu/emplacement_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 2f30662..84381f4 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -114,7 +114,8 @@ namespace muu
 		{
 			if (capacity_)
 			{
-				storage_ = static_cast<std::byte*>(muu::aligned_alloc(sizeof(T) * capacity_, alignof(T)));
+				if (capacity_ <= ~size_t{} / sizeof(T))
+					storage_ = static_cast<std::byte*>(muu::aligned_alloc(sizeof(T) * capacity_, alignof(T)));
 #if !MUU_HAS_EXCEPTIONS
 				{
 					if (!storage_)
-- 
2.43.0


From 721ca82929cfdf7f977e355c12c7ed8b2b5bee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 13/22] fix: for_each() over integers rejected narrow types and
 mishandled backwards ranges at the type's limit

---
 include/muu/thread_pool.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 3a5c643..5920e97 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -849,7 +849,7 @@ namespace muu
 			static_assert(std::is_same_v<std::remove_reference_t<OriginalTask>, std::remove_reference_t<Task>>);
 			static_assert(Arity <= 2);
 
-			MUU_ASSERT(batch_start < batch_end);
+			MUU_ASSERT(batch_start != batch_end);
 			MUU_ASSERT(batch_index < workers());
 
 			const auto queue_index = shared_queue_index == no_available_queue //
@@ -859,12 +859,12 @@ namespace muu
 			enqueue(queue_index,
 					[=, batch = wrap_batched_task<OriginalTask>(static_cast<Task&&>(task))]() mutable noexcept
 					{
-						for (; batch_start < batch_end; batch_start++)
+						for (; batch_start != batch_end; batch_start++)
 						{
 							if constexpr (Arity == 2)
-								batch(static_cast<ValueType>(batch_start), batch_index);
+								batch(static_cast<ValueType>(static_cast<remove_enum<ValueType>>(batch_start)), batch_index);
 							else
-								batch(static_cast<ValueType>(batch_start));
+								batch(static_cast<ValueType>(static_cast<remove_enum<ValueType>>(batch_start)));
 						}
 					});
 
@@ -923,24 +923,28 @@ namespace muu
 										std::conditional_t<is_signed<remove_enum<value_type>>, signed, unsigned>>;
 			using size_type	  = largest<make_unsigned<offset_type>, size_t>;
 
+			// (unsigned so one-past-the-end is representable at the limits of the value type)
+			using index_type = make_unsigned<offset_type>;
+			auto range_start = static_cast<index_type>(static_cast<offset_type>(start));
+			auto range_end	 = static_cast<index_type>(static_cast<offset_type>(end));
+
 			// reverse the start and end if they're backwards (this is a parallel for; order should be irrelevant)
 			if (start > end)
 			{
-				T temp = end;
-				end	   = T{ static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 } };
-				start  = T{ static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 } };
+				const auto temp = range_end;
+				range_end		= static_cast<index_type>(range_start + index_type{ 1 });
+				range_start		= static_cast<index_type>(temp + index_type{ 1 });
 			}
 
 			// determine batch count and distribute indices
-			const auto job_count =
-				static_cast<size_type>(static_cast<offset_type>(end) - static_cast<offset_type>(start));
+			const auto job_count = static_cast<size_type>(static_cast<index_type>(range_end - range_start));
 			MUU_ASSERT(job_count);
 			const auto worker_count		 = this->workers();
 			auto batch_generator		 = impl::batch_size_generator<size_type>{ job_count, worker_count };
-			offset_type next_batch_start = unwrap(start);
+			index_type next_batch_start	 = range_start;
 			size_type next_batch_size	 = batch_generator();
 			size_t batch_index			 = 0u;
-			auto batch_count			 = muu::min(job_count, worker_count);
+			auto batch_count			 = job_count < worker_count ? static_cast<size_t>(job_count) : worker_count;
 
 			// try to get a shared queue for all the allocations
 			const auto shared_queue_index = ::muu_impl_thread_pool_lock_multiple(storage_, batch_count);
@@ -951,7 +955,7 @@ namespace muu
 			while (true)
 			{
 				const auto batch_start = next_batch_start;
-				next_batch_start	   = static_cast<offset_type>(batch_start + next_batch_size);
+				next_batch_start	   = static_cast<index_type>(batch_start + next_batch_size);
 				next_batch_size		   = batch_generator();
 
 				if (next_batch_size)
-- 
2.43.0


From 81c0ce7cba21256a33b37720596c7b99df518cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 14/22] fix: printing an axis_angle did not compile

---
 include/muu/axis_angle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/axis_angle.h b/include/muu/axis_angle.h
index 2e8e43a..608d046 100644
--- a/include/muu/axis_angle.h
+++ b/include/muu/axis_angle.h
@@ -164,7 +164,9 @@ namespace muu
 		template <typename Char, typename Traits>
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& os, const axis_angle& rot)
 		{
-			impl::print_compound_vector(os, &rot.axis.x, 3_sz, true, &rot.angle, 1_sz, false);
+			const impl::compound_vector_elem<Scalar> elems[]{ { &rot.axis.x, 3 }, //
+															  { &rot.angle, 1 } };
+			impl::print_compound_vector(os, elems);
 			return os;
 		}
 
-- 
2.43.0


From 8253a8bca8c28fe1b4e96ba159de30cb53fa1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:59 +0000
Subject: [PATCH 15/22] fix: moving or trimming an empty string_param was
 undefined behaviour

visit() was told to assume there is a value; it is called for empty ones too
---
 src/string_param.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..4cddba4 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -220,8 +220,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
@@ -247,8 +245,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage1, T& storage2, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
-- 
2.43.0


From 7acbfbca46fb2cfa8c468c49baa3d3f1d37667c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 16/22] fix: string conversions that run out of memory
 terminated the program

transcode() and string_param's conversions allocate but were noexcept, so e.g.
creating a thread_pool with a wide name could not fail with an exception
---
 include/muu/string_param.h | 34 +++++++++++++++++-----------------
 include/muu/strings.h      | 18 ++++++++----------
 src/string_param.cpp       | 38 +++++++++++++++++++-------------------
 3 files changed, 44 insertions(+), 46 deletions(-)

diff --git a/include/muu/string_param.h b/include/muu/string_param.h
index 19c6fb0..7f9bed9 100644
--- a/include/muu/string_param.h
+++ b/include/muu/string_param.h
@@ -97,10 +97,10 @@ namespace muu
 		string_param(void*, const void*, size_t, char8_tag) noexcept; // owning (std::u8string*, const char8_t*, len)
 
 		MUU_API
-		void get_char8_view(void*) const noexcept; // (std::u8string_view*)
+		void get_char8_view(void*) const; // (std::u8string_view*)
 
 		MUU_API
-		void move_into_char8_string(void*) noexcept; // (std::u8string*)
+		void move_into_char8_string(void*); // (std::u8string*)
 
 		template <typename T>
 		MUU_NODISCARD
@@ -163,17 +163,17 @@ namespace muu
 		/// \brief	Returns a std::string_view of the string_param's payload.
 		MUU_NODISCARD
 		MUU_API
-		operator std::string_view() const& noexcept;
+		operator std::string_view() const&;
 
 		/// \brief	Returns a std::string_view of the string_param's payload (rvalue overload).
 		MUU_NODISCARD
 		MUU_API
-		explicit operator std::string_view() const&& noexcept;
+		explicit operator std::string_view() const&&;
 
 		/// \brief	Moves the string_param's payload into a std::string.
 		MUU_NODISCARD
 		MUU_API
-		operator std::string() && noexcept;
+		operator std::string() &&;
 
 		/// @}
 
@@ -208,17 +208,17 @@ namespace muu
 		/// \brief	Returns a std::wstring_view of the string_param's payload.
 		MUU_NODISCARD
 		MUU_API
-		operator std::wstring_view() const& noexcept;
+		operator std::wstring_view() const&;
 
 		/// \brief	Returns a std::wstring_view of the string_param's payload (rvalue overload).
 		MUU_NODISCARD
 		MUU_API
-		explicit operator std::wstring_view() const&& noexcept;
+		explicit operator std::wstring_view() const&&;
 
 		/// \brief	Moves the string_param's payload into a std::wstring.
 		MUU_NODISCARD
 		MUU_API
-		operator std::wstring() && noexcept;
+		operator std::wstring() &&;
 
 		/// @}
 
@@ -253,17 +253,17 @@ namespace muu
 		/// \brief	Returns a std::u16string_view of the string_param's payload.
 		MUU_NODISCARD
 		MUU_API
-		operator std::u16string_view() const& noexcept;
+		operator std::u16string_view() const&;
 
 		/// \brief	Returns a std::u16string_view of the string_param's payload (rvalue overload).
 		MUU_NODISCARD
 		MUU_API
-		explicit operator std::u16string_view() const&& noexcept;
+		explicit operator std::u16string_view() const&&;
 
 		/// \brief	Moves the string_param's payload into a std::u16string.
 		MUU_NODISCARD
 		MUU_API
-		operator std::u16string() && noexcept;
+		operator std::u16string() &&;
 
 		/// @}
 
@@ -298,17 +298,17 @@ namespace muu
 		/// \brief	Returns a std::u32string_view of the string_param's payload.
 		MUU_NODISCARD
 		MUU_API
-		operator std::u32string_view() const& noexcept;
+		operator std::u32string_view() const&;
 
 		/// \brief	Returns a std::u32string_view of the string_param's payload (rvalue overload).
 		MUU_NODISCARD
 		MUU_API
-		explicit operator std::u32string_view() const&& noexcept;
+		explicit operator std::u32string_view() const&&;
 
 		/// \brief	Moves the string_param's payload into a std::u32string.
 		MUU_NODISCARD
 		MUU_API
-		operator std::u32string() && noexcept;
+		operator std::u32string() &&;
 
 		/// @}
 
@@ -348,7 +348,7 @@ namespace muu
 
 		/// \brief	Returns a std::u8string_view of the string_param's payload.
 		MUU_NODISCARD
-		operator std::u8string_view() const& noexcept
+		operator std::u8string_view() const&
 		{
 			if (empty())
 				return {};
@@ -368,14 +368,14 @@ namespace muu
 
 		/// \brief	Returns a std::u8string_view of the string_param's payload (rvalue overload).
 		MUU_NODISCARD
-		explicit operator std::u8string_view() const&& noexcept
+		explicit operator std::u8string_view() const&&
 		{
 			return std::u8string_view{ *this }; // explicitly invoke lvalue overload
 		}
 
 		/// \brief	Moves the string_param's payload into a std::u8string.
 		MUU_NODISCARD
-		operator std::u8string() && noexcept
+		operator std::u8string() &&
 		{
 			if (empty())
 				return {};
diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..e2d625b 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -413,7 +413,7 @@ namespace muu
 	{
 		template <typename To, typename From>
 		MUU_NODISCARD
-		MUU_CONSTEXPR_STD_STRING std::basic_string<To> utf_transcode(std::basic_string_view<From> str) noexcept
+		MUU_CONSTEXPR_STD_STRING std::basic_string<To> utf_transcode(std::basic_string_view<From> str)
 		{
 			if (str.empty())
 				return {};
@@ -432,10 +432,8 @@ namespace muu
 			else
 			{
 				std::basic_string<To> out;
-				if constexpr (sizeof(To) < sizeof(From))
-					out.reserve((str.length() / 2u) * 3u);
-				else
-					out.reserve(str.length());
+				// enough for any sequence of code points, so that appending them never allocates
+				out.reserve(str.length() * (sizeof(char32_t) / sizeof(To)));
 
 				utf_decode(str,
 						   [&](char32_t cp) noexcept
@@ -461,7 +459,7 @@ namespace muu
 	/// \brief		Transcodes a UTF-8 string into another UTF encoding.
 	template <typename Char>
 	MUU_NODISCARD
-	MUU_CONSTEXPR_STD_STRING auto transcode(std::string_view str) noexcept
+	MUU_CONSTEXPR_STD_STRING auto transcode(std::string_view str)
 		-> std::conditional_t<std::is_same_v<Char, char>, std::string_view, std::basic_string<Char>>
 	{
 		if constexpr (std::is_same_v<Char, char>)
@@ -473,7 +471,7 @@ namespace muu
 	/// \brief		Transcodes a UTF wide string into another UTF encoding.
 	template <typename Char>
 	MUU_NODISCARD
-	MUU_CONSTEXPR_STD_STRING auto transcode(std::wstring_view str) noexcept
+	MUU_CONSTEXPR_STD_STRING auto transcode(std::wstring_view str)
 		-> std::conditional_t<std::is_same_v<Char, wchar_t>, std::wstring_view, std::basic_string<Char>>
 	{
 		if constexpr (std::is_same_v<Char, wchar_t>)
@@ -485,7 +483,7 @@ namespace muu
 	/// \brief		Transcodes a UTF-16 string into another UTF encoding.
 	template <typename Char>
 	MUU_NODISCARD
-	MUU_CONSTEXPR_STD_STRING auto transcode(std::u16string_view str) noexcept
+	MUU_CONSTEXPR_STD_STRING auto transcode(std::u16string_view str)
 		-> std::conditional_t<std::is_same_v<Char, char16_t>, std::u16string_view, std::basic_string<Char>>
 	{
 		if constexpr (std::is_same_v<Char, char16_t>)
@@ -497,7 +495,7 @@ namespace muu
 	/// \brief		Transcodes a UTF-32 string into another UTF encoding.
 	template <typename Char>
 	MUU_NODISCARD
-	MUU_CONSTEXPR_STD_STRING auto transcode(std::u32string_view str) noexcept
+	MUU_CONSTEXPR_STD_STRING auto transcode(std::u32string_view str)
 		-> std::conditional_t<std::is_same_v<Char, char32_t>, std::u32string_view, std::basic_string<Char>>
 	{
 		if constexpr (std::is_same_v<Char, char32_t>)
@@ -511,7 +509,7 @@ namespace muu
 	/// \brief		Transcodes a UTF-8 string into another UTF encoding.
 	template <typename Char>
 	MUU_NODISCARD
-	MUU_CONSTEXPR_STD_STRING auto transcode(std::u8string_view str) noexcept
+	MUU_CONSTEXPR_STD_STRING auto transcode(std::u8string_view str)
 		-> std::conditional_t<std::is_same_v<Char, char8_t>, std::u8string_view, std::basic_string<Char>>
 	{
 		if constexpr (std::is_same_v<Char, char8_t>)
diff --git a/src/string_param.cpp b/src/string_param.cpp
index 4cddba4..5efa0d4 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -218,7 +218,7 @@ namespace
 	}
 
 	template <typename T, typename Func>
-	static void visit(T& storage, uint8_t mode_, Func&& fn) noexcept
+	static void visit(T& storage, uint8_t mode_, Func&& fn)
 	{
 		switch (mode_)
 		{
@@ -488,14 +488,14 @@ namespace
 {
 	template <typename Char, typename T>
 	MUU_NODISCARD
-	static std::basic_string_view<Char> get_view(T& storage_, uint8_t& mode_) noexcept
+	static std::basic_string_view<Char> get_view(T& storage_, uint8_t& mode_)
 	{
 		MUU_ASSUME(mode_ > uint8_t{});
 
 		std::basic_string_view<Char> out;
 		visit(storage_,
 			  mode_,
-			  [&](auto& str) noexcept
+			  [&](auto& str)
 			  {
 				  using type = remove_cvref<decltype(str)>;
 				  if constexpr (any_same<type, std::basic_string<Char>, std::basic_string_view<Char>>)
@@ -513,7 +513,7 @@ namespace
 	}
 }
 
-string_param::operator std::string_view() const& noexcept
+string_param::operator std::string_view() const&
 {
 	if (empty())
 		return {};
@@ -521,7 +521,7 @@ string_param::operator std::string_view() const& noexcept
 	return get_view<char>(storage_, mode_);
 }
 
-string_param::operator std::wstring_view() const& noexcept
+string_param::operator std::wstring_view() const&
 {
 	if (empty())
 		return {};
@@ -529,7 +529,7 @@ string_param::operator std::wstring_view() const& noexcept
 	return get_view<wchar_t>(storage_, mode_);
 }
 
-string_param::operator std::u16string_view() const& noexcept
+string_param::operator std::u16string_view() const&
 {
 	if (empty())
 		return {};
@@ -537,7 +537,7 @@ string_param::operator std::u16string_view() const& noexcept
 	return get_view<char16_t>(storage_, mode_);
 }
 
-string_param::operator std::u32string_view() const& noexcept
+string_param::operator std::u32string_view() const&
 {
 	if (empty())
 		return {};
@@ -545,7 +545,7 @@ string_param::operator std::u32string_view() const& noexcept
 	return get_view<char32_t>(storage_, mode_);
 }
 
-void string_param::get_char8_view(void* str) const noexcept
+void string_param::get_char8_view(void* str) const
 {
 #if MUU_HAS_CHAR8_STRINGS
 	*static_cast<std::u8string_view*>(str) = get_view<char8_t>(storage_, mode_);
@@ -558,14 +558,14 @@ namespace
 {
 	template <typename Char, typename T>
 	MUU_NODISCARD
-	static std::basic_string<Char> move_into_string(T& storage_, uint8_t& mode_) noexcept
+	static std::basic_string<Char> move_into_string(T& storage_, uint8_t& mode_)
 	{
 		MUU_ASSUME(mode_ > uint8_t{});
 
 		std::basic_string<Char> out;
 		visit(storage_,
 			  mode_,
-			  [&](auto& str) noexcept
+			  [&](auto& str)
 			  {
 				  using type = remove_cvref<decltype(str)>;
 				  if constexpr (std::is_same_v<type, std::basic_string<Char>>)
@@ -587,27 +587,27 @@ namespace
 	}
 }
 
-string_param::operator std::string_view() const&& noexcept
+string_param::operator std::string_view() const&&
 {
 	return std::string_view{ *this }; // explicitly invoke lvalue overload
 }
 
-string_param::operator std::wstring_view() const&& noexcept
+string_param::operator std::wstring_view() const&&
 {
 	return std::wstring_view{ *this }; // explicitly invoke lvalue overload
 }
 
-string_param::operator std::u16string_view() const&& noexcept
+string_param::operator std::u16string_view() const&&
 {
 	return std::u16string_view{ *this }; // explicitly invoke lvalue overload
 }
 
-string_param::operator std::u32string_view() const&& noexcept
+string_param::operator std::u32string_view() const&&
 {
 	return std::u32string_view{ *this }; // explicitly invoke lvalue overload
 }
 
-string_param::operator std::string() && noexcept
+string_param::operator std::string() &&
 {
 	if (empty())
 		return {};
@@ -615,7 +615,7 @@ string_param::operator std::string() && noexcept
 	return move_into_string<char>(storage_, mode_);
 }
 
-string_param::operator std::wstring() && noexcept
+string_param::operator std::wstring() &&
 {
 	if (empty())
 		return {};
@@ -623,7 +623,7 @@ string_param::operator std::wstring() && noexcept
 	return move_into_string<wchar_t>(storage_, mode_);
 }
 
-string_param::operator std::u16string() && noexcept
+string_param::operator std::u16string() &&
 {
 	if (empty())
 		return {};
@@ -631,7 +631,7 @@ string_param::operator std::u16string() && noexcept
 	return move_into_string<char16_t>(storage_, mode_);
 }
 
-string_param::operator std::u32string() && noexcept
+string_param::operator std::u32string() &&
 {
 	if (empty())
 		return {};
@@ -639,7 +639,7 @@ string_param::operator std::u32string() && noexcept
 	return move_into_string<char32_t>(storage_, mode_);
 }
 
-void string_param::move_into_char8_string(void* str) noexcept
+void string_param::move_into_char8_string(void* str)
 {
 #if MUU_HAS_CHAR8_STRINGS
 	*static_cast<std::u8string*>(str) = move_into_string<char8_t>(storage_, mode_);
-- 
2.43.0


From a45ffbac7c493c089dd250a6c954cdf88564e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 17/22] fix: utf16_decoder treated a high surrogate as a
 complete code point

---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From 090e2cfa2a64592773e0c79ac1ddb7b96e5622e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:06 +0000
Subject: [PATCH 18/22] fix: UTF-16 text without any zero bytes was decoded
 with its bytes swapped

---
 include/muu/utf_decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..1600ec6 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -59,9 +59,9 @@ namespace muu::impl
 			high += static_cast<int>(byte_select<sizeof(T) - 1u>(*c) == uint8_t{});
 		}
 		if constexpr (build::is_big_endian)
-			return low > high;
+			return low >= high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From c65778136eb593d9cbaf4bdf41265982ab79028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 19/22] fix: viewing a string_param whose text is only a byte
 order mark dereferenced null

---
 src/string_param.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index 5efa0d4..f9568e8 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -506,7 +506,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (const auto converted = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *converted;
 				  }
 			  });
 		return out;
-- 
2.43.0


From 5b2312cfe85150642b866ce1338e97eb063105b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:02 +0000
Subject: [PATCH 20/22] fix: U+0000 was dropped when encoding text as UTF-8 or
 UTF-16

---
 include/muu/strings.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index e2d625b..7a32597 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1_sz;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 2_sz;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 3_sz;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 4_sz;
 				}
 			}
 
@@ -116,8 +121,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -158,8 +162,8 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				// (a low surrogate is never zero, but the only code unit of U+0000 is)
+				return std::basic_string_view<T>{ code_units, code_units[1] ? 2_sz : 1_sz };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 8f95dc592919e29c47ef483eee7073d47f756071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:54 +0000
Subject: [PATCH 21/22] fix: merging accumulators dropped the samples of a
 non-empty one, and did not compile for floating-point values

---
 include/muu/accumulator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..eb47ca3 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -156,13 +156,13 @@ namespace muu
 			{
 				if (empty())
 				{
-					impl_and_count.first().add(other.impl_and_count.first());
-					impl_and_count.second() += other.impl_and_count.second();
+					impl_and_count.first()	= other.impl_and_count.first();
+					impl_and_count.second() = other.impl_and_count.second();
 				}
 				else
 				{
-					impl_and_count.first()	= other.impl_and_count.first();
-					impl_and_count.second() = other.impl_and_count.second();
+					impl_and_count.first().add(other.impl_and_count.first());
+					impl_and_count.second() += other.impl_and_count.second();
 				}
 			}
 			return *this;
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto correction = other.correction_; // (other might be *this)
+				kahan_add(other.sum_);
+				correction_ += correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 51fbf326a05a81b4c295b6429989ca6337c4a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:10 +0000
Subject: [PATCH 22/22] fix: negative tags overwrote the pointer of a
 tagged_ptr

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..0063d5f 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | (static_cast<uintptr_t>(tag) & tag_mask);
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | (static_cast<uintptr_t>(tag) & tag_mask);
 			}
 		}
 
-- 
2.43.0

