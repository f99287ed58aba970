From f6492eef26a88a2023a1e7a33fc39c7f65154f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 01/60] fix: MatrixArchive::clear(name) also removes a string
 entry

It erased from the matrix map twice and never from the string map.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..70e8a12 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 458da11f1a9dbe94b81239911c4fd5d54688764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 02/60] fix: MatrixArchive::append writes the entries

It only opened the file for appending and wrote nothing.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 70e8a12..2a0c939 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -436,10 +436,12 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From d8667af042b43cbfac6026bbac93967a9b8cdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 03/60] fix: MatrixArchive keeps one entry per name in every
 setter

setMatrix and setString replace an entry of the other kind, setScalar,
setVector, createMatrix and load left both behind; createMatrix also
accepted names that make a later save fail.
---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..b3c2162 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2a0c939..4d258d2 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -65,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
@@ -73,6 +75,7 @@ namespace sm
       }
     }
 
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
     return val;
@@ -424,9 +427,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From e5e7a89c88f036d0efab9f4dfd6c787d0d8a90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 04/60] fix: MatrixArchive::load rejects truncated and
 oversized blocks

The reads were not checked: the tags of a truncated block were compared
uninitialised (or stale), so a truncated file could be accepted, and a
damaged size field led to allocations far beyond the file. The number of
data bytes was computed in 32 bits.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 4d258d2..69eca71 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -6,6 +6,20 @@
 namespace sm 
 {
 
+  namespace {
+    // Throws unless the stream still holds count elements of the given size.
+    void checkAvailable(std::istream & fin, boost::uint64_t count, boost::uint64_t elementSize)
+    {
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a block");
+      const std::streamoff here = fin.tellg();
+      fin.seekg(0, std::ios::end);
+      const std::streamoff end = fin.tellg();
+      fin.seekg(here);
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good() && here >= 0 && end >= here, "Unable to determine the size of the file");
+      SM_ASSERT_TRUE(MatrixArchiveException, count <= boost::uint64_t(end - here) / elementSize, "The block is larger than the rest of the file");
+    }
+  }
+
   const size_t MatrixArchive::s_fixedNameSize = 32;
   const char MatrixArchive::s_magicCharStartAMatrixBlock = 'A';
   const char MatrixArchive::s_magicCharStartAStringBlock = 'S';
@@ -221,7 +235,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = std::streamsize(rows) * cols * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -245,9 +259,9 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&cols),4);
     
     // data
-
+    checkAvailable(fin, boost::uint64_t(rows) * cols, sizeof(double));
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = std::streamsize(rows) * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
   }
@@ -276,6 +290,7 @@ namespace sm
     fin.read(reinterpret_cast<char *>(&stringSize),4);
 
     // data
+    checkAvailable(fin, stringSize, 1);
     stringValue.resize(stringSize);
     fin.read(&stringValue[0], stringSize);
   }
@@ -312,6 +327,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 1cb8869aeabb2bf373812252e05f3b4e461448d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 05/60] fix: isValid(NsecTime) reported the invalid time as
 valid

---
 sm_timing/src/NsecTimeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..791b8dc 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -40,7 +40,7 @@ constexpr NsecTime getInvalidTime() {
 }
 
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From 99bb3eaaa0003bad0f2151440ae541e08772cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 06/60] fix: define constexpr getInvalidTime() in the header so
 that it can be called

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 4 ----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index 791b8dc..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,10 +35,6 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
    return getInvalidTime() != time;
 }
-- 
2.43.0


From 16465b85fd657b2887c175dd1528cda11920dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 07/60] fix: TimestampCorrector keeps no stale midpoint segment
 when the hull shrinks to two points

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..6a31226 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    // The hull may have shrunk: its only segment is the midpoint segment now.
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From 345d7be48ecd5d2ecc9f5ff48bb3cb5b32ed4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 08/60] fix: TimestampCorrector's hull test does not overflow
 with integer nanoseconds

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 6a31226..6f1d313 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -162,9 +162,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // The products of two time spans do not fit into an integer time type.
+  const double determinant = static_cast<double>(v1.x) * static_cast<double>(v2.y)
+      - static_cast<double>(v1.y) * static_cast<double>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= 0.0;
 }
 
 } // namespace timing
-- 
2.43.0


From db41ba75c4103c74fb3f1ec306a238e1baba8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 09/60] fix: TimestampCorrector::reset() also forgets the
 observations of the pending corrector

---
 sm_timing/include/sm/timing/TimestampCorrector.hpp             | 2 +-
 .../include/sm/timing/implementation/TimestampCorrector.hpp    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index 6572044..567012c 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -94,7 +94,7 @@ namespace sm {
       /**
        * Clear the points of the convex hull
        */
-      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; _pendingCorrector.reset(); }
 
       double getSlope() const;
       double getOffset() const;
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 6f1d313..89f64d0 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -76,7 +76,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    reset();
+    _convexHull.clear();
+    _midpointSegmentIndex = 0u;
     _pendingCorrector->_pendingCorrector = _pendingCorrector;
     std::swap(*_pendingCorrector, *this);
     _pendingCorrector->_pendingCorrector.reset();
-- 
2.43.0


From 154eb846335dd881eff269d675466644d744d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 10/60] fix: JobQueue::stop() sets the kill flag under the lock
 (lost wake-up in join())

---
 sm_boost/src/JobQueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..02f3c05 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -30,13 +30,16 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        // Set the flag under the lock: a worker that has just seen it unset must
+        // not go to sleep between this assignment and the notification.
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
         work_->join_all();
     }
 
-- 
2.43.0


From 2f188b1b845910fd6d506eac4be2dcce6c6dff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 11/60] fix: JobQueue::join() on a queue that was never started
 does not dereference null

---
 sm_boost/src/JobQueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 02f3c05..3f73f9c 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -40,7 +40,10 @@ namespace sm {
     void JobQueue::join()
     {
         stop();
-        work_->join_all();
+        if(work_)
+        {
+            work_->join_all();
+        }
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 3db0bd7b252ef0220e0c97608a964b7e035b98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 12/60] fix: JobQueue's destructor waits for workers that have
 not registered yet

---
 sm_boost/src/JobQueue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 3f73f9c..83309c5 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,8 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        // All threads must exit, including those that have not yet entered exec_loop.
+        join();
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
-- 
2.43.0


From 63881858872423d977393a715c39e785fee70927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 13/60] fix: deadlock between enable/disableNamedStream and the
 registration of log locations (lock order)

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  3 +++
 sm_logging/src/LoggingGlobals.cpp                | 14 +++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index ea232f1..893b138 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -65,6 +65,9 @@ namespace sm {
              */
             void notifyLoggerLevelsChanged();
 
+            /// \brief As notifyLoggerLevelsChanged(), to be called with _locations_mutex held
+            void notifyLoggerLevelsChangedNoLock();
+
         
             bool isNamedStreamEnabled( const std::string & name );
 
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..3d0149b 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -86,7 +86,11 @@ namespace sm {
         void LoggingGlobals::notifyLoggerLevelsChanged()
         {
             boost::mutex::scoped_lock lock(_locations_mutex);
-                    
+            notifyLoggerLevelsChangedNoLock();
+        }
+
+        void LoggingGlobals::notifyLoggerLevelsChangedNoLock()
+        {
             V_LogLocation::iterator it = _log_locations.begin();
             V_LogLocation::iterator end = _log_locations.end();
             for ( ; it != end; ++it )
@@ -105,18 +109,22 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
+            // lock order: _locations_mutex before _named_stream_mutex
+            boost::mutex::scoped_lock locationsLock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             _namedStreamsEnabled.insert(name);
-            notifyLoggerLevelsChanged();
+            notifyLoggerLevelsChangedNoLock();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
+            // lock order: _locations_mutex before _named_stream_mutex
+            boost::mutex::scoped_lock locationsLock(_locations_mutex);
             boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
             std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
             if(it != _namedStreamsEnabled.end())
             {
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
-- 
2.43.0


From e73d4129ed18115ac63ffade16910930a9260fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 14/60] fix: setLevel() returned before the log locations were
 updated when racing with another setLevel()

---
 sm_logging/src/LoggingGlobals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 3d0149b..fa2c188 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -246,11 +246,13 @@ namespace sm {
 
         void LoggingGlobals::setLevel( sm::logging::levels::Level level )
         {
-            // \todo is this thread safe?
+            // The new level and the state of all locations change together: a concurrent
+            // call with the same level must not return before the locations are updated.
+            boost::mutex::scoped_lock lock(_locations_mutex);
             if(level != _level)
             {
                 _level = level;
-                notifyLoggerLevelsChanged();
+                notifyLoggerLevelsChangedNoLock();
             }
         }
 
-- 
2.43.0


From 584f3164e8cfa57ed401d9c0ee92a09f8ea58418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 15/60] fix: setLogger() raced with log statements that were
 using the previous logger

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  1 +
 sm_logging/include/sm/logging/console.hpp        |  4 ++--
 sm_logging/src/LoggingGlobals.cpp                | 13 ++++++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index 893b138..b6ccfd7 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -93,6 +93,7 @@ namespace sm {
             Level _level;
             
             boost::shared_ptr<Logger> _logger;
+            boost::mutex _logger_mutex;
 
             bool _shutting_down;
 
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..bea4285 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index fa2c188..3a336dc 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -194,7 +194,9 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                // hold the logger while it works: setLogger() may replace it at any time
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -227,7 +229,9 @@ namespace sm {
             _printing_thread_id = boost::this_thread::get_id();
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                // hold the logger while it works: setLogger() may replace it at any time
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -260,11 +264,14 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                // The previous logger is released after the lock.
+                boost::mutex::scoped_lock lock(_logger_mutex);
+                _logger.swap(logger);
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
+            boost::mutex::scoped_lock lock(_logger_mutex);
             return _logger;
         }
 
-- 
2.43.0


From a4d2e0966acf44e9777fd8c959c4fa05aee2580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 16/60] fix: an exception not derived from std::exception in a
 logger silenced its thread for ever

---
 sm_logging/src/LoggingGlobals.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 3a336dc..f84e87a 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -202,6 +202,10 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
+            catch (...)
+            {
+                fprintf(stderr, "Caught unknown exception while logging\n");
+            }
                     
 
             _printing_thread_id = boost::thread::id();
@@ -237,6 +241,10 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
+            catch (...)
+            {
+                fprintf(stderr, "Caught unknown exception while logging\n");
+            }
                     
             _printing_thread_id = boost::thread::id();
         }
-- 
2.43.0


From 511f7951d1d03faf3fdb90975a1b54b473ff3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 17/60] fix: PropertyTree::getChildren for the root and for
 names containing dots

For the root namespace the last character of an empty string was read; '/'
was replaced by '.' so that a name containing a dot was taken for a path.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..b5bfafa 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -263,13 +263,12 @@ namespace sm {
     std::string k;
     if(!key.empty()){
       k = key[0] == '/' ? key.substr(1) : key;
-      if (k.back() == '/'){
+      if (!k.empty() && k.back() == '/'){
         k.resize(k.size() - 1);
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 58896c30cd773f2df1652d19c9ef4faeb91071da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 18/60] fix: BoostPropertyTree::update took names containing
 dots for paths

A key such as 'x.y' of the other tree was written to y below x, all other
functions use '/' as the separator.
---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index b5bfafa..90f6301 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -288,7 +288,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -308,7 +308,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From bc30e9c1bdf242bc5210d1df8ba2927f3bb85f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 19/60] fix: reading a malformed value with a default overwrote
 the value

The non-const getters with a default set the value only "if the value is not
already set"; a text that could not be converted was replaced by the default.
---
 .../include/sm/BoostPropertyTreeImplementation.hpp          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
index 04e7bc2..0a9cecb 100644
--- a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
+++ b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
@@ -132,7 +132,11 @@ namespace sm {
       }
     else
       {
-	set(key,defaultValue);
+	// a value that is there but not of type T is not replaced
+	if(!_ptree.get_child_optional(boost::property_tree::ptree::path_type(key.substr(1),'/')))
+	  {
+	    set(key,defaultValue);
+	  }
 	return defaultValue;
       }
   }
-- 
2.43.0


From 5592e7d3c3358e3a3d6a92486f6babc40d0ab483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 20/60] fix: loadString lost all but the first of several
 entries below one name

"a/b=1,a/c=2" created two nodes a, and only the first one can be read.
---
 .../src/BoostPropertyTreeImplementation.cpp     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 90f6301..5618d55 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -164,6 +164,17 @@ namespace sm {
     return iss.str();
   }
 
+  /// Add the nodes of \p from to \p to such that siblings have different names
+  static void mergeSiblings(const boost::property_tree::ptree & from, boost::property_tree::ptree & to)
+  {
+    if(!from.data().empty()) to.data() = from.data();
+    for(auto & child : from){
+      auto it = to.find(child.first);
+      boost::property_tree::ptree & node = it != to.not_found() ? it->second : to.push_back({child.first, boost::property_tree::ptree()})->second;
+      mergeSiblings(child.second, node);
+    }
+  }
+
   void BoostPropertyTreeImplementation::loadString(const std::string & string){
     if(string.find('"') != string.npos) {
       throw boost::property_tree::file_parser_error("No escaped strings supported with loadString, yet.", string, 0);
@@ -214,7 +225,11 @@ namespace sm {
       }
       pos ++;
     }
-    boost::property_tree::read_info(s, _ptree);
+    // "a/b=1,a/c=2" has a twice: both are the same node
+    ptree parsed, merged;
+    boost::property_tree::read_info(s, parsed);
+    mergeSiblings(parsed, merged);
+    _ptree.swap(merged);
   }
 
   void BoostPropertyTreeImplementation::setDouble(const std::string & key, double value)
-- 
2.43.0


From 1b93138ee484bf0cbe7a4f1e0e6c9476f4a705d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 21/60] fix: configuration loader skipped a parent named like
 another file

Files already loaded were recognised by their name as written. A relative
name in two directories denotes two files, the second was never loaded.
---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..83ecfed 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -48,6 +48,10 @@ class UpdateablePropertyTree {
     std::string configFileFullPath = ptl.resolveFullFilePath(configFile, relativeToFile);
     ptl.verbose("Resolved '" + configFile + "' to '" + configFileFullPath + "'.");
 
+    // The same name can denote different files, depending on the file it is relative to.
+    const std::string id = boost::filesystem::exists(configFileFullPath) ? boost::filesystem::canonical(configFileFullPath).string() : configFileFullPath;
+    if(!ignore.insert(updateOnly ? id + "!" : id).second) return;
+
     sm::BoostPropertyTree pt;
     pt.load(configFileFullPath);
 
@@ -69,9 +73,6 @@ class UpdateablePropertyTree {
   void readFiles(const std::vector<std::string> & configFiles, std::set<std::string> & ignore, const std::string & relativeToFile) {
     for(auto configFile : configFiles) {
       if(configFile.empty()) continue;
-      if(ignore.count(configFile)) continue;
-      ignore.insert(configFile);
-
       loadConfigFileWithParents(configFile, ignore, relativeToFile);
     }
   }
-- 
2.43.0


From f7feb2bf0b9eb6556aca26c30775b1130279afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 22/60] fix: loading configuration files added a 'parents' key
 no file defines

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 83ecfed..1076e62 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -55,7 +55,9 @@ class UpdateablePropertyTree {
     sm::BoostPropertyTree pt;
     pt.load(configFileFullPath);
 
-    std::string parents = pt.getString("parents", "");
+    // Asked through a constant tree, because the key should not be created when it is missing.
+    const sm::BoostPropertyTree & constPt = pt;
+    std::string parents = constPt.getString("parents", "");
     if (parents.empty()) {
       auto children = pt.getChildren();
       if(!children.empty()) {
-- 
2.43.0


From 290a26d818e9b9bdd7c04f420010d3254d708fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 23/60] fix: loader looked for ./ paths in the file system's
 root

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 1076e62..bcddae9 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -120,8 +120,10 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
   if (getSearchPaths().empty() || path[0] == '/') {
     return path;
   } else if (boost::starts_with(path, "./") || boost::starts_with(path, "../")) {
-    if (relativeToFile.empty() && fileExists(path)) {
-      return path;
+    if (relativeToFile.empty()) {
+      if (fileExists(path)) {
+        return path;
+      }
     } else {
       std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
       std::string candidate = dir + '/' + path;
-- 
2.43.0


From 7172e1d0b3c1fc2e5c105cd60d3032f3b1919d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 24/60] fix: prefixed value store (ADD) used an uninitialised
 flag in hasKey and getChild

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 621c72361b8adf4a0d9f36e15c2f1f89aa3adc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 25/60] fix: prefixed value store (REMOVE) ignored the default
 of a key outside the prefix

---
 .../sm/value_store/PrefixedValueStore.hpp      |  2 ++
 sm_value_store/src/PrefixedValueStore.cpp      | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
index 3fac0b8..b133d4d 100644
--- a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
@@ -26,6 +26,8 @@ class PrefixedValueStore : public ValueStore {
   std::vector<KeyValueStorePair> getChildren() const override;
   bool isChildSupported() const override;
  private:
+  template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+  ValueHandle<V> getPrefixed(const std::string & path, boost::optional<V> def) const;
   std::string applyPrefix(const std::string & path, bool* isPossiblePtr = nullptr) const;
   ValueStore::SharedPtr vs_;
   std::string prefix_;
diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..b936f3f 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -9,16 +9,26 @@ namespace sm {
 namespace value_store {
 
 ValueHandle<bool> PrefixedValueStore::getBool(const std::string & path, boost::optional<bool> def) const {
-  return vs_->getBool(applyPrefix(path), def);
+  return getPrefixed<bool, &ValueStore::getBool>(path, def);
 }
 ValueHandle<int> PrefixedValueStore::getInt(const std::string & path, boost::optional<int> def) const {
-  return vs_->getInt(applyPrefix(path), def);
+  return getPrefixed<int, &ValueStore::getInt>(path, def);
 }
 ValueHandle<double> PrefixedValueStore::getDouble(const std::string & path, boost::optional<double> def) const {
-  return vs_->getDouble(applyPrefix(path), def);
+  return getPrefixed<double, &ValueStore::getDouble>(path, def);
 }
 ValueHandle<std::string> PrefixedValueStore::getString(const std::string & path, boost::optional<std::string> def) const {
-  return vs_->getString(applyPrefix(path), def);
+  return getPrefixed<std::string, &ValueStore::getString>(path, def);
+}
+template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+ValueHandle<V> PrefixedValueStore::getPrefixed(const std::string & path, boost::optional<V> def) const {
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  if(!isPossible){
+    if(def) return *def;
+    SM_THROW(std::runtime_error, "path does not contain the prefix (" << prefix_ << "): " << path);
+  }
+  return ((*vs_).*Func)(prefixedPath, def);
 }
 bool PrefixedValueStore::hasKey(const std::string& path) const {
   bool isPossible;
-- 
2.43.0


From 9835b6547c08fd19291e4e43723fbba8fb6ca50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 26/60] fix: prefixed value store (REMOVE) children used keys
 as further prefixes

---
 sm_value_store/src/PrefixedValueStore.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index b936f3f..6d0dab6 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -37,16 +37,19 @@ bool PrefixedValueStore::hasKey(const std::string& path) const {
 }
 
 KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
-  bool isPossible;
-  auto && prefixedKey = applyPrefix(key, &isPossible);
-  if(isPossible){
-    if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
+  if(PrefixMode::REMOVE == mode_){
+    const std::string childPrefix = key.empty() || key.back() == '/' ? key : key + "/";
+    if(childPrefix == prefix_){
       return KeyValueStorePair(key, vs_);
     }
-    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
-  } else {
-    return KeyValueStorePair(key, ValueStoreRef());
+    if(prefix_.compare(0, childPrefix.size(), childPrefix) == 0){ // only a part of the prefix is removed here
+      return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefix_.substr(childPrefix.size(), prefix_.size() - childPrefix.size() - 1)));
+    }
+    bool isPossible;
+    auto && childKey = applyPrefix(key, &isPossible);
+    return KeyValueStorePair(key, isPossible ? ValueStoreRef(vs_).getChild(childKey) : ValueStoreRef());
   }
+  return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, applyPrefix(key)));
 }
 std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
   SM_THROW(std::runtime_error, "Not implemented, yet");
-- 
2.43.0


From c1c927bc20f2289a131a11035c6c8cce8318a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 27/60] fix: layered value store without layers returned
 arbitrary values

---
 sm_value_store/src/ValueStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..aa7a4cc 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,8 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ if(def) return *def;
+ SM_THROW(sm::PropertyTree::InvalidKeyException, "There is no layer that could have the key \"" << path << "\"");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From 724c7a04ebb76deda527bc8747e50927839b1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 28/60] fix: message of a missing deprecated path was taken as
 a path

---
 sm_value_store/src/ValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index aa7a4cc..6ffcadc 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -129,8 +129,8 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // skip deprecation message in the input
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From 0442b7569eca4510db47679463578dc49f4f39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 29/60] fix: children of a verbose value store were not those
 of the wrapped store

---
 .../include/sm/value_store/VerboseValueStore.hpp |  2 ++
 sm_value_store/src/VerboseValueStore.cpp         | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/include/sm/value_store/VerboseValueStore.hpp b/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
index 9e27eff..4149d17 100644
--- a/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
@@ -33,6 +33,7 @@ class VerboseValueStoreT : public Base {
  private:
   template <typename T, typename O = bool>
   T logValue(const char * func, const std::string & path, T && v, O o = false) const;
+  KeyValueStorePair makeVerboseChild(const std::string & key, const std::shared_ptr<ValueStore> & child) const;
 };
 
 extern template class VerboseValueStoreT<ValueStore>;
@@ -55,6 +56,7 @@ class VerboseExtendibleValueStore : public internal::VerboseValueStoreT<Extendib
  private:
   template <typename T>
   T logAddValue(const char * func, const std::string & path, T && v) const;
+  ExtendibleKeyValueStorePair makeVerboseExtendibleChild(const std::string & key, const std::shared_ptr<ExtendibleValueStore> & child) const;
 };
 
 }
diff --git a/sm_value_store/src/VerboseValueStore.cpp b/sm_value_store/src/VerboseValueStore.cpp
index 4ecb4d7..d4d4ab4 100644
--- a/sm_value_store/src/VerboseValueStore.cpp
+++ b/sm_value_store/src/VerboseValueStore.cpp
@@ -52,8 +52,13 @@ bool VerboseValueStoreT<Base>::hasKey(const std::string& path) const {
 template <typename Base>
 KeyValueStorePair VerboseValueStoreT<Base>::getChild(const std::string & key) const {
   log_(std::string(__func__) + "(" + key + ")");
+  return makeVerboseChild(key, vs_->getChild(key));
+}
+
+template <typename Base>
+KeyValueStorePair VerboseValueStoreT<Base>::makeVerboseChild(const std::string & key, const std::shared_ptr<ValueStore> & child) const {
   auto log = log_;
-  return KeyValueStorePair(key, std::make_shared<VerboseValueStore>(vs_->getChild(key), [log, key](const std::string &text){ log("child(" + key + "):" + text);}));
+  return KeyValueStorePair(key, std::make_shared<VerboseValueStore>(child, [log, key](const std::string &text){ log("child(" + key + "):" + text);}));
 }
 
 template <typename Base>
@@ -80,7 +85,7 @@ std::vector<KeyValueStorePair> VerboseValueStoreT<Base>::getChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<KeyValueStorePair> verboseChildren;
   for (const auto& c : vs_->getChildren()){
-    verboseChildren.push_back(this->getChild(c.getKey()));
+    verboseChildren.push_back(makeVerboseChild(c.getKey(), c));
   }
   return verboseChildren;
 }
@@ -112,13 +117,16 @@ ValueHandle<std::string> VerboseExtendibleValueStore::addString(const std::strin
 
 ExtendibleKeyValueStorePair VerboseExtendibleValueStore::getExtendibleChild(const std::string & key) const {
   log_(std::string(__func__) + "(" + key + ")");
-  return ExtendibleKeyValueStorePair(key, std::make_shared<VerboseExtendibleValueStore>(vs_->getExtendibleChild(key), [log=log_, key](const std::string &text){ log("EC(" + key + "):" + text);}));
+  return makeVerboseExtendibleChild(key, vs_->getExtendibleChild(key));
+}
+ExtendibleKeyValueStorePair VerboseExtendibleValueStore::makeVerboseExtendibleChild(const std::string & key, const std::shared_ptr<ExtendibleValueStore> & child) const {
+  return ExtendibleKeyValueStorePair(key, std::make_shared<VerboseExtendibleValueStore>(child, [log=log_, key](const std::string &text){ log("EC(" + key + "):" + text);}));
 }
 std::vector<ExtendibleKeyValueStorePair> VerboseExtendibleValueStore::getExtendibleChildren() const {
   log_(std::string(__func__) + "()");
   std::vector<ExtendibleKeyValueStorePair> verboseChildren;
   for (const auto& c : vs_->getExtendibleChildren()){
-    verboseChildren.push_back(this->getExtendibleChild(c.getKey()));
+    verboseChildren.push_back(makeVerboseExtendibleChild(c.getKey(), c));
   }
   return verboseChildren;
 }
-- 
2.43.0


From 7a9751c0d06a7221091d44a63a3cf7c8c18833d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 30/60] fix: verbose value store did not forward isEmpty

---
 sm_value_store/include/sm/value_store/VerboseValueStore.hpp | 2 ++
 sm_value_store/src/VerboseValueStore.cpp                    | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/sm_value_store/include/sm/value_store/VerboseValueStore.hpp b/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
index 4149d17..ab857d5 100644
--- a/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/VerboseValueStore.hpp
@@ -24,6 +24,8 @@ class VerboseValueStoreT : public Base {
   KeyValueStorePair getChild(const std::string & key) const override;
   std::vector<KeyValueStorePair> getChildren() const override;
 
+  bool isEmpty() const override;
+
   std::shared_ptr<Base> getUnderlyingValueStore() const {
     return vs_;
   }
diff --git a/sm_value_store/src/VerboseValueStore.cpp b/sm_value_store/src/VerboseValueStore.cpp
index d4d4ab4..4a29cd9 100644
--- a/sm_value_store/src/VerboseValueStore.cpp
+++ b/sm_value_store/src/VerboseValueStore.cpp
@@ -80,6 +80,11 @@ bool VerboseValueStoreT<Base>::isChildSupported() const {
   return vs_->isChildSupported();
 }
 
+template <typename Base>
+bool VerboseValueStoreT<Base>::isEmpty() const {
+  return vs_->isEmpty();
+}
+
 template <typename Base>
 std::vector<KeyValueStorePair> VerboseValueStoreT<Base>::getChildren() const {
   log_(std::string(__func__) + "()");
-- 
2.43.0


From d3936ec8cb02bdc60b5702a9b8b880ae2e61004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 31/60] fix: HashId::fromHexString rejects text that is not
 hexadecimal

---
 sm_common/include/sm/hash_id.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..412b9e6 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <iostream>
 #include <random>
+#include <string>
 #include <mutex>
 
 namespace sm {
@@ -71,12 +72,20 @@ class HashId {
   /**
    * Deserialize from hexadecimal string. Serialization and Deserialization
    * could be made more performant by using blobs.
+   * Returns false and leaves the id as it is if the text is not made of
+   * exactly 32 hexadecimal digits.
    */
   inline bool fromHexString(const std::string& hexString) {
     // hexadecimal string takes 2 characters per byte
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    // stoul alone would also take signs, blanks and "0x", and ignore what
+    // follows the first digit
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") !=
+        std::string::npos) {
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 30f0af20e438d7e6c07f279db47d5b1d31de5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 32/60] fix: replace and replace_reverse visit every occurrence
 once

---
 sm_common/include/sm/string_routines.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..38900ee 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -15,12 +15,10 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -33,12 +31,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From e67047bec1446676526e86ec7d59bd6ef5b70562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 33/60] fix: lrint of a double is not cut to an int

---
 sm_common/include/sm/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..18c979a 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -25,7 +25,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From 388c573faeb6fe8849c06e97a286cff916fcfac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 34/60] fix: round gives the nearest integer for every number

---
 sm_common/include/sm/round.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 18c979a..0344145 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,16 +1,19 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        // adding 0.5 first would round 0.49999999999999994 up and change large odd numbers
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
-- 
2.43.0


From b2ad128b622c5b87b9a7a5e359ab1a1101578c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 35/60] fix: solveQuadratic finds the double root zero

---
 sm_common/include/sm/maths.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..d72871f 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,10 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    // b and c are zero: (2c)/n is undefined, the other root is zero as well
+    if(n == 0.0)
+      return std::make_pair(n/(2*a),n/(2*a));
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From b811dd5aeb5b8cf4477e85dfaa9c3b9d39bba6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 36/60] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME are whole
 expressions

---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..aa1e56d 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 530660c3fd55f3a921d8569db8092a2a25fe8324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 37/60] fix: SM_ASSERT_NONPOSITIVE names the condition it
 checks

---
 sm_common/include/sm/assert_macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 8453af2..bb71f32 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -188,7 +188,7 @@ namespace sm {
   if((value) > 0.0)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
@@ -341,7 +341,7 @@ namespace sm {
   if((value) > 0.0)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "debug assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
-- 
2.43.0


From 8d5ccaf957d4620807c17940b95914f43ef27887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 38/60] fix: SM_ASSERT_NULL and SM_ASSERT_NOTNULL take any
 expression

---
 sm_common/include/sm/assert_macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index bb71f32..997e3cc 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -201,7 +201,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NOTNULL(exceptionType, value, message)     \
-  if(value == nullptr)                       \
+  if((value) == nullptr)                     \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " != NULL) failed: " <<  message; \
@@ -209,7 +209,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NULL(exceptionType, value, message)     \
-  if(value != nullptr)                       \
+  if((value) != nullptr)                     \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " == NULL) failed: " <<  message; \
-- 
2.43.0


From a803cc95e846baf5746220e447b0f2fbca2bb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 39/60] fix: load empty dynamic row vectors and matrices with
 fixed rows

save() writes no data for an empty matrix, but this overload of load()
always read it (and asserted on the address of element (0,0)).
---
 sm_eigen/include/sm/eigen/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..57986c4 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From edcbbdb5a2543a302f9ab6973aa2fc22225aac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 40/60] fix: computeMatrixSqrt of singular positive
 semidefinite matrices is not NaN

The pivots of the decomposition that should be zero may come out slightly
negative, and their square roots were not a number.
---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..f64b2cd 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -33,7 +33,8 @@ namespace sm {
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
-            result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
+            // Rounding can make the zero pivots of a singular matrix slightly negative.
+            result *= ldlt.vectorD().array().max(typename DERIVED2::Scalar(0)).sqrt().matrix().asDiagonal();
             
             //return ldlt.info();
             
-- 
2.43.0


From 2e1af92cfca45f055438074c8a8845de3ad0e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 41/60] fix: compareRelative does not accept numbers that are
 not finite as equal to all others

The relative difference to a number that is not finite is NaN, which is not
larger than the tolerance.
---
 sm_eigen/include/sm/eigen/gtest.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9c13b4e..6c990c7 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -106,6 +106,9 @@ namespace sm { namespace eigen {
     inline bool compareRelative(double a, double b, double percentTolerance, double * percentError = NULL)
     {
 	  // \todo: does anyone have a better idea?
+      if(a == b) // Covers infinities as well.
+        return true;
+
       double fa = fabs(a);
       double fb = fabs(b);
       if( (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
@@ -114,7 +117,7 @@ namespace sm { namespace eigen {
 		return true;
       
       double diff = fabs(a - b)/std::max(fa,fb);
-      if(diff > percentTolerance * 1e-2)
+      if(!(diff <= percentTolerance * 1e-2)) // Numbers that are not finite never compare less or equal.
 		{
 		  if(percentError)
 			*percentError = diff * 100.0;
-- 
2.43.0


From fd4d979167899a6ce1b7fde7c3cd9a537ed5d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 42/60] fix: expectNear does not compare the elements of
 matrices of different size

EXPECT_EQ on the sizes does not return, and the loop then read outside of the
smaller matrix.
---
 sm_eigen/include/sm/eigen/gtest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 6c990c7..b44d981 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -78,6 +78,9 @@ namespace sm { namespace eigen {
       EXPECT_EQ((size_t)A.rows(),(size_t)B.rows()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
       EXPECT_EQ((size_t)A.cols(),(size_t)B.cols()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
 
+      if(A.rows() != B.rows() || A.cols() != B.cols())
+        return; // The elements can not be compared.
+
       for(int r = 0; r < A.rows(); r++)
         {
           for(int c = 0; c < A.cols(); c++)
-- 
2.43.0


From e4dd1a1497ebbf3a01ec20fc59be8fec97dc5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 43/60] fix: randLU does not return its exclusive upper bound

The scaled number could be rounded up to the bound.
---
 sm_random/src/random.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..5fdaf98 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -5,6 +5,7 @@
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/variate_generator.hpp>
 #include <boost/random/normal_distribution.hpp>
+#include <cmath>
 
 
 namespace sm {
@@ -77,7 +78,13 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  double x = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  // The result may have been rounded up to the upper bound.
+  if(x >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive)
+  {
+	x = std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  }
+  return x;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
-- 
2.43.0


From 117fd024f87fca5e270ec8b106e08bf733d90d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 44/60] fix: randLUi stays in ranges larger than the largest
 int

The size of the range overflowed, and numbers below the lower bound were
returned.
---
 sm_random/src/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 5fdaf98..e1b4872 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -89,7 +89,8 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  // The size of the range may not fit into an int.
+  return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From f4610327e67b9f2d9c28212c161e090c51b8a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 45/60] fix: ptimeToTimeval returns the converted time

There was no return statement. Microseconds of times before 1970 are no longer
negative, and the header may be included in several source files.
---
 sm_boost/include/sm/boost/ptime.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..89ecdf6 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,22 +5,25 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    /// \brief Convert to a timeval. As usual, 0 <= tv_usec < 1000000 also for times before 1970.
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
         // \todo: check for special values.
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
+        const boost::int64_t us = duration.total_microseconds();
         timeval tv;
-        tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        tv.tv_sec = us / 1000000;
+        tv.tv_usec = us % 1000000;
+        if(tv.tv_usec < 0)
+        {
+            tv.tv_usec += 1000000;
+            tv.tv_sec -= 1;
+        }
+        return tv;
     }
 
-    
-
 } // namespace sm
 
 
-- 
2.43.0


From 4e73b0c7c4d9f9083f640961391c23b8dd258bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 46/60] fix: axisAngle2R(angle, axis) returns the identity for
 every negative angle

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From cb6250ffc245fad619d9d4edbd6726cdac58464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 47/60] fix: RotationVector::rotationMatrixToParameters returns
 zero for half turns

---
 sm_kinematics/src/RotationVector.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..f269f3d 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -56,27 +56,9 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            // Recovering the axis from the antisymmetric part of C alone fails for rotations
+            // by pi, where this part vanishes, and loses precision close to them.
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From 05d61700abd874ce11522e35b579a89351bb38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 48/60] fix: Euler angles of rotations at or near gimbal lock
 denote another rotation or are NaN

---
 sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 11 +-------
 sm_kinematics/src/EulerAnglesZXY.cpp          | 10 ++++---
 sm_kinematics/src/EulerAnglesZYX.cpp          | 11 +-------
 sm_kinematics/src/rotations.cpp               | 26 +++++++------------
 4 files changed, 18 insertions(+), 40 deletions(-)

diff --git a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index 15ef6b5..356c6b9 100755
--- a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -36,16 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = theta;
-      ret[1] = phi;
-      ret[0] = psi;
-      
-      return ret;
+      return R2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesYawPitchRoll::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/EulerAnglesZXY.cpp b/sm_kinematics/src/EulerAnglesZXY.cpp
index 577c3b6..d9952b4 100644
--- a/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -66,10 +66,14 @@ namespace sm {
 
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
-      const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      // When r_x is close to +-90 degrees any r_y will do, but r_z has to be recovered for the
+      // r_y that was chosen.
+      const double r_x = atan2(rotationMatrix(2, 1), hypot(rotationMatrix(2, 0), rotationMatrix(2, 2)));
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
-      const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
+      const double cy = cos(r_y);
+      const double sy = sin(r_y);
+      const double r_z = atan2(cy * rotationMatrix(1, 0) + sy * rotationMatrix(1, 2),
+                               cy * rotationMatrix(0, 0) + sy * rotationMatrix(0, 2));
       return Eigen::Vector3d(r_z, r_x, r_y);
     }
 
diff --git a/sm_kinematics/src/EulerAnglesZYX.cpp b/sm_kinematics/src/EulerAnglesZYX.cpp
index b56c9ec..5dfc4dc 100755
--- a/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -36,16 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = -theta;
-      ret[1] = phi;
-      ret[0] = -psi;
-      
-      return ret;
+      return -R2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesZYX::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 233073e..4c8bf08 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -62,13 +62,17 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    // When the pitch is close to +-90 degrees, C(2,1), C(2,2), C(1,0), and C(0,0) all vanish. Any
+    // roll will do then, but the heading has to be recovered for the roll that was chosen.
     double theta = atan2(C(2,1),C(2,2));
-    double psi = atan2(C(1,0), C(0,0));
+    double ct = cos(theta);
+    double st = sin(theta);
+    double phi = atan2(-C(2,0), hypot(C(2,1),C(2,2)));
+    double psi = atan2(st * C(0,2) - ct * C(0,1), ct * C(1,1) - st * C(1,2));
     
     Eigen::Vector3d ret;
     ret[0] = theta;
-    ret[1] = -phi;
+    ret[1] = phi;
     ret[2] = psi;
 
     return ret;
@@ -192,24 +196,12 @@ namespace sm { namespace kinematics {
      SM_ASSERT_EQ_DBG(std::runtime_error,C.rows(),3,"The input matrix must be 3x3");
      SM_ASSERT_EQ_DBG(std::runtime_error,C.cols(),3,"The input matrix must be 3x3");
 
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     return -R2rph(C);
    }
 
    Eigen::Vector3d C2rph(Eigen::Matrix3d const & C)
    {
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     return -R2rph(C);
    }
 
 
-- 
2.43.0


From d1b7af741fda55067a59bb4097c521aa3a5a4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 49/60] fix: EulerRodriguez::rotationMatrixToParameters loses
 small rotations

---
 sm_kinematics/src/EulerRodriguez.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..e31ff81 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerRodriguez.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -26,28 +27,15 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
-      Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
+      // The angle of a small rotation can not be recovered from the trace of C.
+      Eigen::Vector4d q = r2quat(C);
 
-      if(fabs(a) < 1e-14){
+      if(q[3] < 1e-14){
+	// A half turn has no finite parameters.
 	return Eigen::Vector3d::Zero();
       }
-      
-      p[0] = (C(2,1) - C(1,2));
-      p[1] = (C(0,2) - C(2,0));
-      p[2] = (C(1,0) - C(0,1));
-      
-      double n2 = p.norm();
-      if(n2 < 1e-14)
-	{
-	  return Eigen::Vector3d::Zero();
-	}
-            
-      double scale = -tan(0.5*a)/n2;
-      p = scale * p;
-
 
-      return p;
+      return q.head<3>() / q[3];
     }
 
     Eigen::Matrix3d EulerRodriguez::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From 56db3bee768931e791543fdf9a0d4cc910cda560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 50/60] fix: sign of the small angle series in axisAngle2quat

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..4fe67c4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 2988c416700b0fbf8bc5ab224c2ae66c7cab1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 51/60] fix: integer division in the small angle series of
 quat2AxisAngle

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 4fe67c4..9b06c20 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x / Scalar_(6);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From e367d2ae84311ea635fc83aaa8f9ac103777d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:53 +0000
Subject: [PATCH 52/60] fix: quat2AxisAngle is NaN for the quaternion of a full
 turn

---
 sm_kinematics/src/quaternion_algebra.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 9b06c20..68263b5 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -267,6 +267,9 @@ namespace sm { namespace kinematics {
             }else{
               // (pi - asin(na))/ na has a pole at na == 0. So we cannot remove this singularity.
               // It is just the cut locus of the unit quaternion manifold at identity and thus the axis angle description becomes necessarily unstable there.
+              if(na == 0){ // A full turn about any axis.
+                return Eigen::Matrix<Scalar_, 3, 1>(Scalar_(2 * M_PI), 0, 0);
+              }
               scale = (M_PI - asin(na)) / na;
             }
           }
-- 
2.43.0


From 00e5bea14226a339375dc29fd992fb545ae83c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 53/60] fix: scale the uncertainty with the point when
 homogeneous points are added or subtracted

---
 sm_kinematics/src/HomogeneousPoint.cpp          |  8 ++++++--
 sm_kinematics/src/UncertainHomogeneousPoint.cpp | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..92cf922 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
@@ -51,7 +52,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      const Eigen::Matrix4d J = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
 
     }
       
@@ -65,7 +67,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // this - rhs is this + (-rhs), where -rhs is rhs with the first three entries negated.
+      const Eigen::Matrix4d J = toHomogeneousPlus(_ph) * Eigen::Vector4d(-1.0, -1.0, -1.0, 1.0).asDiagonal();
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..31e15ed 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      const Eigen::Matrix4d J = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	const Eigen::Matrix4d J = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
       }
 
@@ -203,8 +205,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	// this - rhs is this + (-rhs), where -rhs is rhs with the first three entries negated.
+	Eigen::Matrix4d PL = toHomogeneousPlus(_ph) * Eigen::Vector4d(-1.0, -1.0, -1.0, 1.0).asDiagonal();
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 254789da3a38cb4159458771cd28fa77d0889721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:13 +0000
Subject: [PATCH 54/60] fix: derivative of the angular velocity at and near the
 zero rotation vector

---
 sm_kinematics/src/RotationVector.cpp | 82 +++++++++-------------------
 1 file changed, 27 insertions(+), 55 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index f269f3d..dc1f70b 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -103,61 +103,33 @@ namespace sm { namespace kinematics {
                 //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
                 Jacobian->block(0,3,3,3) = S;
     
-                // LAZY
-                // \todo...redo when there is time and not so lazy.
-                Eigen::Matrix<double,3,6> & J = *Jacobian;
-                double t1 = p[0];
-                double t2 = p[1];
-                double t3 = p[2];
-                double dt1 = pdot[0];
-                double dt2 = pdot[1];
-                double dt3 = pdot[2];
-                double t5 = t1*t1;
-                double t6 = t2*t2;
-                double t7 = t3*t3;
-                double t8 = t5+t6+t7;
-                double t9 = pow(t8,3.0/2.0);
-                double t10 = sqrt(t8);
-                double t11 = sin(t10);
-                double t12 = cos(t10);
-                double t13 = t12*(1.0/2.0);
-                double t14 = t13-1.0/2.0;
-                double t15 = 1.0/pow(t8,5.0/2.0);
-                double t16 = dt3*t14*t9*2.0;
-                double t17 = dt3*t1*t11*t2*t3*3.0;
-                double t18 = dt3*t3*t9;
-                double t19 = dt1*t1*t10*t6*2.0;
-                double t20 = dt2*t11*t2*t5*3.0;
-                double t21 = dt1*t1*t10*t12*t6;
-                double t22 = dt2*t14*t9*2.0;
-                double t23 = dt2*t1*t10*t2*t3*2.0;
-                double t24 = dt2*t1*t10*t12*t2*t3;
-                double t25 = dt1*t14*t9*2.0;
-                double t26 = dt1*t1*t11*t2*t3*3.0;
-                double t27 = dt1*t1*t9;
-                double t28 = dt2*t2*t9;
-                double t29 = dt1*t1*t10*t7*2.0;
-                double t30 = dt2*t10*t2*t7*2.0;
-                double t31 = dt3*t11*t3*t5*3.0;
-                double t32 = dt3*t11*t3*t6*3.0;
-                double t33 = dt2*t1*t11*t3*t8;
-                double t34 = dt2*t1*t10*t14*t3*4.0;
-                double t35 = dt1*t1*t10*t12*t7;
-                double t36 = dt2*t10*t12*t2*t7;
-                double t0  = t15*(t18+t19+t20+t21+t28+t29+t31+t33+t34+t35-dt1*t1*t11*t6*3.0-dt2*t10*t2*t5*2.0-dt1*t1*t11*t7*3.0-dt3*t10*t3*t5*2.0-dt2*t11*t2*t8-dt3*t11*t3*t8-dt3*t1*t10*t14*t2*4.0-dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t5-dt3*t1*t11*t2*t8);
-
-
-                J(0,0) = t0;
-                J(0,1) = t15*(t16+t17+dt2*t1*t9-dt1*t2*t9*2.0-dt2*t1*t10*t6*2.0+dt2*t1*t11*t6*3.0-dt3*t10*t14*t6*4.0+dt1*t10*t2*t6*2.0-dt1*t11*t2*t6*3.0+dt1*t10*t2*t7*2.0-dt1*t11*t2*t7*3.0-dt2*t1*t11*t8+dt1*t11*t2*t8*2.0-dt3*t11*t6*t8-dt3*t1*t10*t2*t3*2.0+dt2*t10*t14*t2*t3*4.0-dt2*t1*t10*t12*t6+dt1*t10*t12*t2*t6+dt1*t10*t12*t2*t7+dt2*t11*t2*t3*t8-dt3*t1*t10*t12*t2*t3);
-                J(0,2) = -t15*(t22+t23+t24-dt3*t1*t9+dt1*t3*t9*2.0+dt3*t1*t10*t7*2.0-dt3*t1*t11*t7*3.0-dt2*t10*t14*t7*4.0-dt1*t10*t3*t6*2.0+dt1*t11*t3*t6*3.0+dt3*t1*t11*t8-dt1*t10*t3*t7*2.0+dt1*t11*t3*t7*3.0-dt1*t11*t3*t8*2.0-dt2*t11*t7*t8-dt2*t1*t11*t2*t3*3.0+dt3*t10*t14*t2*t3*4.0+dt3*t1*t10*t12*t7-dt1*t10*t12*t3*t6-dt1*t10*t12*t3*t7+dt3*t11*t2*t3*t8);
-                J(1,0) = -t15*(t16-t17+dt2*t1*t9*2.0-dt1*t2*t9-dt2*t1*t10*t5*2.0+dt2*t1*t11*t5*3.0-dt3*t10*t14*t5*4.0+dt1*t10*t2*t5*2.0-dt1*t11*t2*t5*3.0-dt2*t1*t10*t7*2.0+dt2*t1*t11*t7*3.0-dt2*t1*t11*t8*2.0+dt1*t11*t2*t8-dt3*t11*t5*t8+dt1*t1*t10*t14*t3*4.0+dt3*t1*t10*t2*t3*2.0-dt2*t1*t10*t12*t5+dt1*t10*t12*t2*t5-dt2*t1*t10*t12*t7+dt1*t1*t11*t3*t8+dt3*t1*t10*t12*t2*t3);
-                J(1,1) = t15*(t18-t19-t20-t21+t27+t30+t32+t36+dt1*t1*t11*t6*3.0+dt2*t10*t2*t5*2.0-dt1*t1*t11*t8-dt2*t11*t2*t7*3.0-dt3*t10*t3*t6*2.0-dt3*t11*t3*t8+dt3*t1*t10*t14*t2*4.0-dt1*t10*t14*t2*t3*4.0+dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t6+dt3*t1*t11*t2*t8-dt1*t11*t2*t3*t8);
-                J(1,2) = t15*(t25+t26+dt3*t2*t9-dt2*t3*t9*2.0+dt2*t10*t3*t5*2.0-dt2*t11*t3*t5*3.0-dt1*t10*t14*t7*4.0-dt3*t10*t2*t7*2.0+dt3*t11*t2*t7*3.0+dt2*t10*t3*t7*2.0-dt2*t11*t3*t7*3.0-dt3*t11*t2*t8+dt2*t11*t3*t8*2.0-dt1*t11*t7*t8+dt3*t1*t10*t14*t3*4.0-dt1*t1*t10*t2*t3*2.0+dt2*t10*t12*t3*t5-dt3*t10*t12*t2*t7+dt2*t10*t12*t3*t7+dt3*t1*t11*t3*t8-dt1*t1*t10*t12*t2*t3);
-                J(2,0) = t15*(t22-t23-t24-dt3*t1*t9*2.0+dt1*t3*t9+dt3*t1*t10*t5*2.0-dt3*t1*t11*t5*3.0-dt2*t10*t14*t5*4.0+dt3*t1*t10*t6*2.0-dt3*t1*t11*t6*3.0-dt1*t10*t3*t5*2.0+dt1*t11*t3*t5*3.0+dt3*t1*t11*t8*2.0-dt1*t11*t3*t8-dt2*t11*t5*t8+dt1*t1*t10*t14*t2*4.0+dt2*t1*t11*t2*t3*3.0+dt3*t1*t10*t12*t5+dt3*t1*t10*t12*t6-dt1*t10*t12*t3*t5+dt1*t1*t11*t2*t8);
-                J(2,1) = -t15*(t25-t26+dt3*t2*t9*2.0-dt2*t3*t9-dt3*t10*t2*t5*2.0+dt3*t11*t2*t5*3.0-dt1*t10*t14*t6*4.0-dt3*t10*t2*t6*2.0+dt3*t11*t2*t6*3.0+dt2*t10*t3*t6*2.0-dt2*t11*t3*t6*3.0-dt3*t11*t2*t8*2.0+dt2*t11*t3*t8-dt1*t11*t6*t8+dt2*t1*t10*t14*t2*4.0+dt1*t1*t10*t2*t3*2.0-dt3*t10*t12*t2*t5-dt3*t10*t12*t2*t6+dt2*t10*t12*t3*t6+dt2*t1*t11*t2*t8+dt1*t1*t10*t12*t2*t3);
-                J(2,2) = t15*(t27+t28-t29-t30-t31-t32-t33-t34-t35-t36+dt1*t1*t11*t7*3.0+dt3*t10*t3*t5*2.0-dt1*t1*t11*t8+dt2*t11*t2*t7*3.0+dt3*t10*t3*t6*2.0-dt2*t11*t2*t8+dt1*t10*t14*t2*t3*4.0+dt3*t10*t12*t3*t5+dt3*t10*t12*t3*t6+dt1*t11*t2*t3*t8);
-
-
+                // S = I + f1 * crossMx(p) + f2 * crossMx(p) * crossMx(p). With dfi the derivative
+                // of fi with respect to the angle divided by the angle, which are even functions
+                // of the angle with finite values at zero.
+                double f1, f2, df1, df2;
+                const double a2 = p.squaredNorm();
+                if(a2 < 2.5e-3)
+                {
+                    f1 = -1.0/2.0 + a2 * (1.0/24.0 - a2 * (1.0/720.0 - a2 / 40320.0));
+                    f2 = 1.0/6.0 - a2 * (1.0/120.0 - a2 * (1.0/5040.0 - a2 / 362880.0));
+                    df1 = 1.0/12.0 - a2 * (1.0/180.0 - a2 * (1.0/6720.0 - a2 / 453600.0));
+                    df2 = -1.0/60.0 + a2 * (1.0/1260.0 - a2 * (1.0/60480.0 - a2 / 4989600.0));
+                }
+                else
+                {
+                    const double angle = std::sqrt(a2);
+                    const double sah = std::sin(0.5 * angle);
+                    const double sa = std::sin(angle);
+                    f1 = -2.0 * sah * sah / a2;
+                    f2 = (angle - sa) / (a2 * angle);
+                    df1 = (-2.0 * f1 - sa / angle) / a2;
+                    df2 = (-f1 - 3.0 * f2) / a2;
+                }
+                const Eigen::Matrix3d crossP = crossMx(p);
+                const Eigen::Vector3d pxd = crossP * pdot;
+                const Eigen::Vector3d pxpxd = crossP * pxd;
+                Jacobian->leftCols<3>() = -f1 * crossMx(pdot) - f2 * (crossP * crossMx(pdot) + crossMx(pxd))
+                    + (df1 * pxd + df2 * pxpxd) * p.transpose();
             }
 
             return omega;
-- 
2.43.0


From 523c8cc7945abac70a01a60fc618475dc89b329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:18 +0000
Subject: [PATCH 55/60] fix: inverse S matrix of rotation vectors is inaccurate
 or NaN for small ones

---
 sm_kinematics/src/RotationVector.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index dc1f70b..74dcac2 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/RotationVector.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -139,19 +140,8 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            // This one is accurate for small angles, too.
+            return logDiffMat<double>(parameters);
         }
 
 
-- 
2.43.0


From a18069723c0d6c0e537d1c7e6742dadab50d9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:17 +0000
Subject: [PATCH 56/60] fix: timing statistics, reports and handle lookups take
 the registry lock

Timing::getTag, the statistics getters, print and Timer(size_t) read the vector of
timers and the tag map while another thread may be registering a tag, which
reallocates the vector: use of freed memory.  They take the lock as the writers
do; it is recursive as reports and getters by tag call each other.
---
 sm_timing/include/sm/timing/Timer.hpp |  4 ++--
 sm_timing/src/Timer.cpp               | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..43c36fd 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -14,7 +14,7 @@
 #endif
 
 namespace boost {
- class mutex;
+ class recursive_mutex;
 }
 
 namespace sm {
@@ -113,7 +113,7 @@ namespace timing {
 #endif
     size_t m_maxTagLength;
     
-    static boost::mutex m_mutex;
+    static boost::recursive_mutex m_mutex;
 
   }; // end class timer
   
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..31aff80 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -2,7 +2,7 @@
 #include <sm/assert_macros.hpp>
 #include <stdio.h>
 
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics.hpp>
@@ -31,7 +31,7 @@ namespace timing {
 
 
 
-  boost::mutex Timing::m_mutex;
+  boost::recursive_mutex Timing::m_mutex;
   
   Timing & Timing::instance() {
     static Timing t;
@@ -56,7 +56,7 @@ namespace timing {
   // Static funcitons to query the timers:
   size_t Timing::getHandle(std::string const & tag){
     // Search for an existing tag.
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t::iterator i = instance().m_tagMap.find(tag);
     if(i == instance().m_tagMap.end()) {
       // If it is not there, create a tag.
@@ -73,6 +73,7 @@ namespace timing {
   
   
   std::string Timing::getTag(size_t handle){
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     std::string tag;
     bool found = false;
     
@@ -97,7 +98,10 @@ namespace timing {
     m_handle(handle)
     
   {
-    SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    {
+      boost::recursive_mutex::scoped_lock lock(Timing::m_mutex);
+      SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -149,11 +153,12 @@ namespace timing {
   
   
   void Timing::addTime(size_t handle, double seconds){
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     m_timers[handle].m_acc(seconds);
   }
   
   double Timing::getTotalSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -161,6 +166,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -168,6 +174,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -175,6 +182,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -182,6 +190,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -189,6 +198,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -198,6 +208,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -208,7 +219,7 @@ namespace timing {
   }
 
   void Timing::reset(size_t handle) {
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     instance().m_timers[handle] = TimerMapValue();
   }
@@ -267,6 +278,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     struct Accessor {
       size_t getIndex(map_t::const_iterator t) const {
         return t->second;
@@ -280,6 +292,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t & tagMap = instance().m_tagMap;
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
-- 
2.43.0


From 72b6f5dcc2faa129618bb69617bae8dbb8cc1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 57/60] fix: SM_ASSERT_CMD negated only the first operand of
 its condition

SM_ASSERT_CMD(x > 0, cmd), the example of the documentation, expanded to
if (!x > 0) and did not run the command for negative x.
---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From 086c7150e63eee1aac0306f248d3abd81732fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:05 +0000
Subject: [PATCH 58/60] fix: saving a matrix archive ignored errors of the
 last, buffered write

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 69eca71..c4afc83 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -385,6 +385,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -463,6 +464,9 @@ namespace sm
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
 
     save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 5114c2472f07f47f523a029970627190c19f83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:05 +0000
Subject: [PATCH 59/60] fix: serializing into a file ignored errors of the
 last, buffered write

---
 sm_boost/include/sm/boost/serialization.hpp | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..c685673 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -44,9 +48,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
@@ -67,14 +75,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Error while writing file " << filename);
         }
 
         template<typename T>
-- 
2.43.0


From 36dee2068453ea03dfb56018f5af88df2b635675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:42 +0000
Subject: [PATCH 60/60] fix: saving a property tree to a file ignored errors of
 the last, buffered write

---
 .../src/BoostPropertyTreeImplementation.cpp   | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 5618d55..f24aaf0 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -1,6 +1,7 @@
 #include <sm/BoostPropertyTree.hpp>
 #include <sm/BoostPropertyTreeImplementation.hpp>
 
+#include <fstream>
 #include <sstream>
 #include <boost/make_shared.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -13,6 +14,21 @@ using boost::property_tree::json_parser::read_json;
 
 namespace sm {
 
+  namespace {
+    // Boost's own writers ignore the errors of the last, buffered write to the file.
+    template<typename ParserError, typename WriteFunction>
+    void writeFile(const boost::filesystem::path & fileName, WriteFunction write)
+    {
+      std::ofstream out(fileName.string().c_str());
+      if(!out)
+        throw ParserError("cannot open file", fileName.string(), 0);
+      write(out);
+      out.close();
+      if(!out)
+        throw ParserError("write error", fileName.string(), 0);
+    }
+  }
+
   BoostPropertyTreeImplementation::BoostPropertyTreeImplementation()
   {
 
@@ -105,7 +121,7 @@ namespace sm {
   }
 
   void BoostPropertyTreeImplementation::saveJson(const boost::filesystem::path& fileName) const {
-    boost::property_tree::write_json(fileName.string(), _ptree);
+    writeFile<boost::property_tree::json_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_json(out, _ptree); });
   }
 
 
@@ -123,18 +139,19 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveXml(const boost::filesystem::path & fileName) const
   {
-    if(BoostPropertyTree::isHumanReadableInputOutput()){
+    writeFile<boost::property_tree::xml_parser_error>(fileName, [this](std::ostream & out) {
+      if(BoostPropertyTree::isHumanReadableInputOutput()){
 #if BOOST_VERSION >= 105600
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(),
-                                      boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
+        boost::property_tree::write_xml(out, _ptree, boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
 #else
-      boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(), settings);
+        boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
+        boost::property_tree::write_xml(out, _ptree, settings);
 #endif
-    }
-    else {
-      boost::property_tree::write_xml(fileName.string(), _ptree);
-    }
+      }
+      else {
+        boost::property_tree::write_xml(out, _ptree);
+      }
+    });
   }
 
   void BoostPropertyTreeImplementation::loadIni(const boost::filesystem::path & fileName)
@@ -144,7 +161,7 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveIni(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_ini(fileName.string(), _ptree);
+    writeFile<boost::property_tree::ini_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_ini(out, _ptree); });
   }
 
 
@@ -155,7 +172,7 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveInfo(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_info(fileName.string(), _ptree);
+    writeFile<boost::property_tree::info_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_info(out, _ptree); });
   }
 
   std::string BoostPropertyTreeImplementation::asInfoString() const {
-- 
2.43.0

