From ffc86bc415b30c838a01a858d535e891a750d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 01/84] fix: merger counts the first and each file's last
 record twice and invents records for empty inputs

---
 pwned-merger-cli/mergeoperation.cpp | 45 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..7a2466c 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -77,8 +77,15 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
-      pq.push(mi);
       sum += mi->inputSize.value();
+      if (mi->isValid)
+      {
+        pq.push(mi);
+      }
+      else
+      {
+        delete mi;
+      }
     }
     totalEntries = sum / pwned::PasswordHashAndCount::size;
   }
@@ -110,10 +117,6 @@ void MergeOperation::execute() noexcept(false)
   if (isCancelled)
     return;
   auto t0 = std::chrono::high_resolution_clock::now();
-  if (d->pq.empty())
-  {
-    return;
-  }
   {
     std::ostringstream output;
     output << "Merging into " << d->dstFilePath.string()
@@ -128,31 +131,39 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
+  bool hasCurrent = false;
+  pwned::PasswordHashAndCount current;
   uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
   while (!isCancelled)
   {
-    const pwned::PasswordHashAndCount &p = next();
     if (!d->pq.empty())
     {
+      const pwned::PasswordHashAndCount &p = next();
       if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
       {
         (*d->progressed)(d->entriesProcessed);
       }
       ++d->entriesProcessed;
-      if (current.hash == p.hash)
+      if (hasCurrent && current.hash == p.hash)
       {
         current.count += p.count;
       }
       else
       {
-        current.dump(d->dstFile);
+        if (hasCurrent)
+        {
+          current.dump(d->dstFile);
+        }
         current = p;
+        hasCurrent = true;
       }
     }
     else
     {
-      current.dump(d->dstFile);
+      if (hasCurrent)
+      {
+        current.dump(d->dstFile);
+      }
       break;
     }
     if (isPaused)
@@ -177,28 +188,20 @@ pwned::PasswordHashAndCount MergeOperation::next()
   if (!d->pq.empty())
   {
     MergerInput *mergerInput = d->pq.top();
+    d->pq.pop();
     result = mergerInput->phc;
+    mergerInput->read();
     if (mergerInput->isValid)
     {
-      mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
     }
     else
     {
-      d->pq.pop();
       if (d->removeInputFilesAfterMerge)
       {
         mergerInput->deleteFile();
       }
       delete mergerInput;
-      if (d->pq.empty())
-      {
-        return pwned::PasswordHashAndCount();
-      }
     }
   }
   return result;
-- 
2.43.0


From b3b142b8a2fb3593e1e093c0fa6dda40912cc529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/84] fix: progress bar divides by zero when there is nothing
 to merge

---
 pwned-merger-cli/progressbar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-merger-cli/progressbar.hpp b/pwned-merger-cli/progressbar.hpp
index f1804af..5d81698 100755
--- a/pwned-merger-cli/progressbar.hpp
+++ b/pwned-merger-cli/progressbar.hpp
@@ -62,7 +62,7 @@ public:
   void update(uint64_t value) override
   {
     std::cout << '\r' << begin;
-    const int w = int(uint64_t(width) * value / hi);
+    const int w = (hi > 0) ? int(uint64_t(width) * value / hi) : width;
     for (int i = 0; i < w; ++i)
     {
       std::cout << fill;
@@ -71,7 +71,7 @@ public:
     {
       std::cout << space;
     }
-    const float percent = 100 * float(value) / float(hi);
+    const float percent = (hi > 0) ? 100 * float(value) / float(hi) : 100;
     std::cout << end << std::setw(5) << std::setfill(' ') << pwned::string_format(" %5.1f %% ", percent) << std::flush;
   }
 };
-- 
2.43.0


From abf5d51534d99f3cbbde37da143ed6a28f78ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 03/84] fix: searching past the last record breaks all later
 lookups

---
 pwned-lib/passwordinspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..54ca4de 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -81,7 +81,7 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
 {
   int nReads = 0;
   std::streamoff lo = 0;
-  std::streamoff hi = mFileSize;
+  std::streamoff hi = mFileSize - std::streamoff(PasswordHashAndCount::size);
   if (mIndexFile.is_open())
   {
     const uint64_t hashMSB = hash.quad.upper >> mShift;
-- 
2.43.0


From 34528bb6a3f51b436bf5dc4ee1e355385e35353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 04/84] fix: indexed lookup never ends when the neighbouring
 index buckets are empty

---
 pwned-lib/passwordinspector.cpp | 14 +++++++++++++-
 pwned-lib/passwordinspector.hpp |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 54ca4de..0061c38 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -64,7 +64,8 @@ bool PasswordInspector::open(const std::string &inputFilename, const std::string
   bool ok = open(inputFilename);
   if (!indexFilename.empty())
   {
-    const uint64_t nKeys = uint64_t(fs::file_size(indexFilename) / sizeof(index_key_t));
+    mIndexSize = int64_t(fs::file_size(indexFilename));
+    const uint64_t nKeys = uint64_t(mIndexSize) / sizeof(index_key_t);
     mShift = (unsigned int)(sizeof(index_key_t) * 8 - popcnt64(nKeys - 1));
     mIndexFile.open(indexFilename, std::ios::binary);
     ok = ok && mIndexFile.is_open();
@@ -87,7 +88,13 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     const uint64_t hashMSB = hash.quad.upper >> mShift;
     const std::streamoff idx = (std::streamoff)(hashMSB * sizeof(index_key_t));
     std::streamoff loIdx = idx;
+    const std::streamoff lastPos = hi;
     do {
+      if (loIdx < 0)
+      {
+        lo = 0;
+        break;
+      }
       mIndexFile.seekg(loIdx);
       mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
       ++nReads;
@@ -96,6 +103,11 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
     std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
     do {
+      if (hiIdx >= mIndexSize)
+      {
+        hi = lastPos;
+        break;
+      }
       mIndexFile.seekg(hiIdx);
       mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
       ++nReads;
diff --git a/pwned-lib/passwordinspector.hpp b/pwned-lib/passwordinspector.hpp
index 78b64ce..9cb5128 100755
--- a/pwned-lib/passwordinspector.hpp
+++ b/pwned-lib/passwordinspector.hpp
@@ -33,6 +33,7 @@ private:
   std::ifstream mInputFile;
   std::ifstream mIndexFile;
   int64_t mFileSize{0};
+  int64_t mIndexSize{0};
   unsigned int mShift{0};
   PasswordHashAndCount mPHC;
 
-- 
2.43.0


From 8dfd76c37c0174e87d4526f51c5aa4bac6f5e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/84] fix: index of an empty or cut-off file contains
 invented entries

---
 pwned-index/index.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..cbd7ba9 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -128,14 +128,16 @@ int main(int argc, const char *argv[])
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
-  phc.read(input);
-  pwned::index_key_t lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-  *(indexes + lastIdx) = 0;
+  pwned::index_key_t lastIdx = 0;
+  if (phc.read(input))
+  {
+    lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
+    *(indexes + lastIdx) = 0;
+  }
   pwned::index_key_t idx = 0;
   uint64_t pos = 0;
-  while (!input.eof())
+  while (phc.read(input))
   {
-    phc.read(input);
     idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
     if (idx > lastIdx)
     {
@@ -145,7 +147,6 @@ int main(int argc, const char *argv[])
       lastIdx = idx;
     }
   }
-  *(indexes + idx) = pos;
   input.close();
 
   std::cout << std::endl
-- 
2.43.0


From 2d4d827d36d0bc47018affe9712cb09f076e1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 06/84] fix: equal hashes compare as unequal with !=

---
 pwned-lib/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..b1b3da8 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -96,7 +96,7 @@ inline bool operator==(const Hash &lhs, const Hash &rhs)
 
 inline bool operator!=(const Hash &lhs, const Hash &rhs)
 {
-  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower ||  lhs.isValid == rhs.isValid;
+  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower || lhs.isValid != rhs.isValid;
 }
 
 inline bool operator<(const Hash &lhs, const Hash &rhs)
-- 
2.43.0


From 3db6bc352a7077e3b79642f168c9d15f3915b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/84] fix: converter ignores files given with --input

---
 pwned-converter-cli/pwned-converter-cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..fcd84c1 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -88,7 +88,7 @@ int main(int argc, const char *argv[])
   bool autoHex;
   unsigned int numThreads;
   desc.add_options()("help", "produce help message")
-  ("input,I", po::value<std::vector<std::string>>(), "set user:pass input file(s)")
+  ("input,I", po::value<std::vector<std::string>>(&filenames), "set user:pass input file(s)")
   ("src,S", po::value<std::string>(&srcDirectory), "set user:pass input directory")
   ("dst,D", po::value<std::string>(&dstDirectory), "set user:pass output directory")
   ("ext", po::value<std::string>(&outputExt)->default_value(DefaultOutputExt), "set extension for output files")
-- 
2.43.0


From c5de6bdb818b84364d955189138dc38b08271ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 08/84] fix: concurrent conversions of files with the same base
 name overwrite each other's output

---
 pwned-converter-cli/convertoperation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..009281b 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,6 +17,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
@@ -147,6 +148,8 @@ void ConvertOperation::execute() noexcept(false)
       return (d->dstPath / (srcFilename.string() + pwned::string_format("-%04x", splitFileNum))).string();
     };
 
+    static std::mutex outputMtx;
+    std::unique_lock<std::mutex> outputLock(outputMtx);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
     while (fs::exists(dstFilePath) && n < 10000)
@@ -160,6 +163,7 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
+    outputLock.unlock();
     if (f.is_open())
     {
       for (const auto &phc : passwordList)
-- 
2.43.0


From ff707ce08b79011228ee1e07d131f50d07cd3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 09/84] fix: converter overwrites an existing file once all
 numbered names are taken

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 009281b..abc869a 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -152,7 +152,7 @@ void ConvertOperation::execute() noexcept(false)
     std::unique_lock<std::mutex> outputLock(outputMtx);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    while (fs::exists(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
-- 
2.43.0


From ffbf5dceb3045758633f0816f01747e2b531cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 10/84] fix: converter never ends when its memory budget rounds
 down to zero

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index abc869a..0881866 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -40,7 +40,7 @@ public:
       : srcFilePath(srcFilename)
       , dstPath(dstDirectory)
       , outputExt(outputExt)
-      , maxMem(maxMem)
+      , maxMem(std::max<uint64_t>(maxMem, 1))
       , options(options)
   {
     inputFile.open(srcFilename, std::ios::binary);
-- 
2.43.0


From 29336a43702061b2106bdbdee6e4a3f5ccd5990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 11/84] fix: converter never ends on a file it cannot open

---
 pwned-converter-cli/convertoperation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 0881866..6360c58 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -71,6 +71,11 @@ void ConvertOperation::execute() noexcept(false)
 {
   if (isCancelled)
     return;
+  if (!d->inputFile.is_open())
+  {
+    std::cerr << "Cannot open '" << d->srcFilePath.string() << "' for reading." << std::endl;
+    return;
+  }
   {
     std::ostringstream output;
     output << uuid << " "
-- 
2.43.0


From d8991d4819bfeeae1e1f5bc480d7a4a71a266b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 12/84] fix: hex sequences of odd length are reported as
 decoded

---
 pwned-lib/util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 1b3f0b5..2a3877c 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -244,7 +244,11 @@ int decodeHex(const char c)
 bool hexToCharSeq(const std::string &seq, std::string &result)
 {
   result.clear();
-  if (seq.size() % 2 == 0)
+  if (seq.size() % 2 != 0)
+  {
+    return false;
+  }
+  else
   {
     for (size_t i = 0; i < seq.size(); i += 2)
     {
-- 
2.43.0


From 15293b958f1eec8faf1a3a8f62047e30330d6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 13/84] fix: enabling echo switches on every other local
 terminal mode

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 2a3877c..c712843 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -309,7 +309,7 @@ void TermIO::enableEcho()
   struct termios t;
   tcgetattr(STDIN_FILENO, &t);
   t.c_lflag |= tcflag_t(ICANON);
-  t.c_lflag |= tcflag_t(~ECHO);
+  t.c_lflag |= tcflag_t(ECHO);
   tcsetattr(STDIN_FILENO, TCSANOW, &t);
 }
 
-- 
2.43.0


From 0da212cb422f597e7a7f180ae752fd6c7c8f6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 14/84] fix: formatting an empty text writes past its buffer

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index c712843..cd21880 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -154,7 +154,7 @@ int getMemoryStat(MemoryStat &memoryStat)
 // see https://stackoverflow.com/a/8098080
 std::string string_format(const std::string fmt_str, ...)
 {
-  int n = (int)(2 * fmt_str.size());
+  int n = (int)(2 * fmt_str.size()) + 1;
   std::unique_ptr<char[]> formatted;
   va_list ap;
   while (true)
-- 
2.43.0


From c071701b8956176394185208f2c80d94354a6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 15/84] fix: the second half of an identifier is never printed

---
 pwned-lib/uuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/uuid.cpp b/pwned-lib/uuid.cpp
index 3ab142c..79acf40 100755
--- a/pwned-lib/uuid.cpp
+++ b/pwned-lib/uuid.cpp
@@ -28,9 +28,9 @@ std::ostream &operator<<(std::ostream &os, UUID const &uuid)
   const uint32_t a = uint32_t(uuid.uuid[0] >> 32);
   const uint16_t b = uint32_t(uuid.uuid[0] >> 16) & 0xffff;
   const uint16_t c = uint32_t(uuid.uuid[0]) & 0xffffU;
-  const uint16_t d = uint32_t(uuid.uuid[0] >> 48) & 0xffff;
-  const uint16_t e = uint32_t(uuid.uuid[0] >> 32) & 0xffff;
-  const uint32_t f = uint32_t(uuid.uuid[0]) & 0xffffffff;
+  const uint16_t d = uint32_t(uuid.uuid[1] >> 48) & 0xffff;
+  const uint16_t e = uint32_t(uuid.uuid[1] >> 32) & 0xffff;
+  const uint32_t f = uint32_t(uuid.uuid[1]) & 0xffffffff;
   std::ostringstream ss;
   ss << std::hex << std::uppercase << std::setfill('0')
      << std::setw(8) << a << '-'
-- 
2.43.0


From ea8988be64c83798d5931c994c0c02b1be68ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 16/84] fix: be2le appends a record that is not in the input

---
 deprecated/be2le/be2le.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..95634c6 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -38,9 +38,8 @@ int main(int argc, const char *argv[])
   if (in.is_open() && out.is_open())
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
-- 
2.43.0


From 5cb4c3a957184cb0ce233988519cf16ecf0d321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 17/84] fix: durations at exact units or rounding up to one are
 displayed wrongly

---
 pwned-lib/util.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index cd21880..48a1bb9 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -200,28 +200,24 @@ std::string readableSize(uint64_t size)
 
 std::string readableTime(double t)
 {
-  double x = t;
-  const int days = int(x / 60 / 60 / 24);
-  x -= double(days * 60 * 60 * 24);
-  const int hours = int(x / 60 / 60);
-  x -= double(hours * 60 * 60);
-  const int mins = int(x / 60);
-  x -= double(mins * 60);
-  const double secs = x;
-  const int isecs = int(round(secs));
-  if (t > 60 * 60 * 24)
+  if (t < 60)
   {
-    return string_format("%dd %dh %dm %ds", days, hours, mins, isecs);
+    return string_format("%.4fs", t);
   }
-  if (t > 60 * 60)
+  const long long total = llround(t);
+  const int days = int(total / (60 * 60 * 24));
+  const int hours = int(total / (60 * 60) % 24);
+  const int mins = int(total / 60 % 60);
+  const int isecs = int(total % 60);
+  if (days > 0)
   {
-    return string_format("%dh %dm %ds", hours, mins, isecs);
+    return string_format("%dd %dh %dm %ds", days, hours, mins, isecs);
   }
-  if (t > 60)
+  if (hours > 0)
   {
-    return string_format("%dm %ds", mins, isecs);
+    return string_format("%dh %dm %ds", hours, mins, isecs);
   }
-  return string_format("%.4fs", secs);
+  return string_format("%dm %ds", mins, isecs);
 }
 
 int decodeHex(const char c)
-- 
2.43.0


From e84d26fe868529abac63aa391a10f75cf6288705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 18/84] fix: probability of a password with an unseen
 transition throws instead of being 0

---
 pwned-lib/markovnode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..7731bfa 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto prob = mProbs.find(c);
+    return (prob != mProbs.end()) ? prob->second : prob_value_type(0);
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From e9c63dd5f36d3908dcf564abb402a271fddca9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 19/84] fix: random symbols are not drawn according to their
 probabilities

---
 pwned-lib/markovchain.hpp | 4 ++--
 pwned-lib/markovnode.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..415c19c 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -317,10 +317,10 @@ public:
     for (const auto &symbol : mFirstSymbolSortedProbs)
     {
       pAccumulated += symbol.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return symbol.first;
     }
-    return 0;
+    return mFirstSymbolSortedProbs.empty() ? symbol_type(0) : mFirstSymbolSortedProbs.back().first;
   }
 
 private:
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 7731bfa..9bf1deb 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -107,10 +107,10 @@ public:
     for (const auto &successor : mSortedProbs)
     {
       pAccumulated += successor.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return successor.first;
     }
-    return 0;
+    return mSortedProbs.empty() ? symbol_type(0) : mSortedProbs.back().first;
   }
   void postprocess()
   {
-- 
2.43.0


From 041d40f3a5c8ddf7f1dbbc636a886f6abcd69712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 20/84] fix: two error codes of the Markov file reader share
 one description

---
 pwned-lib/markovchain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 415c19c..f442411 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -343,7 +343,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
-- 
2.43.0


From af7480e02e713f91615a4f6fe1d5d0518d1946eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 21/84] fix: a Markov chain trained with one-symbol passwords
 only is not saved

---
 pwned-lib/markovchain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index f442411..affb8e2 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,7 +166,7 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
+    if (mNodes.empty() && mFirstSymbolSortedProbs.empty())
       return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
-- 
2.43.0


From d243b0d1b7e0a9f8de6b212fbcabd1186403efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 22/84] fix: a damaged symbol count in a Markov file exhausts
 memory

---
 pwned-lib/markovchain.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index affb8e2..57f188b 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -232,7 +232,6 @@ public:
       const uint32_t firstSymbolCount = read<uint32_t>(is);
       if (is.eof())
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
-      mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-- 
2.43.0


From c15da689efe04dfa1a119912b3cb1aa668278cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 23/84] fix: values that are no probabilities are accepted from
 a Markov file

---
 pwned-lib/markovchain.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 57f188b..c139362 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -240,6 +240,8 @@ public:
         const prob_value_type p = read<prob_value_type>(is);
         if (is.eof())
           return BAD_PROBABILITY_PREMATURE_EOF;
+        if (!(p >= 0 && p <= 1))
+          return BAD_PROBABILITY;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
@@ -270,6 +272,8 @@ public:
           const prob_value_type probability = read<prob_value_type>(is);
           if (is.eof())
             return BAD_PROBABILITY_PREMATURE_EOF;
+          if (!(probability >= 0 && probability <= 1))
+            return BAD_PROBABILITY;
           currentNode.addSuccessor(symbol, probability);
         }
       }
-- 
2.43.0


From eeb7370a06b697994e6dae98ee626d27d6c78733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 24/84] fix: password extractor writes freed memory and lines
 without a password

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..29ea8c1 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -212,9 +212,10 @@ int main(int argc, const char *argv[])
     pwned::UserPasswordReader reader(inFile, readerOptions);
     while (!reader.eof())
     {
-      const std::string &pwd = reader.nextPassword().append("\n");
+      std::string pwd = reader.nextPassword();
       if (!pwd.empty())
       {
+        pwd.append("\n");
 #ifndef WITHOUT_BZ2
         if (compress)
         {
-- 
2.43.0


From a0b9545f58f2408fe9141104983ac69b93c57591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 25/84] fix: lookup splits passwords at blanks and never ends
 at the end of its input

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..cb381af 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -94,8 +94,12 @@ int main(int argc, const char *argv[])
     std::cout << "Password? ";
     std::string pwd;
     pwned::setStdinEcho(false);
-    std::cin >> pwd;
+    const bool ok = bool(std::getline(std::cin, pwd));
     pwned::setStdinEcho(true);
+    if (!ok)
+    {
+      break;
+    }
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From c35cccaf114a09d3e0952c006bbeccfe71318e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 26/84] fix: Markov lookup splits passwords at blanks

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..ec57546 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -47,7 +47,7 @@ int main(int argc, char *argv[])
     std::cout << "Type password: " << std::flush;
     std::string pwd;
     pwned::setStdinEcho(false);
-    std::cin >> pwd;
+    std::getline(std::cin, pwd);
     pwned::setStdinEcho(true);
     if (pwd.empty())
       break;
-- 
2.43.0


From f54cc28f3edfe1bd39e1b3ddb5d3bf34e222f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 27/84] fix: server does not compile with current Boost
 releases

---
 pwned-server/httpworker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..9569fcf 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
-- 
2.43.0


From 15703833bb238fd4cde6dec7b93b174c07f920b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 28/84] fix: server terminates when a client resets its
 connection before the reply

---
 pwned-server/httpworker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 9569fcf..f08359c 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -146,8 +146,9 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
+    beast::error_code ec;
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << mSocket.remote_endpoint(ec).address().to_string() << ' '
        << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
-- 
2.43.0


From d81da89abca804d257444164ba614ead45c856d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 29/84] fix: server looks up invalid hash parameters from
 partially decoded data

---
 pwned-server/httpworker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index f08359c..e29cb5f 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -156,7 +156,7 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   {
     const pwned::Hash &hash = pwned::Hash::fromHex(uri.query().at("hash"));
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
+    const pwned::PasswordHashAndCount &phc = hash.isValid ? mInspector.binsearch(hash) : pwned::PasswordHashAndCount();
     const auto &t1 = std::chrono::high_resolution_clock::now();
     const double duration = 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0).count();
     pt::ptree response;
-- 
2.43.0


From ed0fdd6aafd441b41ec5f94c7cb35acf5144997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 30/84] fix: URIs without credentials or query are reported
 invalid and non-URIs valid

---
 pwned-server/uri.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6157b35..6ccfc07 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -36,14 +36,14 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = true;
-  if (std::regex_search(uri, m, RE))
+  mIsValid = std::regex_search(uri, m, RE);
+  if (mIsValid)
   {
     if (m.size() > 1)
     {
       mScheme = m[1].str();
     }
-    if (m.size() > 2)
+    if (m.size() > 2 && m[2].matched)
     {
       std::vector<std::string> kv;
       const std::string &credentials = m[2].str();
@@ -74,7 +74,7 @@ void URI::parse(const std::string &uri)
     {
       mPath = m[5].str();
     }
-    if (m.size() > 7)
+    if (m.size() > 7 && m[7].matched)
     {
       std::vector<std::string> kv;
       const std::string &p = m[7].str();
-- 
2.43.0


From 0bb476597a8cba5c60fe32e0a5dbefca00d5a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 31/84] fix: port numbers above 65535 are truncated or throw

---
 pwned-server/uri.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6ccfc07..f65985c 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <iostream>
+#include <limits>
 #include <vector>
 #include <regex>
 #include <boost/algorithm/string.hpp>
@@ -64,7 +65,15 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 4 && m[4].str().size() > 0)
     {
-      mPort = uint16_t(std::stoi(m[4].str()));
+      const unsigned long port = (m[4].str().size() < 10) ? std::stoul(m[4].str()) : std::numeric_limits<unsigned long>::max();
+      if (port <= std::numeric_limits<port_type>::max())
+      {
+        mPort = port_type(port);
+      }
+      else
+      {
+        mIsValid = false;
+      }
     }
     else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
     {
-- 
2.43.0


From 752faa93bb1c176b8ed2b44c5a9c290ad0fc0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 32/84] fix: URIs containing upper-case letters are not
 recognised

---
 pwned-server/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index f65985c..1ede2c9 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -23,7 +23,7 @@
 
 #include "uri.hpp"
 
-static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$");
+static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$", std::regex::ECMAScript | std::regex::icase);
 static const std::map<std::string, URI::port_type> SchemeToPort = {
   { "http", 80 },
   { "https", 443 }
-- 
2.43.0


From b399ca20a3b5c731e3d87f7bb12b473110f7d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 33/84] fix: request targets with '?' in a value or a fragment
 without query are split wrongly

---
 pwned-server/uri.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 1ede2c9..c1616a7 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -111,34 +111,28 @@ void URI::parse(const std::string &uri)
 
 void URI::parseTarget(const std::string &target)
 {
-  std::vector<std::string> pathAndQuery;
-  boost::split(pathAndQuery, target, boost::is_any_of("?"));
-  if (pathAndQuery.size() > 0)
+  const std::size_t fragmentPos = target.find('#');
+  if (fragmentPos != std::string::npos)
   {
-    mPath = pathAndQuery.at(0);
+    mFragment = target.substr(fragmentPos + 1);
   }
-  if (pathAndQuery.size() > 1)
+  const std::string &pathAndQuery = target.substr(0, fragmentPos);
+  const std::size_t queryPos = pathAndQuery.find('?');
+  mPath = pathAndQuery.substr(0, queryPos);
+  if (queryPos != std::string::npos)
   {
-    std::vector<std::string> queryAndFragment;
-    boost::split(queryAndFragment, pathAndQuery.at(1), boost::is_any_of("#"));
-    if (queryAndFragment.size() > 0)
+    std::vector<std::string> kv;
+    const std::string &query = pathAndQuery.substr(queryPos + 1);
+    boost::split(kv, query, boost::is_any_of("&"));
+    for (const auto &param : kv)
     {
-      std::vector<std::string> kv;
-      boost::split(kv, queryAndFragment.at(0), boost::is_any_of("&"));
-      for (const auto &param : kv)
+      std::vector<std::string> pair;
+      boost::split(pair, param, boost::is_any_of("="));
+      if (pair.size() == 2)
       {
-        std::vector<std::string> pair;
-        boost::split(pair, param, boost::is_any_of("="));
-        if (pair.size() == 2)
-        {
-          mQuery[pair.at(0)] = pair.at(1);
-        }
+        mQuery[pair.at(0)] = pair.at(1);
       }
     }
-    if (queryAndFragment.size() > 1)
-    {
-      mFragment = queryAndFragment.at(1);
-    }
   }
 }
 
-- 
2.43.0


From 19960f009575bcc90ba917fd1d44068d832b93e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 34/84] fix: passwords looking hex-encoded are hashed from
 partially decoded data

---
 pwned-lib/userpasswordreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..c42ea87 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -186,8 +186,10 @@ Hash UserPasswordReader::nextPasswordHash()
       if (std::regex_match(pwd, match, HexRegex))
       {
         std::string dehexed;
-        hexToCharSeq(match[1], dehexed);
-        hash = Hash(dehexed);
+        if (hexToCharSeq(match[1], dehexed))
+        {
+          hash = Hash(dehexed);
+        }
       }
     }
     if (!hash.isValid)
-- 
2.43.0


From eb0d1e6e0d03c0c559b0fca95eb55d43ce203fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 35/84] fix: automatic detection of encodings overflows the
 stack on very long lines

---
 pwned-lib/userpasswordreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index c42ea87..dafe202 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -92,7 +92,7 @@ bool UserPasswordReader::checkForMD5Hashes()
     {
       std::getline(input, line);
       line.erase(std::remove(line.begin(), line.end(), '\r'), line.end());
-      if (line.find(guessedSeparator) != std::string::npos)
+      if (line.size() <= 200 && line.find(guessedSeparator) != std::string::npos)
       {
         if (std::regex_search(line, MD5Regex))
         {
@@ -117,7 +117,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
     for (int i = 0; i < nTries && !eof(); ++i)
     {
       std::getline(input, line);
-      if (line.find(guessedSeparator) != std::string::npos)
+      if (line.size() <= 200 && line.find(guessedSeparator) != std::string::npos)
       {
         if (std::regex_search(line, HexRegex))
         {
-- 
2.43.0


From 37b3150b0742c3095400edaa73fb9fd438778b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 36/84] fix: web page shows a late reply for another password

---
 pwned-lookup-web/index.html | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-web/index.html b/pwned-lookup-web/index.html
index 5a44814..c64860c 100644
--- a/pwned-lookup-web/index.html
+++ b/pwned-lookup-web/index.html
@@ -120,6 +120,9 @@
         fetch(`${LookupURL}${hash}`)
         .then(response => response.json())
         .then(data => {
+          if (hash !== el.hash.title) {
+            return
+          }
           if (data['found'] > 0) {
             el.found.classList.add('found')
             el.found.innerText = `${formatNumber(data['found'])} times`
@@ -132,7 +135,11 @@
           el.resultContainer.classList.remove('invisible')
           el.errorContainer.classList.add('invisible')
         })
-        .catch(err => displayError(err))
+        .catch(err => {
+          if (hash === el.hash.title) {
+            displayError(err)
+          }
+        })
       }
       const main = () => {
         el = {
-- 
2.43.0


From 3d2bf18d770b7cf656a9348628ecfb1c1777d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 37/84] fix: cancelling an operation that has just ended or not
 yet begun waits forever

---
 pwned-lib/operation.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..f7c30a0 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -60,27 +60,28 @@ void Operation::wait() noexcept(false)
 
 void Operation::start() noexcept
 {
-  if (isCancelled)
-    return;
-  isRunning = true;
-  isPaused = false;
-  try
+  if (!isCancelled)
   {
-    execute();
+    isRunning = true;
+    try
+    {
+      execute();
+    }
+    catch (OperationException &e)
+    {
+      std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
+    }
+    isRunning = false;
   }
-  catch (OperationException &e)
-  {
-    std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
-  }
-  isRunning = false;
+  std::lock_guard<std::mutex> lock(mtx);
   isFinished = true;
-  finishedCondition.notify_one();
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return bool(isFinished); });
 }
 
 void Operation::cancel()
-- 
2.43.0


From debc323dbaa15b697ddd20955649224a4f740be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 38/84] fix: resuming just before an operation begins to wait
 leaves it paused forever

---
 pwned-lib/operationqueue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..2e6df7d 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -18,6 +18,7 @@
 #ifndef __operationqueue_hpp__
 #define __operationqueue_hpp__
 
+#include <atomic>
 #include <thread>
 #include <pthread.h>
 #include <mutex>
@@ -57,8 +58,8 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
-  bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isRunning{false};
+  std::atomic<bool> _isCancelled{false};
   std::condition_variable pauseCondition;
 
 public:
@@ -95,7 +96,7 @@ public:
   {
     //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
+    pauseCondition.wait(lock, [this] { return _isRunning || _isCancelled; });
     //std::cout << "operationWait() resuming ... " << std::endl;
   }
 
@@ -105,12 +106,12 @@ public:
       return;
     if (_isRunning)
     {
+      std::lock_guard<std::mutex> lock(mtx);
+      _isRunning = false;
       for (Operation *op : runningOps)
       {
         op->pause();
       }
-      std::lock_guard<std::mutex> lock(mtx);
-      _isRunning = false;
     }
   }
 
@@ -121,8 +122,9 @@ public:
     if (!_isRunning)
     {
       // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
-      pauseCondition.notify_all();
+      std::lock_guard<std::mutex> lock(pauseMtx);
       _isRunning = true;
+      pauseCondition.notify_all();
     }
   }
 
-- 
2.43.0


From e7c53713b721edbe7dcb8a3357cfcd98079b2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 39/84] fix: cancelling a queue with waiting operations never
 ends

---
 pwned-lib/operationqueue.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 2e6df7d..dbf2e5e 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -62,6 +62,22 @@ class OperationQueue
   std::atomic<bool> _isCancelled{false};
   std::condition_variable pauseCondition;
 
+  void deleteUnscheduledOps()
+  {
+    while (!unscheduledOps.empty())
+    {
+      T *const op = unscheduledOps.top();
+      unscheduledOps.pop();
+      delete op;
+    }
+  }
+
+  bool hasUnscheduledOps() const
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    return !unscheduledOps.empty();
+  }
+
 public:
   explicit OperationQueue(int threadPriority = 0)
       : threadPriority(threadPriority)
@@ -131,18 +147,16 @@ public:
   void cancel()
   {
     std::lock_guard<std::mutex> lock(mtx);
-    _isCancelled = true;
-    for (Operation *op : runningOps)
     {
-      op->cancel();
+      std::lock_guard<std::mutex> pauseLock(pauseMtx);
+      _isCancelled = true;
+      pauseCondition.notify_all();
     }
-    while (!unscheduledOps.empty())
+    for (Operation *op : runningOps)
     {
-      Operation *op = unscheduledOps.top();
       op->cancel();
-      delete op;
-      unscheduledOps.pop();
     }
+    deleteUnscheduledOps();
   }
 
   void add(T *const op)
@@ -166,12 +180,18 @@ public:
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (hasUnscheduledOps())
       {
         if (_isCancelled)
           break;
         guard.wait();
         mtx.lock();
+        if (_isCancelled || unscheduledOps.empty())
+        {
+          mtx.unlock();
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
-- 
2.43.0


From dda80695509763a9f2436a865177375e2aa12fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 40/84] fix: a cancelled merge goes on with an incomplete
 intermediate file

---
 pwned-lib/operationqueue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index dbf2e5e..a9de31b 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -223,7 +223,13 @@ public:
     {
       thread.join();
     }
-    reset();
+    opThreads.clear();
+    std::lock_guard<std::mutex> lock(mtx);
+    if (_isCancelled)
+    {
+      deleteUnscheduledOps();
+    }
+    _isRunning = false;
   }
 };
 } // namespace pwned
-- 
2.43.0


From 6e1ed309caff6f7c22a1ccb901e197c8ce683d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 41/84] fix: waiting for a queue misses operations that are
 still to be scheduled

---
 pwned-lib/operationqueue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index a9de31b..2c0bcdc 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -219,6 +219,10 @@ public:
 
   void waitForFinished()
   {
+    if (exeThread.joinable())
+    {
+      exeThread.join();
+    }
     for (auto &thread : opThreads)
     {
       thread.join();
-- 
2.43.0


From 1cb2bd3ef6816166b7dd047fc6311d228eae9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 42/84] fix: operations started while the queue is paused run
 on

---
 pwned-lib/operationqueue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 2c0bcdc..ff2d661 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -179,6 +179,7 @@ public:
     int policy;
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
+    _isRunning = true;
     exeThread = runAsync([this] {
       while (hasUnscheduledOps())
       {
@@ -195,6 +196,10 @@ public:
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
+        if (!_isRunning)
+        {
+          op->pause();
+        }
         opThreads.push_back(runAsync([op, this]() {
           op->start();
           finished(op);
@@ -205,7 +210,6 @@ public:
       }
     },
                          parentPriority);
-    _isRunning = true;
     if (_waitForScheduled)
     {
       waitForScheduled();
-- 
2.43.0


From f0b826a72bebd0060b2fbee079a7e28cb8c27bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 43/84] fix: converter and merger wait for a key before they
 end

While the key thread waits in getchar() it holds the lock of stdin, which
exit() needs too, so both programs hung at their end until a key was
pressed; at the end of the input the thread kept a processor busy.
---
 pwned-converter-cli/pwned-converter-cli.cpp |  8 +++++---
 pwned-lib/util.cpp                          | 16 ++++++++++++++++
 pwned-lib/util.hpp                          |  7 +++++++
 pwned-merger-cli/pwned-merger-cli.cpp       |  8 +++++---
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index fcd84c1..92c89c4 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -15,6 +15,7 @@
  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cstdio>
 #include <fstream>
 #include <iostream>
 #include <iomanip>
@@ -67,6 +68,7 @@ static const unsigned int DefaultNumThreads = 4;
 
 int main(int argc, const char *argv[])
 {
+  setvbuf(stdin, nullptr, _IONBF, 0);
   hello();
   pwned::MemoryStat memStat;
   pwned::getMemoryStat(memStat);
@@ -178,10 +180,10 @@ int main(int argc, const char *argv[])
   pwned::TermIO termIO;
   std::thread keyThread = pwned::runAsync([&opQueue, &termIO] {
     termIO.disableEcho();
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = pwned::waitForKey();
       switch (ch)
       {
       case ' ':
@@ -204,7 +206,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 48a1bb9..b43ce2c 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -34,6 +34,8 @@
 #include <cstdlib>
 #include <stdarg.h>
 #include <stdio.h>
+#include <errno.h>
+#include <poll.h>
 #include <termios.h>
 #include <unistd.h>
 #include <cmath>
@@ -327,6 +329,20 @@ void TermIO::enableBreak()
 
 
 
+int waitForKey()
+{
+  struct pollfd fd;
+  fd.fd = STDIN_FILENO;
+  fd.events = POLLIN;
+  fd.revents = 0;
+  while (poll(&fd, 1, -1) < 0)
+  {
+    if (errno != EINTR)
+      return EOF;
+  }
+  return getchar();
+}
+
 void setStdinEcho(bool enable)
 {
 #ifdef WIN32
diff --git a/pwned-lib/util.hpp b/pwned-lib/util.hpp
index daa78b7..df45bb4 100755
--- a/pwned-lib/util.hpp
+++ b/pwned-lib/util.hpp
@@ -53,6 +53,13 @@ bool hexToCharSeq(const std::string &seq, std::string &result);
 unsigned int popcnt64(uint64_t);
 void setStdinEcho(bool enable);
 
+/**
+ * Waits for a key press and returns it, or EOF at the end of the input. Other than with `getchar()`
+ * the standard input isn't locked while waiting, so that the program can end in the meantime.
+ * Requires the standard input to be unbuffered.
+ */
+int waitForKey();
+
 class TermIO
 {
   // struct termios t;
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..14baa40 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -15,6 +15,7 @@
  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cstdio>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -78,6 +79,7 @@ void usage()
 
 int main(int argc, const char *argv[])
 {
+  setvbuf(stdin, nullptr, _IONBF, 0);
   const std::string DefaultOutputExt = ".md5";
   constexpr int DefaultMaxFilesAtOnce = 50;
   std::vector<std::string> filenames;
@@ -179,10 +181,10 @@ int main(int argc, const char *argv[])
   ProgressBar progressBar(32);
   pwned::OperationQueue<merger::MergeOperation> opQueue;
   std::thread keyThread = pwned::runAsync([&opQueue] {
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = pwned::waitForKey();
       switch (ch)
       {
       case 'p':
@@ -202,7 +204,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
-- 
2.43.0


From cd2e0822e75ede3c4ceb45bbd3d17124066ac4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 44/84] fix: converter may leave the terminal without echo

The key thread switched the echo off, possibly only after the main thread
had restored the terminal settings at its end.
---
 pwned-converter-cli/pwned-converter-cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 92c89c4..b85f0d4 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -178,8 +178,8 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
   }
   pwned::TermIO termIO;
-  std::thread keyThread = pwned::runAsync([&opQueue, &termIO] {
-    termIO.disableEcho();
+  termIO.disableEcho();
+  std::thread keyThread = pwned::runAsync([&opQueue] {
     int ch;
     do
     {
-- 
2.43.0


From 840b895a63e97ecc1206a610ae5cbdb4cff64aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 45/84] fix: overwriting without an answer depends on
 uninitialised memory

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 pwned-merger-cli/pwned-merger-cli.cpp                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 29ea8c1..971cd9e 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -129,7 +129,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << outputFilename << " already exists. Do you want to overwrite it?" << std::endl
               << "(y/n) " << std::flush;
-    char c;
+    char c = 'n';
     std::cin >> c;
     if (c != 'y')
     {
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 14baa40..0cdac2a 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -150,7 +150,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
-    char ch;
+    char ch = 'n';
     std::cin >> ch;
     if (ch != 'y')
     {
-- 
2.43.0


From 8abf7a3731c01f414ec88ddbf3ae023d8b9fc45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 46/84] fix: converter leaves out files once too many are open
 at the same time

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 6360c58..6b69701 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -43,7 +43,6 @@ public:
       , maxMem(std::max<uint64_t>(maxMem, 1))
       , options(options)
   {
-    inputFile.open(srcFilename, std::ios::binary);
   }
   const fs::path srcFilePath;
   const fs::path dstPath;
@@ -71,6 +70,7 @@ void ConvertOperation::execute() noexcept(false)
 {
   if (isCancelled)
     return;
+  d->inputFile.open(d->srcFilePath.string(), std::ios::binary);
   if (!d->inputFile.is_open())
   {
     std::cerr << "Cannot open '" << d->srcFilePath.string() << "' for reading." << std::endl;
-- 
2.43.0


From 552430fbc630dd8bb66d0c28bebcd7a8c7e31c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 47/84] fix: merger leaves out inputs it cannot open

---
 pwned-merger-cli/mergeoperation.cpp   | 10 +++++++++-
 pwned-merger-cli/mergerinput.hpp      |  8 +++++---
 pwned-merger-cli/pwned-merger-cli.cpp | 17 +++++++++++++----
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 7a2466c..a411c09 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -21,6 +21,8 @@
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
+#include <cerrno>
+#include <cstring>
 
 #include <boost/filesystem.hpp>
 
@@ -48,6 +50,7 @@ struct SmallestHashFirst
 enum MergerError
 {
   noData,
+  cannotReadFromFile,
   cannotWriteToFile,
   cancelled
 };
@@ -76,7 +79,12 @@ public:
     for (auto file : srcFiles)
     {
       MergerInput *mi = new MergerInput(file);
-      mi->open();
+      if (!mi->open())
+      {
+        const std::string reason = std::strerror(errno);
+        delete mi;
+        throw pwned::OperationException("Cannot open '" + file.path.string() + "' for reading: " + reason, MergerError::cannotReadFromFile);
+      }
       sum += mi->inputSize.value();
       if (mi->isValid)
       {
diff --git a/pwned-merger-cli/mergerinput.hpp b/pwned-merger-cli/mergerinput.hpp
index 2ad6dfc..6486f0c 100755
--- a/pwned-merger-cli/mergerinput.hpp
+++ b/pwned-merger-cli/mergerinput.hpp
@@ -42,13 +42,15 @@ public:
   {
   }
 
-  void open()
+  bool open()
   {
     f.open(path.string(), std::ios::binary);
-    if (f.is_open())
+    if (!f.is_open())
     {
-      read();
+      return false;
     }
+    read();
+    return true;
   }
 
   inline bool read()
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 0cdac2a..1f32cb0 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -178,6 +178,7 @@ int main(int argc, const char *argv[])
   }
   std::sort(inputFiles.begin(), inputFiles.end(), merger::InputFileLess);
   std::vector<std::string> intermediateFilenames;
+  int rc = EXIT_SUCCESS;
   ProgressBar progressBar(32);
   pwned::OperationQueue<merger::MergeOperation> opQueue;
   std::thread keyThread = pwned::runAsync([&opQueue] {
@@ -227,8 +228,16 @@ int main(int argc, const char *argv[])
                                                       return sum + file.inputSize.value();
                                                     });
     progressBar.setHi(chunkInputSize / pwned::PasswordHashAndCount::size);
-    merger::MergeOperation *const op = new merger::MergeOperation(inputFileSlice, targetFilename, false, &progressBar);
-    opQueue.add(op);
+    try
+    {
+      opQueue.add(new merger::MergeOperation(inputFileSlice, targetFilename, false, &progressBar));
+    }
+    catch (const pwned::OperationException &e)
+    {
+      std::cerr << "ERROR: " << e.what() << std::endl;
+      rc = EXIT_FAILURE;
+      break;
+    }
     opQueue.execute(true);
     opQueue.waitForFinished();
     if (!opQueue.isCancelled())
@@ -243,7 +252,7 @@ int main(int argc, const char *argv[])
   }
   auto t1 = std::chrono::high_resolution_clock::now();
   auto time_span = std::chrono::duration_cast<std::chrono::duration<float>>(t1 - t0);
-  if (!opQueue.isCancelled())
+  if (!opQueue.isCancelled() && rc == EXIT_SUCCESS)
   {
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl;
   }
@@ -251,5 +260,5 @@ int main(int argc, const char *argv[])
   {
     fs::remove(intermediateFile);
   }
-  return EXIT_SUCCESS;
+  return rc;
 }
-- 
2.43.0


From 7a3c34b2973371a9191da0c3de2230f6fee6b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 48/84] fix: test set extractor never ends on a file without a
 complete record

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..715a369 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -183,6 +183,10 @@ int main(int argc, const char *argv[])
         }
         ++i;
       }
+      else
+      {
+        break;
+      }
     }
   }
 
-- 
2.43.0


From a202ee889dcc0791956f689b5639f956a2467d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 49/84] fix: server loses the timeout of a connection, so that
 an idle client blocks a worker forever

---
 pwned-server/httpworker.cpp | 5 +++--
 pwned-server/httpworker.hpp | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index e29cb5f..6d6eb0d 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -20,6 +20,7 @@
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/algorithm/string/replace.hpp>
+#include <boost/asio/bind_executor.hpp>
 #include <boost/filesystem.hpp>
 
 #include <pwned-lib/hash.hpp>
@@ -64,7 +65,7 @@ void HttpWorker::accept()
   mBuffer.consume(mBuffer.size());
   mAcceptor.async_accept(
       mSocket,
-      [this](beast::error_code ec) {
+      net::bind_executor(mStrand, [this](beast::error_code ec) {
         if (ec)
         {
           accept();
@@ -74,7 +75,7 @@ void HttpWorker::accept()
           mReqTimeout.expires_after(Timeout);
           readRequest();
         }
-      });
+      }));
 }
 
 void HttpWorker::readRequest()
diff --git a/pwned-server/httpworker.hpp b/pwned-server/httpworker.hpp
index 49d78c0..0f7aac7 100644
--- a/pwned-server/httpworker.hpp
+++ b/pwned-server/httpworker.hpp
@@ -25,6 +25,7 @@
 #include <boost/beast/core.hpp>
 #include <boost/beast/http.hpp>
 #include <boost/asio/ip/tcp.hpp>
+#include <boost/asio/strand.hpp>
 #include <boost/optional/optional.hpp>
 #include <boost/function.hpp>
 
@@ -55,11 +56,12 @@ public:
 
 private:
   tcp::acceptor &mAcceptor;
-  tcp::socket mSocket{mAcceptor.get_executor()};
+  boost::asio::strand<tcp::acceptor::executor_type> mStrand{mAcceptor.get_executor()};
+  tcp::socket mSocket{mStrand};
   beast::flat_buffer mBuffer;
   boost::optional<http::request_parser<http::string_body>> mParser;
   boost::asio::basic_waitable_timer<std::chrono::steady_clock> mReqTimeout{
-    mAcceptor.get_executor(),
+    mStrand,
     (std::chrono::steady_clock::time_point::max)()};
   boost::optional<http::response<http::string_body>> mResponse;
   boost::optional<http::response_serializer<http::string_body>> mSerializer;
-- 
2.43.0


From f8a77b000a60d2df8ec1f4c800613ca6bb57125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 50/84] fix: web page shows a failed lookup as not found

---
 pwned-lookup-web/index.html | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-web/index.html b/pwned-lookup-web/index.html
index c64860c..6de1322 100644
--- a/pwned-lookup-web/index.html
+++ b/pwned-lookup-web/index.html
@@ -118,7 +118,12 @@
         el.found.classList.remove('found', 'notfound')
         el.lookupTimeMs.innerText = ''
         fetch(`${LookupURL}${hash}`)
-        .then(response => response.json())
+        .then(response => {
+          if (!response.ok) {
+            throw new Error(`lookup failed with status ${response.status}`)
+          }
+          return response.json()
+        })
         .then(data => {
           if (hash !== el.hash.title) {
             return
-- 
2.43.0


From 6b7191a1629d44471d04910ecb06604781368dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 51/84] fix: merger reports success although data could not be
 read or written

---
 pwned-lib/operation.cpp               |  3 ++-
 pwned-lib/operation.hpp               |  6 ++++++
 pwned-lib/operationqueue.hpp          | 12 ++++++++++++
 pwned-merger-cli/mergeoperation.cpp   | 12 +++++++++++-
 pwned-merger-cli/pwned-merger-cli.cpp | 11 +++++++++++
 5 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index f7c30a0..db96012 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -67,8 +67,9 @@ void Operation::start() noexcept
     {
       execute();
     }
-    catch (OperationException &e)
+    catch (const std::exception &e)
     {
+      isFailed = true;
       std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
     }
     isRunning = false;
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index e318343..2588322 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -40,6 +40,7 @@ protected:
   std::atomic<bool> isFinished{false};
   std::atomic<bool> isCancelled{false};
   std::atomic<bool> isPaused{false};
+  std::atomic<bool> isFailed{false};
   std::mutex mtx;
   std::condition_variable finishedCondition;
   OperationQueue<Operation> *queue{nullptr};
@@ -55,6 +56,11 @@ public:
 
   void setQueue(OperationQueue<Operation> *queue) noexcept;
 
+  inline bool hasFailed() const noexcept
+  {
+    return isFailed;
+  }
+
   /**
          * Description: Signals the operation to pause by setting `isPaused` to `true`. It's up to the implementation of the Operation to take the necessary measures to pause execution.
          * Parameters: none
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index ff2d661..d10ef0c 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -60,6 +60,7 @@ class OperationQueue
   int threadPriority;
   std::atomic<bool> _isRunning{false};
   std::atomic<bool> _isCancelled{false};
+  std::atomic<bool> _hasFailed{false};
   std::condition_variable pauseCondition;
 
   void deleteUnscheduledOps()
@@ -96,6 +97,7 @@ public:
     opThreads.clear();
     _isRunning = false;
     _isCancelled = false;
+    _hasFailed = false;
   }
 
   inline bool isRunning() const
@@ -108,6 +110,12 @@ public:
     return _isCancelled;
   }
 
+  // true if any operation has ended with an exception
+  inline bool hasFailed() const
+  {
+    return _hasFailed;
+  }
+
   void operationWait()
   {
     //std::cout << "operationWait()" << std::endl;
@@ -170,6 +178,10 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     runningOps.remove(op);
+    if (op->hasFailed())
+    {
+      _hasFailed = true;
+    }
     delete op;
   }
 
diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index a411c09..95645df 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -79,7 +79,7 @@ public:
     for (auto file : srcFiles)
     {
       MergerInput *mi = new MergerInput(file);
-      if (!mi->open())
+      if (!mi->open() || mi->f.bad())
       {
         const std::string reason = std::strerror(errno);
         delete mi;
@@ -181,6 +181,10 @@ void MergeOperation::execute() noexcept(false)
     }
   }
   d->dstFile.close();
+  if (!d->dstFile)
+  {
+    throw pwned::OperationException("Cannot write to '" + d->dstFilePath.string() + "': " + std::strerror(errno), MergerError::cannotWriteToFile);
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
@@ -205,6 +209,12 @@ pwned::PasswordHashAndCount MergeOperation::next()
     }
     else
     {
+      if (mergerInput->f.bad())
+      {
+        const std::string path = mergerInput->path.string();
+        delete mergerInput;
+        throw pwned::OperationException("Cannot read from '" + path + "'", MergerError::cannotReadFromFile);
+      }
       if (d->removeInputFilesAfterMerge)
       {
         mergerInput->deleteFile();
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 1f32cb0..19e093f 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -78,6 +78,7 @@ void usage()
 }
 
 int main(int argc, const char *argv[])
+try
 {
   setvbuf(stdin, nullptr, _IONBF, 0);
   const std::string DefaultOutputExt = ".md5";
@@ -240,6 +241,11 @@ int main(int argc, const char *argv[])
     }
     opQueue.execute(true);
     opQueue.waitForFinished();
+    if (opQueue.hasFailed())
+    {
+      rc = EXIT_FAILURE;
+      break;
+    }
     if (!opQueue.isCancelled())
     {
       inputFiles = std::vector<merger::InputFile>(b, inputFiles.end());
@@ -262,3 +268,8 @@ int main(int argc, const char *argv[])
   }
   return rc;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 6aecb50a6b8fe38ac7122aa204308909aeaf2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 52/84] fix: converter reports success although data could not
 be read or written

---
 pwned-converter-cli/convertoperation.cpp    | 26 ++++++++++++++-------
 pwned-converter-cli/pwned-converter-cli.cpp |  8 ++++++-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 6b69701..7d36627 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -29,6 +29,12 @@
 
 namespace fs = boost::filesystem;
 
+enum ConvertError
+{
+  cannotReadFromFile = 1,
+  cannotWriteToFile
+};
+
 class ConvertOperationPrivate
 {
 public:
@@ -73,8 +79,7 @@ void ConvertOperation::execute() noexcept(false)
   d->inputFile.open(d->srcFilePath.string(), std::ios::binary);
   if (!d->inputFile.is_open())
   {
-    std::cerr << "Cannot open '" << d->srcFilePath.string() << "' for reading." << std::endl;
-    return;
+    throw pwned::OperationException("Cannot open '" + d->srcFilePath.string() + "' for reading", ConvertError::cannotReadFromFile);
   }
   {
     std::ostringstream output;
@@ -110,6 +115,10 @@ void ConvertOperation::execute() noexcept(false)
     }
     if (isCancelled)
       return;
+    if (reader.bad())
+    {
+      throw pwned::OperationException("Cannot read from '" + d->srcFilePath.string() + "'", ConvertError::cannotReadFromFile);
+    }
     if (isPaused)
     {
       queue->operationWait();
@@ -169,13 +178,14 @@ void ConvertOperation::execute() noexcept(false)
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
     outputLock.unlock();
-    if (f.is_open())
+    for (const auto &phc : passwordList)
     {
-      for (const auto &phc : passwordList)
-      {
-        phc.dump(f);
-      }
-      f.close();
+      phc.dump(f);
+    }
+    f.close();
+    if (!f)
+    {
+      throw pwned::OperationException("Cannot write to '" + dstFilePath.string() + "'", ConvertError::cannotWriteToFile);
     }
     if (isPaused)
     {
diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index b85f0d4..b0a5c0a 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -67,6 +67,7 @@ static const std::string DefaultOutputExt = ".md5";
 static const unsigned int DefaultNumThreads = 4;
 
 int main(int argc, const char *argv[])
+try
 {
   setvbuf(stdin, nullptr, _IONBF, 0);
   hello();
@@ -221,5 +222,10 @@ int main(int argc, const char *argv[])
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl
               << std::endl;
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
+}
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
 }
-- 
2.43.0


From 4b07f23c8e893d0f474c97f82ad17b739541b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 53/84] fix: index reports success although data could not be
 read or written

---
 pwned-index/index.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index cbd7ba9..a2ae835 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -125,6 +125,11 @@ int main(int argc, const char *argv[])
 
   std::cout << "Scanning ..." << std::endl;
   std::ifstream input(inputFilename, std::ios::binary);
+  if (!input.is_open())
+  {
+    std::cerr << "ERROR: cannot open '" << inputFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
@@ -147,6 +152,12 @@ int main(int argc, const char *argv[])
       lastIdx = idx;
     }
   }
+  if (input.bad())
+  {
+    std::cerr << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+    delete[] indexes;
+    return EXIT_FAILURE;
+  }
   input.close();
 
   std::cout << std::endl
@@ -155,6 +166,11 @@ int main(int argc, const char *argv[])
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
+  if (!output)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Ready." << std::endl
             << std::endl;
 
-- 
2.43.0


From 2c8d4a40af19ed3ddf6bc5316f724a0a29300d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 54/84] fix: be2le reports success although data could not be
 read or written

---
 deprecated/be2le/be2le.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 95634c6..e9d13cd 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -44,6 +44,14 @@ int main(int argc, const char *argv[])
       phc.dump(out);
     }
   }
+  const bool inputOk = in.is_open() && !in.bad();
+  out.close();
+  if (!inputOk || !out)
+  {
+    std::cerr << std::endl
+              << "ERROR: cannot " << (inputOk ? "write to '" + outputFilename : "read from '" + inputFilename) << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From a9a40b1274b92d01bf91bccc1c18dd0cc35e1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 55/84] fix: test set extractor reports success although data
 could not be read or written

---
 .../pwned-test-set-extractor/test-set-extractor.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 715a369..4c001aa 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -66,6 +66,7 @@ void usage()
 }
 
 int main(int argc, const char *argv[])
+try
 {
   hello();
   std::string inputFilename;
@@ -190,7 +191,19 @@ int main(int argc, const char *argv[])
     }
   }
 
+  out.close();
+  if (in.bad() || !out)
+  {
+    std::cerr << "Cannot " << (in.bad() ? "read from '" + inputFilename : "write to '" + outputFilename) << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 9099fb9aebf443256ca1716d4ed80e5807fadcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 56/84] fix: password extractor reports success although data
 could not be read or written

---
 .../pwned-password-extractor.cpp              | 53 +++++++++++++++++--
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 971cd9e..b292601 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -73,6 +73,7 @@ void usage()
 }
 
 int main(int argc, const char *argv[])
+try
 {
   hello();
   std::string srcDirectory;
@@ -102,6 +103,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -122,7 +124,7 @@ int main(int argc, const char *argv[])
   if (srcDirectory.empty() || outputFilename.empty())
   {
     usage();
-    return EXIT_SUCCESS;
+    return EXIT_FAILURE;
   }
 
   if (fs::exists(outputFilename))
@@ -193,6 +195,8 @@ int main(int argc, const char *argv[])
   }
   std::ios::openmode readyFileOpenMode = ignoreReady ? std::ios::trunc : std::ios::app;
   std::ofstream readyFile(".ready", readyFileOpenMode);
+  bool ok = true;
+  std::vector<std::string> processed;
   std::cout << "Extracting passwords from ... " << std::endl;
   const std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   for (const auto &inputFilename : inputFilenames)
@@ -210,7 +214,7 @@ int main(int argc, const char *argv[])
     }
     std::cout << inputFilename << std::flush;
     pwned::UserPasswordReader reader(inFile, readerOptions);
-    while (!reader.eof())
+    while (!reader.eof() && !reader.bad())
     {
       std::string pwd = reader.nextPassword();
       if (!pwd.empty())
@@ -237,9 +241,27 @@ int main(int argc, const char *argv[])
 #endif
       }
     }
-    readyFile << inputFilename << std::endl << std::flush;
     inFile.close();
     std::cout << std::endl;
+    if (reader.bad())
+    {
+      std::cerr << "ERROR: Cannot read from '" << inputFilename << "'." << std::endl;
+      ok = false;
+      continue;
+    }
+#ifndef WITHOUT_BZ2
+    if (compress)
+    {
+      processed.push_back(inputFilename);
+      continue;
+    }
+#endif
+    if (fflush(outFile) != 0 || ferror(outFile))
+    {
+      std::cerr << "ERROR: Cannot write to '" << outputFilename << "'." << std::endl;
+      return EXIT_FAILURE;
+    }
+    readyFile << inputFilename << std::endl << std::flush;
   }
 
 #ifndef WITHOUT_BZ2
@@ -256,9 +278,32 @@ int main(int argc, const char *argv[])
   }
 #endif
 
-  fclose(outFile);
+  if (fclose(outFile) != 0)
+  {
+    std::cerr << "ERROR: Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
+  for (const auto &inputFilename : processed)
+  {
+    readyFile << inputFilename << std::endl;
+  }
+  readyFile.close();
+  if (!readyFile)
+  {
+    std::cerr << "ERROR: Cannot write to '.ready'." << std::endl;
+    return EXIT_FAILURE;
+  }
+  if (!ok)
+  {
+    return EXIT_FAILURE;
+  }
 
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 12b1fa53659feba29e1efb658ae65d9ae1a8eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 57/84] fix: markov generator reports success although data
 could not be read or written

---
 .../pwned-markov-generator.cpp                | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..64b34ef 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -83,6 +83,7 @@ void validate(boost::any &v, std::vector<std::string> const &xs, Counter*, long)
 }
 
 int main(int argc, char* argv[])
+try
 {
   hello();
   uint64_t outputEvery;
@@ -135,11 +136,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
@@ -152,7 +155,7 @@ int main(int argc, char* argv[])
   {
     std::cout << "Reading from '" << inputFilename << "' (" << fileSize << " bytes) ..." << std::endl;
   }
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     const std::string &pwd = reader.nextPassword();
     bool ok = chain.train(pwd);
@@ -168,6 +171,11 @@ int main(int argc, char* argv[])
       ++n;
     }
   }
+  if (reader.bad())
+  {
+    std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   chain.update();
   if (verbosity.level > 0)
   {
@@ -176,5 +184,15 @@ int main(int argc, char* argv[])
   chain.saveBinary(outputFile);
   chain.writeJson(std::cout);
   outputFile.close();
+  if (!outputFile)
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From e64388ce284e86d57192f04a5e2fc9d665547b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 58/84] fix: markov generator divides by zero if statistics are
 wanted every 0 passwords

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 64b34ef..cc109b4 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -125,6 +125,12 @@ try
     return EXIT_FAILURE;
   }
 
+  if (outputEvery == 0)
+  {
+    std::cerr << "ERROR: the number of passwords between two statistics must be greater than 0." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   if (outputFilename.empty())
   {
     std::cerr << "ERROR: output file not given." << std::endl;
-- 
2.43.0


From 2ce55170ec1e76b9904f1b4e29292b68ea6a8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 59/84] fix: markov lookup works with a file that it couldn't
 load

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index ec57546..781d02e 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -41,7 +41,13 @@ int main(int argc, char *argv[])
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
   chain_type chain;
-  chain.loadBinary(inputFile);
+  const chain_type::ErrCode ec = chain.loadBinary(inputFile);
+  if (!inputFile.is_open() || ec != chain_type::OK)
+  {
+    std::cerr << "ERROR: Cannot load '" << inputFilename << "': "
+              << (inputFile.is_open() ? chain.errString(ec) : "Cannot open file.") << std::endl;
+    return EXIT_FAILURE;
+  }
   while (true)
   {
     std::cout << "Type password: " << std::flush;
-- 
2.43.0


From 33988c89ae457e2bf74bc0ae34a44c4c686e6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 60/84] fix: markov chain takes an unreadable file for an empty
 or random chain

---
 pwned-lib/markovchain.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index c139362..82215a1 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -216,41 +216,43 @@ public:
       mFirstSymbolProbs.clear();
       mFirstSymbolSortedProbs.clear();
     }
-    if (is.good() && !is.eof())
+    if (!is)
+      return BAD_HEADER_PREMATURE_EOF;
+    if (!is.eof())
     {
       char hdr[FileHeaderSize] = {0, 0, 0, 0};
       is.read(reinterpret_cast<char*>(hdr), FileHeaderSize);
-      if (is.eof())
+      if (!is)
         return BAD_HEADER_PREMATURE_EOF;
       if (memcmp(hdr, FileHeader, FileHeaderSize) != 0)
         return BAD_HEADER;
       uint8_t version = read<uint8_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_VERSION_PREMATURE_EOF;
       if (version != FileVersion)
         return BAD_VERSION;
       const uint32_t firstSymbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         const prob_value_type p = read<prob_value_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_PROBABILITY_PREMATURE_EOF;
         if (!(p >= 0 && p <= 1))
           return BAD_PROBABILITY;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < symbolCount; ++i)
       {
         symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         if (mNodes.find(c) == mNodes.end())
         {
@@ -261,16 +263,16 @@ public:
           return BAD_SYMBOL;
         }
         const uint32_t nodeCount = read<uint32_t>(is);
-        if (is.eof())
+        if (!is)
           return BAD_NODE_COUNT_PREMATURE_EOF;
         node_type &currentNode = mNodes[c];
         for (uint32_t j = 0; j < nodeCount; ++j)
         {
           const symbol_type symbol = read<symbol_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_SYMBOL_PREMATURE_EOF;
           const prob_value_type probability = read<prob_value_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_PROBABILITY_PREMATURE_EOF;
           if (!(probability >= 0 && probability <= 1))
             return BAD_PROBABILITY;
-- 
2.43.0


From 21139d5830bc28a370f548ae62f33c99df941cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 61/84] fix: lookup reports a password as not found although
 the database couldn't be read

---
 pwned-lib/passwordinspector.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 0061c38..7117176 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <limits>
 #include <cmath>
+#include <stdexcept>
 
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wconversion"
@@ -97,6 +98,11 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       }
       mIndexFile.seekg(loIdx);
       mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
+      if (!mIndexFile)
+      {
+        mIndexFile.clear();
+        throw std::runtime_error("Cannot read from index file");
+      }
       ++nReads;
       loIdx -= sizeof(index_key_t);
     }
@@ -110,6 +116,11 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       }
       mIndexFile.seekg(hiIdx);
       mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
+      if (!mIndexFile)
+      {
+        mIndexFile.clear();
+        throw std::runtime_error("Cannot read from index file");
+      }
       ++nReads;
       hiIdx += sizeof(index_key_t);
     }
@@ -121,7 +132,11 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     std::streamoff pos = std::streamoff((uint64_t(lo) + uint64_t(hi)) / 2);
     pos -= pos % std::streamoff(PasswordHashAndCount::size);
     pos = std::max<int64_t>(0, pos);
-    phc.read(mInputFile, pos);
+    if (!phc.read(mInputFile, pos))
+    {
+      mInputFile.clear();
+      throw std::runtime_error("Cannot read from password file");
+    }
     ++nReads;
     if (hash > phc.hash)
     {
-- 
2.43.0


From 994661c0f6175f5b77de691c5d090a62f88e58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 62/84] fix: lookup crashes if a file cannot be read

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index cb381af..6d22c22 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -61,6 +61,7 @@ void usage()
 }
 
 int main(int argc, const char *argv[])
+try
 {
   std::string inputFilename;
   std::string indexFilename;
@@ -89,6 +90,11 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
   pwned::PasswordInspector inspector(inputFilename, indexFilename);
+  if (!inspector.isOpen())
+  {
+    std::cerr << "ERROR: Cannot open '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   for (;;)
   {
     std::cout << "Password? ";
@@ -119,3 +125,8 @@ int main(int argc, const char *argv[])
   }
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 5cac2d51c4cb99bcbab7e18dc0670b50f62eb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 63/84] fix: server dies if the database cannot be read

---
 pwned-server/httpworker.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 6d6eb0d..7091b44 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -50,6 +50,10 @@ HttpWorker::HttpWorker(
     , mLogCallback(logCallback)
     , mLastUpdated(fs::last_write_time(fs::path(inputFilename)))
 {
+  if (!mInspector.isOpen())
+  {
+    throw std::runtime_error("Cannot open '" + inputFilename + "'");
+  }
 }
 
 void HttpWorker::start()
@@ -157,7 +161,19 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   {
     const pwned::Hash &hash = pwned::Hash::fromHex(uri.query().at("hash"));
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = hash.isValid ? mInspector.binsearch(hash) : pwned::PasswordHashAndCount();
+    pwned::PasswordHashAndCount phc;
+    if (hash.isValid)
+    {
+      try
+      {
+        phc = mInspector.binsearch(hash);
+      }
+      catch (const std::exception &)
+      {
+        sendBadResponse(http::status::internal_server_error, "");
+        return;
+      }
+    }
     const auto &t1 = std::chrono::high_resolution_clock::now();
     const double duration = 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0).count();
     pt::ptree response;
-- 
2.43.0


From a88bf2aa40ea6d9f1a5b281cbd961ba15df446c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 64/84] fix: benchmark crashes after an error

---
 extras/pwned-benchmark/benchmark.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/extras/pwned-benchmark/benchmark.cpp b/extras/pwned-benchmark/benchmark.cpp
index 38fce48..1338f52 100755
--- a/extras/pwned-benchmark/benchmark.cpp
+++ b/extras/pwned-benchmark/benchmark.cpp
@@ -238,6 +238,7 @@ void benchmarkWithIndex(
 }
 
 int main(int argc, const char *argv[])
+try
 {
   hello();
   std::string inputFilename;
@@ -267,6 +268,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -350,8 +352,13 @@ int main(int argc, const char *argv[])
     else
     {
       std::cerr << "ERROR: Invalid index file." << std::endl;
+      return EXIT_FAILURE;
     }
   }
+  if (runTimes.size() < std::size_t(nRuns))
+  {
+    return EXIT_FAILURE;
+  }
   std::sort(runTimes.begin(), runTimes.end());
   std::cout << std::endl
             << "Overall lookup time (best/median/avg): " << pwned::readableTime(runTimes.front())
@@ -361,3 +368,8 @@ int main(int argc, const char *argv[])
             << std::endl;
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 99598d101d21e1351667fad74ca9a18f5da094b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 65/84] fix: index crashes on bit counts out of range and
 ignores wrong options

---
 pwned-index/index.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index a2ae835..e111c5a 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -67,6 +67,7 @@ void usage()
 }
 
 int main(int argc, const char *argv[])
+try
 {
   constexpr unsigned int DefaultBits = 24;
   std::string inputFilename;
@@ -89,6 +90,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -120,6 +122,12 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
+  {
+    std::cerr << "ERROR: bit count must be between 1 and " << (sizeof(pwned::index_key_t) * 8 - 1) << "." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
@@ -176,3 +184,8 @@ int main(int argc, const char *argv[])
 
   return EXIT_SUCCESS;
 }
+catch (const std::exception &e)
+{
+  std::cerr << "ERROR: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 550b65f5065b066839153d43c8f1a9788a39e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 66/84] fix: test set extractor divides by zero if 0 data sets
 are wanted and ignores wrong options

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 4c001aa..6b24d9a 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -97,6 +97,7 @@ try
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -117,7 +118,12 @@ try
   if (inputFilename.empty() || outputFilename.empty())
   {
     usage();
-    return EXIT_SUCCESS;
+    return EXIT_FAILURE;
+  }
+  if (N < 1)
+  {
+    std::cerr << "ERROR: number of data sets must be greater than 0." << std::endl;
+    return EXIT_FAILURE;
   }
 
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-- 
2.43.0


From b7c5def6e576043b0455f277d773fa89ce0f6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 67/84] fix: converter ignores wrong options

---
 pwned-converter-cli/pwned-converter-cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index b0a5c0a..44afacd 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -111,6 +111,7 @@ try
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help") > 0)
-- 
2.43.0


From 907478302f24555767f6ea313851c4331885019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 68/84] fix: merger never ends if told to process less than 2
 files at once

---
 pwned-merger-cli/pwned-merger-cli.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 19e093f..6bceaa8 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -147,6 +147,11 @@ try
     usage();
     return EXIT_FAILURE;
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "ERROR: at least 2 files must be processed at once." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
-- 
2.43.0


From 7ed107bb080e44d81f27796be67481957abb1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 69/84] fix: options --help, --warranty and --license have no
 effect in some programs

---
 .../pwned-markov-generator.cpp                 | 12 ++++++++++++
 pwned-lookup-cli/pwned-lookup-cli.cpp          | 18 ++++++++++++++++++
 pwned-server/pwned-server.cpp                  | 12 ++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index cc109b4..a02ab14 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -118,6 +118,18 @@ try
     return EXIT_SUCCESS;
   }
 
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
+
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 6d22c22..8dbce78 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -83,6 +83,24 @@ try
     return EXIT_FAILURE;
   }
   po::notify(vm);
+  if (vm.count("help") > 0)
+  {
+    usage();
+    return EXIT_SUCCESS;
+  }
+
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
+
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index 60e6413..87554db 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -128,6 +128,18 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
+  if (vm.count("warranty") > 0)
+  {
+    warranty();
+    return EXIT_SUCCESS;
+  }
+
+  if (vm.count("license") > 0)
+  {
+    license();
+    return EXIT_SUCCESS;
+  }
+
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
-- 
2.43.0


From e4834f4d95665ba28d9d5288f44f2c94c2e94d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 70/84] fix: password reader forgets about read errors while
 guessing the format

---
 pwned-lib/userpasswordreader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index dafe202..7c701a0 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -78,7 +78,7 @@ char UserPasswordReader::guessSeparator()
       guessedSeparator = maxSep->first;
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit);
   input.seekg(0, std::ios::beg);
   return guessedSeparator;
 }
@@ -102,7 +102,7 @@ bool UserPasswordReader::checkForMD5Hashes()
       }
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit);
   input.seekg(0, std::ios::beg);
   return forceEvaluateMD5Hashes;
 }
@@ -127,7 +127,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
       }
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit);
   input.seekg(0, std::ios::beg);
   return forceEvaluateHexEncodedPasswords;
 }
-- 
2.43.0


From 52132cced57551fdafb0e98566e0ab119cc020a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 71/84] fix: benchmark takes an unreadable test set for an
 empty one

---
 extras/pwned-benchmark/benchmark.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-benchmark/benchmark.cpp b/extras/pwned-benchmark/benchmark.cpp
index 1338f52..a5215ea 100755
--- a/extras/pwned-benchmark/benchmark.cpp
+++ b/extras/pwned-benchmark/benchmark.cpp
@@ -336,6 +336,11 @@ try
   {
     phcs.push_back(phc);
   }
+  if (!testset.is_open() || testset.bad())
+  {
+    std::cerr << "ERROR: Cannot read test set file '" << testsetFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << phcs.size() << " hashes." << std::endl;
   std::vector<double> runTimes;
   if (indexFilename.empty())
-- 
2.43.0


From a7ac36ea49e4c7a7272a3edf288e1c284eaf6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 72/84] fix: merger and converter destroy the queue of
 operations while the key thread may still use it

---
 pwned-converter-cli/pwned-converter-cli.cpp | 7 +++++--
 pwned-merger-cli/pwned-merger-cli.cpp       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 44afacd..cae591b 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -23,6 +23,7 @@
 #include <map>
 #include <vector>
 #include <thread>
+#include <memory>
 #include <chrono>
 #include <cstdint>
 
@@ -169,7 +170,9 @@ try
             << std::endl;
   auto t0 = std::chrono::high_resolution_clock::now();
   std::cout << "Preparing queue ..." << std::endl;
-  pwned::OperationQueue<ConvertOperation> opQueue;
+  // shared with the thread below, which may outlive this function
+  const auto sharedQueue = std::make_shared<pwned::OperationQueue<ConvertOperation>>();
+  pwned::OperationQueue<ConvertOperation> &opQueue = *sharedQueue;
   for (const auto &filename : filenames)
   {
     ConvertOperation *op = new ConvertOperation(filename,
@@ -181,7 +184,7 @@ try
   }
   pwned::TermIO termIO;
   termIO.disableEcho();
-  std::thread keyThread = pwned::runAsync([&opQueue] {
+  std::thread keyThread = pwned::runAsync([sharedQueue, &opQueue] {
     int ch;
     do
     {
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 6bceaa8..af5c17e 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -23,6 +23,7 @@
 #include <vector>
 #include <iterator>
 #include <thread>
+#include <memory>
 #include <algorithm>
 #include <chrono>
 
@@ -186,8 +187,10 @@ try
   std::vector<std::string> intermediateFilenames;
   int rc = EXIT_SUCCESS;
   ProgressBar progressBar(32);
-  pwned::OperationQueue<merger::MergeOperation> opQueue;
-  std::thread keyThread = pwned::runAsync([&opQueue] {
+  // shared with the thread below, which may outlive this function
+  const auto sharedQueue = std::make_shared<pwned::OperationQueue<merger::MergeOperation>>();
+  pwned::OperationQueue<merger::MergeOperation> &opQueue = *sharedQueue;
+  std::thread keyThread = pwned::runAsync([sharedQueue, &opQueue] {
     int ch;
     do
     {
-- 
2.43.0


From d612911f0415fa28a150bd1132e2b7ad3a61651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 73/84] fix: memory sizes the system does not report are random
 numbers

---
 pwned-lib/util.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pwned-lib/util.hpp b/pwned-lib/util.hpp
index df45bb4..de70dab 100755
--- a/pwned-lib/util.hpp
+++ b/pwned-lib/util.hpp
@@ -30,17 +30,17 @@ struct MemoryStat
 {
   struct
   {
-    uint64_t total;
-    uint64_t avail;
-    uint64_t used;
-    uint64_t app;
+    uint64_t total{0};
+    uint64_t avail{0};
+    uint64_t used{0};
+    uint64_t app{0};
   } virt;
   struct
   {
-    uint64_t total;
-    uint64_t avail;
-    uint64_t used;
-    uint64_t app;
+    uint64_t total{0};
+    uint64_t avail{0};
+    uint64_t used{0};
+    uint64_t app{0};
   } phys;
 };
 
-- 
2.43.0


From b01886f0b9e39ea976cacd393f445881ea150e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 74/84] fix: converter never starts if the memory sizes cannot
 be read

---
 pwned-lib/util.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index b43ce2c..57e00f1 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -111,10 +111,9 @@ int getMemoryStat(MemoryStat &memoryStat)
     {"VmallocUsed", &memoryStat.virt.used}
   };
   std::ifstream meminfo("/proc/meminfo");
-  while (!meminfo.eof())
+  std::string line;
+  while (std::getline(meminfo, line))
   {
-    std::string line;
-    std::getline(meminfo, line);
     for (const auto &m : memTable)
     {
       if (line.size() >= m.first.size() && std::equal(m.first.begin(), m.first.end(), line.begin()))
-- 
2.43.0


From 07fb580eae41676e9a2bad9f618580f84cdc536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 75/84] fix: load test does not compile

---
 pwned-server/loadtest/httpclientworker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwned-server/loadtest/httpclientworker.hpp b/pwned-server/loadtest/httpclientworker.hpp
index 0692f64..5441c66 100644
--- a/pwned-server/loadtest/httpclientworker.hpp
+++ b/pwned-server/loadtest/httpclientworker.hpp
@@ -19,6 +19,7 @@
 #define __httpclientworker_hpp__
 
 #include <cstdint>
+#include <fstream>
 #include <string>
 #include <random>
 #include <vector>
-- 
2.43.0


From 06933a4375d1f573e543e7b15aee3598ecf0d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 76/84] fix: load test divides by zero on an input file without
 a record and stops at an incomplete one

---
 pwned-server/loadtest/httpclientworker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pwned-server/loadtest/httpclientworker.cpp b/pwned-server/loadtest/httpclientworker.cpp
index a0cc34e..5e5d929 100644
--- a/pwned-server/loadtest/httpclientworker.cpp
+++ b/pwned-server/loadtest/httpclientworker.cpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <random>
 #include <fstream>
+#include <stdexcept>
 #include <vector>
 
 #include <boost/beast/core.hpp>
@@ -69,11 +70,15 @@ HttpClientWorker::HttpClientWorker(
     , mStream(ioc)
     , mGen(uint64_t(id))
     , mInputFile(inputFilename, std::ios::binary)
-    , mInputSize(boost::filesystem::file_size(inputFilename))
+    , mInputSize(boost::filesystem::file_size(inputFilename) / pwned::PHC::size * pwned::PHC::size)
     , mT0(std::chrono::steady_clock::now())
     , mT1(mT0 + std::chrono::seconds(runtimeSecs))
     , mURI(address)
 {
+  if (mInputSize == 0)
+  {
+    throw std::runtime_error("There are no hashes in '" + inputFilename + "'");
+  }
 }
 
 void HttpClientWorker::start()
-- 
2.43.0


From 19539157de7df9b931766fd8a9f4882139932818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 77/84] fix: the collector skips a list if nothing has been
 downloaded and starts from 1 after an early interruption

LAST_ID was the first list before anything had been downloaded, so that the
next run continued behind it, and not set at all while the first question was
waiting for an answer.
---
 extras/collectors/hashes.org/fetch.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extras/collectors/hashes.org/fetch.sh b/extras/collectors/hashes.org/fetch.sh
index 5ec7cfc..aefabaf 100755
--- a/extras/collectors/hashes.org/fetch.sh
+++ b/extras/collectors/hashes.org/fetch.sh
@@ -5,7 +5,9 @@ function usage() {
 }
 
 function save {
-  echo $(expr $LAST_ID + 1) > $LATEST
+  if [ -n "$LAST_ID" ]; then
+    echo $(expr $LAST_ID + 1) > $LATEST
+  fi
 }
 
 function ctrl_c()
@@ -66,6 +68,7 @@ fi
 
 mkdir -p $DOWNLOAD_DIR
 
+LAST_ID=
 trap ctrl_c SIGINT
 
 if [[ -n $1 && -n $2 ]]; then
@@ -96,8 +99,6 @@ fi
 echo "Fetching cookies ..."
 curl -sSI --cookie-jar $COOKIE_JAR "https://hashes.org/leaks.php" > /dev/null
 
-LAST_ID=${FROM}
-
 echo "Fetching password lists from ${FROM} to ${TO} ... (Press q to quit.)"
 for ID in `seq ${FROM} ${TO}`; do
   echo -n " #${ID} ... "
-- 
2.43.0


From 672f1542b491ce0bbe1681816dad973e9b487d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 78/84] fix: the collector takes a failed or incomplete
 download for a complete list

---
 extras/collectors/hashes.org/fetch.sh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extras/collectors/hashes.org/fetch.sh b/extras/collectors/hashes.org/fetch.sh
index aefabaf..92a70f2 100755
--- a/extras/collectors/hashes.org/fetch.sh
+++ b/extras/collectors/hashes.org/fetch.sh
@@ -109,8 +109,12 @@ for ID in `seq ${FROM} ${TO}`; do
     -H "User-Agent: Mozilla/5.0 (X11; Ubuntu; Linux x86_64; rv:70.0) Gecko/20100101 Firefox/70.0" \
     -H "Referer: https://hashes.org/" \
     -o "${OUTPUT_FILE}"
+  CURL_STATUS=$?
   CONTENTS=`head -1 "${OUTPUT_FILE}"`
-  if [ "$CONTENTS" = "Invalid hashlist!" ]; then
+  if [ $CURL_STATUS -ne 0 ]; then
+    echo "FAILED"
+    rm -f "${OUTPUT_FILE}"
+  elif [ "$CONTENTS" = "Invalid hashlist!" ]; then
     echo "INVALID"
     rm "${OUTPUT_FILE}"
   elif [ "$CONTENTS" = "Hashlist is deleted!" ]; then
-- 
2.43.0


From 6bb94171d1f16fb02d60da9371f902cc9b451d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 79/84] fix: the converter ignores the given number of threads,
 so that it may use many times the memory given

---
 pwned-converter-cli/pwned-converter-cli.cpp | 2 +-
 pwned-lib/operationqueue.hpp                | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index cae591b..f299b3d 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -171,7 +171,7 @@ try
   auto t0 = std::chrono::high_resolution_clock::now();
   std::cout << "Preparing queue ..." << std::endl;
   // shared with the thread below, which may outlive this function
-  const auto sharedQueue = std::make_shared<pwned::OperationQueue<ConvertOperation>>();
+  const auto sharedQueue = std::make_shared<pwned::OperationQueue<ConvertOperation>>(0, numThreads);
   pwned::OperationQueue<ConvertOperation> &opQueue = *sharedQueue;
   for (const auto &filename : filenames)
   {
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d10ef0c..ca62e94 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -56,7 +56,7 @@ class OperationQueue
   std::thread exeThread;
   mutable std::mutex mtx;
   std::mutex pauseMtx;
-  Semaphore guard{std::thread::hardware_concurrency()};
+  Semaphore guard;
   int threadPriority;
   std::atomic<bool> _isRunning{false};
   std::atomic<bool> _isCancelled{false};
@@ -80,8 +80,10 @@ class OperationQueue
   }
 
 public:
-  explicit OperationQueue(int threadPriority = 0)
-      : threadPriority(threadPriority)
+  // at most maxThreads operations are executed at the same time
+  explicit OperationQueue(int threadPriority = 0, unsigned int maxThreads = std::thread::hardware_concurrency())
+      : guard(maxThreads > 0 ? maxThreads : 1)
+      , threadPriority(threadPriority)
   {
   }
 
-- 
2.43.0


From 9c5959d3e2b896f5e9d6b92d11d68a946173a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 80/84] fix: the Markov chain's probabilities are wrong when
 its counts add up to 2^32 or more

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 82215a1..91f3f3e 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -70,7 +70,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mFirstSymbolCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 9bf1deb..22df9e0 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -56,7 +56,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
-- 
2.43.0


From f3471b89d7215ed2a721383f05ecac3f97072ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:04 +0000
Subject: [PATCH 81/84] fix: a failed or incomplete download of the root
 certificates leaves a damaged header that is taken for up to date

---
 pwned-server/loadtest/cert/getcerts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwned-server/loadtest/cert/getcerts.py b/pwned-server/loadtest/cert/getcerts.py
index 01bb887..51effc8 100755
--- a/pwned-server/loadtest/cert/getcerts.py
+++ b/pwned-server/loadtest/cert/getcerts.py
@@ -7,6 +7,7 @@ import platform
 
 
 OUTPUT_FILENAME = 'root_certificates_generated.hpp'
+TEMP_FILENAME = OUTPUT_FILENAME + '.tmp'
 MAX_AGE_DAYS = 1
 
 def creation_date(filename):
@@ -32,13 +33,14 @@ def main():
   if (missing_or_outdated(OUTPUT_FILENAME)):
     print('Creating ' + OUTPUT_FILENAME + ' ...')
     with urlopen('https://curl.haxx.se/ca/cacert.pem') as input:
-      with open(OUTPUT_FILENAME, 'w+') as output:
+      lines = input.read().splitlines()  # raises an exception if the transfer is incomplete
+      with open(TEMP_FILENAME, 'w+') as output:
         output.write('// this file was generated by pwned-server/loadtest/cert/getcerts.py\n')
         output.write('#ifndef __ROOT_CERT_INCLUDE_HPP__\n')
         output.write('#define __ROOT_CERT_INCLUDE_HPP__\n')
         output.write('#define ROOT_CERTIFICATES (\\\n')
         incert = False
-        for l in input:
+        for l in lines:
           line = l.decode('utf-8').strip()
           if incert:
             output.write('"' + line + '\\n" \\\n')
@@ -49,6 +51,7 @@ def main():
             output.write('"' + line + '\\n" \\\n')
         output.write('"\\n")\n')
         output.write('#endif // __ROOT_CERT_INCLUDE_HPP__\n')
+    os.replace(TEMP_FILENAME, OUTPUT_FILENAME)
 
 if __name__ == '__main__':
   main()
-- 
2.43.0


From 554386c56d473a0d806b6e672cbfff188021f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:04 +0000
Subject: [PATCH 82/84] fix: converters that run at the same time may overwrite
 each other's files

---
 pwned-converter-cli/convertoperation.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7d36627..69ef5ac 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -15,6 +15,8 @@
  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cerrno>
+#include <cstdio>
 #include <iostream>
 #include <map>
 #include <mutex>
@@ -72,6 +74,17 @@ ConvertOperation::ConvertOperation(const std::string &srcFilename,
   priority = (long long)(fs::file_size(srcFilename));
 }
 
+// Creates a file unless there is one already, even if another process is about to do the same.
+// Other reasons why it cannot be created show when it is opened for writing.
+static bool createExclusively(const fs::path &path)
+{
+  FILE *f = fopen(path.string().c_str(), "wbx");
+  if (f == NULL)
+    return errno != EEXIST;
+  fclose(f);
+  return true;
+}
+
 void ConvertOperation::execute() noexcept(false)
 {
   if (isCancelled)
@@ -166,7 +179,7 @@ void ConvertOperation::execute() noexcept(false)
     std::unique_lock<std::mutex> outputLock(outputMtx);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath))
+    while (!createExclusively(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
-- 
2.43.0


From b408c145bc927d0e12d330462491436e7852f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:12 +0000
Subject: [PATCH 83/84] fix: the load test reports an infinite rate if
 connections are reset after the last answer

---
 pwned-server/loadtest/httpclientworker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-server/loadtest/httpclientworker.cpp b/pwned-server/loadtest/httpclientworker.cpp
index 5e5d929..10a7892 100644
--- a/pwned-server/loadtest/httpclientworker.cpp
+++ b/pwned-server/loadtest/httpclientworker.cpp
@@ -226,7 +226,8 @@ void HttpClientWorker::onRead(beast::error_code ec, std::size_t /*bytes_transfer
     std::cerr << "ERROR in read_json(): " << e.what() << std::endl;
     return;
   }
-  const auto rtt = std::chrono::steady_clock::now() - mRTTt0;
+  mTStop = std::chrono::steady_clock::now();
+  const auto rtt = mTStop - mRTTt0;
   mRTT.push_back(rtt);
   ++mRequestCount;
   if (mSSLStream)
-- 
2.43.0


From d7b4b6b1e5fd3840527ddb6d210b9f22ee023206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:47 +0000
Subject: [PATCH 84/84] fix: merger refuses to work without a usable TMPDIR
 although a working directory is given

---
 pwned-merger-cli/pwned-merger-cli.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index af5c17e..b297228 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -87,7 +87,10 @@ try
   std::vector<std::string> filenames;
   std::string srcDirectory;
   std::string dstFile;
-  std::string tmpDirectory = (fs::temp_directory_path() / "net.ersatzworld.pwned.merger").string();
+  // an unusable default doesn't matter if another directory is given
+  boost::system::error_code tmpEc;
+  const fs::path &defaultTmp = fs::temp_directory_path(tmpEc);
+  std::string tmpDirectory = tmpEc ? std::string() : (defaultTmp / "net.ersatzworld.pwned.merger").string();
   std::string outputExt;
   std::string inputExt = DefaultOutputExt;
   int maxFilesAtOnce;
@@ -165,6 +168,11 @@ try
       return EXIT_SUCCESS;
     }
   }
+  if (tmpDirectory.empty())
+  {
+    std::cerr << "There's no directory for temporary files. Please set a working directory with `-T`." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (!fs::exists(tmpDirectory))
   {
     boost::system::error_code ec;
-- 
2.43.0

