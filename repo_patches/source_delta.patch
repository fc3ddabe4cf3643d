From 26441a556bfa7d6bcf8503af804a2a122fa5c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 001/178] fix: open .npy files for reading only when loading
 them

A load opened the file with "r+b": files that may only be read could not be loaded.
---
 il/io/numpy/numpy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..9dc6a1d 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -177,10 +177,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -233,10 +233,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From 67619627364d6c39d46b05277767d00b472e74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 002/178] fix: compare whole strings in String::isEqual and
 StringView::operator==

A string was equal to each of its prefixes (or of its extensions), so that for
instance an array of type "f80" was loaded as "f8".
---
 il/container/string/String.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..f998037 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1007,20 +1007,11 @@ inline const char* String::asCString() const {
 }
 
 inline bool String::isEqual(const char* s) const {
-  bool ans = true;
-  const char* p = data();
-  il::int_t i = 0;
-  while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
-      ans = false;
-    }
-    ++i;
-  }
-  return ans;
+  return isEqual(s, static_cast<il::int_t>(std::strlen(s)));
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = (size() == n);
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
@@ -1433,7 +1424,7 @@ inline bool StringView::operator==(const char* string) const {
     }
     ++k;
   }
-  return match;
+  return match && k == size() && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From 7d2a924904cdf00fff93b88cdb36fa8d1c4303d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 003/178] fix: reject malformed .npy headers and shapes that
 exceed the file

---
 il/io/numpy/numpy.cpp | 78 +++++++++++++++++++++++++++++++++++--------
 il/io/numpy/numpy.h   | 17 ++++++++++
 2 files changed, 81 insertions(+), 14 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..d80bb8f 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -63,8 +63,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   il::Array<char> second_buffer{header_length + 1};
   StringView header =
       StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+  const std::size_t header_read =
+      fread(second_buffer.Data(), sizeof(char), header_length, fp);
+  second_buffer[header_length] = '\0';
+  if (header_length == 0 || header_read != header_length ||
+      !(header[header.size() - 2] == '\n')) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
@@ -87,6 +90,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView type_string = header.subview(i4 + 10, header.size());
   const il::int_t i5 = il::search("'", type_string);
+  if (i5 == -1) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
   numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
 
   // Read the ordering for multidimensional arrays
@@ -111,20 +119,31 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
     return numpy_info;
   }
   StringView shape_string = header.subview(i1 + 1, i2);
-  if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
+  const il::int_t n = shape_string.size();
   il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
-      break;
+  while (i < n) {
+    while (i < n && shape_string[i] == ' ') {
+      ++i;
+    }
+    const il::int_t i_first_digit = i;
+    il::int_t dim = 0;
+    bool overflow = false;
+    while (i < n && shape_string.hasDigit(i)) {
+      const il::int_t digit = shape_string[i] - '0';
+      overflow = overflow || dim > (IL_INTEGER_MAX - digit) / 10;
+      dim = overflow ? 0 : 10 * dim + digit;
+      ++i;
+    }
+    const bool no_digit = i == i_first_digit;
+    while (i < n && shape_string[i] == ' ') {
+      ++i;
     }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
+    if (no_digit || overflow || (i < n && shape_string[i] != ',')) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return numpy_info;
+    }
+    numpy_info.shape.Append(dim);
     ++i;
   }
 
@@ -132,6 +151,37 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   return numpy_info;
 }
 
+void checkNumpyShape(const NumpyInfo& numpy_info, il::int_t element_size,
+                     il::io_t, std::FILE* fp, il::Status& status) {
+  // The array must fit in what remains of the file. An empty array has no
+  // element in the file but its other dimensions also need memory.
+  const long position = std::ftell(fp);
+  const bool end_ok = position >= 0 && std::fseek(fp, 0, SEEK_END) == 0;
+  const long end = end_ok ? std::ftell(fp) : -1;
+  if (end < position || std::fseek(fp, position, SEEK_SET) != 0) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  bool empty = false;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    empty = empty || numpy_info.shape[i] == 0;
+  }
+  const il::int_t max_bytes_empty = 65536;
+  il::int_t room = (empty ? max_bytes_empty : end - position) / element_size;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    const il::int_t dim = numpy_info.shape[i];
+    if (dim > room) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return;
+    }
+    room = dim > 0 ? room / dim : room;
+  }
+
+  status.SetOk();
+}
+
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
   il::String header{};
diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 9dc6a1d..48d5cf8 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -57,6 +57,9 @@ struct NumpyInfo {
 };
 
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
+// Sets an error if the file is too short for the shape of the array
+void checkNumpyShape(const NumpyInfo& numpy_info, il::int_t element_size,
+                     il::io_t, std::FILE* fp, il::Status& status);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
@@ -205,6 +208,13 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    il::checkNumpyShape(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
+                        file, info_status);
+    if (!info_status.Ok()) {
+      status = std::move(info_status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -265,6 +275,13 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    il::checkNumpyShape(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
+                        file, info_status);
+    if (!info_status.Ok()) {
+      status = std::move(info_status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From 06b9d98998d8dbc763b769e77b841023a65bc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 004/178] fix: save the columns of an il::Array2D with spare
 capacity

---
 il/io/numpy/numpy.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 48d5cf8..5413d04 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -151,13 +151,15 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
-      status.SetError(il::Error::FilesystemCanNotWriteToFile);
-      IL_SET_SOURCE(status);
-      return;
+    for (il::int_t j = 0; j < A.size(1); ++j) {
+      std::size_t written =
+          std::fwrite(A.data() + j * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file);
+      if (static_cast<il::int_t>(written) != A.size(0)) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        IL_SET_SOURCE(status);
+        return;
+      }
     }
 
     const int error = std::fclose(file);
-- 
2.43.0


From 8fb8bbb34dde59d6e62d75c30649a06b637b4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 005/178] fix: report a .npy header that cannot be written
 instead of aborting

---
 il/io/numpy/numpy.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 5413d04..290bffe 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -89,10 +89,7 @@ class SaveHelper<il::Array<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -143,10 +140,7 @@ class SaveHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
-- 
2.43.0


From 6f52fe675f6ccb76b158aa9328dea52e3e313c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 006/178] fix: close .npy files when saving or loading fails

---
 il/io/numpy/numpy.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 290bffe..2dadfa0 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -97,6 +97,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -150,6 +151,7 @@ class SaveHelper<il::Array2D<T>> {
           std::fwrite(A.data() + j * A.stride(1), sizeof(T),
                       static_cast<std::size_t>(A.size(0)), file);
       if (static_cast<il::int_t>(written) != A.size(0)) {
+        std::fclose(file);
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         IL_SET_SOURCE(status);
         return;
@@ -190,15 +192,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -207,6 +212,7 @@ class LoadHelper<il::Array<T>> {
     il::checkNumpyShape(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
                         file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
@@ -214,6 +220,7 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -253,19 +260,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -274,6 +285,7 @@ class LoadHelper<il::Array2D<T>> {
     il::checkNumpyShape(numpy_info, static_cast<il::int_t>(sizeof(T)), il::io,
                         file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
@@ -282,6 +294,7 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From d3079274023f13e6fdbd8b5647305f63c65f8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 007/178] fix: release the memory of an il::Info when it is
 destroyed or moved to

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1523517 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 10a716a4ddae7e21485bcb8fc71450f01b097480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 008/178] fix: do not find an il::Info key that is a prefix of
 the searched key

---
 il/container/info/Info.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1523517..f4e8bf8 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -283,7 +283,7 @@ inline il::int_t Info::search(const char* key) const {
     while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From 4ae7e36618ffc509be59aa3d3c7601911a9b723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 009/178] fix: store il::Info integers given as an int so that
 they can be read back

---
 il/container/info/Info.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index f4e8bf8..acc2ceb 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -179,7 +179,8 @@ inline Info::~Info() {
 
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
+  const int n =
+      key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
   Resize(i + n);
 
@@ -193,10 +194,10 @@ inline void Info::Set(const char* key, int value) {
   }
   i += key_length + 1;
 
-  p[i] = 3;
+  p[i] = 0;
   ++i;
 
-  Set(value, p + i);
+  Set(static_cast<il::int_t>(value), p + i);
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From de052558fab8473107a0796d01ab593b1f761605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 010/178] fix: append all the copies of a code point to an
 il::String

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index f998037..70ca1e1 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -606,7 +606,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
@@ -619,7 +619,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From cb556700f605fe1afebe0e66eefff2738dd93cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 011/178] fix: keep the buffer of a large il::String when
 appending to it

---
 il/container/string/String.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 70ca1e1..294a710 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1048,13 +1048,12 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
+  if (n <= old_capacity) {
+    if (old_is_small) {
+      setSmall(il::StringType::Byte, n);
+    } else {
+      setLarge(il::StringType::Byte, n, old_capacity);
     }
-    setSmall(il::StringType::Byte, n);
-  } else if (n <= old_capacity) {
-    setLarge(il::StringType::Byte, n, old_capacity);
   } else {
     const il::int_t r = nextCapacity(n);
     char* p = il::allocateArray<char>(r + 1);
-- 
2.43.0


From 24c7fd23ebd569e469ce8d063f2f9bdf771a2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 012/178] fix: release the buffers of moved il::String objects

---
 il/container/string/String.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 294a710..eee8084 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
@@ -441,6 +441,9 @@ inline String& String::operator=(String&& s) {
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
+      if (!isSmall()) {
+        il::deallocate(large_.data);
+      }
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-- 
2.43.0


From a135c097ac479d47cb62e3fb30ffbf83a6fe9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 013/178] fix: self-assignment of an il::String with reserved
 capacity

---
 il/container/string/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index eee8084..76eb73c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -404,6 +404,10 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
+
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From 85041a764dde563d1526d7120d3a994bd6cc8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 014/178] fix: substrings and subviews of large il::String
 objects

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 76eb73c..07197be 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -927,7 +927,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -941,7 +941,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From b0c7c0c8ec1afdaae0f7ad33d428014864600fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 015/178] fix: make il::String::endsWith(char) look at the last
 character

---
 il/container/string/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 07197be..e445015 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1001,12 +1001,7 @@ inline bool String::endsWith(char c) const {
   if (n == 0) {
     return false;
   }
-  const char* s = data();
-  if (*s == 'c') {
-    return true;
-  } else {
-    return false;
-  }
+  return data()[n - 1] == c;
 }
 
 inline const char* String::asCString() const {
-- 
2.43.0


From 3ef62eb36fb49ffa30f6de501ffcd280d8a04d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 016/178] fix: append to an il::String a part of itself

---
 il/container/string/String.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e445015..1b64394 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -162,6 +162,9 @@ class String {
   void SetInvariant(il::unsafe_t, il::StringType type, il::int_t n);
 
  private:
+  // Current position of the bytes at s, that might be a part of this string
+  // which had n bytes at old_data before it has grown
+  const char* afterGrow(const char* s, const char* old_data, il::int_t n) const;
   il::int_t smallSize() const;
   il::int_t largeCapacity() const;
   // Does not set the '\0'. You are responsible for that.
@@ -687,9 +690,10 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
 
   const il::int_t old_n = size();
   const il::StringType t = joinType(type(), t0);
+  const char* old_data = this->data();
   Grow(il::unsafe, old_n, old_n + n);
   char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
+  std::memcpy(p + old_n, afterGrow(data, old_data, old_n), n);
   p[old_n + n] = '\0';
   SetInvariant(il::unsafe, t, old_n + n);
 }
@@ -698,9 +702,10 @@ inline void String::Append(const StringView& s0) {
   const il::int_t old_n = size();
   const il::int_t n0 = s0.size();
   const il::StringType t = joinType(type(), s0.type());
+  const char* old_data = this->data();
   Grow(il::unsafe, old_n, old_n + n0);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
+  std::memcpy(p + old_n, afterGrow(s0.data(), old_data, old_n), n0);
   p[old_n + n0] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0);
 }
@@ -710,10 +715,11 @@ inline void String::Append(const StringView& s0, const StringView& s1) {
   const il::int_t n0 = s0.size();
   const il::int_t n1 = s1.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type());
+  const char* old_data = this->data();
   Grow(il::unsafe, old_n, old_n + n0 + n1);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
+  std::memcpy(p + old_n, afterGrow(s0.data(), old_data, old_n), n0);
+  std::memcpy(p + old_n + n0, afterGrow(s1.data(), old_data, old_n), n1);
   p[old_n + n0 + n1] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0 + n1);
 }
@@ -725,11 +731,12 @@ inline void String::Append(const StringView& s0, const StringView& s1,
   const il::int_t n1 = s1.size();
   const il::int_t n2 = s2.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
+  const char* old_data = this->data();
   Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
   char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
+  std::memcpy(p + old_n, afterGrow(s0.data(), old_data, old_n), n0);
+  std::memcpy(p + old_n + n0, afterGrow(s1.data(), old_data, old_n), n1);
+  std::memcpy(p + old_n + n0 + n1, afterGrow(s2.data(), old_data, old_n), n2);
   p[old_n + n0 + n1 + n2] = '\0';
   SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
 }
@@ -1077,6 +1084,11 @@ inline void String::SetInvariant(il::unsafe_t, il::StringType type,
   }
 }
 
+inline const char* String::afterGrow(const char* s, const char* old_data,
+                                     il::int_t n) const {
+  return s >= old_data && s <= old_data + n ? data() + (s - old_data) : s;
+}
+
 inline il::int_t String::smallSize() const {
   return small_[max_small_size_ + 1] & static_cast<unsigned char>(0x1F);
 }
-- 
2.43.0


From 7742d263c9f13adde07e81e3d1be083a92a830e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 017/178] fix: terminate an il::String after an insertion

---
 il/container/string/String.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 1b64394..d32e7bf 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -758,6 +758,7 @@ inline void String::Insert(il::int_t i, char c) {
       p[k] = p[k - 1];
     }
     p[i] = c;
+    p[old_size + 1] = '\0';
     if (old_is_small) {
       setSmall(type(), old_size + 1);
     } else {
@@ -769,6 +770,7 @@ inline void String::Insert(il::int_t i, char c) {
     std::memcpy(new_p, p, i);
     new_p[i] = c;
     std::memcpy(new_p + i + 1, p + i, old_size - i);
+    new_p[old_size + 1] = '\0';
     large_.data = new_p;
     setLarge(type(), old_size + 1, r);
   }
@@ -794,6 +796,7 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
     for (il::int_t k = i; k < i + n; ++k) {
       p[k] = c;
     }
+    p[old_size + n] = '\0';
     if (old_is_small) {
       setSmall(type(), old_size + n);
     } else {
@@ -807,6 +810,7 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
       new_p[k] = c;
     }
     std::memcpy(new_p + i + n, p + i, old_size - i);
+    new_p[old_size + n] = '\0';
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -832,6 +836,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
+    p[old_size + n] = '\0';
     if (old_is_small) {
       setSmall(type(), old_size + n);
     } else {
@@ -843,6 +848,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i);
+    new_p[old_size + n] = '\0';
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -865,6 +871,7 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
+    p[old_size + n] = '\0';
     if (old_is_small) {
       setSmall(t_new, old_size + n);
     } else {
@@ -876,6 +883,7 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i);
+    new_p[old_size + n] = '\0';
     large_.data = new_p;
     setLarge(t_new, old_size + n, r);
   }
-- 
2.43.0


From 232e8943b64d0c4f401c7ce9d09677f38548c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 018/178] fix: release the old buffer of an il::String after an
 insertion

---
 il/container/string/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index d32e7bf..b3eb6e0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -771,6 +771,9 @@ inline void String::Insert(il::int_t i, char c) {
     new_p[i] = c;
     std::memcpy(new_p + i + 1, p + i, old_size - i);
     new_p[old_size + 1] = '\0';
+    if (!old_is_small) {
+      il::deallocate(large_.data);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + 1, r);
   }
@@ -811,6 +814,9 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
     }
     std::memcpy(new_p + i + n, p + i, old_size - i);
     new_p[old_size + n] = '\0';
+    if (!old_is_small) {
+      il::deallocate(large_.data);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -849,6 +855,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i);
     new_p[old_size + n] = '\0';
+    if (!old_is_small) {
+      il::deallocate(large_.data);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -884,6 +893,9 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i);
     new_p[old_size + n] = '\0';
+    if (!old_is_small) {
+      il::deallocate(large_.data);
+    }
     large_.data = new_p;
     setLarge(t_new, old_size + n, r);
   }
-- 
2.43.0


From 45692fceb4dcd7efed86ca71275a242aa0904785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 019/178] fix: accept any position inside the string in
 il::String::Insert

---
 il/container/string/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index b3eb6e0..ee283f4 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -783,7 +783,8 @@ inline void String::Insert(il::int_t i, char c) {
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
@@ -865,7 +866,8 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
-- 
2.43.0


From d06115a8ec58fa4c28a8dba033ac90013f6f5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 020/178] fix: il::toString of integers with more than 11
 characters

---
 il/container/string/algorithmString.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..c217a0b 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,9 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  // Enough for the sign and the digits of any 64-bit integer
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From 4b904573f1f8c143d392c96eaa5be0c713f143d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 021/178] fix: allocate the requested capacity of aligned
 il::Array objects

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From 85af77356565e283dfc22dc9a05586a00c65f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 022/178] fix: construct the new objects when an il::Array with
 reserved capacity is assigned to

---
 il/container/1d/Array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..6068b58 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,10 +585,14 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_old = size();
+      for (il::int_t i = 0; i < il::min(n, n_old); ++i) {
         data_[i] = v.data_[i];
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
+      }
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
     }
-- 
2.43.0


From 412604aa44e9d64af9f292fec28d46acb05bf88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 023/178] fix: il::Array::Set must not touch the spare capacity

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 6068b58..c0cdce7 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -664,7 +664,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size_ - data_; ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From ff68827e7ccccd56f81c6f81a14055f4450a41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 024/178] fix: append to a full il::Array one of its own
 elements

---
 il/container/1d/Array.h | 51 ++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index c0cdce7..08a50c6 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -265,6 +265,14 @@ class Array {
    */
   void IncreaseCapacity(il::int_t r);
 
+  /* \brief Used internally to allocate a block for r elements
+   */
+  T* NewBlock(il::int_t r, il::io_t, il::int_t& shift);
+
+  /* \brief Used internally to move the elements to a block of r elements
+   */
+  void MoveToBlock(T* new_data, il::int_t r, il::int_t new_shift);
+
   /* \brief Used internally in debug mode to check the invariance of the object
    */
   bool invariance() const;
@@ -837,13 +845,14 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
+    // x might be an element of the array: use it before it is moved
+    il::int_t new_shift;
+    T* new_data = NewBlock(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::move(x));
+    MoveToBlock(new_data, new_capacity, new_shift);
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -859,9 +868,14 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    // The arguments might be elements of the array: use them before they move
+    il::int_t new_shift;
+    T* new_data = NewBlock(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    MoveToBlock(new_data, new_capacity, new_shift);
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
@@ -944,15 +958,24 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* new_data = NewBlock(r, il::io, new_shift);
+  MoveToBlock(new_data, r, new_shift);
+}
+
+template <typename T>
+T* Array<T>::NewBlock(il::int_t r, il::io_t, il::int_t& shift) {
   if (alignment_ == 0) {
-    new_data = il::allocateArray<T>(r);
-    new_shift = 0;
+    shift = 0;
+    return il::allocateArray<T>(r);
   } else {
-    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+    return il::allocateArray<T>(r, align_r_, align_mod_, il::io, shift);
   }
+}
+
+template <typename T>
+void Array<T>::MoveToBlock(T* new_data, il::int_t r, il::int_t new_shift) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


From faec843afa9f4cf5fbba1376447252837bd81043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 025/178] fix: il::SmallArray::Resize within the capacity
 destroyed the elements it keeps

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..82122d9 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From e56622fbd23d50898e701406990d3e341288c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 026/178] fix: il::SmallArray copy assignment assigned to
 elements that were never constructed

---
 il/container/1d/SmallArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 82122d9..cf9beec 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -367,14 +367,18 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = data_ + n;
       capacity_ = data_ + n;
     } else {
+      const il::int_t n_old = size();
       if (!il::isTrivial<T>::value) {
-        for (il::int_t i = size() - 1; i >= n; --i) {
+        for (il::int_t i = n_old - 1; i >= n; --i) {
           (data_ + i)->~T();
         }
       }
-      for (il::int_t i = 0; i < n; ++i) {
+      for (il::int_t i = 0; i < n && i < n_old; ++i) {
         data_[i] = A.data_[i];
       }
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(A.data_[i]);
+      }
       size_ = data_ + n;
     }
   }
-- 
2.43.0


From f22ef3d5ca83c55a69b7b2f9a3011a4e5537e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 027/178] fix: il::SmallArray move assignment destroyed the
 wrong elements and kept the storage in the source

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index cf9beec..72087e4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -409,7 +409,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -419,7 +419,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From 619695a0db4d90686e89ef17417983cda7a6ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 028/178] fix: append to a full il::SmallArray one of its own
 elements

---
 il/container/1d/SmallArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 72087e4..f72a662 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -554,9 +554,13 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    // The arguments might refer to an element of this array
+    T x(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From caaf2b93c950a18872c5c83244a205af48cb938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 029/178] fix: view of a column of an il::Array2D that has a
 larger capacity

---
 il/container/2d/Array2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..61cd577 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1270,7 +1270,7 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
@@ -1321,7 +1321,7 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 57d94d4e355dac61ad5ca6b30021528430fd1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 030/178] fix: an aligned il::Array created empty keeps its
 alignment when it grows

---
 il/container/1d/Array.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 08a50c6..95f7290 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -339,9 +339,6 @@ Array<T>::Array(il::int_t n, il::align_t, il::int_t alignment,
   if (n > 0) {
     il::int_t shift;
     data_ = il::allocateArray<T>(n, align_r, align_mod, il::io, shift);
-    alignment_ = static_cast<short>(alignment);
-    align_r_ = static_cast<short>(align_r);
-    align_mod_ = static_cast<short>(align_mod);
     shift_ = static_cast<short>(shift);
 #ifdef IL_DEFAULT_VALUE
     for (il::int_t i = 0; i < n; ++i) {
@@ -350,11 +347,11 @@ Array<T>::Array(il::int_t n, il::align_t, il::int_t alignment,
 #endif
   } else {
     data_ = nullptr;
-    alignment_ = 0;
-    align_r_ = 0;
-    align_mod_ = 0;
     shift_ = 0;
   }
+  alignment_ = static_cast<short>(alignment);
+  align_r_ = static_cast<short>(align_r);
+  align_mod_ = static_cast<short>(align_mod);
   size_ = data_ + n;
   capacity_ = data_ + n;
 }
@@ -426,20 +423,17 @@ Array<T>::Array(il::int_t n, const T& x, il::align_t, il::int_t alignment,
   if (n > 0) {
     il::int_t shift;
     data_ = il::allocateArray<T>(n, align_r, align_mod, il::io, shift);
-    alignment_ = static_cast<short>(alignment);
-    align_r_ = static_cast<short>(align_r);
-    align_mod_ = static_cast<short>(align_mod);
     shift_ = static_cast<short>(shift);
     for (il::int_t i = 0; i < n; ++i) {
       data_[i] = x;
     }
   } else {
     data_ = nullptr;
-    alignment_ = 0;
-    align_r_ = 0;
-    align_mod_ = 0;
     shift_ = 0;
   }
+  alignment_ = static_cast<short>(alignment);
+  align_r_ = static_cast<short>(align_r);
+  align_mod_ = static_cast<short>(align_mod);
   size_ = data_ + n;
   capacity_ = data_ + n;
 }
@@ -1013,9 +1007,10 @@ bool Array<T>::invariance() const {
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (align_r_ < align_mod_);
-    ans = ans && (reinterpret_cast<std::size_t>(data_) %
-                      static_cast<std::size_t>(align_mod_) ==
-                  static_cast<std::size_t>(align_r_));
+    ans = ans && (data_ == nullptr ||
+                  reinterpret_cast<std::size_t>(data_) %
+                          static_cast<std::size_t>(align_mod_) ==
+                      static_cast<std::size_t>(align_r_));
   }
   return ans;
 }
-- 
2.43.0


From ae14551d89cd8312eb2dbb43e1a68af5c1a53126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 031/178] fix: copy assignment of multidimensional arrays
 assigned to elements that were never constructed

---
 il/container/2d/Array2C.h |  8 +++++++-
 il/container/2d/Array2D.h |  8 +++++++-
 il/container/3d/Array3C.h | 10 ++++++++--
 il/container/3d/Array3D.h |  8 +++++++-
 il/container/4d/Array4C.h | 13 ++++++++++---
 il/container/4d/Array4D.h | 13 ++++++++++---
 6 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..07ba79c 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,13 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] =
+                  A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1)
+                  T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 61cd577..e05f50e 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,13 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] =
+                  A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0)
+                  T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..861d775 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,14 +811,20 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..a0df2aa 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,13 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..4c99785 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,16 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const p =
+                    data_ +
+                    ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                    i3;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..311c6e6 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,16 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const p =
+                    data_ +
+                    ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                    i0;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From 6f02def85fdc4e8b755fc7b4386de1990c20b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 032/178] fix: aligned Array3D and Array3C filled with a value
 hold that value in release builds

---
 il/container/3d/Array3C.h | 2 --
 il/container/3d/Array3D.h | 2 --
 2 files changed, 4 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 861d775..7025ac2 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index a0df2aa..489a995 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From 3dda424415536b88380da28da4d349a90faf4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 033/178] fix: Array3C::Resize within capacity sets default
 values inside the array only

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 7025ac2..40a5423 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1039,7 +1039,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From 690ceeae7c8de4dc28bd342d197570409514769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 034/178] fix: an empty aligned multi-dimensional array keeps
 its alignment without failing its invariant

---
 il/container/2d/Array2C.h | 3 ---
 il/container/2d/Array2D.h | 3 ---
 il/container/3d/Array3C.h | 3 ---
 il/container/3d/Array3D.h | 3 ---
 il/container/4d/Array4C.h | 3 ---
 il/container/4d/Array4D.h | 3 ---
 6 files changed, 18 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 07ba79c..653bb88 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -1092,9 +1092,6 @@ bool Array2C<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (align_mod_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (alignment_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index e05f50e..4ba416b 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1373,9 +1373,6 @@ bool Array2D<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 40a5423..4e695d5 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1189,9 +1189,6 @@ bool Array3C<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 489a995..0125cc9 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1191,9 +1191,6 @@ bool Array3D<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 4c99785..2e11f99 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -1014,9 +1014,6 @@ bool Array4C<T>::invariance() const {
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
     ans = ans && (capacity_[3] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 311c6e6..9632095 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -1014,9 +1014,6 @@ bool Array4D<T>::invariance() const {
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
     ans = ans && (capacity_[3] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
-- 
2.43.0


From c61cad114f56bff1487e2890beba19349e2f9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 035/178] fix: copying an aligned Array2C reads the alignment
 of the source

---
 il/container/2d/Array2C.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 653bb88..f35e0d1 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -545,10 +545,10 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
   il::int_t r0;
   il::int_t r1;
   if (n0 > 0 && n1 > 0) {
-    if (il::isTrivial<T>::value && A.align_mod_ != 0) {
+    if (il::isTrivial<T>::value && A.alignment_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From 73ab07d5a93e183fbf3d469b031dec46b4d52b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 036/178] fix: Map copies of empty maps, self assignment and
 move assignment

---
 il/container/hash/Map.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..d9a08d9 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -224,6 +224,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
 #endif
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
     hash_ = 0;
 #endif
@@ -256,6 +258,7 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>::Map(const Map<K, V, F>& map) {
+  bucket_ = nullptr;
   p_ = map.p_;
 #ifdef IL_DEBUGGER_HELPERS
   size_ = map.size_;
@@ -306,19 +309,23 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
+
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
@@ -357,7 +364,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
@@ -376,6 +383,9 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     nb_tombstones_ = map.nb_tombstones_;
     map.bucket_ = nullptr;
     map.p_ = -1;
+#ifdef IL_DEBUGGER_HELPERS
+    map.size_ = 0;
+#endif
     map.nb_elements_ = 0;
     map.nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From 4dbf42bd222fd9751b97c8021761969a0c16bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 037/178] fix: iterating a Map without storage shifted by a
 negative number

---
 il/container/hash/Map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d9a08d9..9cb1f5b 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -831,7 +831,7 @@ const K& Map<K, V, F>::key(il::spot_t i) const {
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i.index) <
-                   static_cast<std::size_t>((p_ >= 0) ? (1 << p_) : 0));
+                   static_cast<std::size_t>(nbBuckets()));
 
   return bucket_[i.index].key;
 }
@@ -842,7 +842,7 @@ const V& Map<K, V, F>::value(il::spot_t i) const {
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i.index) <
-                   static_cast<std::size_t>((p_ >= 0) ? (1 << p_) : 0));
+                   static_cast<std::size_t>(nbBuckets()));
 
   return bucket_[i.index].value;
 }
@@ -853,7 +853,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i.index) <
-                   static_cast<std::size_t>((p_ >= 0) ? (1 << p_) : 0));
+                   static_cast<std::size_t>(nbBuckets()));
 
   return bucket_[i.index].value;
 }
@@ -995,7 +995,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1013,7 +1013,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1025,7 +1025,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 36a19079166ae5df2fb7f07acb01f9b3f7d0f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 038/178] fix: Map loses keys, or searches for ever, once
 elements have been erased

---
 il/container/hash/Map.h | 226 ++++++++++++++++------------------------
 1 file changed, 92 insertions(+), 134 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 9cb1f5b..ff2bfa2 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -141,6 +141,12 @@ class Map {
   double displaced() const;
   double displacedTwice() const;
   void ReserveWithP(int p);
+  // True if a new key can be inserted at the spot returned by a search, keeping
+  // at least one bucket empty
+  bool hasRoom(il::spot_t i) const;
+  void MakeRoom();
+  template <typename K0, typename V0>
+  void Insert(K0&& key, V0&& value, il::io_t, il::spot_t& i);
 };
 
 template <typename K, typename V, typename F>
@@ -632,27 +638,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t nb_buckets = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(nb_buckets)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = searchCString(key, n);
-    i_local = -(1 + j.index);
-  }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
+  Set(K(il::StringType::Byte, key, n), value, il::io, i);
 }
 
 template <typename K, typename V, typename F>
@@ -664,26 +650,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t nb_buckets = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(nb_buckets)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = searchCString(key);
-    i_local = -(1 + j.index);
-  }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
+  Set(K(key), value, il::io, i);
 }
 
 template <typename K, typename V, typename F>
@@ -693,26 +660,16 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+  if (!hasRoom(i)) {
+    // The key and the value might be in the map: use them before they move
+    K new_key(key);
+    V new_value(value);
+    MakeRoom();
+    i = search(new_key);
+    Insert(std::move(new_key), std::move(new_value), il::io, i);
+  } else {
+    Insert(key, value, il::io, i);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -722,26 +679,16 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+  if (!hasRoom(i)) {
+    // The key and the value might be in the map: use them before they move
+    K new_key(key);
+    V new_value(std::move(value));
+    MakeRoom();
+    i = search(new_key);
+    Insert(std::move(new_key), std::move(new_value), il::io, i);
+  } else {
+    Insert(key, std::move(value), il::io, i);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -751,26 +698,16 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+  if (!hasRoom(i)) {
+    // The key and the value might be in the map: use them before they move
+    K new_key(std::move(key));
+    V new_value(value);
+    MakeRoom();
+    i = search(new_key);
+    Insert(std::move(new_key), std::move(new_value), il::io, i);
+  } else {
+    Insert(std::move(key), value, il::io, i);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -780,26 +717,16 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
   IL_EXPECT_FAST(!found(i));
 
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+  if (!hasRoom(i)) {
+    // The key and the value might be in the map: use them before they move
+    K new_key(std::move(key));
+    V new_value(std::move(value));
+    MakeRoom();
+    i = search(new_key);
+    Insert(std::move(new_key), std::move(new_value), il::io, i);
+  } else {
+    Insert(std::move(key), std::move(value), il::io, i);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(std::move(value));
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -809,10 +736,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
@@ -1063,6 +990,9 @@ void Map<K, V, F>::ReserveWithP(int p) {
 #endif
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+#ifdef IL_DEBUG_CLASS
+  hash_ = 0;
+#endif
 
   if (p_ >= 0) {
     for (il::int_t i = 0; i < old_m; ++i) {
@@ -1079,25 +1009,53 @@ void Map<K, V, F>::ReserveWithP(int p) {
   }
 }
 
+template <typename K, typename V, typename F>
+bool Map<K, V, F>::hasRoom(il::spot_t i) const {
+  const il::int_t m = nbBuckets();
+  if (m > 0 && F::isTombstone(bucket_[-(1 + i.index)].key)) {
+    return true;
+  }
+  return 4 * (static_cast<std::size_t>(nb_elements_) +
+              static_cast<std::size_t>(nb_tombstones_) + 1) <=
+         3 * static_cast<std::size_t>(m);
+}
+
+template <typename K, typename V, typename F>
+void Map<K, V, F>::MakeRoom() {
+  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) <=
+      3 * static_cast<std::size_t>(nbBuckets())) {
+    ReserveWithP(p_);
+  } else if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
+    ReserveWithP(p_ == -1 ? 1 : p_ + 1);
+  } else {
+    il::abort();
+  }
+}
+
+template <typename K, typename V, typename F>
+template <typename K0, typename V0>
+void Map<K, V, F>::Insert(K0&& key, V0&& value, il::io_t, il::spot_t& i) {
+  const il::int_t i_local = -(1 + i.index);
+  const bool was_tombstone = F::isTombstone(bucket_[i_local].key);
+  new (&((bucket_ + i_local)->value)) V(std::forward<V0>(value));
+  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::forward<K0>(key));
+  ++nb_elements_;
+  if (was_tombstone) {
+    --nb_tombstones_;
+  }
+  i.index = i_local;
+#ifdef IL_DEBUG_CLASS
+  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  i.signature = hash_;
+#endif
+}
+
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
   if (nb_tombstones_ > 0) {
-    const il::int_t m = nbBuckets();
-    KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
-    for (il::int_t i = 0; i < m; ++i) {
-      F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
-    }
-    for (il::int_t i = 0; i < m; ++i) {
-      if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
-        ((bucket_ + i)->value).~V();
-        ((bucket_ + i)->key).~K();
-      }
-    }
-    il::deallocate(bucket_);
-    bucket_ = bucket;
-    nb_tombstones_ = 0;
+    // The elements must be inserted again: the tombstones they were put after
+    // disappear
+    ReserveWithP(p_);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ = 2 * hash_;
-- 
2.43.0


From 30835d5a57734f4511c5e144cf399eb21e72c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 039/178] fix: Map::Set destroyed the old value before using a
 value that might be part of it

---
 il/container/hash/Map.h | 44 +++++++----------------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ff2bfa2..03ff301 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -255,9 +255,6 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
       il::spot_t i = search((list.begin() + k)->key);
       IL_EXPECT_FAST(!found(i));
       Set((list.begin() + k)->key, (list.begin() + k)->value, il::io, i);
-#ifdef IL_DEBUG_CLASS
-      hash_ += F::hash((list.begin() + k)->key, p_);
-#endif
     }
   }
 }
@@ -282,9 +279,6 @@ Map<K, V, F>::Map(const Map<K, V, F>& map) {
     }
     for (il::spot_t i = map.spotBegin(); i != map.spotEnd(); i = map.next(i)) {
       Set(map.key(i), map.value(i));
-#ifdef IL_DEBUG_CLASS
-      hash_ += F::hash(map.key(i), p_);
-#endif
     }
   }
 }
@@ -421,12 +415,8 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -435,12 +425,8 @@ void Map<K, V, F>::Set(const K& key, V&& value) {
   if (!found(i)) {
     Set(key, std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -449,12 +435,8 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = value;
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -463,12 +445,8 @@ void Map<K, V, F>::Set(K&& key, V&& value) {
   if (!found(i)) {
     Set(std::move(key), std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -478,12 +456,8 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -491,14 +465,10 @@ template <il::int_t m>
 void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   il::spot_t i = searchCString(key);
   if (!found(i)) {
-    Set(key, value, il::io, i);
+    Set(K(key), std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash(this->key(i), p_);
-#endif
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 0451d17f76008dfb11a60a30618ed6c1535a40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 040/178] fix: Map::Reserve never loses elements or memory

---
 il/container/hash/Map.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 03ff301..2feb9f1 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -824,7 +824,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
@@ -888,6 +891,9 @@ void Map<K, V, F>::Clear() {
   }
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+#ifdef IL_DEBUG_CLASS
+  hash_ = 0;
+#endif
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 23e306238dfb83b3e8efb0d5795c1193d95579a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 041/178] fix: Map: searching for a key given by a pointer,
 default value of an absent key

---
 il/container/hash/Map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 2feb9f1..b6e6374 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -565,7 +565,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
@@ -756,7 +756,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -777,7 +777,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From 3479b36ad69c8362550e946fb4f5f25b1444fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 042/178] fix: MapArray::Set of an existing key overwrites its
 value

---
 il/container/hash/MapArray.h | 105 ++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 50 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..10332bf 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -29,9 +29,6 @@ class MapArray {
  private:
   il::Array<il::KeyValue<K, V>> array_;
   il::Map<K, il::int_t, F> map_;
-#ifdef IL_DEBUG_CLASS
-  std::size_t hash_;
-#endif
 
  public:
   MapArray();
@@ -61,18 +58,11 @@ class MapArray {
 };
 
 template <typename K, typename V, typename F>
-MapArray<K, V, F>::MapArray() : array_{}, map_{} {
-#ifdef IL_DEBUG_CLASS
-  hash_ = 0;
-#endif
-}
+MapArray<K, V, F>::MapArray() : array_{}, map_{} {}
 
 template <typename K, typename V, typename F>
 MapArray<K, V, F>::MapArray(il::int_t n) : array_{}, map_{n} {
   array_.Reserve(n);
-#ifdef IL_DEBUG_CLASS
-  hash_ = 0;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -83,44 +73,49 @@ MapArray<K, V, F>::MapArray(il::value_t,
     array_.Reserve(n);
     map_.Reserve(n);
     for (il::int_t i = 0; i < n; ++i) {
-      array_.Append(il::emplace, (list.begin() + i)->key,
-                    (list.begin() + i)->value);
-      map_.Set((list.begin() + i)->key, i);
+      Set((list.begin() + i)->key, (list.begin() + i)->value);
     }
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
-#endif
 };
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(key, value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(key, std::move(value), il::io, i);
+  }
+}
+
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(std::move(key), value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(std::move(key), std::move(value), il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
@@ -128,36 +123,46 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
                             il::spot_t& i) {
   const il::int_t j = array_.size();
   array_.Append(il::emplace, key, value);
-  map_.Set(key, j, il::io, i);
-
+  map_.Set(array_.back().key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
 #endif
 }
 
 template <typename K, typename V, typename F>
-void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
+void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t,
+                            il::spot_t& i) {
   const il::int_t j = array_.size();
   array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, j, il::io, i);
+  map_.Set(array_.back().key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
 #endif
 }
 
 template <typename K, typename V, typename F>
-void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t,
+                            il::spot_t& i) {
   const il::int_t j = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), j, il::io, i);
+  array_.Append(il::emplace, std::move(key), value);
+  map_.Set(array_.back().key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
+#endif
+}
+
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t,
+                            il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::emplace, std::move(key), std::move(value));
+  map_.Set(array_.back().key, j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  i.signature = map_.hash();
 #endif
 }
 
@@ -185,7 +190,7 @@ il::spot_t MapArray<K, V, F>::search(const K& key) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 il::spot_t MapArray<K, V, F>::searchCString(const char (&key)[m]) const {
-  const il::spot_t i = map_.search(key);
+  const il::spot_t i = map_.searchCString(key);
   il::spot_t s;
   s.index = map_.found(i) ? map_.value(i) : i.index;
 #ifdef IL_DEBUG_CLASS
@@ -229,7 +234,7 @@ il::spot_t MapArray<K, V, F>::spotBegin() const {
   il::spot_t s;
   s.index = 0;
 #ifdef IL_DEBUG_CLASS
-  s.signature = hash_;
+  s.signature = map_.hash();
 #endif
   return s;
 }
-- 
2.43.0


From 685108e8e08ab4c591429e31ee5f5253cf27b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 043/178] fix: Dynamic takes an array of unsigned int for an
 array of int

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..0c45e83 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 76f4713507b17a1651aefb46422cec2bafd63deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 044/178] fix: Dynamic can neither copy a two-dimensional array
 nor destroy one of bytes

---
 il/container/dynamic/Dynamic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0c45e83..47ea588 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -632,6 +632,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -689,6 +698,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::ArrayOfString:
       delete reinterpret_cast<il::Array<il::String> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
-- 
2.43.0


From 234b5201498dbfa04c20236eb8e5602ff67a1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 045/178] fix: Dynamic: assignment of itself or of one of its
 own parts

---
 il/container/dynamic/Dynamic.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 47ea588..6d27433 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -115,7 +115,10 @@ class Dynamic {
   void ReleaseMemory();
 };
 
-inline Dynamic::Dynamic() { type_ = il::Type::Void; }
+inline Dynamic::Dynamic() {
+  type_ = il::Type::Void;
+  data_ = 0;
+}
 
 inline Dynamic::Dynamic(bool value) {
   type_ = il::Type::Bool;
@@ -457,20 +460,24 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  // The string might be part of the object itself
+  il::String *const p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  // The string might be part of the object itself
+  il::String *const p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
@@ -490,25 +497,22 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
+  // The other object might be part of this one, or this very one
+  il::Dynamic copy{other};
+  *this = std::move(copy);
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
+  // The other object might be part of this one, or this very one
+  const il::Type type = other.type_;
+  const std::uint64_t data = other.data_;
+  other.type_ = il::Type::Void;
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
+  type_ = type;
+  data_ = data;
   return *this;
 }
 
-- 
2.43.0


From 64fa9bcf845f011269c17f8eec4b1c156766117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 046/178] fix: Dynamic: the value of a small integer type can
 be read back

---
 il/container/dynamic/Type.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..6a54b92 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,26 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
-- 
2.43.0


From c24dff50af0d9b19a750bc160453eb5129c85b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 047/178] fix: Dynamic: define the construction from a moved
 array of short

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6d27433..ba485d2 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -270,6 +270,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From 37848c9862159aadb13764b5679a2adac1e1dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 048/178] fix: Deque::PushBack overwrote the front of a deque
 that was full

---
 il/container/deque/Deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..9b7e80c 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,7 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 != front_ && back_ + 1 < data_.size()) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +155,7 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 != front_ && back_ + 1 < data_.size()) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From 0810123c041c1c373a0386d6f787009d1d2948c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 049/178] fix: Deque::PopBack of the last element did not empty
 the deque

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index 9b7e80c..56049a7 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 7f4f7e6bf388f5c6b6e0275f6cac6751a98f7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 050/178] fix: Info finds the names that contain bytes above
 127

---
 il/container/info/Info.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index acc2ceb..9d70247 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -281,7 +281,8 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' &&
+           p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
     if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
-- 
2.43.0


From f955278bdd0b27ef249c7ee406129e213de7f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 051/178] fix: Timer measured with a clock that can be set back

---
 il/benchmark/tools/timer/Timer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/benchmark/tools/timer/Timer.h b/il/benchmark/tools/timer/Timer.h
index e01a69b..957804c 100644
--- a/il/benchmark/tools/timer/Timer.h
+++ b/il/benchmark/tools/timer/Timer.h
@@ -34,7 +34,7 @@ class Timer {
  private:
   bool launched_;
   double time_;
-  std::chrono::time_point<std::chrono::high_resolution_clock> point_begin_;
+  std::chrono::time_point<std::chrono::steady_clock> point_begin_;
 
  public:
   Timer();
@@ -59,12 +59,12 @@ inline Timer::Timer() : point_begin_{} {
 inline void Timer::Start() {
   IL_EXPECT_FAST(!launched_);
   launched_ = true;
-  point_begin_ = std::chrono::high_resolution_clock::now();
+  point_begin_ = std::chrono::steady_clock::now();
 }
 
 inline void Timer::Stop() {
-  std::chrono::time_point<std::chrono::high_resolution_clock> point_end =
-      std::chrono::high_resolution_clock::now();
+  std::chrono::time_point<std::chrono::steady_clock> point_end =
+      std::chrono::steady_clock::now();
   IL_EXPECT_FAST(launched_);
   launched_ = false;
   time_ += 1.0e-9 * std::chrono::duration_cast<std::chrono::nanoseconds>(
@@ -84,7 +84,7 @@ inline void Timer::sleepUntil(double time) const {
   const double time_left =
       time -
       1.0e-9 * std::chrono::duration_cast<std::chrono::nanoseconds>(
-                   std::chrono::high_resolution_clock::now() - point_begin_)
+                   std::chrono::steady_clock::now() - point_begin_)
                    .count();
   if (time_left > 0.0) {
     std::this_thread::sleep_for(
-- 
2.43.0


From 4779744b4c423c9885b63c03578969b433c25cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 052/178] fix: LowerArray2D, UpperArray2D: assignment copied
 only some of the elements

---
 il/container/2d/LowerArray2D.h | 6 +++++-
 il/container/2d/UpperArray2D.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..35daa60 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -22,6 +22,8 @@
 // <cstring> is needed for memcpy
 #include <cstring>
 // <initializer_list> is needed for std::initializer_list<T>
+// <cstring> is needed for memcpy
+#include <cstring>
 #include <initializer_list>
 // <new> is needed for ::operator new
 #include <new>
@@ -176,7 +178,9 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        if (n > 0) {
+          memcpy(data_, A.data_, nb_elements * sizeof(T));
+        }
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..69f241b 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -22,6 +22,8 @@
 // <cstring> is needed for memcpy
 #include <cstring>
 // <initializer_list> is needed for std::initializer_list<T>
+// <cstring> is needed for memcpy
+#include <cstring>
 #include <initializer_list>
 // <new> is needed for ::operator new
 #include <new>
@@ -176,7 +178,9 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        if (n > 0) {
+          memcpy(data_, A.data_, nb_elements * sizeof(T));
+        }
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
-- 
2.43.0


From 5534cf9a1d95e64b55c95352bfb301d9524ad51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 053/178] fix: LowerArray2D, UpperArray2D: elements destroyed
 twice, or never constructed, by an assignment

---
 il/container/2d/LowerArray2D.h | 12 +++++++++---
 il/container/2d/UpperArray2D.h | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 35daa60..6a7ab2e 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -160,7 +160,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -182,10 +183,15 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
           memcpy(data_, A.data_, nb_elements * sizeof(T));
         }
       } else {
-        for (il::int_t k = 0; k < nb_elements; ++k) {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        const il::int_t nb_elements_both{
+            nb_elements < nb_elements_old ? nb_elements : nb_elements_old};
+        for (il::int_t k = 0; k < nb_elements_both; ++k) {
           data_[k] = A.data_[k];
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        for (il::int_t k = nb_elements_old; k < nb_elements; ++k) {
+          new (data_ + k) T(A.data_[k]);
+        }
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 69f241b..af5be06 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -160,7 +160,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -182,10 +183,15 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
           memcpy(data_, A.data_, nb_elements * sizeof(T));
         }
       } else {
-        for (il::int_t k = 0; k < nb_elements; ++k) {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        const il::int_t nb_elements_both{
+            nb_elements < nb_elements_old ? nb_elements : nb_elements_old};
+        for (il::int_t k = 0; k < nb_elements_both; ++k) {
           data_[k] = A.data_[k];
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        for (il::int_t k = nb_elements_old; k < nb_elements; ++k) {
+          new (data_ + k) T(A.data_[k]);
+        }
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From d604108f150be8d03148f97a2ba71365a460d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 054/178] fix: Info::Set accepts names and texts stored in the
 record itself

The memory of the record could be released by the growth before the name and
the text have been copied.
---
 il/container/info/Info.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 9d70247..7c653a7 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -21,6 +21,7 @@
 
 #include <il/core.h>
 #include <cstring>
+#include <functional>
 
 namespace il {
 
@@ -84,6 +85,7 @@ class Info {
   const unsigned char* data() const;
   unsigned char* data();
   void Resize(il::int_t n);
+  il::int_t offset(const char* p) const;
 
   bool isSmall() const;
   void SetSmallSize(il::int_t n);
@@ -182,9 +184,14 @@ inline void Info::Set(const char* key, int value) {
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
+  // The key might be stored in this object, whose memory can be reallocated
+  const il::int_t key_offset = offset(key);
   Resize(i + n);
 
   unsigned char* p = data();
+  if (key_offset >= 0) {
+    key = reinterpret_cast<const char*>(p) + key_offset;
+  }
 
   Set(n, p + i);
   i += sizeof(int);
@@ -206,9 +213,14 @@ inline void Info::Set(const char* key, il::int_t value) {
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
+  // The key might be stored in this object, whose memory can be reallocated
+  const il::int_t key_offset = offset(key);
   Resize(i + n);
 
   unsigned char* p = data();
+  if (key_offset >= 0) {
+    key = reinterpret_cast<const char*>(p) + key_offset;
+  }
 
   Set(n, p + i);
   i += sizeof(int);
@@ -229,9 +241,14 @@ inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
   il::int_t i = size();
+  // The key might be stored in this object, whose memory can be reallocated
+  const il::int_t key_offset = offset(key);
   Resize(i + n);
 
   unsigned char* p = data();
+  if (key_offset >= 0) {
+    key = reinterpret_cast<const char*>(p) + key_offset;
+  }
 
   Set(n, p + i);
   i += sizeof(int);
@@ -252,9 +269,19 @@ inline void Info::Set(const char* key, const char* value) {
   const int value_length = static_cast<int>(strlen(value));
   const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
   il::int_t i = size();
+  // The key and the value might be stored in this object, whose memory can be
+  // reallocated
+  const il::int_t key_offset = offset(key);
+  const il::int_t value_offset = offset(value);
   Resize(i + n);
 
   unsigned char* p = data();
+  if (key_offset >= 0) {
+    key = reinterpret_cast<const char*>(p) + key_offset;
+  }
+  if (value_offset >= 0) {
+    value = reinterpret_cast<const char*>(p) + value_offset;
+  }
 
   Set(n, p + i);
   i += sizeof(int);
@@ -489,6 +516,16 @@ inline void Info::Resize(il::int_t n) {
   }
 }
 
+// Returns the offset of p in the data of this object, or -1 when p does not point
+// to this data.
+inline il::int_t Info::offset(const char* p) const {
+  const char* const begin = reinterpret_cast<const char*>(data());
+  const std::less<const char*> before{};
+  return !before(p, begin) && before(p, begin + size())
+             ? static_cast<il::int_t>(p - begin)
+             : -1;
+}
+
 inline void Info::clear() {
   if (!isSmall()) {
     delete[] large_.data;
-- 
2.43.0


From a5341ba576d40e440aa024c3c2ee4feb614c08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 055/178] fix: LowerArray2D, UpperArray2D: stop when the number
 of bytes is not representable

---
 il/container/2d/LowerArray2D.h | 14 +++++++++++++-
 il/container/2d/UpperArray2D.h | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 6a7ab2e..9e8af7e 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -33,6 +33,7 @@
 #include <utility>
 
 #include <il/core.h>
+#include <il/core/math/safe_arithmetic.h>
 
 namespace il {
 
@@ -77,7 +78,18 @@ template <typename T>
 LowerArray2D<T>::LowerArray2D(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   if (n > 0) {
-    const il::int_t nb_elements{(n * (n + 1)) / 2};
+    bool sum_error = false;
+    bool product_error = false;
+    bool bytes_error = false;
+    const il::int_t n_plus_one =
+        il::safeSum(n, static_cast<il::int_t>(1), il::io, sum_error);
+    const il::int_t nb_elements =
+        il::safeProduct(n, n_plus_one, il::io, product_error) / 2;
+    il::safeProduct(nb_elements, static_cast<il::int_t>(sizeof(T)), il::io,
+                    bytes_error);
+    if (sum_error || product_error || bytes_error) {
+      il::abort();
+    }
     if (il::isTrivial<T>::value) {
       data_ = new T[nb_elements];
 #ifdef IL_DEFAULT_VALUE
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index af5be06..e79273c 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -33,6 +33,7 @@
 #include <utility>
 
 #include <il/core.h>
+#include <il/core/math/safe_arithmetic.h>
 
 namespace il {
 
@@ -77,7 +78,18 @@ template <typename T>
 UpperArray2D<T>::UpperArray2D(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   if (n > 0) {
-    const il::int_t nb_elements{(n * (n + 1)) / 2};
+    bool sum_error = false;
+    bool product_error = false;
+    bool bytes_error = false;
+    const il::int_t n_plus_one =
+        il::safeSum(n, static_cast<il::int_t>(1), il::io, sum_error);
+    const il::int_t nb_elements =
+        il::safeProduct(n, n_plus_one, il::io, product_error) / 2;
+    il::safeProduct(nb_elements, static_cast<il::int_t>(sizeof(T)), il::io,
+                    bytes_error);
+    if (sum_error || product_error || bytes_error) {
+      il::abort();
+    }
     if (il::isTrivial<T>::value) {
       data_ = new T[nb_elements];
 #ifdef IL_DEFAULT_VALUE
-- 
2.43.0


From 13c599ae69dbbb250fcfb844f8c66c8286245de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 056/178] fix: TriDiagonal, BandArray2C: stop when the number
 of elements is not representable

---
 il/container/2d/BandArray2C.h | 25 +++++++++++++++++++++++--
 il/container/2d/TriDiagonal.h | 13 ++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 6dc63a8..5640712 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -20,6 +20,7 @@
 #define IL_BANDARRAY2C_H
 
 #include <il/Array2C.h>
+#include <il/core/math/safe_arithmetic.h>
 
 namespace il {
 
@@ -33,6 +34,9 @@ class BandArray2C {
   il::int_t capacity_right_;
   il::Array2C<T> element_;
 
+  // Number of columns needed to store the band and the space on its right
+  static il::int_t nbColumns(il::int_t width_left, il::int_t width_right);
+
  public:
   BandArray2C(il::int_t n, il::int_t width);
   BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
@@ -46,9 +50,26 @@ class BandArray2C {
   T* Data();
 };
 
+template <typename T>
+il::int_t BandArray2C<T>::nbColumns(il::int_t width_left,
+                                    il::int_t width_right) {
+  bool product_error = false;
+  bool first_error = false;
+  bool second_error = false;
+  const il::int_t left = il::safeProduct(static_cast<il::int_t>(2), width_left,
+                                         il::io, product_error);
+  const il::int_t band = il::safeSum(left, width_right, il::io, first_error);
+  const il::int_t ans =
+      il::safeSum(band, static_cast<il::int_t>(1), il::io, second_error);
+  if (product_error || first_error || second_error) {
+    il::abort();
+  }
+  return ans;
+}
+
 template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n, il::int_t width)
-    : element_{n, 1 + 3 * width, 0} {
+    : element_{n, nbColumns(width, width), 0} {
   n0_ = n;
   n1_ = n;
   width_left_ = width;
@@ -59,7 +80,7 @@ BandArray2C<T>::BandArray2C(il::int_t n, il::int_t width)
 template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
                             il::int_t width_right)
-    : element_{n0, 1 + 2 * width_left + width_right, 0} {
+    : element_{n0, nbColumns(width_left, width_right), 0} {
   n0_ = n0;
   n1_ = n1;
   width_left_ = width_left;
diff --git a/il/container/2d/TriDiagonal.h b/il/container/2d/TriDiagonal.h
index 256557e..c924983 100644
--- a/il/container/2d/TriDiagonal.h
+++ b/il/container/2d/TriDiagonal.h
@@ -20,6 +20,7 @@
 #define IL_TRIDIAGONAL_H
 
 #include <il/Array.h>
+#include <il/core/math/safe_arithmetic.h>
 
 namespace il {
 
@@ -29,8 +30,18 @@ class TriDiagonal {
   il::int_t size_;
   il::Array<T> data_;
 
+  static il::int_t nbElements(il::int_t n) {
+    bool error = false;
+    const il::int_t ans =
+        il::safeProduct(static_cast<il::int_t>(3), n, il::io, error);
+    if (error) {
+      il::abort();
+    }
+    return ans;
+  }
+
  public:
-  TriDiagonal(il::int_t n) : data_{3 * n} { size_ = n; }
+  TriDiagonal(il::int_t n) : data_{nbElements(n)} { size_ = n; }
   const T& operator()(il::int_t i, il::int_t k) const {
     IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
                      static_cast<std::size_t>(size_));
-- 
2.43.0


From b216f58a8cb979ca718617ad3610d249436a886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 057/178] fix: String::Append of n copies stops when the size
 is not representable

---
 il/container/string/String.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index ee283f4..c2b6f72 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -27,6 +27,7 @@
 #include <iostream>
 
 #include <il/core.h>
+#include <il/core/math/safe_arithmetic.h>
 #include <il/core/memory/allocate.h>
 
 namespace il {
@@ -173,6 +174,8 @@ class String {
   void setLarge(il::StringType type, il::int_t n, il::int_t r);
   il::int_t static constexpr sizeCString(const char* data);
   il::int_t static nextCapacity(il::int_t n);
+  // Size of a string of size n once k parts of size width have been appended
+  il::int_t static sizeAppended(il::int_t n, il::int_t k, il::int_t width);
   constexpr static il::int_t max_small_size_ =
       static_cast<il::int_t>(sizeof(LargeString) - 2);
 };
@@ -593,7 +596,7 @@ inline void String::Append(il::int_t n, char c) {
 
   const il::int_t old_n = size();
   const il::StringType t = type();
-  Grow(il::unsafe, old_n, old_n + n);
+  Grow(il::unsafe, old_n, sizeAppended(old_n, n, 1));
   char* p = Data();
   for (il::int_t k = 0; k < n; ++k) {
     p[old_n + k] = c;
@@ -610,7 +613,7 @@ inline void String::Append(il::int_t n, int rune) {
   const il::int_t old_n = size();
   const il::StringType t = type();
   if (urune < 0x00000080u) {
-    Grow(il::unsafe, old_n, old_n + n);
+    Grow(il::unsafe, old_n, sizeAppended(old_n, n, 1));
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + k] = static_cast<char>(rune);
@@ -618,7 +621,7 @@ inline void String::Append(il::int_t n, int rune) {
     p[old_n + n] = '\0';
     SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
-    Grow(il::unsafe, old_n, old_n + 2 * n);
+    Grow(il::unsafe, old_n, sizeAppended(old_n, n, 2));
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 2 * k] = static_cast<char>((urune >> 6) | 0x000000C0u);
@@ -629,7 +632,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3 * n);
+    Grow(il::unsafe, old_n, sizeAppended(old_n, n, 3));
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
@@ -642,7 +645,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 3 * n);
   } else {
-    Grow(il::unsafe, old_n, old_n + 4 * n);
+    Grow(il::unsafe, old_n, sizeAppended(old_n, n, 4));
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 4 * k] =
@@ -1146,6 +1149,18 @@ inline void String::setLarge(il::StringType type, il::int_t n, il::int_t r) {
 }
 
 // Return the next integer modulo 4
+inline il::int_t String::sizeAppended(il::int_t n, il::int_t k,
+                                      il::int_t width) {
+  bool product_error = false;
+  bool sum_error = false;
+  const il::int_t extra = il::safeProduct(k, width, il::io, product_error);
+  const il::int_t ans = il::safeSum(n, extra, il::io, sum_error);
+  if (product_error || sum_error) {
+    il::abort();
+  }
+  return ans;
+}
+
 inline il::int_t String::nextCapacity(il::int_t r) {
   return static_cast<il::int_t>(
       (static_cast<std::size_t>(r) + static_cast<std::size_t>(7)) &
-- 
2.43.0


From 282261ac18f796f790e9b875a197eb156804005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 058/178] fix: Map::Reserve of more than the maximum size
 searched a capacity for ever

---
 il/container/hash/Map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index b6e6374..63e36e5 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -824,6 +824,9 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
+  if (n > kMaxSize_) {
+    il::abort();
+  }
   const int p = pForSlots(n);
   if (p > p_) {
     ReserveWithP(p);
-- 
2.43.0


From 21912b1200b02dd58cf7ef6aae3a85b006f818a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 059/178] fix: loading a .toml file does not need the
 permission to write it

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..c0cd6a0 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -922,10 +922,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From c30e0dcc0f458d70085ed11a116319972eceae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 060/178] fix: TomlParser sets the source of an error after the
 error

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c0cd6a0..87cb2d3 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -30,8 +30,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
     if (error == nullptr) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -50,8 +50,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From 3904130df5eb834e1ca27d216eb179c254824e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 061/178] fix: TomlParser reads lines of any length, and all
 their bytes

---
 il/io/toml/toml.cpp | 33 ++++++++++++++++++++++++---------
 il/io/toml/toml.h   |  4 ++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 87cb2d3..ee27019 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,38 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+// Reads the next line, whatever its length, with its end of line if there is
+// one. Returns false if there is no more line.
+bool TomlParser::readLine(il::io_t, il::StringView& line) {
+  buffer_line_.Resize(0);
+  int c = std::fgetc(file_);
+  while (c != EOF) {
+    buffer_line_.Append(static_cast<char>(c));
+    if (c == '\n') {
+      break;
+    }
+    c = std::fgetc(file_);
+  }
+  if (buffer_line_.size() == 0) {
+    return false;
+  }
+  ++line_number_;
+  line = il::StringView{il::StringType::Byte, buffer_line_.data(),
+                        buffer_line_.size()};
+  return true;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine(il::io, string)) {
       status.SetError(il::Error::ParseUnclosedArray);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
-    ++line_number_;
-    string = il::StringView{buffer_line_};
     string.trimPrefix();
   }
 
@@ -934,11 +952,8 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
-    ++line_number_;
-
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
+  il::StringView line{};
+  while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..c2b9b82 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,7 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  il::Array<char> buffer_line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +83,7 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  bool readLine(il::io_t, il::StringView &line);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 931e97e684a4635d6cb4780ac1541c19d549c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 062/178] fix: TomlParser reports read errors and closes the
 file on all paths

---
 il/io/toml/toml.cpp | 44 ++++++++++++++++++++++++++++++--------------
 il/io/toml/toml.h   |  2 ++
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index ee27019..1f75553 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -35,7 +35,7 @@ bool TomlParser::readLine(il::io_t, il::StringView& line) {
     }
     c = std::fgetc(file_);
   }
-  if (buffer_line_.size() == 0) {
+  if (buffer_line_.size() == 0 || std::ferror(file_)) {
     return false;
   }
   ++line_number_;
@@ -50,7 +50,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     if (!readLine(il::io, string)) {
-      status.SetError(il::Error::ParseUnclosedArray);
+      status.SetError(std::ferror(file_) ? il::Error::FilesystemNoReadAccess
+                                         : il::Error::ParseUnclosedArray);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
@@ -937,7 +938,6 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
 il::MapArray<il::String, il::Dynamic> TomlParser::parse(
     const il::String& filename, il::io_t, il::Status& status) {
   il::MapArray<il::String, il::Dynamic> root_toml{};
-  il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
   file_ = std::fopen(filename.asCString(), "rb");
@@ -952,6 +952,27 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  il::Status parse_status{};
+  parseLines(il::io, root_toml, parse_status);
+  const int error = std::fclose(file_);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return root_toml;
+  }
+  if (error != 0) {
+    status.SetError(il::Error::FilesystemCanNotCloseFile);
+    IL_SET_SOURCE(status);
+    return root_toml;
+  }
+
+  status.SetOk();
+  return root_toml;
+}
+
+void TomlParser::parseLines(il::io_t,
+                            il::MapArray<il::String, il::Dynamic>& root_toml,
+                            il::Status& status) {
+  il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
   il::StringView line{};
   while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
@@ -964,35 +985,30 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       parseTable(il::io, line, pointer_toml, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
-        std::fclose(file_);
-        return root_toml;
+        return;
       }
     } else {
       il::Status parse_status{};
       parseKeyValue(il::io, line, *pointer_toml, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
-        std::fclose(file_);
-        return root_toml;
+        return;
       }
 
       line = il::removeWhitespaceLeft(line);
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
-        return root_toml;
+        return;
       }
     }
   }
 
-  const int error = std::fclose(file_);
-  if (error != 0) {
-    status.SetError(il::Error::FilesystemCanNotCloseFile);
+  if (std::ferror(file_)) {
+    status.SetError(il::Error::FilesystemNoReadAccess);
     IL_SET_SOURCE(status);
-    return root_toml;
+    return;
   }
-
   status.SetOk();
-  return root_toml;
 }
 }  // namespace il
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index c2b9b82..1ef9d9b 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -84,6 +84,8 @@ class TomlParser {
 
  private:
   bool readLine(il::io_t, il::StringView &line);
+  void parseLines(il::io_t, il::MapArray<il::String, il::Dynamic> &root_toml,
+                  il::Status &status);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 2b2e8d8890965b7e80de6aee4c9f916fbea83a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 063/178] fix: TomlParser reports a wrong table header instead
 of stopping the process

---
 il/io/toml/toml.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 1f75553..f3a0524 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -772,6 +772,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
+    return;
   }
 
   il::String full_table_name{};
@@ -838,10 +839,19 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
   // TODO: One should check the redefinition of a table (line 1680)
   IL_UNUSED(inserted);
 
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return;
+  }
   string.removePrefix(1);
   string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
+  il::Status parse_status{};
+  checkEndOfLineOrComment(string, il::io, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return;
   }
   status.SetOk();
 }
-- 
2.43.0


From 365038a7d956bef0c1f7f7def33d8a37a532f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 064/178] fix: TomlParser reports an array that starts with a
 comma

---
 il/io/toml/toml.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f3a0524..7d0001e 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -389,13 +389,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
     return ans;
   }
 
-  il::int_t i = 0;
-  while (i < string.size() && (string[i] != ',') && (string[i] != ']') &&
-         (string[i] != '#')) {
-    ++i;
-  }
-  il::StringView value_string = string.subview(0, i);
-  il::Type value_type = parseType(value_string, il::io, parse_status);
+  il::Type value_type = parseType(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
     return ans;
-- 
2.43.0


From 6dc37d44f32ba79b7542e076b4d727bc21bf58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 065/178] fix: TomlParser reads arrays of arrays written on
 several lines

---
 il/io/toml/toml.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 7d0001e..d68febc 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -499,12 +499,20 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
       il::abort();
     }
 
-    string = il::removeWhitespaceLeft(string);
-    if (string.isEmpty() || (string[0] != ',')) {
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
+    if (string[0] != ',') {
       break;
     }
     string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
   }
 
   if (string.isEmpty() || (string[0] != ']')) {
-- 
2.43.0


From 2912af3df3c95a9ab144db8fc26411b51bb40ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 066/178] fix: TomlParser reads arrays of inline tables instead
 of stopping the process

---
 il/io/toml/toml.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index d68febc..f71c77e 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -419,6 +419,16 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       status.SetOk();
       return ans;
     }
+    case il::Type::MapArrayStringToDynamic: {
+      ans = parseObjectArray(il::Type::MapArrayStringToDynamic, '{', il::io,
+                             string, parse_status);
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
+      status.SetOk();
+      return ans;
+    }
     default:
       il::abort();
       return ans;
@@ -496,7 +506,11 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
         return ans;
       }
     } else {
-      il::abort();
+      array.Append(parseInlineTable(il::io, string, parse_status));
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
     }
 
     string = skipWhitespaceAndComments(string, il::io, parse_status);
-- 
2.43.0


From 7178b96ab452c29c2d44e5b98ae7c55948a00e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 067/178] fix: TomlParser accepted any character as the end of
 an array

---
 il/io/toml/toml.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f71c77e..626e588 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -464,7 +464,7 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
       return ans;
     }
 
-    if (string.isEmpty() || (string[0] != ',')) {
+    if (string[0] != ',') {
       break;
     }
 
@@ -476,9 +476,13 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
+  if (string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
   }
+  string.removePrefix(1);
 
   status.SetOk();
   return ans;
-- 
2.43.0


From 28ed8aa39c386c12681c8ceb72f69e9d45879b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 068/178] fix: TomlParser reads empty inline tables, and
 reports unclosed ones

---
 il/io/toml/toml.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 626e588..7b9e02d 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -547,6 +547,18 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+
+  il::StringView after_brace = string;
+  after_brace.removePrefix(1);
+  after_brace = il::removeWhitespaceLeft(after_brace);
+  if (!after_brace.isEmpty() && after_brace[0] == '}') {
+    string = after_brace;
+    string.removePrefix(1);
+    string = il::removeWhitespaceLeft(string);
+    status.SetOk();
+    return ans;
+  }
+
   do {
     string.removePrefix(1);
     if (string.isEmpty()) {
@@ -565,7 +577,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
-- 
2.43.0


From 51da6ff97e9b70d7f59fb8880f5f6101e36d352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 069/178] fix: TomlParser put sub-arrays of tables in the wrong
 table

---
 il/io/toml/toml.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 7b9e02d..1b9d794 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -932,6 +932,21 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
         v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
         toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::Array<il::Dynamic>>() &&
+                 b.as<il::Array<il::Dynamic>>().size() > 0 &&
+                 b.as<il::Array<il::Dynamic>>()
+                     .back()
+                     .is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::Array<il::Dynamic>>()
+                     .Back()
+                     .As<il::MapArray<il::String, il::Dynamic>>());
+      } else {
+        status.SetError(il::Error::ParseDuplicateKey);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
       }
     } else {
       if (!string.isEmpty() && string[0] == ']') {
-- 
2.43.0


From 1a5c17a4096478d536d7b82c1ba36fec8ae035aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 070/178] fix: TomlParser reads dotted names of arrays of
 tables, and checks their brackets

---
 il/io/toml/toml.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 il/io/toml/toml.h   |  1 +
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 1b9d794..cda462a 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -797,6 +797,27 @@ void TomlParser::parseTable(il::io_t, il::StringView& string,
   }
 }
 
+// In a table header, a name is followed by '.' and another name, or by the
+// closing ']'
+void TomlParser::nextTableName(il::io_t, il::StringView& string,
+                               il::Status& status) {
+  string = il::removeWhitespaceLeft(string);
+  if (!string.isEmpty() && string[0] == '.') {
+    string.removePrefix(1);
+    string = il::removeWhitespaceLeft(string);
+    if (!string.isEmpty() && string[0] != ']') {
+      status.SetOk();
+      return;
+    }
+  } else if (!string.isEmpty() && string[0] == ']') {
+    status.SetOk();
+    return;
+  }
+  status.SetError(il::Error::ParseTable);
+  IL_SET_SOURCE(status);
+  status.SetInfo("line", line_number_);
+}
+
 void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
                                   il::MapArray<il::String, il::Dynamic>*& toml,
                                   il::Status& status) {
@@ -861,11 +882,11 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
       toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
     }
 
-    string = il::removeWhitespaceLeft(string);
-    while (!string.isEmpty() && string[0] == '.') {
-      string.removePrefix(1);
+    nextTableName(il::io, string, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return;
     }
-    string = il::removeWhitespaceLeft(string);
   }
 
   // TODO: One should check the redefinition of a table (line 1680)
@@ -923,7 +944,11 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     if (toml->found(i)) {
       il::Dynamic& b = toml->Value(i);
       if (!string.isEmpty() && string[0] == ']') {
-        if (!b.is<il::Array<il::Dynamic>>()) {
+        if (!b.is<il::Array<il::Dynamic>>() ||
+            (b.as<il::Array<il::Dynamic>>().size() > 0 &&
+             !b.as<il::Array<il::Dynamic>>()
+                  .back()
+                  .is<il::MapArray<il::String, il::Dynamic>>())) {
           status.SetError(il::Error::ParseTable);
           IL_SET_SOURCE(status);
           status.SetInfo("line", line_number_);
@@ -963,6 +988,12 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
       }
     }
+
+    nextTableName(il::io, string, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return;
+    }
   }
 
   if (string.isEmpty()) {
@@ -972,7 +1003,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     return;
   }
   string.removePrefix(1);
-  if (string.isEmpty()) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 1ef9d9b..1e60cc4 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -77,6 +77,7 @@ class TomlParser {
   void parseSingleTable(il::io_t, il::StringView &string,
                         il::MapArray<il::String, il::Dynamic> *&toml,
                         il::Status &status);
+  void nextTableName(il::io_t, il::StringView &string, il::Status &status);
   void parseTableArray(il::io_t, il::StringView &string,
                        il::MapArray<il::String, il::Dynamic> *&toml,
                        il::Status &status);
-- 
2.43.0


From 27c744b90bc7b99a3a0dc37131f66fa0a9b8af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 071/178] fix: TomlParser reads tables whose quoted name is
 empty

---
 il/io/toml/toml.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index cda462a..a0b39d0 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -837,12 +837,6 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return;
-    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
@@ -928,12 +922,6 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return;
-    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
-- 
2.43.0


From 886cfb5e463ae61d439e30b235aeeceaaf5ef639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 072/178] fix: TomlParser reads a number 0 that is not followed
 by a space

---
 il/io/toml/toml.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index a0b39d0..f93415d 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -152,8 +152,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From 70d6122a72f94dbdfa95cfe343d60d276639fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 073/178] fix: TomlParser read the digits after '_' one
 character too far

---
 il/io/toml/toml.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f93415d..3a832c8 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -165,7 +165,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
     if (i < string.size() && string[i] == '_') {
       ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
+      if (i == string.size() || (!string.hasDigit(i))) {
         status.SetError(il::Error::ParseNumber);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
@@ -248,17 +248,16 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
 
   if (is_float) {
     status.SetOk();
     string.removePrefix(i);
-    double x = std::atof(view.asCString());
+    double x = std::atof(number.asCString());
     return il::Dynamic{x};
   } else {
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(view.asCString());
+    il::int_t n = std::atoll(number.asCString());
     return il::Dynamic{n};
   }
 }
-- 
2.43.0


From dd95e9aab73207b892e28b9d8600353e5ed75622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 074/178] fix: TomlParser reports integers that are not
 representable

---
 il/io/toml/toml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3a832c8..c860706 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -16,6 +16,9 @@
 //
 //==============================================================================
 
+#include <cerrno>
+#include <cstdlib>
+
 #include <il/container/string/algorithmString.h>
 #include <il/io/toml/toml.h>
 
@@ -255,9 +258,16 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     double x = std::atof(number.asCString());
     return il::Dynamic{x};
   } else {
+    errno = 0;
+    const il::int_t n = std::strtoll(number.asCString(), nullptr, 10);
+    if (errno == ERANGE) {
+      status.SetError(il::Error::ParseIntegerOverflow);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::Dynamic{};
+    }
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(number.asCString());
     return il::Dynamic{n};
   }
 }
-- 
2.43.0


From 100764777a16872d3ee801e1f49feeb0f11e0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 075/178] fix: TomlParser took 1e5 and 1_0.5 in arrays for
 integers

---
 il/io/toml/toml.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c860706..075b03c 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -94,14 +94,11 @@ il::Type TomlParser::parseType(il::StringView string, il::io_t,
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() && (string.hasDigit(i) || string[i] == '_')) {
       ++i;
     }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
       status.SetOk();
       return il::Type::Double;
     } else {
-- 
2.43.0


From b73e914840944c196bba0c8f0218fba985ccfc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 076/178] fix: TomlParser reports a missing key instead of
 stopping the process

---
 il/io/toml/toml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 075b03c..9048779 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -641,9 +641,13 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return key;
+  }
 
-  il::Status parse_status{};
   if (string[0] == '"') {
     //////////////////////////
     // We have a key in a ".."
-- 
2.43.0


From 5d8e8e8af756495328dd4fe700b71de631c0d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 077/178] fix: TomlParser kept the closing quote in the keys
 written in ''

---
 il/io/toml/toml.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 9048779..9614036 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -676,14 +676,28 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
     return key;
+  } else if (string[0] == '\'') {
+    //////////////////////////
+    // We have a key in a '..'
+    //////////////////////////
+    string.removePrefix(1);
+    const il::int_t n = string.nextChar(0, '\'');
+    if (n == -1) {
+      status.SetError(il::Error::ParseString);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return key;
+    }
+    key = il::String{il::StringType::Byte, string.data(), n};
+    string.removePrefix(n + 1);
+    string = il::removeWhitespaceLeft(string);
+    status.SetOk();
+    return key;
   } else {
     /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
+    // We have a bare key: ->..<-
     /////////////////////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
-- 
2.43.0


From 84ad2ad5879759025880a5faaec93c180b1183f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 078/178] fix: TomlParser copies the bytes of strings and keys
 that are not ASCII

---
 il/io/toml/toml.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 9614036..c3e7ff8 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -306,9 +306,17 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       status.SetOk();
       return ans;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
-      ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      // The bytes are copied as they are: a wrong UTF-8 sequence must not be
+      // decoded past the end of the line
+      il::int_t n = 1;
+      while (n < string.size() && string[n] != delimiter &&
+             !(delimiter == '"' && string[n] == '\\')) {
+        ++n;
+      }
+      ans.Append(il::isAscii(string.data(), n) ? il::StringType::Ascii
+                                               : il::StringType::Utf8,
+                 string.data(), n);
+      string.removePrefix(n);
     }
   }
 
@@ -667,9 +675,12 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
         status.SetOk();
         return key;
       } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
+        il::int_t n = 1;
+        while (n < string.size() && string[n] != '"' && string[n] != '\\') {
+          ++n;
+        }
+        key.Append(il::StringType::Byte, string.data(), n);
+        string.removePrefix(n);
       }
     }
     status.SetError(il::Error::ParseString);
-- 
2.43.0


From e33e09dbc8d635893cf7825bfb52f643c29e88b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 079/178] fix: TomlParser reports values nested too deep
 instead of overflowing the stack

---
 il/io/toml/toml.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 il/io/toml/toml.h   | 15 +++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c3e7ff8..2f71a1b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -26,6 +26,12 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+TomlParser::Depth::Depth(il::io_t, il::int_t& depth) : depth_(depth) {
+  ++depth_;
+}
+
+TomlParser::Depth::~Depth() { --depth_; }
+
 // Reads the next line, whatever its length, with its end of line if there is
 // one. Returns false if there is no more line.
 bool TomlParser::readLine(il::io_t, il::StringView& line) {
@@ -389,6 +395,14 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
   il::Dynamic ans{il::Array<il::Dynamic>{}};
   il::Status parse_status{};
 
+  const Depth depth{il::io, depth_};
+  if (depth_ > max_depth_) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
+  }
+
   string.removePrefix(1);
   string = skipWhitespaceAndComments(string, il::io, parse_status);
   if (!parse_status.Ok()) {
@@ -561,6 +575,14 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
 
+  const Depth depth{il::io, depth_};
+  if (depth_ > max_depth_) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
+  }
+
   il::StringView after_brace = string;
   after_brace.removePrefix(1);
   after_brace = il::removeWhitespaceLeft(after_brace);
@@ -862,6 +884,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     return;
   }
 
+  il::int_t nb_names = 0;
   il::String full_table_name{};
   bool inserted = false;
   while (!string.isEmpty() && (string[0] != ']')) {
@@ -871,6 +894,13 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
+    ++nb_names;
+    if (nb_names > max_depth_) {
+      status.SetError(il::Error::ParseTable);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return;
+    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
@@ -948,6 +978,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     return;
   }
 
+  il::int_t nb_names = 0;
   il::String full_table_name{};
   while (!string.isEmpty() && (string[0] != ']')) {
     il::Status parse_status{};
@@ -956,6 +987,13 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
+    ++nb_names;
+    if (nb_names > max_depth_) {
+      status.SetError(il::Error::ParseTable);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return;
+    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
@@ -1062,6 +1100,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  depth_ = 0;
   il::Status parse_status{};
   parseLines(il::io, root_toml, parse_status);
   const int error = std::fclose(file_);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 1e60cc4..fb5af3d 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,6 +38,10 @@ namespace il {
 
 class TomlParser {
  private:
+  // Arrays, inline tables and dotted names nested more than that are reported
+  // as errors: they would need a stack of any size.
+  static const il::int_t max_depth_ = 200;
+  il::int_t depth_;
   il::Array<char> buffer_line_;
   il::int_t line_number_;
   std::FILE *file_;
@@ -84,6 +88,17 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  // Counts the arrays and the inline tables that are being read
+  class Depth {
+   private:
+    il::int_t &depth_;
+
+   public:
+    Depth(il::io_t, il::int_t &depth);
+    Depth(const Depth &) = delete;
+    Depth &operator=(const Depth &) = delete;
+    ~Depth();
+  };
   bool readLine(il::io_t, il::StringView &line);
   void parseLines(il::io_t, il::MapArray<il::String, il::Dynamic> &root_toml,
                   il::Status &status);
-- 
2.43.0


From 68bbf62a72da81cbfbd73942241e22bcd6d9cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 080/178] fix: TomlParser reads the escapes \u and \U

---
 il/io/toml/toml.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 2f71a1b..d4085a9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -370,9 +370,27 @@ il::String TomlParser::parseEscapeCode(il::io_t, il::StringView& string,
       break;
     case 'u':
     case 'U': {
-      status.SetError(il::Error::ParseString);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
+      const il::int_t nb_digits = string[i] == 'u' ? 4 : 8;
+      unsigned int rune = 0;
+      il::int_t j = 2;
+      while (j < 2 + nb_digits && j < string.size() &&
+             string.hasHexaDecimal(j)) {
+        const char c = string[j];
+        rune = 16 * rune + static_cast<unsigned int>(
+                               c <= '9' ? c - '0'
+                                        : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10);
+        ++j;
+      }
+      if (j < 2 + nb_digits || rune > 0x0010FFFFu ||
+          (rune >= 0x0000D800u && rune <= 0x0000DFFFu)) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      string.removePrefix(j);
+      ans.Append(static_cast<int>(rune));
+      status.SetOk();
       return ans;
     } break;
     default:
-- 
2.43.0


From 25171d6ca0c8d157d8d8cfd8ef960b28d0dda0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:53 +0000
Subject: [PATCH 081/178] fix: saving a .toml file keeps all the digits of the
 floating point numbers

---
 il/io/toml/toml.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index fb5af3d..144ea95 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -129,7 +129,7 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
+        const int error2 = std::fprintf(file, "%.16e", array[j].to<double>());
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
@@ -186,7 +186,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           if (error == EOF) return;
           break;
         case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
+          error = std::fprintf(file, "%.16e", value.to<double>());
           if (error == EOF) return;
           break;
         case il::Type::UnicodeString:
@@ -202,7 +202,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           error = std::fputs("[ ", file);
           if (error == EOF) return;
           for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
+            std::fprintf(file, "%.16e", v[i]);
             if (i + 1 < v.size()) {
               error = std::fputs(", ", file);
               if (error == EOF) return;
@@ -219,7 +219,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
             error = std::fputs("[ ", file);
             if (error == EOF) return;
             for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
+              std::fprintf(file, "%.16e", v(i, j));
               if (j + 1 < v.size(1)) {
                 error = std::fputs(", ", file);
                 if (error == EOF) return;
-- 
2.43.0


From a48080257ed05da5f4bd1209105b197d7195eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 082/178] fix: saving a .toml file escapes the strings and
 quotes the keys

---
 il/io/toml/toml.h | 55 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 144ea95..aa81241 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -105,6 +105,40 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
+// A string between quotes, with the escapes that TOML requires
+inline il::String tomlString(const il::String &s) {
+  il::String ans{};
+  ans.Append('"');
+  for (il::int_t i = 0; i < s.size(); ++i) {
+    const unsigned char c = static_cast<unsigned char>(s.data()[i]);
+    if (c == '"' || c == '\\') {
+      ans.Append('\\');
+      ans.Append(static_cast<char>(c));
+    } else if (c < 0x20 || c == 0x7F) {
+      char escape[7];
+      std::snprintf(escape, 7, "\\u%04X", static_cast<unsigned int>(c));
+      ans.Append(il::StringType::Ascii, escape, 6);
+    } else {
+      ans.Append(il::StringType::Byte, s.data() + i, 1);
+    }
+  }
+  ans.Append('"');
+  return ans;
+}
+
+// A key, between quotes if it can not be written otherwise
+inline il::String tomlKey(const il::String &key) {
+  bool is_bare = key.size() > 0;
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.data()[i];
+    if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+          (c >= '0' && c <= '9') || c == '_' || c == '-')) {
+      is_bare = false;
+    }
+  }
+  return is_bare ? key : il::tomlString(key);
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
   const int error0 = std::fputs("[ ", file);
@@ -133,13 +167,9 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
+        const int error2 = std::fputs(
+            il::tomlString(array[j].as<il::String>()).asCString(), file);
         IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
       } break;
       case il::Type::ArrayOfDynamic: {
         save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
@@ -168,7 +198,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs(" = ", file);
       if (error == EOF) return;
@@ -190,11 +220,8 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           if (error == EOF) return;
           break;
         case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
+          error = std::fputs(
+              il::tomlString(value.as<il::String>()).asCString(), file);
           if (error == EOF) return;
           break;
         case il::Type::ArrayOfDouble: {
@@ -253,7 +280,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         error = std::fputs(".", file);
         if (error == EOF) return;
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
@@ -272,7 +299,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         error = std::fputs(".", file);
         if (error == EOF) return;
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
-- 
2.43.0


From 495187f741fb69bc9652aae184158b721758c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 083/178] fix: saving a .toml file reports write errors, and
 closes the file

---
 il/io/toml/toml.h | 104 +++++++++++++++++++---------------------------
 1 file changed, 43 insertions(+), 61 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index aa81241..c635004 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -184,106 +184,90 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
   }
   const int error5 = std::fputs(" ]", file);
   IL_UNUSED(error5);
+  if (std::ferror(file)) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
   status.SetOk();
 }
 
 template <typename M>
 inline void save_aux(const M &toml, const il::String &name, il::io_t,
                      std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
-
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
+      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      std::fputs(" = ", file);
       switch (type) {
         case il::Type::Bool:
           if (value.to<bool>()) {
-            error = std::fputs("true", file);
+            std::fputs("true", file);
           } else {
-            error = std::fputs("false", file);
+            std::fputs("false", file);
           }
-          if (error == EOF) return;
           break;
         case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
+          std::fprintf(file, "%td", value.to<il::int_t>());
           break;
         case il::Type::Double:
-          error = std::fprintf(file, "%.16e", value.to<double>());
-          if (error == EOF) return;
+          std::fprintf(file, "%.16e", value.to<double>());
           break;
         case il::Type::UnicodeString:
-          error = std::fputs(
+          std::fputs(
               il::tomlString(value.as<il::String>()).asCString(), file);
-          if (error == EOF) return;
           break;
         case il::Type::ArrayOfDouble: {
           const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
+          std::fputs("[ ", file);
           for (il::int_t i = 0; i < v.size(); ++i) {
             std::fprintf(file, "%.16e", v[i]);
             if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
+              std::fputs(", ", file);
             }
           }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
+          std::fputs(" ]", file);
         } break;
         case il::Type::Array2DOfDouble: {
           const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
+          std::fputs("[ ", file);
           for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
+            std::fputs("[ ", file);
             for (il::int_t j = 0; j < v.size(1); ++j) {
               std::fprintf(file, "%.16e", v(i, j));
               if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
+                std::fputs(", ", file);
               }
             }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
+            std::fputs(" ]", file);
             if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
+              std::fputs(", ", file);
             }
           }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
+          std::fputs(" ]", file);
         } break;
         case il::Type::ArrayOfDynamic: {
           save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
+          if (!status.Ok()) {
+            status.Rearm();
+            return;
+          }
         } break;
         default:
           IL_UNREACHABLE;
       }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
+      std::fputs("\n", file);
     } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      std::fputs("\n[", file);
       if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+        std::fputs(name.asCString(), file);
+        std::fputs(".", file);
       }
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      std::fputs("]\n", file);
       save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
                il::io, file, status);
       if (!status.Ok()) {
@@ -291,18 +275,13 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         return;
       }
     } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      std::fputs("\n[", file);
       if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+        std::fputs(name.asCString(), file);
+        std::fputs(".", file);
       }
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      std::fputs("]\n", file);
       save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
                il::io, file, status);
       if (!status.Ok()) {
@@ -310,6 +289,11 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         return;
       }
     }
+    if (std::ferror(file)) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
   }
 
   status.SetOk();
@@ -339,12 +323,11 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
 
     il::String root_name{};
     save_aux(toml, root_name, il::io, file, status);
+    const int error = std::fclose(file);
     if (!status.Ok()) {
       status.Rearm();
       return;
     }
-
-    const int error = std::fclose(file);
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
@@ -378,12 +361,11 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
 
     il::String root_name{};
     save_aux(toml, root_name, il::io, file, status);
+    const int error = std::fclose(file);
     if (!status.Ok()) {
       status.Rearm();
       return;
     }
-
-    const int error = std::fclose(file);
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
-- 
2.43.0


From 1d00e4d213277d0ffafc173dddaadea94605bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 084/178] fix: saving a .toml file gives the tables their full
 name, after the values

---
 il/io/toml/toml.h | 62 ++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index c635004..196203b 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -195,6 +195,7 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
 template <typename M>
 inline void save_aux(const M &toml, const il::String &name, il::io_t,
                      std::FILE *file, il::Status &status) {
+  // The tables come last: what follows the header of a table belongs to it
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
     const il::Type type = value.type();
@@ -260,34 +261,6 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           IL_UNREACHABLE;
       }
       std::fputs("\n", file);
-    } else if (type == il::Type::MapArrayStringToDynamic) {
-      std::fputs("\n[", file);
-      if (name.size() != 0) {
-        std::fputs(name.asCString(), file);
-        std::fputs(".", file);
-      }
-      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      std::fputs("]\n", file);
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
-      }
-    } else if (type == il::Type::MapStringToDynamic) {
-      std::fputs("\n[", file);
-      if (name.size() != 0) {
-        std::fputs(name.asCString(), file);
-        std::fputs(".", file);
-      }
-      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      std::fputs("]\n", file);
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
-      }
     }
     if (std::ferror(file)) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
@@ -296,6 +269,39 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
     }
   }
 
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    const il::Type type = value.type();
+    if (type != il::Type::MapArrayStringToDynamic &&
+        type != il::Type::MapStringToDynamic) {
+      continue;
+    }
+    il::String full_name = name;
+    if (full_name.size() != 0) {
+      full_name.Append('.');
+    }
+    full_name.Append(il::tomlKey(toml.key(i)).view());
+    std::fputs("\n[", file);
+    std::fputs(full_name.asCString(), file);
+    std::fputs("]\n", file);
+    if (type == il::Type::MapArrayStringToDynamic) {
+      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), full_name,
+               il::io, file, status);
+    } else {
+      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), full_name, il::io,
+               file, status);
+    }
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+
+  if (std::ferror(file)) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
   status.SetOk();
   return;
 }
-- 
2.43.0


From dd19cf19987ac2d5a87d668f5254e65cdc5feb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 085/178] fix: saving a Map in a .toml file was not implemented

---
 il/io/toml/toml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 196203b..7af784c 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -307,7 +307,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
 }
 
 template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
  public:
   static void save(const il::Map<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-- 
2.43.0


From 1c80393df02ffe45adf235f1e9e47bc75db32a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 086/178] fix: saving a .toml file writes tables in arrays, and
 reports the values it can not write

---
 il/io/toml/toml.h | 197 +++++++++++++++++++++++-----------------------
 1 file changed, 99 insertions(+), 98 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 7af784c..c079894 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -139,55 +139,108 @@ inline il::String tomlKey(const il::String &key) {
   return is_bare ? key : il::tomlString(key);
 }
 
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status);
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
+  std::fputs("[ ", file);
   for (il::int_t j = 0; j < array.size(); ++j) {
     if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
+      std::fputs(", ", file);
     }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
-        }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%.16e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs(
-            il::tomlString(array[j].as<il::String>()).asCString(), file);
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
-        }
-      } break;
-      default:
-        IL_UNREACHABLE;
+    save_value(array[j], il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
     }
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
-  if (std::ferror(file)) {
-    status.SetError(il::Error::FilesystemCanNotWriteToFile);
-    IL_SET_SOURCE(status);
-    return;
+  std::fputs(" ]", file);
+  status.SetOk();
+}
+
+template <typename M>
+inline void save_inline_table(const M &toml, il::io_t, std::FILE *file,
+                              il::Status &status) {
+  std::fputs("{ ", file);
+  bool first = true;
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    if (!first) {
+      std::fputs(", ", file);
+    }
+    first = false;
+    std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+    std::fputs(" = ", file);
+    save_value(toml.value(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+  std::fputs(" }", file);
+  status.SetOk();
+}
+
+// Writes a value on the current line
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status) {
+  switch (value.type()) {
+    case il::Type::Bool:
+      std::fputs(value.to<bool>() ? "true" : "false", file);
+      break;
+    case il::Type::Integer:
+      std::fprintf(file, "%td", value.to<il::int_t>());
+      break;
+    case il::Type::Double:
+      std::fprintf(file, "%.16e", value.to<double>());
+      break;
+    case il::Type::UnicodeString:
+      std::fputs(il::tomlString(value.as<il::String>()).asCString(), file);
+      break;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(); ++i) {
+        std::fprintf(file, "%.16e", v[i]);
+        if (i + 1 < v.size()) {
+          std::fputs(", ", file);
+        }
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        std::fputs("[ ", file);
+        for (il::int_t j = 0; j < v.size(1); ++j) {
+          std::fprintf(file, "%.16e", v(i, j));
+          if (j + 1 < v.size(1)) {
+            std::fputs(", ", file);
+          }
+        }
+        std::fputs(" ]", file);
+        if (i + 1 < v.size(0)) {
+          std::fputs(", ", file);
+        }
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::ArrayOfDynamic:
+      save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
+      return;
+    case il::Type::MapArrayStringToDynamic:
+      save_inline_table(value.as<il::MapArray<il::String, il::Dynamic>>(),
+                        il::io, file, status);
+      return;
+    case il::Type::MapStringToDynamic:
+      save_inline_table(value.as<il::Map<il::String, il::Dynamic>>(), il::io,
+                        file, status);
+      return;
+    default:
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
   }
   status.SetOk();
 }
@@ -203,62 +256,10 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         type != il::Type::MapStringToDynamic) {
       std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       std::fputs(" = ", file);
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            std::fputs("true", file);
-          } else {
-            std::fputs("false", file);
-          }
-          break;
-        case il::Type::Integer:
-          std::fprintf(file, "%td", value.to<il::int_t>());
-          break;
-        case il::Type::Double:
-          std::fprintf(file, "%.16e", value.to<double>());
-          break;
-        case il::Type::UnicodeString:
-          std::fputs(
-              il::tomlString(value.as<il::String>()).asCString(), file);
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          std::fputs("[ ", file);
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%.16e", v[i]);
-            if (i + 1 < v.size()) {
-              std::fputs(", ", file);
-            }
-          }
-          std::fputs(" ]", file);
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          std::fputs("[ ", file);
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            std::fputs("[ ", file);
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%.16e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                std::fputs(", ", file);
-              }
-            }
-            std::fputs(" ]", file);
-            if (i + 1 < v.size(0)) {
-              std::fputs(", ", file);
-            }
-          }
-          std::fputs(" ]", file);
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          if (!status.Ok()) {
-            status.Rearm();
-            return;
-          }
-        } break;
-        default:
-          IL_UNREACHABLE;
+      save_value(value, il::io, file, status);
+      if (!status.Ok()) {
+        status.Rearm();
+        return;
       }
       std::fputs("\n", file);
     }
-- 
2.43.0


From 773ad13d912b9435bf89651e88c64114cd339cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 087/178] fix: il::load with a std::string did not know the
 .toml and .data files

---
 il/io/io_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..17cfd1f 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,6 +116,9 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
+  if (il_filename.endsWith(".toml") || il_filename.endsWith(".data")) {
+    return il::load<T>(il_filename, il::io, status);
+  }
   return il::LoadHelper<T>::load(il_filename, il::io, status);
 }
 
-- 
2.43.0


From 88ee4e2f51cef015368bd72c8e140dd1c3643e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 088/178] Revert "fix: Timer measured with a clock that can be
 set back"

This reverts commit f955278bdd0b27ef249c7ee406129e213de7f9bf.
---
 il/benchmark/tools/timer/Timer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/benchmark/tools/timer/Timer.h b/il/benchmark/tools/timer/Timer.h
index 957804c..e01a69b 100644
--- a/il/benchmark/tools/timer/Timer.h
+++ b/il/benchmark/tools/timer/Timer.h
@@ -34,7 +34,7 @@ class Timer {
  private:
   bool launched_;
   double time_;
-  std::chrono::time_point<std::chrono::steady_clock> point_begin_;
+  std::chrono::time_point<std::chrono::high_resolution_clock> point_begin_;
 
  public:
   Timer();
@@ -59,12 +59,12 @@ inline Timer::Timer() : point_begin_{} {
 inline void Timer::Start() {
   IL_EXPECT_FAST(!launched_);
   launched_ = true;
-  point_begin_ = std::chrono::steady_clock::now();
+  point_begin_ = std::chrono::high_resolution_clock::now();
 }
 
 inline void Timer::Stop() {
-  std::chrono::time_point<std::chrono::steady_clock> point_end =
-      std::chrono::steady_clock::now();
+  std::chrono::time_point<std::chrono::high_resolution_clock> point_end =
+      std::chrono::high_resolution_clock::now();
   IL_EXPECT_FAST(launched_);
   launched_ = false;
   time_ += 1.0e-9 * std::chrono::duration_cast<std::chrono::nanoseconds>(
@@ -84,7 +84,7 @@ inline void Timer::sleepUntil(double time) const {
   const double time_left =
       time -
       1.0e-9 * std::chrono::duration_cast<std::chrono::nanoseconds>(
-                   std::chrono::steady_clock::now() - point_begin_)
+                   std::chrono::high_resolution_clock::now() - point_begin_)
                    .count();
   if (time_left > 0.0) {
     std::this_thread::sleep_for(
-- 
2.43.0


From 6b77c30dc5296d34c3d3d8a42270542595a287bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 089/178] fix: "_" was not accepted between the digits of a
 fraction or an exponent

---
 il/io/toml/toml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index d4085a9..14472c5 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -148,6 +148,12 @@ il::Dynamic TomlParser::parseBool(il::io_t, il::StringView& string,
   }
 }
 
+// Is the character i a '_' between two digits of a group that starts at begin?
+static bool isSeparator(il::StringView string, il::int_t begin, il::int_t i) {
+  return string[i] == '_' && i > begin && string.hasDigit(i - 1) &&
+         i + 1 < string.size() && string.hasDigit(i + 1);
+}
+
 il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
                                     il::Status& status) {
   // Skip the +/- sign at the beginning of the string
@@ -212,7 +218,8 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     // Skip the digits (there should be at least one). Note that trailing 0
     // are accepted.
     const il::int_t i_begin_number = i;
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() &&
+           (string.hasDigit(i) || isSeparator(string, i_begin_number, i))) {
       ++i;
     }
     if (i == i_begin_number) {
@@ -232,7 +239,8 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
         ++i;
       }
       const il::int_t i_begin_exponent = i;
-      while (i < string.size() && string.hasDigit(i)) {
+      while (i < string.size() &&
+             (string.hasDigit(i) || isSeparator(string, i_begin_exponent, i))) {
         ++i;
       }
       if (i == i_begin_exponent) {
-- 
2.43.0


From 41a67ec07078b1d50426a0f9ff54da2775ba94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 090/178] fix: loading a .data file never reported a short or
 wrong file, and misread strings, nested maps and arrays of bytes

---
 il/io/filepack/filepack.h | 577 +++++++++++++++++---------------------
 1 file changed, 255 insertions(+), 322 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..4b130bb 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -19,7 +19,9 @@
 #ifndef IL_FILEPACK_H
 #define IL_FILEPACK_H
 
+#include <cstdint>
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Map.h>
@@ -35,23 +37,112 @@
 
 namespace il {
 
-inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
+// Reads the content of a .data file. Once something could not be read, nothing
+// more is: the values and the sizes that are asked for are 0.
+class DataReader {
+ private:
+  std::FILE* file_;
+  il::int_t nb_bytes_left_;
+  bool ok_;
+  il::Error error_;
+
+ public:
+  explicit DataReader(std::FILE* file);
+  bool ok() const;
+  void SetError(il::Error error);
+  il::Error error() const;
+  void read(il::int_t nb_bytes, il::io_t, void* p);
+  il::int_t readVarint();
+  il::Type readType();
+  // Checks that n elements of that size can be in what is left of the file
+  bool isAvailable(il::int_t n, il::int_t element_size);
+  il::String readString(il::int_t n);
+};
+
+inline DataReader::DataReader(std::FILE* file)
+    : file_{file}, nb_bytes_left_{0}, ok_{true}, error_{il::Error::Undefined} {
+  const bool end_ok = std::fseek(file, 0, SEEK_END) == 0;
+  const long end = end_ok ? std::ftell(file) : -1;
+  if (end < 0 || std::fseek(file, 0, SEEK_SET) != 0) {
+    SetError(il::Error::FilesystemNoReadAccess);
+  } else {
+    nb_bytes_left_ = end;
+  }
+}
+
+inline bool DataReader::ok() const { return ok_; }
+
+inline void DataReader::SetError(il::Error error) {
+  if (ok_) {
+    ok_ = false;
+    error_ = error;
+  }
+}
+
+inline il::Error DataReader::error() const { return error_; }
+
+inline void DataReader::read(il::int_t nb_bytes, il::io_t, void* p) {
+  if (nb_bytes == 0) {
+    return;
+  }
+  if (ok_ && nb_bytes > nb_bytes_left_) {
+    SetError(il::Error::FilesystemFileNotLongEnough);
+  }
+  const std::size_t n = static_cast<std::size_t>(nb_bytes);
+  if (ok_ && std::fread(p, 1, n, file_) != n) {
+    SetError(il::Error::FilesystemNoReadAccess);
+  }
+  if (!ok_) {
+    std::memset(p, 0, n);
+    return;
+  }
+  nb_bytes_left_ -= nb_bytes;
+}
+
+inline il::int_t DataReader::readVarint() {
   std::size_t ans = 0;
-  std::size_t multiplier = 1;
-  const std::size_t max_byte = 1 << 7;
+  int shift = 0;
   const unsigned char continuation_mask = 0x7F;
   const unsigned char continuation_byte = 0x80;
   unsigned char byte;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
-    k += 1;
-    ans += multiplier * (byte & continuation_mask);
-    multiplier *= max_byte;
+    read(1, il::io, &byte);
+    const std::size_t digit = byte & continuation_mask;
+    if (shift > 63 || ((digit << shift) >> shift) != digit) {
+      SetError(il::Error::BinaryFileWrongFormat);
+    }
+    if (!ok_) {
+      return 0;
+    }
+    ans |= digit << shift;
+    shift += 7;
   } while ((byte & continuation_byte) == continuation_byte);
 
   return static_cast<il::int_t>(ans);
 }
 
+inline il::Type DataReader::readType() {
+  il::Type type;
+  read(sizeof(il::Type), il::io, &type);
+  return type;
+}
+
+inline bool DataReader::isAvailable(il::int_t n, il::int_t element_size) {
+  if (ok_ && (n < 0 || n > nb_bytes_left_ / element_size)) {
+    SetError(il::Error::FilesystemFileNotLongEnough);
+  }
+  return ok_;
+}
+
+inline il::String DataReader::readString(il::int_t n) {
+  if (!isAvailable(n, 1)) {
+    return il::String{};
+  }
+  il::Array<char> raw_string{n};
+  read(n, il::io, raw_string.Data());
+  return il::String{il::StringType::Byte, raw_string.data(), n};
+}
+
 inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   std::size_t un = static_cast<std::size_t>(n);
 
@@ -72,355 +163,185 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
-    }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
+template <typename T>
+inline il::Dynamic loadArray(il::io_t, il::DataReader& reader) {
+  il::int_t size = 0;
+  reader.read(sizeof(il::int_t), il::io, &size);
+  if (!reader.isAvailable(size, sizeof(T))) {
+    return il::Dynamic{};
+  }
+  il::Array<T> v{size};
+  reader.read(sizeof(T) * size, il::io, v.Data());
+  return il::Dynamic{std::move(v)};
+}
 
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
+template <typename T>
+inline il::Dynamic loadArray2D(il::io_t, il::DataReader& reader) {
+  il::int_t size0 = 0;
+  il::int_t size1 = 0;
+  reader.read(sizeof(il::int_t), il::io, &size0);
+  reader.read(sizeof(il::int_t), il::io, &size1);
+  if (size0 < 0 || size1 < 0) {
+    reader.SetError(il::Error::BinaryFileWrongFormat);
+    return il::Dynamic{};
+  }
+  if (size0 > 0 &&
+      !reader.isAvailable(size1, size0 <= PTRDIFF_MAX / il::int_t{sizeof(T)}
+                                     ? size0 * il::int_t{sizeof(T)}
+                                     : PTRDIFF_MAX)) {
+    return il::Dynamic{};
+  }
+  il::Array2D<T> A{size0, size1};
+  for (il::int_t j = 0; size0 > 0 && j < size1; ++j) {
+    reader.read(sizeof(T) * size0, il::io, A.Data() + j * A.capacity(0));
+  }
+  return il::Dynamic{std::move(A)};
+}
 
-          fread(&(type[i]), sizeof(il::Type), 1, file);
-        }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
-        }
+// A map of arrays, saved as an array of structures
+template <typename M>
+inline M loadArrayOfStruct(il::io_t, il::DataReader& reader) {
+  const il::int_t nb_types = reader.readVarint();
+  M ans{};
+  if (!reader.isAvailable(nb_types, 1 + sizeof(il::Type))) {
+    return ans;
+  }
+  il::Array<il::String> key{nb_types};
+  il::Array<il::Type> type{nb_types};
+  il::int_t size_struct = 0;
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    key[i] = reader.readString(reader.readVarint());
+    type[i] = reader.readType();
+    size_struct += type[i] == il::Type::Double ? sizeof(double) : sizeof(int);
+    if (reader.ok() && type[i] != il::Type::Double &&
+        type[i] != il::Type::Integer) {
+      reader.SetError(il::Error::BinaryFileWrongFormat);
+    }
+  }
+  const il::int_t n = reader.readVarint();
+  if (nb_types == 0 || !reader.isAvailable(n, size_struct)) {
+    return ans;
+  }
 
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
+  il::Array<il::Dynamic> array{nb_types};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    if (type[i] == il::Type::Double) {
+      array[i] = il::Dynamic{il::Array<double>{n}};
+    } else {
+      array[i] = il::Dynamic{il::Array<int>{n}};
+    }
+  }
+  for (il::int_t j = 0; j < n; ++j) {
+    for (il::int_t i = 0; i < nb_types; ++i) {
+      if (type[i] == il::Type::Double) {
+        reader.read(sizeof(double), il::io,
+                    &array[i].As<il::Array<double>>()[j]);
+      } else {
+        reader.read(sizeof(int), il::io, &array[i].As<il::Array<int>>()[j]);
       }
-      case il::Type::MapArrayStringToDynamic:
-      case il::Type::MapStringToDynamic: {
-        il::int_t n_map = 0;
-        const il::int_t n = readVarint(il::io, n_map, file);
-        il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
-        }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
-        k += size;
-      } break;
-      default:
-        IL_UNREACHABLE;
     }
   }
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    il::spot_t spot = ans.search(key[i]);
+    if (ans.found(spot)) {
+      reader.SetError(il::Error::BinaryFileWrongFormat);
+      return ans;
+    }
+    ans.Set(std::move(key[i]), std::move(array[i]), il::io, spot);
+  }
+  return ans;
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
+// Maps nested more than that are reported as errors: they would need a stack of
+// any size.
+const il::int_t max_depth_data = 200;
+
+template <typename M>
+inline void auxLoad(il::int_t depth, il::io_t, M& config,
+                    il::DataReader& reader) {
+  if (depth > il::max_depth_data) {
+    reader.SetError(il::Error::BinaryFileWrongFormat);
+    return;
+  }
 
   while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
+    const il::int_t size_string = reader.readVarint();
     if (size_string == 0) {
       break;
     }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
+    il::String string = reader.readString(size_string);
+    const il::Type type = reader.readType();
+    il::spot_t spot = config.search(string);
+    if (config.found(spot)) {
+      reader.SetError(il::Error::BinaryFileWrongFormat);
+    }
+    if (!reader.ok()) {
+      break;
+    }
 
+    il::Dynamic value{};
     switch (type) {
       case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
+        unsigned char byte = 0;
+        reader.read(sizeof(bool), il::io, &byte);
+        if (byte > 1) {
+          reader.SetError(il::Error::BinaryFileWrongFormat);
+        }
+        value = il::Dynamic{byte == 1};
       } break;
       case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
+        value = il::Dynamic{reader.readVarint()};
       } break;
       case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
+        float x = 0.0f;
+        reader.read(sizeof(float), il::io, &x);
+        value = il::Dynamic{x};
       } break;
       case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
+        double x = 0.0;
+        reader.read(sizeof(double), il::io, &x);
+        value = il::Dynamic{x};
       } break;
       case il::Type::UnicodeString: {
+        // The characters are followed by a '\0'
         il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
+        reader.read(sizeof(il::int_t), il::io, &size);
+        value = il::Dynamic{reader.readString(size)};
+        char end = '\0';
+        reader.read(sizeof(char), il::io, &end);
+        if (end != '\0') {
+          reader.SetError(il::Error::BinaryFileWrongFormat);
+        }
       } break;
       case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
+        value = il::loadArray<double>(il::io, reader);
       } break;
       case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
+        value = il::loadArray2D<unsigned char>(il::io, reader);
       } break;
       case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
+        value = il::loadArray2D<double>(il::io, reader);
       } break;
-      case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-          std::cout << "End" << std::endl;
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
+      case il::Type::ArrayOfStruct: {
+        value = il::Dynamic{il::loadArrayOfStruct<M>(il::io, reader)};
+      } break;
+      case il::Type::MapArrayStringToDynamic:
+      case il::Type::MapStringToDynamic: {
+        const il::int_t n = reader.readVarint();
+        M inner{};
+        auxLoad(depth + 1, il::io, inner, reader);
+        if (inner.nbElements() != n) {
+          reader.SetError(il::Error::BinaryFileWrongFormat);
         }
+        value = il::Dynamic{std::move(inner)};
       } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
       default:
-        IL_UNREACHABLE;
+        reader.SetError(il::Error::BinaryFileWrongType);
+    }
+    if (!reader.ok()) {
+      break;
     }
+    config.Set(std::move(string), std::move(value), il::io, spot);
   }
 }
 
@@ -448,9 +369,15 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::DataReader reader{file};
+    auxLoad(0, il::io, ans, reader);
 
     const int error = std::fclose(file);
+    if (!reader.ok()) {
+      status.SetError(reader.error());
+      IL_SET_SOURCE(status);
+      return ans;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
@@ -484,9 +411,15 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::DataReader reader{file};
+    auxLoad(0, il::io, ans, reader);
 
     const int error = std::fclose(file);
+    if (!reader.ok()) {
+      status.SetError(reader.error());
+      IL_SET_SOURCE(status);
+      return ans;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
-- 
2.43.0


From 3f6351c4b01ee02d653011dc9125d456bafdcda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 091/178] fix: saving a .data file never reported a write
 error, stopped the process on a type that can not be saved, and wrote maps
 and arrays of bytes that could not be loaded

---
 il/io/filepack/filepack.h | 94 +++++++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 4b130bb..8108736 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -181,14 +181,16 @@ inline il::Dynamic loadArray2D(il::io_t, il::DataReader& reader) {
   il::int_t size1 = 0;
   reader.read(sizeof(il::int_t), il::io, &size0);
   reader.read(sizeof(il::int_t), il::io, &size1);
-  if (size0 < 0 || size1 < 0) {
+  // An empty array has no element in the file but its other dimension also
+  // needs memory
+  const il::int_t max_empty = 65536 / sizeof(T);
+  if (size0 < 0 || size1 < 0 ||
+      ((size0 == 0 || size1 == 0) && size0 + size1 > max_empty)) {
     reader.SetError(il::Error::BinaryFileWrongFormat);
     return il::Dynamic{};
   }
-  if (size0 > 0 &&
-      !reader.isAvailable(size1, size0 <= PTRDIFF_MAX / il::int_t{sizeof(T)}
-                                     ? size0 * il::int_t{sizeof(T)}
-                                     : PTRDIFF_MAX)) {
+  if (size0 > 0 && (!reader.isAvailable(size1 > 0 ? size0 : 0, sizeof(T)) ||
+                    !reader.isAvailable(size1, size0 * sizeof(T)))) {
     return il::Dynamic{};
   }
   il::Array2D<T> A{size0, size1};
@@ -432,21 +434,25 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
 
 inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                     const il::ArrayView<il::String>& option, il::io_t,
-                    il::int_t& n, std::FILE* file) {
+                    il::int_t& n, std::FILE* file, il::Status& status) {
   n = 0;
 
   for (il::int_t i = 0; i < data.size(); ++i) {
-    il::String to_check{il::StringType::Byte, data.key(i).asCString(),
-                        data.key(i).size()};
-    il::int_t my_size = data.key(i).size();
-    IL_UNUSED(to_check);
-    IL_UNUSED(my_size);
-
     const il::int_t string_size = data.key(i).size();
+    if (string_size == 0) {
+      // In the file, a key of size 0 is the end of the map
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+    const bool save_as_array_of_struct =
+        data.value(i).is<il::MapArray<il::String, il::Dynamic>>() &&
+        option.size() == 1 && option[0] == data.key(i);
+    const il::Type type = save_as_array_of_struct ? il::Type::ArrayOfStruct
+                                                  : data.value(i).type();
     std::fwrite(&type, sizeof(il::Type), 1, file);
     n += sizeof(il::Type);
 
@@ -489,9 +495,9 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         const il::int_t size1 = A.size(1);
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
+        for (il::int_t j = 0; size0 > 0 && j < size1; ++j) {
+          std::fwrite(A.data() + j * A.capacity(0), sizeof(unsigned char),
+                      size0, file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
       } break;
@@ -501,15 +507,13 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         const il::int_t size1 = A.size(1);
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
+        for (il::int_t j = 0; size0 > 0 && j < size1; ++j) {
           std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
                       file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
         if (save_as_array_of_struct) {
           const il::MapArray<il::String, il::Dynamic>& my_data =
               data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
@@ -518,7 +522,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           const il::int_t population_struct = my_data.nbElements();
           writeVarint(population_struct, il::io, k, file);
 
-          il::int_t n;
+          il::int_t n = 0;
           bool size_of_array_is_known = false;
           for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
                i = my_data.next(i)) {
@@ -528,26 +532,36 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
             const il::Type type = my_data.value(i).type();
             switch (type) {
               case il::Type::ArrayOfDouble: {
+                const il::Array<double>& ref =
+                    my_data.value(i).as<il::Array<double>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (ref.size() != n) {
+                  status.SetError(il::Error::Unimplemented);
+                  IL_SET_SOURCE(status);
+                  return;
                 }
                 const il::Type my_type = il::Type::Double;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               case il::Type::ArrayOfInt32: {
+                const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (ref.size() != n) {
+                  status.SetError(il::Error::Unimplemented);
+                  IL_SET_SOURCE(status);
+                  return;
                 }
                 const il::Type my_type = il::Type::Integer;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               default:
-                IL_UNREACHABLE;
+                status.SetError(il::Error::Unimplemented);
+                IL_SET_SOURCE(status);
+                return;
             }
           }
 
@@ -583,19 +597,33 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
             new_option = option.view(il::Range{1, option.size()});
           }
           auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
+                  new_option, il::io, n_map, file, status);
+          if (!status.Ok()) {
+            status.Rearm();
+            return;
+          }
           //        std::fseek(file, -(n_map + sizeof(il::int_t)),
           //          SEEK_CUR);
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
           //        std::fseek(file, n_map, SEEK_CUR);
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
-        IL_UNREACHABLE;
+        status.SetError(il::Error::Unimplemented);
+        IL_SET_SOURCE(status);
+        return;
+    }
+    if (std::ferror(file)) {
+      break;
     }
   }
   writeVarint(0, il::io, n, file);
+  if (std::ferror(file)) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  status.SetOk();
 }
 
 template <>
@@ -621,9 +649,13 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 
     il::Array<il::String> option{};
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    auxSave(data, option.view(), il::io, n, file, status);
 
     const int error = std::fclose(file);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
@@ -658,9 +690,13 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
 #endif
 
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    auxSave(data, option.view(), il::io, n, file, status);
 
     const int error = std::fclose(file);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
-- 
2.43.0


From 992f5e71d7f17d7ad7b9c00a39d3a51bde2bae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 092/178] fix: il/File.h could not be compiled

---
 il/io/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..f4f5dd6 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -20,6 +20,7 @@
 #define IL_FILE_H
 
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Status.h>
@@ -131,7 +132,7 @@ inline void File::Read(il::io_t, T* p, il::Status& status) {
   } else {
     Read(nb_objects, sizeof(T), il::io, p, status);
   }
-};
+}
 
 inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
                        void* p, il::Status& status) {
@@ -168,7 +169,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From 6f71b98bfbd7e54a4497381e0ce187621de2bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 093/178] fix: a File that could not be opened was left
 uninitialized, and could not be destroyed

---
 il/io/File.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index f4f5dd6..5284c98 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -62,7 +62,13 @@ class File {
 
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
-    : buffer_{buffer_size} {
+    : file_{nullptr},
+      mode_{mode},
+      buffer_{buffer_size},
+      next_{0},
+      end_buffer_{0},
+      nb_bytes_read_{0},
+      opened_{false} {
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
@@ -101,10 +107,6 @@ inline File::File(const il::String& filename, il::FileMode mode,
   }
 #endif
 
-  mode_ = mode;
-  next_ = 0;
-  end_buffer_ = 0;
-  nb_bytes_read_ = 0;
   opened_ = true;
   status.SetOk();
 }
-- 
2.43.0


From 423af360b5cdc14ad4cc4c78d389ccfadc137404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 094/178] fix: File::Read lost the beginning of a read that
 goes over the end of the buffer, and always failed without buffer

---
 il/io/File.h | 49 ++++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index 5284c98..f5b0285 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -154,45 +154,32 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
   const il::int_t nb_bytes_to_read =
       nb_objects * static_cast<il::int_t>(nb_bytes) - nb_bytes_from_buffer;
   if (nb_bytes_to_read > 0) {
+    unsigned char* const rest =
+        static_cast<unsigned char*>(p) + nb_bytes_from_buffer;
     if (nb_bytes_to_read > buffer_.size()) {
       // On the Windows platform (tested with Visual Studio 2015), reading 1
-      // element of n bytes is faster than reading n elements of 1 byte. As a
-      // consequence, I we try to do that first and if we fail because we are at
-      // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      // element of n bytes is faster than reading n elements of 1 byte.
+      const std::size_t nb_read = std::fread(
+          rest, static_cast<std::size_t>(nb_bytes_to_read), 1, file_);
+      if (nb_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
     } else {
-      // Here, if we try to read a full line of buffer. The cursor position has
-      // to be saved because if fread fails, its position is undefined.
-      const long previous_position = std::ftell(file_);
-      const std::size_t full_buffer_read = std::fread(
-          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
-      if (full_buffer_read == 1) {
-        std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
-                    buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-        next_ = nb_bytes_to_read;
-        end_buffer_ = buffer_.size();
-        nb_bytes_read_ += nb_bytes_to_read;
-      } else {
-        const int error = std::fseek(file_, previous_position, SEEK_SET);
-        IL_EXPECT_MEDIUM(error == 0);
-        next_ = 0;
-        end_buffer_ = 0;
-        const std::size_t chunk_read =
-            std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
-                       nb_bytes_to_read, 1, file_);
-        nb_bytes_read_ += nb_bytes_to_read;
-        if (chunk_read != 1) {
-          status.SetError(il::Error::FilesystemFileNotLongEnough);
-          return;
-        }
+      // We fill the buffer, with less bytes if the end of the file is reached.
+      next_ = 0;
+      end_buffer_ = static_cast<il::int_t>(
+          std::fread(buffer_.Data(), 1,
+                     static_cast<std::size_t>(buffer_.size()), file_));
+      if (end_buffer_ < nb_bytes_to_read || std::ferror(file_)) {
+        status.SetError(il::Error::FilesystemFileNotLongEnough);
+        return;
       }
+      std::memcpy(rest, buffer_.data(),
+                  static_cast<std::size_t>(nb_bytes_to_read));
+      next_ = nb_bytes_to_read;
     }
+    nb_bytes_read_ += nb_bytes_to_read;
   }
 
   status.SetOk();
-- 
2.43.0


From 6739be80558af02154aa34146a5c492c4c34275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 095/178] fix: a File whose close failed was still considered
 as opened

---
 il/io/File.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index f5b0285..2f82ea7 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -229,13 +229,15 @@ inline void File::Write(const void* p, il::int_t nb_objects,
 inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
+  // Whatever fclose returns, the file must not be used anymore.
   const int error = std::fclose(file_);
+  file_ = nullptr;
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From 623cc28eab2bc422ba14ec7bd62771435c6646ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 096/178] fix: File::Skip went backward for a number of bytes
 that does not fit in il::int_t

---
 il/io/File.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 2f82ea7..46cccf5 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -188,7 +188,11 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
 inline void File::Skip(std::size_t nb_bytes, il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
-  const il::int_t n = static_cast<std::size_t>(nb_bytes);
+  const il::int_t n = static_cast<il::int_t>(nb_bytes);
+  if (n < 0) {
+    status.SetError(il::Error::FilesystemFileNotLongEnough);
+    return;
+  }
   const il::int_t nb_bytes_from_buffer = il::min(end_buffer_ - next_, n);
   next_ += nb_bytes_from_buffer;
   nb_bytes_read_ += nb_bytes_from_buffer;
-- 
2.43.0


From aa8d3baf6e394ae537d998efc75d31ab4879c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 097/178] fix: il/Cg.h could not be included in several files,
 and il/Gmres.h did not include what it uses

---
 il/linearAlgebra/matrixFree/solver/Cg.h    | 31 ++++++++++++----------
 il/linearAlgebra/matrixFree/solver/Gmres.h |  4 +++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..06acfac 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -19,7 +19,10 @@
 #ifndef IL_CG_H
 #define IL_CG_H
 
+#include <cmath>
+
 #include <il/Array.h>
+#include <il/ArrayView.h>
 #include <il/StaticArray.h>
 #include <il/Status.h>
 
@@ -90,7 +93,7 @@ class Cg<double> {
   il::int_t maxNbIterations() const;
 };
 
-Cg<double>::Cg(const il::FunctorArray<double>& A) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
   il::int_t n = A.size(0);
@@ -108,7 +111,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A) {
   nb_iterations_ = -1;
 }
 
-Cg<double>::Cg(const il::FunctorArray<double>& A,
+inline Cg<double>::Cg(const il::FunctorArray<double>& A,
                const il::FunctorArray<double>& B) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(B.size(0) == B.size(1));
@@ -129,7 +132,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A,
   nb_iterations_ = -1;
 }
 
-il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
+inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                                     il::Status& status) {
   IL_EXPECT_FAST(y.size() == n_);
 
@@ -207,7 +210,7 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   return x;
 }
 
-void Cg<double>::SetToSolve(il::ArrayView<double> y) {
+inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
@@ -298,7 +301,7 @@ void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_ENSURE(rci_request_ == 0);
 }
 
-void Cg<double>::Next() {
+inline void Cg<double>::Next() {
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -341,39 +344,39 @@ void Cg<double>::Next() {
   }
 }
 
-double Cg<double>::trueResidualNorm() const { return norm_residual_; }
+inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 
-il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
+inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
-void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
 }
 
-void Cg<double>::SetRelativePrecision(double relative_precision) {
+inline void Cg<double>::SetRelativePrecision(double relative_precision) {
   IL_EXPECT_MEDIUM(relative_precision >= 0.0);
 
   relative_precision_ = relative_precision;
 }
 
-void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
+inline void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
   IL_EXPECT_MEDIUM(absolute_precision >= 0.0);
 
   absolute_precision_ = absolute_precision;
 }
 
-void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+inline void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
   IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
 
   max_nb_iterations_ = max_nb_iterations;
 }
 
-double Cg<double>::relativePrecision() const { return relative_precision_; }
+inline double Cg<double>::relativePrecision() const { return relative_precision_; }
 
-double Cg<double>::absolutePrecision() const { return absolute_precision_; }
+inline double Cg<double>::absolutePrecision() const { return absolute_precision_; }
 
-il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
+inline il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
 
 }  // namespace il
 
diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..1485e1f 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -19,8 +19,12 @@
 #ifndef IL_GMRES_H
 #define IL_GMRES_H
 
+#include <cmath>
+
+#include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
+#include <il/Status.h>
 
 #include "mkl_blas.h"
 #include "mkl_rci.h"
-- 
2.43.0


From 5c8c78183a0900f890e8f530667b91840855c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 098/178] fix: Cg::Solve stopped the process when the algorithm
 breaks down, and could report success over a wrong solution

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 43 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 06acfac..59b60fe 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -151,17 +151,17 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
             tmp_.Data());
   IL_ENSURE(rci_request_ == 0);
 
+  const MKL_INT integer_one = 1;
+  const double minus_one = -1.0;
+  const double threshold =
+      relative_precision_ * dnrm2(&n_, y.data(), &integer_one) +
+      absolute_precision_;
   bool stop_loop = false;
-  bool max_nb_iterations_reached = false;
   bool has_converged = false;
   while (!stop_loop) {
     dcg(&n_, x.Data(), y.data(), &rci_request_, ipar_.Data(), dpar_.Data(),
         tmp_.Data());
     switch (rci_request_) {
-      case 0: {
-        // In this case, the solution was found with the required precision
-        IL_UNREACHABLE;
-      } break;
       case 1: {
         // In this case, we should compute the vector A.tmp_[0] and put it in
         // A.tmp_[n_]
@@ -172,20 +172,25 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
       case 2: {
         // In this case, we should do the user defined stopping test
         MKL_INT nb_iterations;
-        dcg_get(&n_, x_.data(), y_.data(), &rci_request_, ipar_.data(),
+        dcg_get(&n_, x.data(), y.data(), &rci_request_, ipar_.data(),
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        double norm_residual = std::sqrt(dpar_[4]);
-        if (norm_residual <=
-            relative_precision_ * std::sqrt(dpar_[2]) + absolute_precision_) {
-          norm_residual_ = norm_residual;
-          has_converged = true;
-          stop_loop = true;
-        } else if (nb_iterations_ == max_nb_iterations_) {
-          max_nb_iterations_reached = true;
-          stop_loop = true;
+        // tmp_[2 * n_] contains the current residual. It is updated from one
+        // iteration to the next one. Before it is trusted, it has to be checked
+        // with the residual of x.
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
+        if (norm_residual_ <= threshold) {
+          il::ArrayEdit<double> residual = tmp2_.Edit();
+          (*A_)(x.view(), il::io, residual);
+          daxpy(&n_, &minus_one, y.data(), &integer_one, residual.Data(),
+                &integer_one);
+          norm_residual_ = dnrm2(&n_, residual.data(), &integer_one);
+          has_converged = std::isfinite(norm_residual_) &&
+                          norm_residual_ <= threshold &&
+                          std::isfinite(dnrm2(&n_, x.data(), &integer_one));
         }
+        stop_loop = has_converged || nb_iterations_ >= max_nb_iterations_;
       } break;
       case 3: {
         // Apply the preconditionner on tmp_[2 * n_] and store it in
@@ -194,14 +199,14 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
         il::ArrayEdit<double> v{tmp_.Data() + 3 * n_, n_};
         (*B_)(u, il::io, v);
       } break;
-      case -1: {
-        IL_UNREACHABLE;
+      default: {
+        // The algorithm has broken down
+        stop_loop = true;
       } break;
-      default: { IL_UNREACHABLE; } break;
     }
   }
 
-  if (!max_nb_iterations_reached) {
+  if (has_converged) {
     status.SetOk();
   } else {
     status.SetError(il::Error::Undefined);
-- 
2.43.0


From 5bbb1bbac7ff0d524cf979c2c3c23cfce8899ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 099/178] fix: Cg::Next stopped the process, or never returned,
 when the algorithm breaks down, and gave a wrong norm with a preconditioner

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 59b60fe..e970bd4 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -332,7 +332,10 @@ inline void Cg<double>::Next() {
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        norm_residual_ = std::sqrt(dpar_[4]);
+        // tmp_[2 * n_] contains the current residual. With a preconditioner,
+        // dpar_[4] is not the square of its norm.
+        const MKL_INT integer_one = 1;
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
         if (nb_iterations_ == initial_nb_iterations + 1) {
           stop_loop = true;
         }
@@ -344,7 +347,10 @@ inline void Cg<double>::Next() {
         il::ArrayEdit<double> v{tmp_.Data() + 3 * n_, n_};
         (*B_)(u, il::io, v);
       } break;
-      default: { IL_ENSURE(false); } break;
+      default: {
+        // The algorithm has broken down
+        stop_loop = true;
+      } break;
     }
   }
 }
-- 
2.43.0


From 00921beb1b1ecfe39155cd659adda51d5f7eb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 100/178] fix: Gmres::Solve reported success whatever it found,
 and stopped the process when the algorithm breaks down

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 38 +++++++++++++++++-----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 1485e1f..4229ff7 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -370,7 +370,10 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
 
   dfgmres_init(&n_, x.data(), yloc_.data(), &RCI_request_, ipar_.Data(),
                dpar_.Data(), tmp_.Data());
-  IL_EXPECT_FAST(RCI_request_ == 0);
+  if (RCI_request_ != 0) {
+    status.SetError(il::Error::Undefined);
+    return;
+  }
 
   // ipar_[0]: The size of the matrix
   // ipar_[1]: The default value is 6 and specifies that the errors are reported
@@ -421,17 +424,19 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
 
   dfgmres_check(&n_, x.data(), yloc_.data(), &RCI_request_, ipar_.Data(),
                 dpar_.Data(), tmp_.Data());
-  IL_EXPECT_FAST(RCI_request_ == 0);
+  if (RCI_request_ != 0) {
+    status.SetError(il::Error::Undefined);
+    return;
+  }
   bool stop_iteration = false;
-  double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
+  const double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   while (!stop_iteration) {
     // The beginning of the iteration
     dfgmres(&n_, x.Data(), yloc_.Data(), &RCI_request_, ipar_.Data(),
             dpar_.Data(), tmp_.Data());
     switch (RCI_request_) {
       case 0:
-        // In that case, the solution has been found with the right precision.
-        // This occurs only if the stopping test is fully automatic.
+        // In that case, the maximum number of iterations has been reached.
         stop_iteration = true;
         break;
       case 1: {
@@ -465,7 +470,6 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               &one_int);
         // This number plays a critical role in the precision of the method
         double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
-        double error_ratio = norm_residual / y_norm;
         if (norm_residual <= relative_precision * y_norm) {
           stop_iteration = true;
         }
@@ -493,7 +497,8 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         }
         break;
       default:
-        IL_EXPECT_FAST(false);
+        // The algorithm has broken down
+        stop_iteration = true;
         break;
     }
   }
@@ -502,7 +507,24 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+
+  // There are many reasons to stop. In any case, the solution is found if and
+  // only if its residual is small enough.
+  il::ArrayView<double> solution{x.data(), n_};
+  il::ArrayEdit<double> residual = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    residual[i] = 0.0;
+  }
+  (*m_)(solution, il::io, residual);
+  daxpy(&n_, &minus_one_double, y.data(), &one_int, residual.Data(), &one_int);
+  norm_residual_ = dnrm2(&n_, residual.data(), &one_int);
+  if (std::isfinite(norm_residual_) &&
+      norm_residual_ <= relative_precision * y_norm &&
+      std::isfinite(dnrm2(&n_, x.data(), &one_int))) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From f3d48bed8c34e3ec36ac6b03f9484aa3059337b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 101/178] fix: the maximum number of iterations of a
 preconditioned Gmres was not initialized

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 4229ff7..61420d4 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -135,6 +135,7 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From c376606746082646c3101e84a6d96f4e091d0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 102/178] fix: Gmres::Next stopped the process, or never
 returned, when the algorithm breaks down

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 61420d4..d3b9d60 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -326,7 +326,8 @@ void Gmres<T>::Next() {
         }
         break;
       default:
-        IL_EXPECT_FAST(false);
+        // The algorithm has broken down
+        stop_iteration = true;
         break;
     }
   }
-- 
2.43.0


From 383b5a536ea7ef1a690c000424ff6e88eb012d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 103/178] fix: Gmres::getSolution forgot what was found before
 the last restart

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index d3b9d60..b4c83b0 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -341,7 +341,7 @@ void Gmres<T>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = 0.0;
   }
-  dfgmres_get(&n_, x.Data(), x.Data(), &RCI_request_, ipar_.data(),
+  dfgmres_get(&n_, x_.Data(), x.Data(), &RCI_request_, ipar_.data(),
               dpar_.data(), tmp_.Data(), &itercount);
 }
 
-- 
2.43.0


From f536ce106c6a67ab81a78359974f8e186d9bf553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 104/178] fix: min, max and maxAbs of an array rounded the
 values they compare to integers

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From b88abafa180081fc0aea7ddfa021db7b006ecf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 105/178] fix: minMax of a range read the element after the
 range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..f24b52d 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From cf01b47e69ec1c515afbc3d287f572e65a10cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 106/178] fix: the depth of the recursion of sort was the
 number of elements at worst

---
 il/algorithm/algorithmArray.h | 110 ++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 51 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index f24b52d..ee46ee2 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -244,66 +244,74 @@ MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
 
 template <typename T>
 void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
-  if (range.end - range.begin <= 1) {
-    return;
-  } else if (range.end - range.begin <= 15) {
-    for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-      il::int_t j = i;
-      while (j > 0 && v[j - 1] > v[j]) {
-        const T aux = v[j];
-        v[j] = v[j - 1];
-        v[j - 1] = aux;
-        --j;
+  while (true) {
+    if (range.end - range.begin <= 1) {
+      return;
+    } else if (range.end - range.begin <= 15) {
+      for (il::int_t i = range.begin + 1; i < range.end; ++i) {
+        il::int_t j = i;
+        while (j > 0 && v[j - 1] > v[j]) {
+          const T aux = v[j];
+          v[j] = v[j - 1];
+          v[j - 1] = aux;
+          --j;
+        }
       }
+      return;
     }
-    return;
-  }
-  // choose the pivot using the median rule
-  const il::int_t i_begin = range.begin;
-  const il::int_t i_end = range.end - 1;
-  const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
-  il::int_t pivot;
-  if (v[i_begin] < v[i_end]) {
-    if (v[i_middle] < v[i_begin]) {
-      pivot = i_begin;
+    // choose the pivot using the median rule
+    const il::int_t i_begin = range.begin;
+    const il::int_t i_end = range.end - 1;
+    const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
+    il::int_t pivot;
+    if (v[i_begin] < v[i_end]) {
+      if (v[i_middle] < v[i_begin]) {
+        pivot = i_begin;
+      } else {
+        pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
+      }
     } else {
-      pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
+      if (v[i_middle] < v[i_end]) {
+        pivot = i_end;
+      } else {
+        pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
+      }
     }
-  } else {
-    if (v[i_middle] < v[i_end]) {
+    // swap the pivot and the last element so that the pivot is at the end
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[pivot];
+      v[pivot] = aux;
       pivot = i_end;
-    } else {
-      pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
     }
-  }
-  // swap the pivot and the last element so that the pivot is at the end
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[pivot];
-    v[pivot] = aux;
-    pivot = i_end;
-  }
-  // Partition into 2 parts
-  const T value_pivot = v[pivot];
-  il::int_t j = range.begin;
-  for (il::int_t i = range.begin; i < range.end - 1; ++i) {
-    if (v[i] < value_pivot) {
-      // Swap v[j] and v[i]
-      const T aux = v[i];
-      v[i] = v[j];
+    // Partition into 2 parts
+    const T value_pivot = v[pivot];
+    il::int_t j = range.begin;
+    for (il::int_t i = range.begin; i < range.end - 1; ++i) {
+      if (v[i] < value_pivot) {
+        // Swap v[j] and v[i]
+        const T aux = v[i];
+        v[i] = v[j];
+        v[j] = aux;
+        ++j;
+      }
+    }
+    // Swap the element j and the last element so the pivot is in place
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[j];
       v[j] = aux;
-      ++j;
+    }
+    // Recursively sort the smallest of the 2 other parts, which bounds the
+    // depth of the recursion, and go on with the largest one
+    if (j - range.begin < range.end - (j + 1)) {
+      sort_aux(il::Range{range.begin, j}, il::io, v);
+      range.begin = j + 1;
+    } else {
+      sort_aux(il::Range{j + 1, range.end}, il::io, v);
+      range.end = j;
     }
   }
-  // Swap the element j and the last element so the pivot is in place
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[j];
-    v[j] = aux;
-  }
-  // Recursively sort the 2 other parts
-  sort_aux(il::Range{range.begin, j}, il::io, v);
-  sort_aux(il::Range{j + 1, range.end}, il::io, v);
 }
 
 template <typename T>
-- 
2.43.0


From bb7891cf8cd7074501b927edc1358d76d522d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 107/178] fix: maxAbs of a range skipped large negative
 elements

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index ee46ee2..367fd65 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From ec2e0fc9f3a8093d797ec6099afb5072963a4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 108/178] fix: the product of a row-major matrix of doubles
 stopped on Dot::Star

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..afc4007 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -547,6 +547,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From e3901c468b5d9d7019cf41dbb2d2e02c5ad92096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 109/178] fix: the sizes of the product of two transposed
 matrices were not checked

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index afc4007..91a09f5 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -678,6 +678,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -731,6 +735,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -786,6 +794,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -856,6 +868,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -924,6 +940,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -977,6 +997,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1032,6 +1056,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1102,6 +1130,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From 89f12bf8c64768c5f63f1d686f10a593ad367a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 110/178] fix: products of matrices without rows or columns
 left their result undefined

---
 il/linearAlgebra/dense/blas/blas.h | 135 ++++++++++++++++++++++-------
 1 file changed, 103 insertions(+), 32 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 91a09f5..4214b4e 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,21 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// BLAS wants a leading dimension that is at least 1, even for a matrix without
+// any element
+inline IL_CBLAS_INT blas_leading_dimension(il::int_t stride) {
+  return stride > 0 ? static_cast<IL_CBLAS_INT>(stride) : 1;
+}
+
+// y = beta * y, where y is not read when beta is zero. BLAS does nothing when
+// it is asked for the product of a matrix without any column.
+template <typename T>
+inline void blas_scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = beta == T{0} ? T{0} : beta * y[i];
+  }
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -362,13 +377,17 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -397,13 +416,17 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -434,13 +457,17 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -477,13 +504,17 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -519,13 +550,17 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -554,13 +589,17 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -591,13 +630,17 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -634,13 +677,17 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -683,6 +730,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -695,9 +745,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -740,6 +790,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -752,9 +805,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -799,6 +852,9 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -811,9 +867,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -873,6 +929,9 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -885,9 +944,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -945,6 +1004,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -957,9 +1019,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1002,6 +1064,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1014,9 +1079,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1061,6 +1126,9 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1073,9 +1141,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -1135,6 +1203,9 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1147,9 +1218,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
-- 
2.43.0


From 56a33d21cfd6d0fcf1d5307eb1908ecad101f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 111/178] fix: the norm of a tridiagonal matrix of order 0 or 1
 used elements outside of it

---
 il/linearAlgebra/dense/norm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..fc9e936 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -149,11 +149,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
   switch (norm_type) {
     case Norm::Linf: {
       il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      for (il::int_t i = 0; i < n; ++i) {
+        sum_row[i] = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From 301088b4975d969ec352d6a41e5ed5bc97d0c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 112/178] fix: view and Edit of a matrix without rows or
 columns stopped the program

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..5497ad6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..2a0c95f 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From 508118b761421e4dc9e861ad38f8c45637638659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:30 +0000
Subject: [PATCH 113/178] fix: the Edit of a part of an Array2CEdit gave other
 elements

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index 5497ad6..c0cec91 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From ba70ea7de35d650d1dc9b8ea48b3bac9fcb6b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 114/178] fix: linearSolve of a band matrix solved another
 system, or failed

---
 .../dense/factorization/linearSolve.h         | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..0d8f47f 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -93,20 +93,37 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
                                      il::Status &status) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(y.size() == A.size(1));
-  IL_EXPECT_FAST(A.capacityRight() >= A.widthLeft() + A.widthRight());
 
-  il::Array<lapack_int> ipiv{A.size(1)};
+  const il::int_t size = A.size(1);
+  const il::int_t width_left =
+      (A.widthLeft() < size) ? A.widthLeft() : ((size > 0) ? size - 1 : 0);
+  const il::int_t width_right =
+      (A.widthRight() < size) ? A.widthRight() : ((size > 0) ? size - 1 : 0);
+
+  // The band storage of Lapack: the column j of "band" contains the elements
+  // of the column j of A, the diagonal is on the row width_left + width_right,
+  // and the first width_left rows are needed for the factorization.
+  const il::int_t diagonal = width_left + width_right;
+  il::Array2D<double> band{diagonal + width_left + 1, size, 0.0};
+  for (il::int_t i = 0; i < size; ++i) {
+    const il::int_t j_begin = (i > width_left) ? i - width_left : 0;
+    const il::int_t j_end =
+        (i + width_right < size) ? i + width_right + 1 : size;
+    for (il::int_t j = j_begin; j < j_end; ++j) {
+      band(diagonal + i - j, j) = A(i, j - i);
+    }
+  }
+  il::Array<lapack_int> ipiv{size};
 
-  const int layout{LAPACK_ROW_MAJOR};
-  const lapack_int n{static_cast<lapack_int>(A.size(1))};
-  const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
-  const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
+  const int layout{LAPACK_COL_MAJOR};
+  const lapack_int n{static_cast<lapack_int>(size)};
+  const lapack_int kl{static_cast<lapack_int>(width_left)};
+  const lapack_int ku{static_cast<lapack_int>(width_right)};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+  const lapack_int ldab{static_cast<lapack_int>(band.stride(1))};
+  const lapack_int ldb{(n > 0) ? n : 1};
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, band.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 86683aeca8723ed33ba9c075c4f6f5c8b2583f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 115/178] fix: LU::solve used the wrong leading dimensions with
 a matrix that has a capacity larger than its size

---
 il/linearAlgebra/dense/factorization/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..3d42cf7 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -244,7 +244,7 @@ inline il::Array<double> LU<il::Array2D<double>>::solve(
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +263,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From e8c837d2f94c7b4811654c144427217a1d0e7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 116/178] fix: LU::determinant ignored the sign of the
 permutation

---
 il/linearAlgebra/dense/factorization/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 3d42cf7..a770f3d 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -290,7 +290,7 @@ inline double LU<il::Array2D<double>>::determinant() const {
 
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
-    det *= lu_(i, i);
+    det *= (ipiv_[i] == i + 1) ? lu_(i, i) : -lu_(i, i);
   }
 
   return det;
-- 
2.43.0


From 0c503a0a85d2864d910faec6a4a37194402bec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 117/178] fix: memory that Lapack could not have was ignored,
 or reported as a singular matrix

---
 il/linearAlgebra/dense/factorization/Eigen.h  |  3 ++
 il/linearAlgebra/dense/factorization/LU.h     |  5 +++
 .../dense/factorization/Singular.h            |  5 +++
 .../dense/factorization/lapackMemory.h        | 45 +++++++++++++++++++
 .../dense/factorization/linearSolve.h         |  5 +++
 .../dense/factorization/qrDecomposition.h     |  3 ++
 6 files changed, 66 insertions(+)
 create mode 100644 il/linearAlgebra/dense/factorization/lapackMemory.h

diff --git a/il/linearAlgebra/dense/factorization/Eigen.h b/il/linearAlgebra/dense/factorization/Eigen.h
index 635a41e..03dc969 100644
--- a/il/linearAlgebra/dense/factorization/Eigen.h
+++ b/il/linearAlgebra/dense/factorization/Eigen.h
@@ -24,6 +24,7 @@
 #include <il/Status.h>
 #include <il/container/1d/Array.h>
 #include <il/container/2d/Array2D.h>
+#include <il/linearAlgebra/dense/factorization/lapackMemory.h>
 #include <il/linearAlgebra/dense/norm.h>
 
 #ifdef IL_MKL
@@ -68,6 +69,7 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   il::Array<double> tau{n > 1 ? (n - 1) : 1};
   lapack_int lapack_error =
       LAPACKE_dgehrd(layout, n, ilo, ihi, A.Data(), lda, tau.Data());
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 
   const char job = 'E';
@@ -79,6 +81,7 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   il::Array<double> wi{n};
   lapack_error = LAPACKE_dhseqr(layout, job, compz, n, ilo, ihi, A.Data(), lda,
                                 wr.Data(), wi.Data(), z.Data(), ldz);
+  il::checkLapackMemory(lapack_error);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index a770f3d..4094e5c 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -27,6 +27,7 @@
 #include <il/container/2d/StaticArray2D.h>
 #include <il/container/2d/UpperArray2D.h>
 #include <il/linearAlgebra/dense/norm.h>
+#include <il/linearAlgebra/dense/factorization/lapackMemory.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -116,6 +117,7 @@ il::StaticArray2D<double, n, n> LU<il::StaticArray2D<double, n, n>>::inverse()
   const lapack_int lapack_n = static_cast<lapack_int>(n);
   const lapack_int lapack_error =
       LAPACKE_dgetri(layout, lapack_n, inverse.Data(), lapack_n, ipiv_.data());
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return inverse;
@@ -156,6 +158,7 @@ LU<il::StaticArray2D<std::complex<double>, n, n>>::inverse() const {
       LAPACKE_zgetri(layout, lapack_n,
                      reinterpret_cast<lapack_complex_double *>(inverse.Data()),
                      lapack_n, ipiv_.data());
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return inverse;
@@ -280,6 +283,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::inverse() const {
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
   const lapack_int lapack_error =
       LAPACKE_dgetri(layout, n, inverse.Data(), lda, ipiv_.data());
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return inverse;
@@ -308,6 +312,7 @@ inline double LU<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
   double rcond;
   const lapack_int lapack_error =
       LAPACKE_dgecon(layout, lapack_norm, n, lu_.data(), lda, norm_a, &rcond);
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return 1.0 / rcond;
diff --git a/il/linearAlgebra/dense/factorization/Singular.h b/il/linearAlgebra/dense/factorization/Singular.h
index ede71e8..1771b77 100644
--- a/il/linearAlgebra/dense/factorization/Singular.h
+++ b/il/linearAlgebra/dense/factorization/Singular.h
@@ -26,6 +26,7 @@
 #include <il/container/1d/StaticArray.h>
 #include <il/container/2d/Array2D.h>
 #include <il/container/2d/StaticArray2D.h>
+#include <il/linearAlgebra/dense/factorization/lapackMemory.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -49,6 +50,7 @@ il::StaticArray<double, n> singularValues(il::StaticArray2D<double, n, n> A,
   const lapack_int lapack_error_0 =
       LAPACKE_dgebrd(layout, lapack_n, lapack_n, A.Data(), lapack_n, d.Data(),
                      e.Data(), tauq.Data(), taup.Data());
+  il::checkLapackMemory(lapack_error_0);
   IL_EXPECT_FAST(lapack_error_0 >= 0);
 
   const char uplo = 'U';
@@ -64,6 +66,7 @@ il::StaticArray<double, n> singularValues(il::StaticArray2D<double, n, n> A,
   const lapack_int lapack_error_1 =
       LAPACKE_dbdsqr(layout, uplo, lapack_n, ncvt, nru, ncc, d.Data(), e.Data(),
                      vt.Data(), ldvt, u.Data(), ldu, c.Data(), ldc);
+  il::checkLapackMemory(lapack_error_1);
   IL_EXPECT_FAST(lapack_error_1 >= 0);
 
   if (lapack_error_0 == 0 && lapack_error_1 == 0) {
@@ -91,6 +94,7 @@ il::StaticArray<double, n> singularValues(
       reinterpret_cast<lapack_complex_double *>(A.Data()), lapack_n, d.Data(),
       e.Data(), reinterpret_cast<lapack_complex_double *>(tauq.Data()),
       reinterpret_cast<lapack_complex_double *>(taup.Data()));
+  il::checkLapackMemory(lapack_error_0);
   IL_EXPECT_FAST(lapack_error_0 >= 0);
 
   const char uplo = 'U';
@@ -108,6 +112,7 @@ il::StaticArray<double, n> singularValues(
                      reinterpret_cast<lapack_complex_double *>(vt.Data()), ldvt,
                      reinterpret_cast<lapack_complex_double *>(u.Data()), ldu,
                      reinterpret_cast<lapack_complex_double *>(c.Data()), ldc);
+  il::checkLapackMemory(lapack_error_1);
   IL_EXPECT_FAST(lapack_error_1 >= 0);
 
   if (lapack_error_0 == 0 && lapack_error_1 == 0) {
diff --git a/il/linearAlgebra/dense/factorization/lapackMemory.h b/il/linearAlgebra/dense/factorization/lapackMemory.h
new file mode 100644
index 0000000..daad516
--- /dev/null
+++ b/il/linearAlgebra/dense/factorization/lapackMemory.h
@@ -0,0 +1,45 @@
+//==============================================================================
+//
+// Copyright 2018 The InsideLoop Authors. All Rights Reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+//
+//==============================================================================
+
+#ifndef IL_LAPACK_MEMORY_H
+#define IL_LAPACK_MEMORY_H
+
+#include <il/core.h>
+
+#ifdef IL_MKL
+#include <mkl_lapacke.h>
+#elif IL_OPENBLAS
+#include <OpenBLAS/lapacke.h>
+#endif
+
+namespace il {
+
+#if defined(IL_MKL) || defined(IL_OPENBLAS)
+// Lapacke allocates its workspace, and gives back one of these errors when the
+// memory is not available. As with any other allocation, the program stops.
+inline void checkLapackMemory(lapack_int lapack_error) {
+  if (lapack_error == LAPACK_WORK_MEMORY_ERROR ||
+      lapack_error == LAPACK_TRANSPOSE_MEMORY_ERROR) {
+    il::abort();
+  }
+}
+#endif
+
+}  // namespace il
+
+#endif  // IL_LAPACK_MEMORY_H
diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index 0d8f47f..86f2cfc 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -26,6 +26,7 @@
 #include <il/Array2D.h>
 #include <il/BandArray2C.h>
 #include <il/TriDiagonal.h>
+#include <il/linearAlgebra/dense/factorization/lapackMemory.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -50,6 +51,7 @@ inline il::Array<double> linearSolve(il::Array2D<double> A, il::Array<double> y,
   const lapack_int ldx{n};
   const lapack_int lapack_error{LAPACKE_dgesv(layout, n, nrhs, A.Data(), lda,
                                               ipiv.Data(), y.Data(), ldx)};
+  il::checkLapackMemory(lapack_error);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
@@ -76,6 +78,7 @@ inline il::Array<double> linearSolve(il::Array2C<double> A, il::Array<double> y,
   const lapack_int ldx = 1;
   const lapack_int lapack_error{LAPACKE_dgesv(layout, n, nrhs, A.Data(), lda,
                                               ipiv.Data(), y.Data(), ldx)};
+  il::checkLapackMemory(lapack_error);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
@@ -124,6 +127,7 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
   const lapack_int ldb{(n > 0) ? n : 1};
   const lapack_int lapack_error{LAPACKE_dgbsv(
       layout, n, kl, ku, nrhs, band.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+  il::checkLapackMemory(lapack_error);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
@@ -149,6 +153,7 @@ inline il::Array<double> linearSolve(il::TriDiagonal<double> A,
   const lapack_int lapack_error{LAPACKE_dgtsv(layout, n, nrhs, A.LowerData(),
                                               A.DiagonalData(), A.UpperData(),
                                               y.Data(), ldb)};
+  il::checkLapackMemory(lapack_error);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..84a449b 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -24,6 +24,7 @@
 #include <il/Array2CView.h>
 #include <il/Array2DView.h>
 #include <il/ArrayView.h>
+#include <il/linearAlgebra/dense/factorization/lapackMemory.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -43,6 +44,7 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   const lapack_int lapack_error =
       LAPACKE_dgeqrf(layout, m, n, A.Data(), lda, tau.Data());
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
@@ -57,6 +59,7 @@ void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
   const lapack_int lapack_error = LAPACKE_zgeqrf(
       layout, m, n, reinterpret_cast<lapack_complex_double*>(A.Data()), lda,
       reinterpret_cast<lapack_complex_double*>(tau.Data()));
+  il::checkLapackMemory(lapack_error);
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-- 
2.43.0


From 96e08605272c223dc93fc4f5130cc1a102ac4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 118/178] fix: a SparseMatrixCSR of size 0 could not be made
 from its positions

---
 il/container/2d/SparseMatrixCSR.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..a6687d2 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -144,7 +144,8 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row =
+      n > 0 ? il::max(nb_entries_per_row) : static_cast<Index>(0);
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 423cff232e1f197d2d0fd6035cbc210dd0bba228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 119/178] fix: SparseMatrixCSR accepted positions and indices
 out of the matrix

---
 il/container/2d/SparseMatrixCSR.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index a6687d2..8848f39 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -83,6 +83,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
       column_{std::move(column)},
       row_{std::move(row)} {
   IL_EXPECT_FAST(row_.size() == height + 1);
+  IL_EXPECT_FAST(row_[height] == column_.size());
 }
 
 template <typename Index, typename T>
@@ -96,6 +97,8 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
       column_{std::move(column)},
       row_{std::move(row)} {
   IL_EXPECT_FAST(row_.size() == height + 1);
+  IL_EXPECT_FAST(row_[height] == column_.size());
+  IL_EXPECT_FAST(element_.size() == column_.size());
 }
 
 template <typename Index, typename T>
@@ -104,6 +107,8 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     il::int_t width, il::int_t height,
     const il::Array<il::SmallArray<Index, n>> &column)
     : n1_{width}, n0_{height}, element_{}, column_{}, row_{height + 1} {
+  IL_EXPECT_FAST(column.size() == height);
+
   Index nb_nonzero = 0;
   for (Index i = 0; i < column.size(); ++i) {
     nb_nonzero += column[i].size();
@@ -142,6 +147,8 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   //  maximum number of entry in a row.
   il::Array<Index> nb_entries_per_row{n, 0};
   for (Index l = 0; l < nb_entries; ++l) {
+    IL_EXPECT_FAST(static_cast<std::size_t>(position[l][1]) <
+                   static_cast<std::size_t>(n));
     ++nb_entries_per_row[position[l][0]];
   }
   const Index max_entries_per_row =
@@ -253,16 +260,16 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
-- 
2.43.0


From 8b65235c978b0755045c063275c6376ff5d81ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 120/178] fix: SparseMatrixCSR could not be made from elements
 that are not double

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 8848f39..7a86e20 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -43,7 +43,7 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
-                  il::Array<Index> row, il::Array<double> element);
+                  il::Array<Index> row, il::Array<T> element);
   template <Index n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
@@ -90,7 +90,7 @@ template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
                                            il::Array<Index> row,
-                                           il::Array<double> element)
+                                           il::Array<T> element)
     : n0_{height},
       n1_{width},
       element_{std::move(element)},
-- 
2.43.0


From c1f0e99f8fcb4b020ace7ad90a237916640ba859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 121/178] fix: a moved-from SparseMatrixCSR kept its size
 without its elements

---
 il/container/2d/SparseMatrixCSR.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 7a86e20..6b6e30b 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -50,6 +50,11 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t n,
                   const il::Array<il::StaticArray<Index, 2>> &position,
                   il::io_t, il::Array<Index> &index);
+  SparseMatrixCSR(const il::SparseMatrixCSR<Index, T> &A) = default;
+  SparseMatrixCSR(il::SparseMatrixCSR<Index, T> &&A);
+  il::SparseMatrixCSR<Index, T> &operator=(
+      const il::SparseMatrixCSR<Index, T> &A) = default;
+  il::SparseMatrixCSR<Index, T> &operator=(il::SparseMatrixCSR<Index, T> &&A);
   const T &operator[](il::int_t k) const;
   T &operator[](il::int_t k);
   const T &operator()(il::int_t i, il::int_t k) const;
@@ -247,6 +252,32 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   }
 }
 
+template <typename Index, typename T>
+SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::SparseMatrixCSR<Index, T> &&A)
+    : n0_{A.n0_},
+      n1_{A.n1_},
+      element_{std::move(A.element_)},
+      column_{std::move(A.column_)},
+      row_{std::move(A.row_)} {
+  A.n0_ = 0;
+  A.n1_ = 0;
+}
+
+template <typename Index, typename T>
+il::SparseMatrixCSR<Index, T> &SparseMatrixCSR<Index, T>::operator=(
+    il::SparseMatrixCSR<Index, T> &&A) {
+  if (this != &A) {
+    n0_ = A.n0_;
+    n1_ = A.n1_;
+    element_ = std::move(A.element_);
+    column_ = std::move(A.column_);
+    row_ = std::move(A.row_);
+    A.n0_ = 0;
+    A.n1_ = 0;
+  }
+  return *this;
+}
+
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator[](il::int_t k) const {
   return element_[k];
-- 
2.43.0


From 2f085f875b28fd95c6a145d1e1d6bad0e75ceba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 122/178] fix: the norm of a SparseMatrixCSR checked its
 arguments against the wrong sizes

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 6b6e30b..9960754 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -364,8 +364,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From 2eb38243590f0522d5e1eb2cb44fd2e1cb612f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 123/178] fix: blas with a SparseMatrixCSR read the result when
 beta is 0

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 874cba9..9c26c90 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -32,26 +32,32 @@ namespace il {
 inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (int i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
     for (int k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = (beta == 0.0) ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
 inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (il::int_t i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
     for (il::int_t k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = (beta == 0.0) ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
-- 
2.43.0


From 9ab681985a2df6cf72ef8efbfa130c159db05c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 124/178] fix: SparseMatrixBlas did not compile

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..10304d4 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -44,10 +44,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -98,10 +98,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From c332a5098bf823630fa3fa04747069fb3bbfce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 125/178] fix: a copy of a SparseMatrixBlas destroyed the
 handle of the original

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 10304d4..4c6fb2d 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -33,6 +33,9 @@ class SparseMatrixBlas {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, T> &A);
+  SparseMatrixBlas(const il::SparseMatrixBlas<Index, T> &A) = delete;
+  il::SparseMatrixBlas<Index, T> &operator=(
+      const il::SparseMatrixBlas<Index, T> &A) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
@@ -87,6 +90,9 @@ class SparseMatrixBlas<Index, float> {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, float> &A);
+  SparseMatrixBlas(const il::SparseMatrixBlas<Index, float> &A) = delete;
+  il::SparseMatrixBlas<Index, float> &operator=(
+      const il::SparseMatrixBlas<Index, float> &A) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
-- 
2.43.0


From 528f32a3c8796f84d20dafba18658c8b54d7ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 126/178] fix: blas with a SparseMatrixBlas did not check the
 sizes of its vectors

---
 .../sparse/blas/SparseMatrixBlas.h            | 24 +++++++++++++++++++
 il/linearAlgebra/sparse/blas/sparseBlas.h     |  6 +++++
 2 files changed, 30 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 4c6fb2d..26b6d69 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -30,6 +30,8 @@ template <typename Index, typename T>
 class SparseMatrixBlas {
  private:
   sparse_matrix_t sparse_matrix_handle_;
+  il::int_t n0_;
+  il::int_t n1_;
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, T> &A);
@@ -39,11 +41,15 @@ class SparseMatrixBlas {
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
+  il::int_t size(il::int_t d) const;
 };
 
 template <typename Index, typename T>
 SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
                                              il::SparseMatrixCSR<Index, T> &A) {
+  n0_ = A.size(0);
+  n1_ = A.size(1);
+
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
@@ -81,12 +87,20 @@ sparse_matrix_t SparseMatrixBlas<Index, T>::handle() {
   return sparse_matrix_handle_;
 }
 
+template <typename Index, typename T>
+il::int_t SparseMatrixBlas<Index, T>::size(il::int_t d) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
+  return (d == 0) ? n0_ : n1_;
+}
+
 /////// For float
 
 template <typename Index>
 class SparseMatrixBlas<Index, float> {
  private:
   sparse_matrix_t sparse_matrix_handle_;
+  il::int_t n0_;
+  il::int_t n1_;
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, float> &A);
@@ -96,11 +110,15 @@ class SparseMatrixBlas<Index, float> {
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
+  il::int_t size(il::int_t d) const;
 };
 
 template <typename Index>
 SparseMatrixBlas<Index, float>::SparseMatrixBlas(
     il::io_t, il::SparseMatrixCSR<Index, float> &A) {
+  n0_ = A.size(0);
+  n1_ = A.size(1);
+
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
@@ -138,6 +156,12 @@ sparse_matrix_t SparseMatrixBlas<Index, float>::handle() {
   return sparse_matrix_handle_;
 }
 
+template <typename Index>
+il::int_t SparseMatrixBlas<Index, float>::size(il::int_t d) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
+  return (d == 0) ? n0_ : n1_;
+}
+
 }  // namespace il
 
 #endif  // IL_MKL
diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 9c26c90..036da22 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -94,6 +94,9 @@ inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
 inline void blas(float alpha, il::SparseMatrixBlas<int, float>& A_optimized,
                  const il::Array<float>& x, float beta, il::io_t,
                  il::Array<float>& y) {
+  IL_EXPECT_FAST(x.size() == A_optimized.size(1));
+  IL_EXPECT_FAST(y.size() == A_optimized.size(0));
+
   const sparse_operation_t operation = SPARSE_OPERATION_NON_TRANSPOSE;
   const sparse_matrix_t A = A_optimized.handle();
   matrix_descr descr;
@@ -107,6 +110,9 @@ inline void blas(float alpha, il::SparseMatrixBlas<int, float>& A_optimized,
 inline void blas(double alpha, il::SparseMatrixBlas<int, double>& A_optimized,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A_optimized.size(1));
+  IL_EXPECT_FAST(y.size() == A_optimized.size(0));
+
   const sparse_operation_t operation = SPARSE_OPERATION_NON_TRANSPOSE;
   const sparse_matrix_t A = A_optimized.handle();
   matrix_descr descr;
-- 
2.43.0


From 13a060aa320d70d657180e343ec670010c34ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 127/178] fix: the dot product of two SparseMatrixCSR did not
 compile

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index e14e4bd..b255234 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -50,16 +50,16 @@ inline il::SparseMatrixCSR<int, double> dot(
   il::Array<int> row{m + 1};
   MKL_INT request = 1;
 
-  int *A_row_data = A.rowData();
-  int *A_column_data = A.columnData();
+  int *A_row_data = A.RowData();
+  int *A_column_data = A.ColumnData();
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
   for (int i = 0; i <= A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
-  int *B_row_data = B.rowData();
-  int *B_column_data = B.columnData();
+  int *B_row_data = B.RowData();
+  int *B_column_data = B.ColumnData();
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
@@ -69,18 +69,18 @@ inline il::SparseMatrixCSR<int, double> dot(
     }
   }
 
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   element.Resize(row[m] - 1);
   column.Resize(row[m] - 1);
   request = 2;
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
-- 
2.43.0


From 6398e7706e722dfabbec0641d17080dd3c441ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 128/178] fix: the dot product of two SparseMatrixCSR wrote
 past the end of their columns

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index b255234..df4ad2d 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -55,7 +55,7 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
   int *B_row_data = B.RowData();
@@ -64,7 +64,7 @@ inline il::SparseMatrixCSR<int, double> dot(
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       ++B_column_data[i];
     }
   }
@@ -87,14 +87,14 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     --A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     --A_column_data[i];
   }
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       --B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       --B_column_data[i];
     }
   }
-- 
2.43.0


From befeccd8d5df4d104ad7cabe67053a23abc35de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 129/178] fix: Pardiso.h could not be included in two source
 files of a program

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..da303d4 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -67,7 +67,7 @@ void PardisoSizeIntSelector<Int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<int>::pardiso_int_t(
+inline void PardisoSizeIntSelector<int>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const int *maxfct, const int *mnum, const int *mtype,
     const int *phase, const int *n, const void *a, const int *ia, const int *ja,
     int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x,
@@ -77,7 +77,7 @@ void PardisoSizeIntSelector<int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
+inline void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const std::ptrdiff_t *maxfct,
     const std::ptrdiff_t *mnum, const std::ptrdiff_t *mtype,
     const std::ptrdiff_t *phase, const std::ptrdiff_t *n, const void *a,
@@ -292,7 +292,7 @@ inline Pardiso::Pardiso() {
 
 inline Pardiso::~Pardiso() { Release(); }
 
-void Pardiso::SymbolicFactorization(
+inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   n_ = A.size(0);
@@ -315,7 +315,7 @@ void Pardiso::SymbolicFactorization(
   matrix_element_ = A.elementData();
 }
 
-void Pardiso::NumericalFactorization(
+inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
-- 
2.43.0


From 871a2900cd35278634169e1ca746a07608d22ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 130/178] fix: a copy of a Pardiso solver released the
 factorization of the original

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index da303d4..8c3cbae 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -115,6 +115,8 @@ class Pardiso {
 
  public:
   Pardiso();
+  Pardiso(const il::Pardiso &solver) = delete;
+  il::Pardiso &operator=(const il::Pardiso &solver) = delete;
   ~Pardiso();
   void SymbolicFactorization(const il::SparseMatrixCSR<il::int_t, double> &A);
   void NumericalFactorization(const il::SparseMatrixCSR<il::int_t, double> &A);
-- 
2.43.0


From 445aad9deb42139f6866f6d6db76941c8cb30a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 131/178] fix: a second symbolic factorization with Pardiso
 lost the first one

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 8c3cbae..e73b099 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -297,15 +297,14 @@ inline Pardiso::~Pardiso() { Release(); }
 inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
+
+  Release();
   n_ = A.size(0);
 
   const il::int_t phase = 11;
   il::int_t error = 0;
   il::int_t i_dummy;
 
-  if (is_numerical_factorization_) {
-    Release();
-  }
   PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
       pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_, &phase,
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
-- 
2.43.0


From 9fd50cd31a58cc4a788bc665c564371aa4652a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 132/178] fix: the errors of Pardiso were ignored in release
 mode

---
 .../sparse/factorization/Pardiso.h            | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index e73b099..073fd82 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -128,6 +128,7 @@ class Pardiso {
 
  private:
   void Release();
+  static void checkError(il::int_t error);
 };
 
 inline Pardiso::Pardiso() {
@@ -310,7 +311,7 @@ inline void Pardiso::SymbolicFactorization(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_, nullptr, nullptr,
       &error);
-  IL_EXPECT_FAST(error == 0);
+  checkError(error);
 
   is_symbolic_factorization_ = true;
   matrix_element_ = A.elementData();
@@ -332,7 +333,7 @@ inline void Pardiso::NumericalFactorization(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_, nullptr, nullptr,
       &error);
-  IL_EXPECT_FAST(error == 0);
+  checkError(error);
 
   is_numerical_factorization_ = true;
 }
@@ -355,8 +356,7 @@ inline il::Array<double> Pardiso::Solve(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
       const_cast<double *>(y.data()), x.Data(), &error);
-
-  IL_EXPECT_FAST(error == 0);
+  checkError(error);
 
   return x;
 }
@@ -383,13 +383,21 @@ inline il::Array<double> Pardiso::SolveIterative(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
       const_cast<double *>(y.data()), x.Data(), &error);
-  IL_EXPECT_FAST(error == 0);
+  checkError(error);
 
   pardiso_iparm_[3] = old_solver;
 
   return x;
 }
 
+// Without enough memory, or when the factorization is not possible, there is
+// no result to give back.
+inline void Pardiso::checkError(il::int_t error) {
+  if (error != 0) {
+    il::abort();
+  }
+}
+
 inline void Pardiso::Release() {
   const il::int_t phase = -1;
   il::int_t error = 0;
@@ -399,7 +407,7 @@ inline void Pardiso::Release() {
         pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_,
         &phase, &n_, nullptr, nullptr, nullptr, &i_dummy, &pardiso_nrhs_,
         pardiso_iparm_, &pardiso_msglvl_, nullptr, nullptr, &error);
-    IL_EXPECT_FAST(error == 0);
+    checkError(error);
 
     is_symbolic_factorization_ = false;
     is_numerical_factorization_ = false;
-- 
2.43.0


From 684cad3b3ca3dff7c082b46393fb3132414fab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 133/178] fix: Pardiso did not check that it is given the
 matrix it has factorized

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 073fd82..6dbba76 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -319,7 +319,7 @@ inline void Pardiso::SymbolicFactorization(
 
 inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -341,7 +341,7 @@ inline void Pardiso::NumericalFactorization(
 inline il::Array<double> Pardiso::Solve(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -364,7 +364,6 @@ inline il::Array<double> Pardiso::Solve(
 inline il::Array<double> Pardiso::SolveIterative(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
-- 
2.43.0


From e1b29699295d7fd30c5cacd301ed433dc0c7d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 134/178] fix: memory that a SparseMatrixBlas could not have
 was ignored in release mode

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 14 ++++++++++++++
 il/linearAlgebra/sparse/blas/sparseBlas.h       |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 26b6d69..6fb4bad 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -26,6 +26,14 @@
 
 namespace il {
 
+// As with any other allocation, the program stops when the memory is not
+// available.
+inline void checkSparseMemory(sparse_status_t status) {
+  if (status == SPARSE_STATUS_ALLOC_FAILED) {
+    il::abort();
+  }
+}
+
 template <typename Index, typename T>
 class SparseMatrixBlas {
  private:
@@ -61,12 +69,14 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
                               rows_start, rows_end, col_indx, values);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
 template <typename Index, typename T>
 SparseMatrixBlas<Index, T>::~SparseMatrixBlas() {
   sparse_status_t status = mkl_sparse_destroy(sparse_matrix_handle_);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
@@ -79,6 +89,7 @@ void SparseMatrixBlas<Index, T>::setNbMatrixVector(il::int_t n) {
   descr.type = SPARSE_MATRIX_TYPE_GENERAL;
   sparse_status_t status =
       mkl_sparse_set_mv_hint(sparse_matrix_handle_, operation, descr, n);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
@@ -130,12 +141,14 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
                               rows_start, rows_end, col_indx, values);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
 template <typename Index>
 SparseMatrixBlas<Index, float>::~SparseMatrixBlas() {
   sparse_status_t status = mkl_sparse_destroy(sparse_matrix_handle_);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
@@ -148,6 +161,7 @@ void SparseMatrixBlas<Index, float>::setNbMatrixVector(il::int_t n) {
   descr.type = SPARSE_MATRIX_TYPE_GENERAL;
   sparse_status_t status =
       mkl_sparse_set_mv_hint(sparse_matrix_handle_, operation, descr, n);
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 036da22..b4eaabe 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -104,6 +104,7 @@ inline void blas(float alpha, il::SparseMatrixBlas<int, float>& A_optimized,
 
   sparse_status_t status =
       mkl_sparse_s_mv(operation, alpha, A, descr, x.data(), beta, y.Data());
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
@@ -120,6 +121,7 @@ inline void blas(double alpha, il::SparseMatrixBlas<int, double>& A_optimized,
 
   sparse_status_t status =
       mkl_sparse_d_mv(operation, alpha, A, descr, x.data(), beta, y.Data());
+  il::checkSparseMemory(status);
   IL_EXPECT_FAST(status == SPARSE_STATUS_SUCCESS);
 }
 
-- 
2.43.0


From 70cb839deb92b07e05d4bd57c971e7cd2a91a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 135/178] fix: GmresIlu0 used a preconditionner that could not
 be computed

---
 il/linearAlgebra/sparse/factorization/GmresIlu0.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/sparse/factorization/GmresIlu0.h b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
index ffff2b9..429ab5d 100644
--- a/il/linearAlgebra/sparse/factorization/GmresIlu0.h
+++ b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
@@ -113,7 +113,11 @@ inline void GmresIlu0::computePreconditionner(
   int ierr = 0;
   dcsrilu0(&n, A.elementData(), A.rowData(), A.columnData(), bilu0_.Data(),
            ipar_.data(), dpar_.data(), &ierr);
-  IL_EXPECT_FAST(ierr == 0);
+  if (ierr != 0) {
+    // There is no preconditionner: a diagonal element is missing or null, or
+    // the memory is not available.
+    il::abort();
+  }
   preconditionner_computed_ = true;
 
   convertFortranToC(il::io, A);
-- 
2.43.0


From d3ead150a86aa664dced7cf09d1b84d34769a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 136/178] fix: GmresIlu0 never ended in release mode when its
 iterations broke down

---
 il/linearAlgebra/sparse/factorization/GmresIlu0.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/sparse/factorization/GmresIlu0.h b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
index 429ab5d..bf01206 100644
--- a/il/linearAlgebra/sparse/factorization/GmresIlu0.h
+++ b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
@@ -265,7 +265,9 @@ inline il::Array<double> il::GmresIlu0::solve(
         }
         break;
       default:
-        IL_EXPECT_FAST(false);
+        // The maximum number of iterations has been reached, or the algorithm
+        // has broken down
+        stop_iteration = true;
         break;
     }
   }
-- 
2.43.0


From 12802f86079bcf0b27b44df6c6eb47472ce54a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 137/178] fix: a SparseMatrixBlas could not be made from a
 matrix without elements

---
 .../sparse/blas/SparseMatrixBlas.h             | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 6fb4bad..715e451 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -40,6 +40,9 @@ class SparseMatrixBlas {
   sparse_matrix_t sparse_matrix_handle_;
   il::int_t n0_;
   il::int_t n1_;
+  // Given to MKL, which refuses null pointers, when there are no elements
+  MKL_INT no_column_;
+  T no_element_;
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, T> &A);
@@ -57,14 +60,16 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
                                              il::SparseMatrixCSR<Index, T> &A) {
   n0_ = A.size(0);
   n1_ = A.size(1);
+  no_column_ = 0;
+  no_element_ = 0;
 
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
   MKL_INT *rows_start = A.RowData();
   MKL_INT *rows_end = A.RowData() + 1;
-  MKL_INT *col_indx = A.ColumnData();
-  T *values = A.ElementData();
+  MKL_INT *col_indx = A.nbNonZeros() > 0 ? A.ColumnData() : &no_column_;
+  T *values = A.nbNonZeros() > 0 ? A.ElementData() : &no_element_;
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -112,6 +117,9 @@ class SparseMatrixBlas<Index, float> {
   sparse_matrix_t sparse_matrix_handle_;
   il::int_t n0_;
   il::int_t n1_;
+  // Given to MKL, which refuses null pointers, when there are no elements
+  MKL_INT no_column_;
+  float no_element_;
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, float> &A);
@@ -129,14 +137,16 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
     il::io_t, il::SparseMatrixCSR<Index, float> &A) {
   n0_ = A.size(0);
   n1_ = A.size(1);
+  no_column_ = 0;
+  no_element_ = 0;
 
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
   MKL_INT *rows_start = A.RowData();
   MKL_INT *rows_end = A.RowData() + 1;
-  MKL_INT *col_indx = A.ColumnData();
-  float *values = A.ElementData();
+  MKL_INT *col_indx = A.nbNonZeros() > 0 ? A.ColumnData() : &no_column_;
+  float *values = A.nbNonZeros() > 0 ? A.ElementData() : &no_element_;
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From e2f43d65e851fa0644394a50712e8672b91095b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 138/178] fix: the dot product of SparseMatrixCSR failed with a
 matrix of size 0

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index df4ad2d..71f1014 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -45,6 +45,12 @@ inline il::SparseMatrixCSR<int, double> dot(
   const MKL_INT nzmax = 0;
   MKL_INT info;
 
+  if (A.nbNonZeros() == 0 || B.nbNonZeros() == 0) {
+    // MKL refuses matrices of size 0
+    return il::SparseMatrixCSR<int, double>{m, k, il::Array<int>{},
+                                            il::Array<int>{m + 1, 0}};
+  }
+
   il::Array<double> element{};
   il::Array<int> column{};
   il::Array<int> row{m + 1};
-- 
2.43.0


From 0eaed4566404585d4d6e576ff66bac0e05832970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 139/178] fix: SolveIterative of Pardiso failed with a null
 second member

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 6dbba76..2cef5ee 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -370,6 +370,21 @@ inline il::Array<double> Pardiso::SolveIterative(
   IL_EXPECT_FAST(y.size() == n_);
   il::Array<double> x{n_};
 
+  // The stopping test of the iterations is relative to y, and Pardiso fails
+  // when it is null
+  bool is_null = true;
+  for (il::int_t i = 0; i < n_; ++i) {
+    if (y[i] != 0.0) {
+      is_null = false;
+    }
+  }
+  if (is_null) {
+    for (il::int_t i = 0; i < n_; ++i) {
+      x[i] = 0.0;
+    }
+    return x;
+  }
+
   const il::int_t old_solver = pardiso_iparm_[3];
   // 6 digits of accuracy using LU decomposition
   pardiso_iparm_[3] = 21;
-- 
2.43.0


From 9d82e83247a17ce38590b2f2b9143102e29e91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 140/178] fix: GmresIlu0 used uninitialized parameters, and
 could write its errors to a file

---
 il/linearAlgebra/sparse/factorization/GmresIlu0.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/GmresIlu0.h b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
index bf01206..8c5c14f 100644
--- a/il/linearAlgebra/sparse/factorization/GmresIlu0.h
+++ b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
@@ -97,6 +97,9 @@ inline void GmresIlu0::computePreconditionner(
   const int n = static_cast<int>(A.size(0));
   bilu0_.Resize(A.nbNonZeros());
   convertCToFortran(il::io, A);
+  // ipar_[1] and ipar_[5]: The errors are reported to the screen
+  ipar_[1] = 6;
+  ipar_[5] = 1;
   // In this example, specific for DCSRILU0 entries are set in turn:
   // ipar_[30]: Specifies how the routine operates when a zero diagonal
   //            element occurs during calculation. It his parameter is set to
-- 
2.43.0


From 184a129c72fa0658e05a9ef4292b4dfd7382f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 141/178] fix: Info read outside of itself with the index of a
 missing key

---
 il/container/info/Info.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 7c653a7..7f249bd 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -324,11 +324,26 @@ inline il::int_t Info::search(const char* key) const {
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
 
-inline bool Info::isInteger(il::int_t i) const { return data()[i] == 0; }
+inline bool Info::isInteger(il::int_t i) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <
+                 static_cast<std::size_t>(size()));
 
-inline bool Info::isDouble(il::int_t i) const { return data()[i] == 1; }
+  return data()[i] == 0;
+}
+
+inline bool Info::isDouble(il::int_t i) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <
+                 static_cast<std::size_t>(size()));
+
+  return data()[i] == 1;
+}
+
+inline bool Info::isString(il::int_t i) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <
+                 static_cast<std::size_t>(size()));
 
-inline bool Info::isString(il::int_t i) const { return data()[i] == 2; }
+  return data()[i] == 2;
+}
 
 inline il::int_t Info::toInteger(il::int_t i) const {
   IL_EXPECT_FAST(isInteger(i));
-- 
2.43.0


From d0462fcd4adc74191b87472b343be587180b20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 142/178] fix: the views of a column of Array2D were not
 checked

---
 il/container/2d/Array2D.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 4ba416b..4b61461 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1276,6 +1276,13 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
@@ -1327,6 +1334,13 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
-- 
2.43.0


From 90425b212bc83b461ffeb1952f538e2edad2aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 143/178] fix: BandArray2C accepted negative sizes and
 dimensions other than 0 and 1

---
 il/container/2d/BandArray2C.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 5640712..e2ef59a 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -70,6 +70,9 @@ il::int_t BandArray2C<T>::nbColumns(il::int_t width_left,
 template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n, il::int_t width)
     : element_{n, nbColumns(width, width), 0} {
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(width >= 0);
+
   n0_ = n;
   n1_ = n;
   width_left_ = width;
@@ -81,6 +84,11 @@ template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
                             il::int_t width_right)
     : element_{n0, nbColumns(width_left, width_right), 0} {
+  IL_EXPECT_FAST(n0 >= 0);
+  IL_EXPECT_FAST(n1 >= 0);
+  IL_EXPECT_FAST(width_left >= 0);
+  IL_EXPECT_FAST(width_right >= 0);
+
   n0_ = n0;
   n1_ = n1;
   width_left_ = width_left;
@@ -112,6 +120,8 @@ T& BandArray2C<T>::operator()(il::int_t i0, il::int_t k) {
 
 template <typename T>
 il::int_t BandArray2C<T>::size(il::int_t d) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
+
   return d == 0 ? n0_ : n1_;
 }
 
-- 
2.43.0


From fe341e27f994c4f5d60a24864408f967b503b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 144/178] fix: the searches and the runes of StringView read
 outside of it

---
 il/container/string/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index c2b6f72..317827b 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1365,6 +1365,8 @@ inline bool StringView::hasNewLine(il::int_t i) const {
 }
 
 inline il::int_t StringView::nextChar(il::int_t i, char c) const {
+  IL_EXPECT_MEDIUM(i >= 0);
+
   while (i < size() && data_[i] != c) {
     ++i;
   }
@@ -1372,6 +1374,8 @@ inline il::int_t StringView::nextChar(il::int_t i, char c) const {
 }
 
 inline il::int_t StringView::nextDigit(il::int_t i) const {
+  IL_EXPECT_MEDIUM(i >= 0);
+
   while (i < size() && !(data_[i] >= '0' && data_[i] <= '9')) {
     ++i;
   }
@@ -1379,19 +1383,25 @@ inline il::int_t StringView::nextDigit(il::int_t i) const {
 }
 
 inline int StringView::rune(il::int_t i) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
+                   static_cast<std::size_t>(size()));
+
   unsigned int ans = 0;
   const unsigned char* data =
       reinterpret_cast<const unsigned char*>(this->data());
   if ((data[i] & 0x80u) == 0) {
     ans = static_cast<unsigned int>(data[i]);
   } else if ((data[i] & 0xE0u) == 0xC0u) {
+    IL_EXPECT_MEDIUM(i + 1 < size());
     ans = (static_cast<unsigned int>(data[i] & 0x1Fu) << 6) +
           static_cast<unsigned int>(data[i + 1] & 0x3Fu);
   } else if ((data[i] & 0xF0u) == 0xE0u) {
+    IL_EXPECT_MEDIUM(i + 2 < size());
     ans = (static_cast<unsigned int>(data[i] & 0x0Fu) << 12) +
           (static_cast<unsigned int>(data[i + 1] & 0x3Fu) << 6) +
           static_cast<unsigned int>(data[i + 2] & 0x3Fu);
   } else {
+    IL_EXPECT_MEDIUM(i + 3 < size());
     ans = (static_cast<unsigned int>(data[i] & 0x07u) << 18) +
           (static_cast<unsigned int>(data[i + 1] & 0x3Fu) << 12) +
           (static_cast<unsigned int>(data[i + 2] & 0x3Fu) << 6) +
@@ -1401,6 +1411,8 @@ inline int StringView::rune(il::int_t i) const {
 }
 
 inline il::int_t StringView::nextRune(il::int_t i) const {
+  IL_EXPECT_MEDIUM(i >= -1);
+
   do {
     ++i;
   } while (i < size() && ((data_[i] & 0xC0u) == 0x80u));
-- 
2.43.0


From fbbb3e18e404418218f74c609a98810156bd1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 145/178] fix: the insertion of a negative or too large number
 of characters in a String

---
 il/container/string/String.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 317827b..2e8ee7e 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -785,6 +785,7 @@ inline void String::Insert(il::int_t i, char c) {
 // inline void String::Insert(il::int_t i, int rune) {}
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
   IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
                  static_cast<std::size_t>(size()));
@@ -793,36 +794,37 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
   }
 
   const il::int_t old_size = size();
+  const il::int_t new_size = sizeAppended(old_size, n, 1);
   const il::int_t old_capacity = capacity();
   const bool old_is_small = isSmall();
   char* p = Data();
-  if (old_size + n <= old_capacity) {
+  if (new_size <= old_capacity) {
     for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
       p[k] = p[k - n];
     }
     for (il::int_t k = i; k < i + n; ++k) {
       p[k] = c;
     }
-    p[old_size + n] = '\0';
+    p[new_size] = '\0';
     if (old_is_small) {
-      setSmall(type(), old_size + n);
+      setSmall(type(), new_size);
     } else {
-      setLarge(type(), old_size + n, old_capacity);
+      setLarge(type(), new_size, old_capacity);
     }
   } else {
-    const il::int_t r = nextCapacity(old_size + n);
+    const il::int_t r = nextCapacity(new_size);
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     for (il::int_t k = i; k < i + n; ++k) {
       new_p[k] = c;
     }
     std::memcpy(new_p + i + n, p + i, old_size - i);
-    new_p[old_size + n] = '\0';
+    new_p[new_size] = '\0';
     if (!old_is_small) {
       il::deallocate(large_.data);
     }
     large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+    setLarge(type(), new_size, r);
   }
 }
 
@@ -869,6 +871,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
                  static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
-- 
2.43.0


From 0192eba07e6e45ab6a65ab70a017b4e44e5451b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 146/178] fix: il/io/ppm/ppm.h did not compile

---
 il/io/ppm/ppm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..f887d90 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -34,8 +34,8 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
-                               il::Status& status) {
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+                                      il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
 #ifdef IL_UNIX
@@ -113,7 +113,7 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), 3 * width, height, fp) != height) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 1c376cbadc1dad56b7bb5d3c63e8f6b39435f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 147/178] fix: readPpm left its file open when it failed

---
 il/io/ppm/ppm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index f887d90..ec00205 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -55,10 +55,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   char buffer[16];
   if (!std::fgets(buffer, sizeof(buffer), fp)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
   if (buffer[0] != 'P' || buffer[1] != '6') {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -77,12 +79,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int height;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   const int error_no = fscanf_s(fp, "%d %d", &width, &height);
   if (error_no != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -91,6 +95,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int rgb_comp_color;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -98,6 +103,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   {
     const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
     if (error_no != 1) {
+      std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
       return image;
     }
@@ -105,6 +111,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 #endif
   // check rgb component depth
   if (rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -114,6 +121,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // read pixel data from file
   image.Resize(width, height);
   if (std::fread(image.Data(), 3 * width, height, fp) != height) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From df37e9fe4cd0b994d32c11b3830d9617ee81a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 148/178] fix: readPpm misread the headers, and never ended
 when they were cut

---
 il/io/ppm/ppm.h | 106 +++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 60 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index ec00205..c6548d7 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -19,6 +19,7 @@
 #ifndef IL_PPM_H
 #define IL_PPM_H
 
+#include <climits>
 #include <cstdio>
 #include <string>
 
@@ -34,6 +35,43 @@ struct Pixel {
   unsigned char blue;
 };
 
+inline bool isPpmSpace(int c) {
+  return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' ||
+         c == '\r';
+}
+
+// Reads the next integer of the header, and returns -1 if there is none that
+// fits in an int. What follows the integer is not read.
+inline int readPpmInteger(il::io_t, std::FILE* fp) {
+  int c = std::getc(fp);
+  if (!il::isPpmSpace(c) && c != '#') {
+    return -1;
+  }
+  while (il::isPpmSpace(c) || c == '#') {
+    if (c == '#') {
+      while (c != '\n' && c != '\r' && c != EOF) {
+        c = std::getc(fp);
+      }
+    } else {
+      c = std::getc(fp);
+    }
+  }
+  if (c < '0' || c > '9') {
+    return -1;
+  }
+  int ans = 0;
+  while (c >= '0' && c <= '9') {
+    const int digit = c - '0';
+    if (ans > (INT_MAX - digit) / 10) {
+      return -1;
+    }
+    ans = 10 * ans + digit;
+    c = std::getc(fp);
+  }
+  std::ungetc(c, fp);
+  return ans;
+}
+
 inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
                                       il::Status& status) {
   il::Array2D<il::Pixel> image{};
@@ -53,70 +91,18 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   }
 #endif
 
-  char buffer[16];
-  if (!std::fgets(buffer, sizeof(buffer), fp)) {
-    std::fclose(fp);
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-  if (buffer[0] != 'P' || buffer[1] != '6') {
-    std::fclose(fp);
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-
-  // Check for comments
-  int c{std::getc(fp)};
-  while (c == '#') {
-    while (std::getc(fp) != '\n') {
-    };
-    c = std::getc(fp);
-  }
-  std::ungetc(c, fp);
-
-  // read image size information
-  int width;
-  int height;
-#ifdef IL_UNIX
-  if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
-    std::fclose(fp);
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#else
-  const int error_no = fscanf_s(fp, "%d %d", &width, &height);
-  if (error_no != 2) {
-    std::fclose(fp);
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#endif
-  // read rgb component
-  int rgb_comp_color;
-#ifdef IL_UNIX
-  if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
-    std::fclose(fp);
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#else
-  {
-    const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
-    if (error_no != 1) {
-      std::fclose(fp);
-      status.SetError(il::Error::BinaryFileWrongFormat);
-      return image;
-    }
-  }
-#endif
-  // check rgb component depth
-  if (rgb_comp_color != 255) {
+  // The header is made of P6, the width, the height and the number of colors
+  // that are separated by whitespaces and comments. One whitespace ends it.
+  const bool magic = std::getc(fp) == 'P' && std::getc(fp) == '6';
+  const int width = il::readPpmInteger(il::io, fp);
+  const int height = il::readPpmInteger(il::io, fp);
+  const int rgb_comp_color = il::readPpmInteger(il::io, fp);
+  if (!magic || width < 0 || height < 0 || rgb_comp_color != 255 ||
+      !il::isPpmSpace(std::getc(fp))) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
 
   // read pixel data from file
   image.Resize(width, height);
-- 
2.43.0


From d4ccd8e6014e92cb8f5882672b7d352ca40a9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 149/178] fix: readPpm asked for the memory of images larger
 than their file

---
 il/io/ppm/ppm.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index c6548d7..2044285 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -104,12 +104,28 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     return image;
   }
 
+  // The image must fit in what remains of the file
+  const long position = std::ftell(fp);
+  const bool end_ok = position >= 0 && std::fseek(fp, 0, SEEK_END) == 0;
+  const long end = end_ok ? std::ftell(fp) : -1;
+  if (width == 0 || height == 0 || end < position ||
+      (end - position) / static_cast<long>(sizeof(il::Pixel)) / width <
+          height ||
+      std::fseek(fp, position, SEEK_SET) != 0) {
+    std::fclose(fp);
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    return image;
+  }
+
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.Data(), 3 * width, height, fp) != height) {
+  const std::size_t nb_pixels =
+      static_cast<std::size_t>(width) * static_cast<std::size_t>(height);
+  if (std::fread(image.Data(), sizeof(il::Pixel), nb_pixels, fp) !=
+      nb_pixels) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
-    image.Resize(0, 0);
+    image = il::Array2D<il::Pixel>{};
     return image;
   }
 
-- 
2.43.0


From b6b36447d47d43858cc7b987eaa5f8578a93ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 150/178] fix: LU::solve accepted a vector of another size

---
 il/linearAlgebra/dense/factorization/LU.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 4094e5c..a1d1478 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -242,6 +242,7 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
-- 
2.43.0


From bbd7b2abb03c430a8c03e777c8b97a3b677f1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 151/178] fix: getSolution of Cg and Gmres accepted a vector of
 another size

---
 il/linearAlgebra/matrixFree/solver/Cg.h    | 2 ++
 il/linearAlgebra/matrixFree/solver/Gmres.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index e970bd4..c41d010 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -360,6 +360,8 @@ inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
 inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+  IL_EXPECT_FAST(x.size() == n_);
+
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index b4c83b0..0b84b7d 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -336,6 +336,8 @@ void Gmres<T>::Next() {
 
 template <typename T>
 void Gmres<T>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+  IL_EXPECT_FAST(x.size() == n_);
+
   ipar_[12] = 1;
   int itercount;
   for (il::int_t i = 0; i < n_; ++i) {
-- 
2.43.0


From e4378f01e67a99f12b80983fa38fac201b922592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 152/178] fix: Resize of the arrays of 3 and 4 dimensions lost
 the debug value of new elements

---
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 il/container/4d/Array4C.h | 20 ++++++++++----------
 il/container/4d/Array4D.h | 20 ++++++++++----------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4e695d5..22eb7ad 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1058,12 +1058,12 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0; i2 < n2;
-             ++i2) {
-          new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
+               i2 < n2; ++i2) {
+            new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+          }
         }
       }
     }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 0125cc9..fb58c52 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1060,12 +1060,12 @@ void Array3D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i2 = 0; i2 < n2; ++i2) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0; i0 < n0;
-             ++i0) {
-          new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+      for (il::int_t i2 = 0; i2 < n2; ++i2) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+               i0 < n0; ++i0) {
+            new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+          }
         }
       }
     }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 2e11f99..b12fbec 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -874,16 +874,16 @@ void Array4C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = 0; i2 < n2; ++i2) {
-          for (il::int_t i3 =
-                   (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
-               i3 < n3; ++i3) {
-            new (data_ +
-                 ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
-                 i3) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = 0; i2 < n2; ++i2) {
+            for (il::int_t i3 =
+                     (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
+                 i3 < n3; ++i3) {
+              new (data_ +
+                   ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                   i3) T{};
+            }
           }
         }
       }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 9632095..53ccf89 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -874,16 +874,16 @@ void Array4D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i3 = 0; i3 < n3; ++i3) {
-      for (il::int_t i2 = 0; i2 < n2; ++i2) {
-        for (il::int_t i1 = 0; i1 < n1; ++i1) {
-          for (il::int_t i0 =
-                   (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
-               i0 < n0; ++i0) {
-            new (data_ +
-                 ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
-                 i0) T{};
+      for (il::int_t i3 = 0; i3 < n3; ++i3) {
+        for (il::int_t i2 = 0; i2 < n2; ++i2) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i0 =
+                     (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+                 i0 < n0; ++i0) {
+              new (data_ +
+                   ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                   i0) T{};
+            }
           }
         }
       }
-- 
2.43.0


From 3a73637169ae8cb69b10a4a80fde5351008adc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 153/178] fix: safeDivision never cleared the error it had not
 found

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From 7a48647a09a6feb4621ab439a3b622ec2516bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 154/178] fix: safeProduct2Positive accepted numbers whose
 double does not fit

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From ef8d2ed01c4ed99840095d644c607154cace0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 155/178] fix: nextLog2 and next_log2_32 did not end beyond the
 largest power of 2

---
 il/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index fc77d85..16e2b7d 100644
--- a/il/math.h
+++ b/il/math.h
@@ -237,7 +237,7 @@ inline int nextLog2(std::size_t x) {
   //  return table_log2_64[index];
   std::size_t power = 1;
   int k = 0;
-  while (power < x) {
+  while (power < x && power != 0) {
     power *= 2;
     k += 1;
   }
@@ -259,7 +259,7 @@ inline int next_log2_32(unsigned int x) {
   //  return table_log2_32[index];
   unsigned int power = 1;
   int k = 0;
-  while (power < x) {
+  while (power < x && power != 0) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 754d04f485d44aee6dd1d0e46a0f9571f1b1cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 156/178] fix: ipow squared once more than needed, which
 overflowed

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index 16e2b7d..1cb8c01 100644
--- a/il/math.h
+++ b/il/math.h
@@ -163,8 +163,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From ab4b61ac78f760e9ac08b85ebf07734e629a9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 157/178] fix: arrays of a type without a NumPy name were saved
 as invalid npy files

---
 il/io/numpy/numpy.h | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 2dadfa0..83eea59 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -45,6 +45,21 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+template <>
+struct numpyType<long> {
+  static constexpr const char* value = sizeof(long) == 8 ? "i8" : "i4";
+};
+
+template <>
+struct numpyType<long long> {
+  static constexpr const char* value = "i8";
+};
+
+template <>
+struct numpyType<float> {
+  static constexpr const char* value = "f4";
+};
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
@@ -68,6 +83,12 @@ class SaveHelper<il::Array<T>> {
  public:
   static void save(const il::Array<T>& v, const il::String& filename, il::io_t,
                    il::Status& status) {
+    if (il::numpyType<T>::value[0] == '\0') {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
@@ -120,6 +141,12 @@ class SaveHelper<il::Array2D<T>> {
  public:
   static void save(const il::Array2D<T>& A, const il::String& filename,
                    il::io_t, il::Status& status) {
+    if (il::numpyType<T>::value[0] == '\0') {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
@@ -177,6 +204,12 @@ class LoadHelper<il::Array<T>> {
                            il::Status& status) {
     il::Array<T> v{};
 
+    if (il::numpyType<T>::value[0] == '\0') {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
@@ -245,6 +278,12 @@ class LoadHelper<il::Array2D<T>> {
                              il::Status& status) {
     il::Array2D<T> v{};
 
+    if (il::numpyType<T>::value[0] == '\0') {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
-- 
2.43.0


From 099966b13d77860f08c3f48f42233cf986fb32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 158/178] fix: saving with options to a file that has none
 stopped the process

---
 il/io/io_base.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 17cfd1f..97fc72e 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -253,18 +253,13 @@ void save(const T& x, const U& option, const il::String& filename, il::io_t,
     return;
   }
   switch (ft) {
-    case il::FileType::Toml:
-      IL_UNREACHABLE;
-      break;
     case il::FileType::Data:
       il::SaveHelperDataWithOptions<T, U>::save(x, option, filename, il::io,
                                                 status);
       break;
-    case il::FileType::Png:
-      IL_UNREACHABLE;
-      break;
     default:
-      IL_UNREACHABLE;
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
   }
 }
 
-- 
2.43.0


From 592ef43ad7b6b3886d36692d347317e4b6c9eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 159/178] fix: loading a sparse matrix stopped the process

---
 il/io/numpy/numpy.h | 49 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 83eea59..e230b40 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -357,29 +357,56 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
   static il::SparseMatrixCSR<il::int_t, double> load(const il::String& filename,
                                                      il::io_t,
                                                      il::Status& status) {
+    il::SparseMatrixCSR<il::int_t, double> A{};
+
     il::Status local_status{};
     il::String filename_row = filename;
     filename_row.Append(".row");
-    auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    il::Array<il::int_t> row = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_row, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return A;
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
-    auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    il::Array<il::int_t> column = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_column, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return A;
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
-    auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    il::Array<double> element = il::LoadHelper<il::Array<double>>::load(
+        filename_element, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return A;
+    }
 
+    // The three files must describe a square matrix
     const il::int_t n = row.size() - 1;
-    status.SetOk();
-    return il::SparseMatrixCSR<il::int_t, double>{
+    bool valid = n >= 0 && row[0] == 0 && row[n] == column.size() &&
+                 element.size() == column.size();
+    for (il::int_t i = 0; valid && i < n; ++i) {
+      valid = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; valid && k < column.size(); ++k) {
+      valid = column[k] >= 0 && column[k] < n;
+    }
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return A;
+    }
+
+    A = il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
+    status.SetOk();
+    return A;
   }
 };
 }  // namespace il
-- 
2.43.0


From 576501195620f67efea4e3a23445d9f0adb68baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 160/178] fix: the depth of a full tree was one too much

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..3d91221 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From 41eb9e6ded77680d7bf4f1372427be7147acde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 161/178] fix: a tree of arity 1 could not be made for a given
 depth

---
 il/container/tree/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 3d91221..c18dc3f 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -74,11 +74,11 @@ Tree<T, n>::Tree() : tree_{1, il::emplace, true} {}
 
 template <typename T, il::int_t n>
 Tree<T, n>::Tree(il::int_t depth) {
-  il::int_t m = n;
+  // The number of nodes of a full tree
+  il::int_t m = 1;
   for (il::int_t k = 0; k < depth; ++k) {
-    m *= n;
+    m = n * m + 1;
   }
-  m = (m - 1) / (n - 1);
   tree_.Reserve(m);
   tree_.Resize(1, il::emplace, true);
 };
-- 
2.43.0


From 7b3204cf33a03e35d3deb929874c0baaa156e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 162/178] fix: a tree lost the children of a node beyond the
 fourth

---
 il/container/tree/Tree.h | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index c18dc3f..c358129 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -36,17 +36,19 @@ namespace il {
 template <typename T, il::int_t n>
 class Tree {
  private:
+  static_assert(n >= 1 && n <= 62,
+                "il::Tree<T, n>: a node has from 1 to 62 children");
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    std::size_t flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? static_cast<std::size_t>(1)
+                     : static_cast<std::size_t>(0)} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -135,25 +137,14 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return (tree_[s.index].flag >> (2 + i)) % 2 == 1;
 };
 
 template <typename T, il::int_t n>
 il::SmallArray<il::int_t, n> Tree<T, n>::children(il::spot_t s) const {
-  il::int_t flag = tree_[s.index].flag / 4;
+  std::size_t flag = tree_[s.index].flag / 4;
   il::SmallArray<il::int_t, n> ans{};
   il::int_t i = 0;
   while (flag != 0) {
@@ -170,7 +161,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
+  const std::size_t flag = static_cast<std::size_t>(1) << (2 + i);
   tree_[s.index].flag = tree_[s.index].flag | flag;
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
-- 
2.43.0


From 699378a19fded865ebfd07e2bafcb01c8c4fc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 163/178] fix: a node of a tree was still empty after its value
 had been set

---
 il/container/tree/Tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index c358129..4a30dfa 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -120,9 +120,8 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  // The node is valid and it is not empty anymore
+  tree_[s.index].flag = tree_[s.index].flag | 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 5cef39083adf7ac8b9624880497a6eb6e8e82977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 164/178] fix: the conversions between UTF-8 and UTF-16 added a
 null character

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From d09ba4c5a334a9a64da9ae443ed66615fdb8bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 165/178] fix: a UTF-16 string assigned to itself read released
 memory

---
 il/container/string/UTF16String.h | 38 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..fdf1dd9 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,27 +146,29 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
-  const il::int_t size = s.size();
-  if (size <= max_small_size_) {
-    if (!isSmall()) {
-      il::deallocate(large_.data);
-    }
-    std::memcpy(data_, s.data(), 2 * (static_cast<std::size_t>(size) + 1));
-    SetSmallSize(size);
-  } else {
-    if (size <= capacity()) {
-      std::memcpy(large_.data, s.data(),
-                  2 * (static_cast<std::size_t>(size) + 1));
-      large_.size = static_cast<std::size_t>(size);
-    } else {
+  if (this != &s) {
+    const il::int_t size = s.size();
+    if (size <= max_small_size_) {
       if (!isSmall()) {
         il::deallocate(large_.data);
       }
-      large_.data = il::allocateArray<unsigned short>(size + 1);
-      std::memcpy(large_.data, s.data(),
-                  2 * (static_cast<std::size_t>(size) + 1));
-      large_.size = static_cast<std::size_t>(size);
-      SetLargeCapacity(size);
+      std::memcpy(data_, s.data(), 2 * (static_cast<std::size_t>(size) + 1));
+      SetSmallSize(size);
+    } else {
+      if (size <= capacity()) {
+        std::memcpy(large_.data, s.data(),
+                    2 * (static_cast<std::size_t>(size) + 1));
+        large_.size = static_cast<std::size_t>(size);
+      } else {
+        if (!isSmall()) {
+          il::deallocate(large_.data);
+        }
+        large_.data = il::allocateArray<unsigned short>(size + 1);
+        std::memcpy(large_.data, s.data(),
+                    2 * (static_cast<std::size_t>(size) + 1));
+        large_.size = static_cast<std::size_t>(size);
+        SetLargeCapacity(size);
+      }
     }
   }
   return *this;
-- 
2.43.0


From c639eea8785bf2bcd468d3562ee12d791cb4cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 166/178] fix: the move assignment of a UTF-16 string lost
 memory

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index fdf1dd9..1b929cc 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -184,6 +184,9 @@ inline UTF16String& UTF16String::operator=(UTF16String&& s) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        il::deallocate(large_.data);
+      }
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-- 
2.43.0


From 08a82866c671521b37fe469b07349b77f385a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 167/178] fix: appending characters to a UTF-16 string wrote
 past its end

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 1b929cc..68aeb89 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -277,7 +277,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From f60a3bcfc119e8959fa9567c531f25598564532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 168/178] fix: appending n times a rune to a UTF-16 string did
 nothing

---
 il/container/string/UTF16String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 68aeb89..b6f7296 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -326,8 +326,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From 6b1fef77b52918e0b03cdb093c95cf741bcc1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 169/178] fix: a UTF-16 string appended to itself read released
 memory

---
 il/container/string/UTF16String.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index b6f7296..19f3ee3 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -21,6 +21,8 @@
 
 // <cstring> is needed for memcpy
 #include <cstring>
+// <utility> is needed for std::move
+#include <utility>
 
 #include <il/core.h>
 #include <il/core/memory/allocate.h>
@@ -417,7 +419,19 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
   const il::int_t old_size = size();
   const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
+  if (new_capacity > capacity()) {
+    // The old memory is released at the end as it might contain data
+    UTF16String s{};
+    s.Reserve(new_capacity);
+    std::memcpy(s.large_.data, this->data(),
+                2 * static_cast<std::size_t>(old_size));
+    std::memcpy(s.large_.data + old_size, data,
+                2 * static_cast<std::size_t>(n));
+    s.large_.data[old_size + n] = static_cast<unsigned short>('\0');
+    s.large_.size = static_cast<std::size_t>(old_size + n);
+    *this = std::move(s);
+    return;
+  }
 
   if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
-- 
2.43.0


From 425ace862e824275e2309b7c2af127d463934f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 170/178] fix: the size of a UTF-16 string could overflow

---
 il/container/string/UTF16String.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 19f3ee3..1894dca 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -25,6 +25,7 @@
 #include <utility>
 
 #include <il/core.h>
+#include <il/core/math/safe_arithmetic.h>
 #include <il/core/memory/allocate.h>
 
 namespace il {
@@ -279,7 +280,11 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + n;
+  bool error = false;
+  const il::int_t new_size = il::safeSum(old_size, n, il::io, error);
+  if (error) {
+    il::abort();
+  }
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From 06d5a6017a1040e6a5217dbb2f52f41b14fc1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 171/178] fix: every append to a UTF-16 string moved it to
 another block

---
 il/container/string/UTF16String.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 1894dca..8dcab64 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -263,8 +263,9 @@ inline void UTF16String::Append(char c) {
 
   const il::int_t old_size = size();
   const il::int_t new_size = old_size + 1;
-  const il::int_t new_capacity = il::max(new_size, 2 * old_size);
-  Reserve(new_capacity);
+  if (new_size > capacity()) {
+    Reserve(il::max(new_size, 2 * old_size));
+  }
   unsigned short* data = Data() + old_size;
   data[0] = static_cast<unsigned short>(c);
   data[1] = static_cast<unsigned short>('\0');
@@ -285,8 +286,9 @@ inline void UTF16String::Append(il::int_t n, char c) {
   if (error) {
     il::abort();
   }
-  const il::int_t new_capacity = il::max(new_size, 2 * old_size);
-  Reserve(new_capacity);
+  if (new_size > capacity()) {
+    Reserve(il::max(new_size, 2 * old_size));
+  }
   unsigned short* data = Data() + old_size;
   for (il::int_t i = 0; i < n; ++i) {
     data[i] = static_cast<unsigned short>(c);
@@ -307,15 +309,17 @@ inline void UTF16String::Append(int cp) {
   il::int_t new_size;
   if (ucp < 0x00010000u) {
     new_size = old_size + 1;
-    const il::int_t new_capacity = il::max(new_size, 2 * old_size);
-    Reserve(new_capacity);
+    if (new_size > capacity()) {
+      Reserve(il::max(new_size, 2 * old_size));
+    }
     unsigned short* data = Data() + size();
     data[0] = static_cast<unsigned short>(ucp);
     data[1] = static_cast<unsigned short>('\0');
   } else {
     new_size = old_size + 2;
-    const il::int_t new_capacity = il::max(new_size, 2 * old_size);
-    Reserve(new_capacity);
+    if (new_size > capacity()) {
+      Reserve(il::max(new_size, 2 * old_size));
+    }
     unsigned short* data = Data() + size();
     const unsigned int a = ucp - 0x00010000u;
     data[0] = static_cast<unsigned short>(a >> 10) + 0xD800u;
@@ -423,11 +427,10 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_size = size();
-  const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  if (new_capacity > capacity()) {
+  if (old_size + n > capacity()) {
     // The old memory is released at the end as it might contain data
     UTF16String s{};
-    s.Reserve(new_capacity);
+    s.Reserve(il::max(old_size + n, 2 * old_size));
     std::memcpy(s.large_.data, this->data(),
                 2 * static_cast<std::size_t>(old_size));
     std::memcpy(s.large_.data + old_size, data,
-- 
2.43.0


From faf0d5bb92417439a5cdbc76c868754549d8746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 172/178] fix: the number of nodes of a tree of a given depth
 could overflow

---
 il/container/tree/Tree.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 4a30dfa..75b5fed 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -30,6 +30,7 @@
 
 #include <il/Array.h>
 #include <il/SmallArray.h>
+#include <il/core/math/safe_arithmetic.h>
 
 namespace il {
 
@@ -78,8 +79,20 @@ template <typename T, il::int_t n>
 Tree<T, n>::Tree(il::int_t depth) {
   // The number of nodes of a full tree
   il::int_t m = 1;
-  for (il::int_t k = 0; k < depth; ++k) {
-    m = n * m + 1;
+  bool error = false;
+  if (n == 1) {
+    m = il::safeSum(depth, m, il::io, error);
+  } else {
+    for (il::int_t k = 0; k < depth && !error; ++k) {
+      bool product_error = false;
+      m = il::safeProduct(n, m, il::io, product_error);
+      bool sum_error = false;
+      m = il::safeSum(m, static_cast<il::int_t>(1), il::io, sum_error);
+      error = product_error || sum_error;
+    }
+  }
+  if (error) {
+    il::abort();
   }
   tree_.Reserve(m);
   tree_.Resize(1, il::emplace, true);
-- 
2.43.0


From 48e1e1c763ebee7613fbd1ce96340175473db8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 173/178] fix: the block of a UTF-16 string of the largest size
 could overflow

---
 il/container/string/UTF16String.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 8dcab64..7edbcee 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -235,8 +235,15 @@ inline void UTF16String::Reserve(il::int_t r) {
     return;
   }
 
+  // There is a null character after the text
+  bool error = false;
+  const il::int_t n =
+      il::safeSum(r, static_cast<il::int_t>(1), il::io, error);
+  if (error) {
+    il::abort();
+  }
   const il::int_t old_size = size();
-  unsigned short* new_data = il::allocateArray<unsigned short>(r + 1);
+  unsigned short* new_data = il::allocateArray<unsigned short>(n);
   std::memcpy(new_data, data(), 2 * (static_cast<std::size_t>(old_size) + 1));
   if (!old_is_small) {
     il::deallocate(large_.data);
-- 
2.43.0


From 6f6a17ff1e7da322a8543da352af38324dc6dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 174/178] fix: a part of a string inserted into the same string
 was wrong

---
 il/container/string/String.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 2e8ee7e..9e33758 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -887,7 +887,18 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
       p[k] = p[k - n];
     }
-    std::memcpy(p + i, s, n);
+    // s might be a part of this string, whose bytes from i on have been moved
+    const std::size_t offset =
+        reinterpret_cast<std::size_t>(s) - reinterpret_cast<std::size_t>(p);
+    il::int_t n_in_place = n;
+    if (offset < static_cast<std::size_t>(old_size)) {
+      const il::int_t first = static_cast<il::int_t>(offset);
+      n_in_place = first >= i ? 0 : (i - first < n ? i - first : n);
+    }
+    std::memcpy(p + i, s, n_in_place);
+    if (n_in_place < n) {
+      std::memcpy(p + i + n_in_place, s + n_in_place + n, n - n_in_place);
+    }
     p[old_size + n] = '\0';
     if (old_is_small) {
       setSmall(t_new, old_size + n);
-- 
2.43.0


From e80369a890cde9f001d320164641e897e543a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 175/178] fix: an array resized with one of its own elements
 read released memory

---
 il/container/1d/Array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 95f7290..d366b0b 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -746,14 +746,16 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    // x might be an element of this array, which is about to be moved
+    const T value(x);
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = value;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{value};
       }
     }
   }
-- 
2.43.0


From 9c21c734d8e12b7d0234167ea0a93ca543614f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 176/178] fix: a 2D array resized with one of its own elements
 read released memory

---
 il/container/2d/Array2D.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 4b61461..90cda39 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -975,6 +975,8 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
 
+  // x might be an element of this array, which is about to be moved
+  const T value(x);
   const il::int_t n0_old = size(0);
   const il::int_t n1_old = size(1);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
@@ -1026,7 +1028,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new_data[i1 * r0 + i0] = value;
         }
       }
     } else {
@@ -1049,7 +1051,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
+          new (new_data + i1 * r0 + i0) T{value};
         }
       }
     }
@@ -1061,7 +1063,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = x;
+          data_[i1 * capacity(0) + i0] = value;
         }
       }
     } else {
@@ -1072,7 +1074,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{x};
+          new (data_ + i1 * capacity(0) + i0) T{value};
         }
       }
     }
-- 
2.43.0


From 977299fc8105c7fc92186f6820f2b11ae6db3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 177/178] fix: only the first element was emplaced from a
 temporary in an array

---
 il/container/1d/Array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index d366b0b..0a45095 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -388,7 +388,7 @@ Array<T>::Array(il::int_t n, il::emplace_t, Args&&... args) {
   if (n > 0) {
     data_ = il::allocateArray<T>(n);
     for (il::int_t i = 0; i < n; ++i) {
-      new (data_ + i) T(std::forward<Args>(args)...);
+      new (data_ + i) T(args...);
     }
   } else {
     data_ = nullptr;
@@ -770,14 +770,14 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
   if (n <= capacity()) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i = size(); i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = T(args...);
       }
     } else {
       for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(args...);
       }
     }
   } else {
@@ -785,11 +785,11 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = T(args...);
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(args...);
       }
     }
   }
-- 
2.43.0


From 5000547b5e409a7fc6da7fd086554df5209d0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 178/178] fix: only the first element was emplaced from a
 temporary in a 2D array

---
 il/container/2d/Array2D.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 90cda39..c8f0f7a 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -428,7 +428,7 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::emplace_t, Args&&... args) {
     data_ = il::allocateArray<T>(r);
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
       for (il::int_t i0 = 0; i0 < n0; ++i0) {
-        new (data_ + i1 * r0 + i0) T(std::forward<Args>(args)...);
+        new (data_ + i1 * r0 + i0) T(args...);
       }
     }
   } else {
@@ -1141,7 +1141,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = T(std::forward<Args>(args)...);
+          new_data[i1 * r0 + i0] = T(args...);
         }
       }
     } else {
@@ -1164,7 +1164,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{std::forward<Args>(args)...};
+          new (new_data + i1 * r0 + i0) T{args...};
         }
       }
     }
@@ -1176,7 +1176,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = T(std::forward<Args>(args)...);
+          data_[i1 * capacity(0) + i0] = T(args...);
         }
       }
     } else {
@@ -1187,7 +1187,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{std::forward<Args>(args)...};
+          new (data_ + i1 * capacity(0) + i0) T{args...};
         }
       }
     }
-- 
2.43.0

