From 7343556609e6ba8d25f039cf2adc1e3c6155c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 01/25] fix: npzfilereader::read<T, TENSOR> did not return the
 tensor it read

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..d49019f 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -647,7 +647,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From b4b54bca14be9fc7140511d6a9ae2dd98b5efa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 02/25] fix: from_dtype accepted any unknown type code as int8
 (and modified a shared table)

---
 src/dtype.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..e62af2e 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -9,15 +9,16 @@
 #define GETC(x) static_cast<char>((x).get())
 
 namespace {
-std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
+const std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
     "|i1", "|u1", ">i2", ">u2", ">i4",  ">u4", ">i8",
     ">u8", ">f4", ">f8", ">c8", ">c16", "|b1"};
 
-std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
+const std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
     "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
     "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
 
-std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
+const std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
+    DTYPE_MAP = {
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -61,7 +62,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From ad00b37a359e03776e4194922420f1a595af1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 03/25] fix: swapping the bytes of a complex number also
 exchanged its real and imaginary parts

---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index e62af2e..7d4f22d 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -422,14 +422,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -445,14 +445,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -466,14 +466,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -482,6 +474,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -497,14 +497,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -513,6 +505,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From fe71d5ba40bcaabb74eda960a3a8b75c863de612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 04/25] fix: element data that ends early was returned as if it
 had been read

---
 src/dtype.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 7d4f22d..7174088 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -42,6 +42,12 @@ const std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
     {"<c16", {npy::data_type_t::COMPLEX128, npy::endian_t::LITTLE}},
     {">c16", {npy::data_type_t::COMPLEX128, npy::endian_t::BIG}},
     {"|b1", {npy::data_type_t::BOOL, npy::endian_t::NATIVE}}};
+
+void assert_read(std::istream &input) {
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of stream");
+  }
+}
 } // namespace
 
 namespace npy {
@@ -91,6 +97,8 @@ void read_values<>(std::basic_istream<char> &input, uint8_t *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  assert_read(input);
 }
 
 template <>
@@ -104,6 +112,8 @@ void read_values<>(std::basic_istream<char> &input, int8_t *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  assert_read(input);
 }
 
 template <>
@@ -117,6 +127,8 @@ void read_values<>(std::basic_istream<char> &input, boolean *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  assert_read(input);
 }
 
 template <>
@@ -148,6 +160,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least16_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -179,6 +193,8 @@ void read_values<>(std::basic_istream<char> &input, int_least16_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -214,6 +230,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least32_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -249,6 +267,8 @@ void read_values<>(std::basic_istream<char> &input, int_least32_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -283,6 +303,8 @@ void read_values<>(std::basic_istream<char> &input, float *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -326,6 +348,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least64_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -369,6 +393,8 @@ void read_values<>(std::basic_istream<char> &input, int_least64_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -411,6 +437,8 @@ void read_values<>(std::basic_istream<char> &input, double *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -455,6 +483,8 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[4] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -515,6 +545,8 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[8] = GETC(input);
     }
   }
+
+  assert_read(input);
 }
 
 template <>
@@ -583,6 +615,8 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
       ptr->push_back(static_cast<wchar_t>(value));
     }
   }
+
+  assert_read(input);
 }
 
 } // namespace npy
\ No newline at end of file
-- 
2.43.0


From b28c5fd9f1659292e41d0b66d1cd30254adf2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 05/25] fix: reading a unicode element dropped NUL characters
 inside it and appended to old contents

---
 src/dtype.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 7174088..fc1527f 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -595,6 +595,8 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
   for (size_t i = 0; i < num_elements; ++i, ++ptr) {
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
+    size_t length = 0;
+    ptr->clear();
     for (size_t j = 0; j < info.max_element_length; ++j) {
       if (info.endianness == npy::endian_t::NATIVE ||
           info.endianness == native_endian()) {
@@ -608,12 +610,16 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
 
+      assert_read(input);
       ptr->push_back(static_cast<wchar_t>(value));
+      if (value != 0) {
+        length = j + 1;
+      }
     }
+
+    // only the trailing NULs are padding
+    ptr->resize(length);
   }
 
   assert_read(input);
-- 
2.43.0


From 2d2433a56b6058e8ea297fa7fc257db80db751fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 06/25] fix: NPY header lengths over 255 bytes were written
 modulo 256

---
 include/npy/npy.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index d49019f..ecf52a3 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -210,9 +210,14 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
     end.back() = '\n';
   }
 
+  if (dict_length > 0xFFFF) {
+    throw std::invalid_argument("shape");
+  }
+
   const char header[STATIC_HEADER_LENGTH] = {
       static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>(dict_length >> 8)};
   output.write(header, STATIC_HEADER_LENGTH);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
-- 
2.43.0


From e50d640c5e8c64b13a13542d7cbf3de5db748b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 07/25] fix: shapes were written and parsed with the global
 locale's digit grouping

---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index ecf52a3..776b21a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -184,6 +185,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..2ea3340 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -63,6 +63,7 @@ bool read_bool(std::istream &input) {
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
+  tuple.imbue(std::locale::classic());
   read(input, ')');
 
   std::vector<size_t> shape;
-- 
2.43.0


From b385363dc9b18b261def4b0ca1681143b94acae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 08/25] fix: NPY magic, version and syntax were checked by
 assert only, so release builds accepted anything

---
 include/npy/npy.h | 29 +++++++++++++++++++++--------
 src/npy.cpp       | 16 ++++++++++++----
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 776b21a..59ccec8 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -304,24 +304,37 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of stream");
+  }
+
+  if (header[0] != 0x93 || header[1] != 'N' || header[2] != 'U' ||
+      header[3] != 'M' || header[4] != 'P' || header[5] != 'Y') {
+    throw std::runtime_error("Invalid magic string (Not a valid NPY file)");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
     std::uint8_t extra[2];
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    if (input.fail()) {
+      throw std::runtime_error("Unexpected end of stream");
+    }
+
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of stream");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/npy.cpp b/src/npy.cpp
index 2ea3340..3ba99be 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -11,15 +11,20 @@ const int BUFFER_SIZE = 64 * 1024;
 char BUFFER[BUFFER_SIZE];
 
 void read(std::istream &input, char expected) {
-  char actual;
+  char actual = 0;
   input.get(actual);
-  assert(actual == expected);
+  if (input.fail() || actual != expected) {
+    throw std::runtime_error(std::string("Invalid NPY header: expected ") +
+                             expected);
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   input.read(BUFFER, expected.length());
   std::string actual(BUFFER, BUFFER + expected.length());
-  assert(actual == expected);
+  if (input.fail() || actual != expected) {
+    throw std::runtime_error("Invalid NPY header: expected " + expected);
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -36,7 +41,10 @@ std::string read_to(std::istream &input, char delim) {
 
   input.get(BUFFER, BUFFER_SIZE, delim);
   auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
+  if (input.peek() != delim) {
+    throw std::runtime_error(std::string("Invalid NPY header: expected ") +
+                             delim);
+  }
 
   return std::string(BUFFER, BUFFER + length);
 }
-- 
2.43.0


From 9b4c88c4a771547831543c8a790fa728a310fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 09/25] fix: concurrent header parsing raced on a shared static
 buffer

---
 src/npy.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index 3ba99be..6b88636 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual = 0;
   input.get(actual);
@@ -20,8 +17,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], actual.length());
   if (input.fail() || actual != expected) {
     throw std::runtime_error("Invalid NPY header: expected " + expected);
   }
@@ -35,18 +32,18 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
-  }
+  std::string token;
+  while (input.peek() != delim) {
+    char next;
+    if (!input.get(next)) {
+      throw std::runtime_error(std::string("Invalid NPY header: expected ") +
+                               delim);
+    }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  if (input.peek() != delim) {
-    throw std::runtime_error(std::string("Invalid NPY header: expected ") +
-                             delim);
+    token.push_back(next);
   }
 
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 512be399c926d93d2e1a6a20e0e12ee386ce5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 10/25] fix: shapes that are not tuples of sizes were accepted
 (a bad extent ended the shape, -1 became 2^64-1)

---
 src/npy.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index 6b88636..e9b3c08 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -74,9 +74,15 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  skip_whitespace(tuple);
+  while (tuple.peek() != EOF) {
+    if (!std::isdigit(tuple.peek()) || !(tuple >> size)) {
+      throw std::runtime_error("Shape value is not a tuple of sizes");
+    }
+
     shape.push_back(size);
-    if (tuple.peek() == ',') {
+    skip_whitespace(tuple);
+    if (tuple.peek() != EOF) {
       read(tuple, ',');
       skip_whitespace(tuple);
     }
-- 
2.43.0


From 32548ee14f092ff731599771052fd8db91aa7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 11/25] fix: NPY dictionaries with missing keys, a malformed
 string type or trailing text were accepted, leaving fields uninitialised

---
 src/npy.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index e9b3c08..3fa8aaf 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -94,8 +94,12 @@ std::vector<size_t> read_shape(std::istream &input) {
 
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
+  bool has_dtype = false;
+  bool has_order = false;
+  bool has_shape = false;
   std::istringstream input(dictionary);
   read(input, '{');
+  skip_whitespace(input);
   while (input.peek() != '}') {
     skip_whitespace(input);
     std::string key = read_string(input);
@@ -104,7 +108,15 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_dtype = true;
+      if (dtype_code.length() > 1 && dtype_code[1] == 'U') {
+        if ((dtype_code[0] != '<' && dtype_code[0] != '>') ||
+            dtype_code.length() == 2 ||
+            dtype_code.find_first_not_of("0123456789", 2) !=
+                std::string::npos) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
+
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
@@ -115,18 +127,31 @@ header_info::header_info(const std::string &dictionary) {
       }
 
     } else if (key == "fortran_order") {
+      has_order = true;
       fortran_order = read_bool(input);
     } else if (key == "shape") {
+      has_shape = true;
       shape = read_shape(input);
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
 
-    read(input, ',');
     skip_whitespace(input);
+    if (input.peek() != '}') {
+      read(input, ',');
+      skip_whitespace(input);
+    }
   }
 
   read(input, '}');
+  skip_whitespace(input);
+  if (input.peek() != EOF) {
+    throw std::runtime_error("Invalid NPY header: text after the dictionary");
+  }
+
+  if (!has_dtype || !has_order || !has_shape) {
+    throw std::runtime_error("Invalid NPY header: missing key");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
@@ -135,6 +160,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From 71b3b4f08cb613a5ed6c94e3579304efd43a3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 12/25] fix: saving a const tensor by path, or by element type
 and tensor template, did not compile

---
 include/npy/npy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 59ccec8..6c7d2be 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -275,7 +275,7 @@ void save(std::basic_ostream<CHAR> &output, const TENSOR<T> &tensor,
 /// @param tensor the tensor
 /// @param endianness the endianness to use in saving the tensor
 template <typename T>
-void save(const std::string &path, T &tensor,
+void save(const std::string &path, const T &tensor,
           endian_t endianness = npy::endian_t::NATIVE) {
   std::ofstream output(path, std::ios::out | std::ios::binary);
   if (!output.is_open()) {
@@ -292,7 +292,7 @@ void save(const std::string &path, T &tensor,
 /// @param tensor the tensor
 /// @param endianness the endianness to use in saving the tensor
 template <typename T, template <typename> class TENSOR>
-void save(const std::string &path, T &tensor,
+void save(const std::string &path, const TENSOR<T> &tensor,
           endian_t endianness = npy::endian_t::NATIVE) {
   save<TENSOR<T>>(path, tensor, endianness);
 };
-- 
2.43.0


From d52385a2af0c9a5ead786a7e091c1789b0f5d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 13/25] fix: an index with fewer components than the tensor has
 dimensions was read past its end

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 6c7d2be..b9eea20 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -996,6 +996,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From d1c88a84f70e21a73609e464d8db35684f513b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 14/25] fix: a shape whose product overflows was given a buffer
 smaller than its shape

---
 include/npy/npy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b9eea20..af707a1 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <limits>
 #include <locale>
 #include <map>
 #include <sstream>
@@ -1021,6 +1022,10 @@ private:
   static size_t get_size(const std::vector<size_t> &shape) {
     size_t size = 1;
     for (auto &dim : shape) {
+      if (size != 0 && dim > std::numeric_limits<size_t>::max() / size) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From 44dfbcfb41b5f8e3153752b8f20723d08035d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 15/25] fix: negative numbers converted to a false boolean

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index af707a1..3f05b79 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -109,7 +109,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From d3cdb7f81d16a8ce58957c06177719550bbd71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 16/25] fix: archive and file writers lost data silently when
 the disk refused it, or terminated the process

---
 include/npy/npy.h |  4 ++++
 src/npz.cpp       | 19 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 3f05b79..2cecb7e 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -284,6 +284,10 @@ void save(const std::string &path, const T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write " + path);
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..f08b3b4 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -371,6 +371,10 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
   output.write(compressed_bytes.data(), compressed_size);
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write to the NPZ file");
+  }
+
   entries.push_back(std::move(entry));
 }
 
@@ -440,8 +444,10 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
       m_endianness(endianness) {}
 
 npzstringwriter::~npzstringwriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // destructors must not throw: call close() to be told of errors
   }
 }
 
@@ -459,8 +465,8 @@ void npzstringwriter::write_file(const std::string &filename,
 
 void npzstringwriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
   }
 }
 
@@ -482,8 +488,10 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
       m_compression_method(compression), m_endianness(endianness) {}
 
 npzfilewriter::~npzfilewriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // destructors must not throw: call close() to be told of errors
   }
 }
 
@@ -501,9 +509,12 @@ void npzfilewriter::write_file(const std::string &filename,
 
 void npzfilewriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
     m_output.close();
+    if (m_output.fail()) {
+      throw std::runtime_error("Unable to write to the NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From 2ac7857b40bef17997541c57aeed04bf1c6fa9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 17/25] fix: entry sizes, offsets, counts and name lengths were
 truncated to the width of their fields

---
 src/npz.cpp | 34 +++++++++++++++++++++++++++-------
 src/zip.cpp |  3 +--
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index f08b3b4..b0b79bd 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -18,6 +18,7 @@ const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
 const int CD_END_SIZE = 22;
+const std::uint32_t LOCAL_HEADER_MAX_SIZE = 30 + 0xFFFF + 20;
 const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
@@ -25,6 +26,7 @@ const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
+const std::uint16_t ZIP64_COUNT_PLACEHOLDER = 0xFFFF;
 
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
@@ -333,13 +335,20 @@ void read_entries(std::istream &input,
 }
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
-  CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  std::uint64_t start = static_cast<std::uint64_t>(output.tellp());
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
+  std::uint64_t size = static_cast<std::uint64_t>(output.tellp()) - start;
+  if (start >= ZIP64_PLACEHOLDER || size >= ZIP64_PLACEHOLDER ||
+      entries.size() >= ZIP64_COUNT_PLACEHOLDER) {
+    throw std::runtime_error("NPZ archive is too large");
+  }
+
+  CentralDirectory dir;
+  dir.offset = static_cast<std::uint32_t>(start);
+  dir.size = static_cast<std::uint32_t>(size);
   dir.num_entries = static_cast<std::uint16_t>(entries.size());
   write_end_of_central_directory(output, dir);
 }
@@ -347,8 +356,8 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -356,7 +365,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -366,7 +375,18 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
+
+  if (filename.length() > 0xFFFF) {
+    throw std::invalid_argument("filename");
+  }
+
+  // the end of central directory record has no room for larger values
+  const std::uint64_t limit = ZIP64_PLACEHOLDER - LOCAL_HEADER_MAX_SIZE;
+  if (entries.size() + 1 >= ZIP64_COUNT_PLACEHOLDER || entry.offset > limit ||
+      compressed_size > limit - entry.offset) {
+    throw std::runtime_error("NPZ archive is too large");
+  }
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6b9bc70 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return ::crc32(crc, buf, bytes.size());
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From ab64e9c22fec32fc15fd2044cd9b1a518479f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 18/25] fix: contains did not find the names that read does

---
 src/npz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index b0b79bd..ea5f3ff 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -558,7 +558,7 @@ std::string npzstringreader::read_file(const std::string &filename) {
 }
 
 bool npzstringreader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzstringreader::peek(const std::string &filename) {
@@ -596,7 +596,7 @@ std::string npzfilereader::read_file(const std::string &filename) {
 }
 
 bool npzfilereader::contains(const std::string &filename) {
-  return m_entries.count(filename);
+  return m_entries.count(filename) || m_entries.count(filename + ".npy");
 }
 
 header_info npzfilereader::peek(const std::string &filename) {
-- 
2.43.0


From 94fe6fa906f87e2de804623e41aa47985e797662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 19/25] fix: entries of an unknown compression method or of the
 wrong size were returned

---
 src/npz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index ea5f3ff..f2e25fa 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -430,6 +430,12 @@ std::string read_file(std::istream &input,
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
     uncompressed_bytes = npy_inflate(std::move(uncompressed_bytes));
+  } else if (cmethod != compression_method_t::STORED) {
+    throw std::runtime_error("Unsupported compression method");
+  }
+
+  if (uncompressed_bytes.size() != entry.uncompressed_size) {
+    throw std::runtime_error("Size mismatch");
   }
 
   std::uint32_t actual_crc32 = npy_crc32(uncompressed_bytes);
-- 
2.43.0


From b4a6cb15ddd9115450c687db2d938c9be56f3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 20/25] fix: archive headers made up from bytes that could not
 be read were accepted

---
 src/npz.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index f2e25fa..88ea3fa 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -83,11 +83,18 @@ std::uint64_t read64(std::istream &stream) {
   return result;
 }
 
+void assert_read(std::istream &stream) {
+  if (stream.fail()) {
+    throw std::runtime_error("Unexpected end of NPZ file");
+  }
+}
+
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
   std::array<std::uint8_t, 4> actual;
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
+  assert_read(stream);
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
     printf("actual: [%d, %d, %d, %d]\n", actual[0], actual[1], actual[2],
@@ -228,6 +235,7 @@ npy::file_entry read_local_header(std::istream &stream) {
     read_zip64_extra(stream, entry, false);
   }
 
+  assert_read(stream);
   return entry;
 }
 
@@ -280,6 +288,7 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
     read_zip64_extra(stream, entry, true);
   }
 
+  assert_read(stream);
   return entry;
 }
 
@@ -314,6 +323,7 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   read16(stream); // num_entries_on_disk
   result.size = read32(stream);
   result.offset = read32(stream);
+  assert_read(stream);
   return result;
 }
 
@@ -426,6 +436,7 @@ std::string read_file(std::istream &input,
   uncompressed_bytes.resize(entry.compressed_size);
   input.read(reinterpret_cast<char *>(uncompressed_bytes.data()),
              uncompressed_bytes.size());
+  assert_read(input);
   compression_method_t cmethod =
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
-- 
2.43.0


From 7a0faa8c38bddf588964a21fa2ae8dfbd3786782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 21/25] fix: extra fields of other tools and entry comments
 made the archive reader fail or misread the next header

---
 src/npz.cpp | 52 +++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 88ea3fa..02e5fbd 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -89,6 +89,12 @@ void assert_read(std::istream &stream) {
   }
 }
 
+std::string read_bytes(std::istream &stream, std::uint16_t length) {
+  std::string bytes(length, '\0');
+  stream.read(&bytes[0], length);
+  return bytes;
+}
+
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
@@ -145,14 +151,22 @@ void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
   }
 }
 
-void read_zip64_extra(std::istream &stream, npy::file_entry &header,
+void read_zip64_extra(const std::string &extra, npy::file_entry &header,
                       bool include_offset) {
+  std::istringstream stream(extra);
   std::uint16_t tag = read16(stream);
-  if (tag != ZIP64_TAG) {
-    throw std::runtime_error("Invalid tag (expected ZIP64)");
+  std::uint16_t actual_size = read16(stream);
+  while (!stream.fail() && tag != ZIP64_TAG) {
+    // information for other tools
+    stream.seekg(actual_size, std::ios::cur);
+    tag = read16(stream);
+    actual_size = read16(stream);
+  }
+
+  if (stream.fail()) {
+    return;
   }
 
-  std::uint16_t actual_size = read16(stream);
   std::uint16_t expected_size = 0;
 
   if (header.uncompressed_size == ZIP64_PLACEHOLDER) {
@@ -170,14 +184,9 @@ void read_zip64_extra(std::istream &stream, npy::file_entry &header,
     expected_size += 8;
   }
 
-  if (actual_size < expected_size) {
+  if (stream.fail() || actual_size < expected_size) {
     throw std::runtime_error("ZIP64 extra info missing");
   }
-
-  if (actual_size > expected_size) {
-    // this can be the result of force_zip64 being set in Python's zipfile
-    stream.seekg(actual_size - expected_size, std::ios::cur);
-  }
 }
 
 void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
@@ -227,13 +236,9 @@ npy::file_entry read_local_header(std::istream &stream) {
 
   std::uint16_t filename_length = read_shared_header(stream, entry);
   std::uint16_t extra_field_length = read16(stream);
-  std::vector<char> buffer(filename_length);
-  stream.read(buffer.data(), filename_length);
-  entry.filename = std::string(buffer.begin(), buffer.end());
-
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, false);
-  }
+  entry.filename = read_bytes(stream, filename_length);
+  std::string extra = read_bytes(stream, extra_field_length);
+  read_zip64_extra(extra, entry, false);
 
   assert_read(stream);
   return entry;
@@ -274,19 +279,16 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   npy::file_entry entry;
   std::uint16_t filename_length = read_shared_header(stream, entry);
   std::uint16_t extra_field_length = read16(stream);
-  read16(stream); // file comment length
+  std::uint16_t file_comment_length = read16(stream);
   read16(stream); // disk number start
   read16(stream); // internal file attributes
   read32(stream); // external file attributes
   entry.offset = read32(stream);
 
-  std::vector<char> buffer(filename_length);
-  stream.read(buffer.data(), filename_length);
-  entry.filename = std::string(buffer.begin(), buffer.end());
-
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, true);
-  }
+  entry.filename = read_bytes(stream, filename_length);
+  std::string extra = read_bytes(stream, extra_field_length);
+  read_bytes(stream, file_comment_length);
+  read_zip64_extra(extra, entry, true);
 
   assert_read(stream);
   return entry;
-- 
2.43.0


From 9cf83722b5f1b8437902edbba6104d38415f1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 22/25] fix: a failed read made every later read of the archive
 fail

---
 src/npz.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 02e5fbd..af2a3c8 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -427,6 +427,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From 0877c68c9ede6cbdba16336df70f7d644ee4607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 23/25] fix: deflate errors were checked by assert only, and an
 exception leaked the codec state

---
 src/zip.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6b9bc70..049c6bf 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -30,6 +30,9 @@ std::string npy_deflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
 
   /* allocate deflate state */
   strm.zalloc = Z_NULL;
@@ -41,10 +44,6 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* compress until end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
@@ -79,12 +78,15 @@ std::string npy_deflate(std::string &&bytes) {
     assert(strm.avail_in == 0); /* all input will be used */
                                 /* done when last data in file processed */
   } while (flush != Z_FINISH);
-  assert(ret == Z_STREAM_END); /* stream will be complete */
 
   /* clean up and return */
   (void)deflateEnd(&strm);
 
-  return output.str();
+  if (ret == Z_STREAM_END) {
+    return output.str();
+  }
+
+  throw std::runtime_error("Error deflating stream");
 }
 
 std::string npy_inflate(std::string &&bytes) {
@@ -93,6 +95,10 @@ std::string npy_inflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
   /* allocate inflate state */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
@@ -104,10 +110,6 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* decompress until deflate stream ends or end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
-- 
2.43.0


From 742659762c86071897ead07ee55e2da1fb77e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 24/25] fix: the ZIP64 extra field of a written archive omitted
 its tag and size from the length

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index af2a3c8..6cb25e0 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -126,6 +126,10 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
+  if (length > 0) {
+    length += 4; // the tag and size which precede the values
+  }
+
   return length;
 }
 
-- 
2.43.0


From d68fccfb3691ac9ded29b6918b17e149565fc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 25/25] fix: inflate dropped unread input when the codec
 returned early, so large compressed entries failed to load

---
 src/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 049c6bf..83f6600 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -125,7 +125,8 @@ std::string npy_inflate(std::string &&bytes) {
 
     strm.next_in = in.data();
 
-    /* run inflate() on input until output buffer not full */
+    /* run inflate() until all of the input is used and the output buffer is
+       not full */
     do {
       strm.avail_out = CHUNK;
       strm.next_out = out.data();
@@ -146,7 +147,7 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+    } while (strm.avail_out == 0 || (ret == Z_OK && strm.avail_in > 0));
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0

