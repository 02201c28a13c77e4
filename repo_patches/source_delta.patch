From 37db8176d95d458297e9f0a35110022652bf28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 01/28] fix: write both bytes of the NPY header length

---
 include/npy/npy.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..59a2f41 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -210,9 +210,21 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
     end.back() = '\n';
   }
 
+  if (dict_length > 0xFFFF) {
+    throw std::invalid_argument("shape");
+  }
+
   const char header[STATIC_HEADER_LENGTH] = {
-      static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
+      static_cast<char>(0x93),
+      'N',
+      'U',
+      'M',
+      'P',
+      'Y',
+      0x01,
+      0x00,
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>(dict_length >> 8)};
   output.write(header, STATIC_HEADER_LENGTH);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
-- 
2.43.0


From 9c3468639dd91cc46a1ad3ff7eca5bf27a1801bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 02/28] fix: reject NPY streams with a bad signature, version
 or truncated header

---
 include/npy/npy.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 59a2f41..1234661 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -309,24 +309,34 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (input.fail() || header[0] != 0x93 || header[1] != 'N' ||
+      header[2] != 'U' || header[3] != 'M' || header[4] != 'P' ||
+      header[5] != 'Y') {
+    throw std::runtime_error("Invalid signature (Not a valid NPY file)");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
     std::uint8_t extra[2];
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    if (input.fail()) {
+      throw std::runtime_error("Unexpected end of NPY header");
+    }
+
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
-- 
2.43.0


From be98334ad6dc03120e440f951c9e4841d6887d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 03/28] fix: throw on malformed NPY header dictionaries in
 release builds

---
 src/npy.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..b519907 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -13,13 +13,17 @@ char BUFFER[BUFFER_SIZE];
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
-  assert(actual == expected);
+  if (input.fail() || actual != expected) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
-  assert(actual == expected);
+  std::string actual(BUFFER, BUFFER + input.gcount());
+  if (actual != expected) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
 }
 
 void skip_whitespace(std::istream &input) {
-- 
2.43.0


From b2d5817b4d090617da9ac7c12f3089008250a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 04/28] fix: reject NPY shapes that are not a tuple of unsigned
 integers

---
 src/npy.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index b519907..7024e8d 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -72,11 +72,17 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  while (tuple.peek() != std::char_traits<char>::eof()) {
+    if (!std::isdigit(tuple.peek()) || !(tuple >> size)) {
+      throw std::runtime_error("Invalid shape");
+    }
+
     shape.push_back(size);
     if (tuple.peek() == ',') {
       read(tuple, ',');
       skip_whitespace(tuple);
+    } else if (!tuple.eof()) {
+      throw std::runtime_error("Invalid shape");
     }
   }
 
-- 
2.43.0


From 6be21bf702df66b0131fe77a4c50018f98977ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 05/28] fix: reject malformed unicode dtype codes

---
 src/npy.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index 7024e8d..731eef3 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -102,7 +102,14 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      if (dtype_code.size() > 1 && dtype_code[1] == 'U') {
+        if ((dtype_code[0] != '<' && dtype_code[0] != '>') ||
+            dtype_code.size() < 3 ||
+            dtype_code.find_first_not_of("0123456789", 2) !=
+                std::string::npos) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
+
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
-- 
2.43.0


From bc09bcae5752a4696dcb4651b34ef63c335b4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 06/28] fix: leave no header_info member uninitialised

---
 src/npy.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index 731eef3..be04ad8 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -93,6 +93,9 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false;
+  bool has_fortran_order = false;
+  bool has_shape = false;
   read(input, '{');
   while (input.peek() != '}') {
     skip_whitespace(input);
@@ -101,6 +104,7 @@ header_info::header_info(const std::string &dictionary) {
     read(input, ':');
     skip_whitespace(input);
     if (key == "descr") {
+      has_descr = true;
       std::string dtype_code = read_string(input);
       if (dtype_code.size() > 1 && dtype_code[1] == 'U') {
         if ((dtype_code[0] != '<' && dtype_code[0] != '>') ||
@@ -120,8 +124,10 @@ header_info::header_info(const std::string &dictionary) {
       }
 
     } else if (key == "fortran_order") {
+      has_fortran_order = true;
       fortran_order = read_bool(input);
     } else if (key == "shape") {
+      has_shape = true;
       shape = read_shape(input);
     } else {
       throw std::runtime_error("Unsupported key: " + key);
@@ -132,6 +138,9 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Missing key in NPY header dictionary");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
@@ -140,6 +149,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From ca21ee33284a0cd62a33e44ee64a3a6e82efa5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 07/28] fix: reject unknown dtype codes instead of reading them
 as int8

---
 src/dtype.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..ea030a1 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -61,7 +61,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From d0d274dd32ec01a4d4f68dce697a5fe5e659737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 08/28] fix: throw when the NPY data ends before the tensor is
 complete

---
 include/npy/npy.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 1234661..4181020 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -771,6 +771,9 @@ public:
     }
 
     read_values(input, result.m_values.data(), result.m_values.size(), info);
+    if (input.fail()) {
+      throw std::runtime_error("Unexpected end of NPY data");
+    }
 
     return result;
   }
-- 
2.43.0


From 09525bf6088c7381ccd671c7f8f018168978cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 09/28] fix: keep the real part first when swapping the bytes
 of complex values

---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index ea030a1..ad7c626 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -421,14 +421,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -444,14 +444,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -465,14 +465,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -481,6 +473,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -496,14 +496,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -512,6 +504,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From 88189645d77e810710dad464410294a5c3f2d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 10/28] fix: keep embedded null characters of unicode elements

---
 src/dtype.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index ad7c626..fb5b748 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -559,10 +559,11 @@ template <>
 void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
                    size_t num_elements, const header_info &info) {
   std::wstring *ptr = data_ptr;
-  for (size_t i = 0; i < num_elements; ++i, ++ptr) {
+  for (size_t i = 0; i < num_elements && input; ++i, ++ptr) {
+    size_t length = 0;
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
-    for (size_t j = 0; j < info.max_element_length; ++j) {
+    for (size_t j = 0; j < info.max_element_length && input; ++j) {
       if (info.endianness == npy::endian_t::NATIVE ||
           info.endianness == native_endian()) {
         bytes[0] = GETC(input);
@@ -575,12 +576,14 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
-
       ptr->push_back(static_cast<wchar_t>(value));
+      if (value != 0) {
+        length = ptr->size();
+      }
     }
+
+    // only the trailing zeros are padding
+    ptr->resize(length);
   }
 }
 
-- 
2.43.0


From cde688e922e84d8bdc2fa27b844b51acb1e54508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 11/28] fix: count the tag and size of the ZIP64 extra field in
 its length

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..e7433b4 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -111,6 +111,10 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
+  if (length > 0) {
+    length += 4; // tag and size
+  }
+
   return length;
 }
 
-- 
2.43.0


From e525ccd6ff2f0bedf499a30c4c60b617af6e1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 12/28] fix: compute the CRC32 over all bytes of inputs larger
 than 4 GiB

---
 src/zip.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6b9bc70 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return ::crc32(crc, buf, bytes.size());
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From 6faecd5fc2361d8b90da4f2c6600d7f669cfc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 13/28] fix: do not truncate entry sizes, offsets, counts and
 names in NPZ archives

---
 src/npz.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index e7433b4..66cf98c 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -351,8 +351,8 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -360,7 +360,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -370,7 +370,21 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
+
+  // without ZIP64 end records the directory is limited to 16-bit counts and
+  // 32-bit offsets
+  const std::uint64_t max_record_size =
+      64 + 2 * static_cast<std::uint64_t>(filename.length());
+  if (filename.length() > 0xFFFF) {
+    throw std::invalid_argument("filename");
+  }
+
+  if (entries.size() >= 0xFFFF ||
+      compressed_size >= ZIP64_PLACEHOLDER - max_record_size ||
+      entry.offset >= ZIP64_PLACEHOLDER - max_record_size - compressed_size) {
+    throw std::runtime_error("NPZ archive is too large");
+  }
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
-- 
2.43.0


From 3bf4abc01e4833dfb6393a1d90ad2e423b4a514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 14/28] fix: return the tensor from npzfilereader::read<T,
 TENSOR>

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4181020..f4a81fd 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -669,7 +669,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From 11267399c1cb85dd58542e3bf5ae39c66678e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 15/28] fix: construct boolean from the truth value of its
 argument

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index f4a81fd..2f76269 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -107,7 +107,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From faf0bd841a17c43841dc60a6874de4036c4a19ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 16/28] fix: check the number of indices of unsigned
 multi-indexes

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 2f76269..65a25d8 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -1001,6 +1001,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From 34fe564e318b0603c33db6439483fad0b25e826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 17/28] fix: reject shapes whose element count overflows

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 65a25d8..b56169e 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -1026,6 +1026,10 @@ private:
   static size_t get_size(const std::vector<size_t> &shape) {
     size_t size = 1;
     for (auto &dim : shape) {
+      if (dim != 0 && size > SIZE_MAX / dim) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From 0977c2bdd2d327a937bcee7294c337cc4a7676d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 18/28] fix: do not share the header parsing buffer between
 threads

---
 src/npy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index be04ad8..a59c290 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,7 +8,7 @@
 
 namespace {
 const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
+thread_local char BUFFER[BUFFER_SIZE];
 
 void read(std::istream &input, char expected) {
   char actual;
-- 
2.43.0


From d5976e6f4ca00322c6328868b9ecefef89f4495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 19/28] fix: let NPZ reads succeed after an earlier read failed

---
 src/npz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 66cf98c..3270998 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,7 +84,7 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
@@ -409,6 +409,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier read may have hit the end of the stream
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From a4e359e8558ddce11f2d7b942be37b5c9a85e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 20/28] fix: report failed writes when saving to a path

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b56169e..9f88b59 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -288,6 +288,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (output.fail()) {
+    throw std::runtime_error("Error writing to file");
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
-- 
2.43.0


From 2083ffacbc3434213ca2ba70de17d98a87921651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 21/28] fix: reject text after the NPY header dictionary

---
 src/npy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index a59c290..cdf2f2b 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -138,6 +138,11 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  skip_whitespace(input);
+  if (input.peek() != std::char_traits<char>::eof()) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
+
   if (!has_descr || !has_fortran_order || !has_shape) {
     throw std::runtime_error("Missing key in NPY header dictionary");
   }
-- 
2.43.0


From b719affc114c12822f840b9324d0ce44dc4d7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 22/28] fix: inflate until no more output is produced, not
 until the buffer has room

---
 src/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6b9bc70..55df6b1 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -123,7 +123,8 @@ std::string npy_inflate(std::string &&bytes) {
 
     strm.next_in = in.data();
 
-    /* run inflate() on input until output buffer not full */
+    /* run inflate() on input until it produces no more output: it may hold
+       back output even when it has consumed all of the input */
     do {
       strm.avail_out = CHUNK;
       strm.next_out = out.data();
@@ -144,7 +145,7 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+    } while (ret == Z_OK && have > 0);
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0


From e40d6a37633eabdbb8d6da82119fb0f3b93c9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 23/28] fix: reject invalid Huffman codes in compressed data

---
 src/miniz/miniz.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 91c1abe..1078a94 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -497,7 +497,9 @@ const char *mz_error(int err)
     code_len = temp >> 9, temp &= 511; \
   else { \
     code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+  } \
+  if (!code_len) { TINFL_CR_RETURN_FOREVER(state_index + 40, TINFL_STATUS_FAILED); } \
+  sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -591,7 +593,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
         used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
         for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
-        if ((65536 != total) && (used_syms > 1))
+        if ((65536 != total) && ((used_syms > 1) || (total_syms[1] != used_syms)))
         {
           TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
         }
@@ -655,6 +657,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(70, TINFL_STATUS_FAILED); }
             counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
             if (counter & 256)
               break;
@@ -668,6 +671,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(71, TINFL_STATUS_FAILED); }
             bit_buf >>= code_len; num_bits -= code_len;
 
             pOut_buf_cur[0] = (mz_uint8)counter;
@@ -683,10 +687,12 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         }
         if ((counter &= 511) == 256) break;
 
+        if (counter > 285) { TINFL_CR_RETURN_FOREVER(72, TINFL_STATUS_FAILED); }
         num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
 
         TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
+        if (dist > 29) { TINFL_CR_RETURN_FOREVER(73, TINFL_STATUS_FAILED); }
         num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
-- 
2.43.0


From d663bfcb6a362d71e4b0ac823c7da6d1df826e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 24/28] fix: reject matches that reach before the start of the
 data

---
 src/miniz/miniz.cpp | 5 ++++-
 src/miniz/miniz.h   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 1078a94..2b8608c 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -341,6 +341,9 @@ int mz_inflate(mz_streamp pStream, int flush)
   {
     in_bytes = pStream->avail_in;
     out_bytes = TINFL_LZ_DICT_SIZE - pState->m_dict_ofs;
+    // Until the dictionary has been filled once, a match may not reach before its start.
+    if (pStream->total_out < TINFL_LZ_DICT_SIZE) decomp_flags |= TINFL_FLAG_NO_HISTORY;
+    else decomp_flags &= ~TINFL_FLAG_NO_HISTORY;
 
     status = tinfl_decompress(&pState->m_decomp, pStream->next_in, &in_bytes, pState->m_dict, pState->m_dict + pState->m_dict_ofs, &out_bytes, decomp_flags);
     pState->m_last_status = status;
@@ -697,7 +700,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
         dist_from_out_buf_start = pOut_buf_cur - pOut_buf_start;
-        if ((dist > dist_from_out_buf_start) && (decomp_flags & TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF))
+        if ((dist > dist_from_out_buf_start) && (decomp_flags & (TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF | TINFL_FLAG_NO_HISTORY)))
         {
           TINFL_CR_RETURN_FOREVER(37, TINFL_STATUS_FAILED);
         }
diff --git a/src/miniz/miniz.h b/src/miniz/miniz.h
index 00a2bf1..1d0e58f 100644
--- a/src/miniz/miniz.h
+++ b/src/miniz/miniz.h
@@ -733,12 +733,14 @@ void *mz_zip_extract_archive_file_to_heap(const char *pZip_filename, const char
 // TINFL_FLAG_HAS_MORE_INPUT: If set, there are more input bytes available beyond the end of the supplied input buffer. If clear, the input buffer contains all remaining input.
 // TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF: If set, the output buffer is large enough to hold the entire decompressed stream. If clear, the output buffer is at least the size of the dictionary (typically 32KB).
 // TINFL_FLAG_COMPUTE_ADLER32: Force adler-32 checksum computation of the decompressed bytes.
+// TINFL_FLAG_NO_HISTORY: If set, no output precedes the start of the output buffer, and matches reaching before it are rejected.
 enum
 {
   TINFL_FLAG_PARSE_ZLIB_HEADER = 1,
   TINFL_FLAG_HAS_MORE_INPUT = 2,
   TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF = 4,
-  TINFL_FLAG_COMPUTE_ADLER32 = 8
+  TINFL_FLAG_COMPUTE_ADLER32 = 8,
+  TINFL_FLAG_NO_HISTORY = 16
 };
 
 // High level decompression functions:
-- 
2.43.0


From db6b82bb60c67ccc8c2d2799b748d1bfc3ed0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 25/28] fix: reject NPZ entries and directories that extend
 past the end of the archive

---
 src/npz.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 3270998..59c8198 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -333,6 +333,10 @@ void read_entries(std::istream &input,
     keys.push_back(entry.filename);
   }
 
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of NPZ archive");
+  }
+
   std::sort(keys.begin(), keys.end());
 }
 
@@ -421,6 +425,10 @@ std::string read_file(std::istream &input,
   uncompressed_bytes.resize(entry.compressed_size);
   input.read(reinterpret_cast<char *>(uncompressed_bytes.data()),
              uncompressed_bytes.size());
+  if (input.fail()) {
+    throw std::runtime_error("Unexpected end of NPZ archive");
+  }
+
   compression_method_t cmethod =
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
-- 
2.43.0


From 5e9872369619796714cace028fdc9f1fd97add2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 26/28] fix: NPY headers do not depend on the global locale

---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 9f88b59..f23fbcd 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -184,6 +185,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic()); // no digit grouping
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index cdf2f2b..05d134c 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -67,6 +67,7 @@ bool read_bool(std::istream &input) {
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
+  tuple.imbue(std::locale::classic()); // no digit grouping
   read(input, ')');
 
   std::vector<size_t> shape;
-- 
2.43.0


From bf014ff5503e2bdc2dfe62b4b47ac7a4160ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:15 +0000
Subject: [PATCH 27/28] fix: check the index of tensor::shape

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index f23fbcd..b6621c6 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -917,7 +917,7 @@ public:
   /// read and write NPY files.
   /// @param index index into the shape
   /// @return the dimensionality at the index
-  size_t shape(int index) const { return m_shape[index]; }
+  size_t shape(int index) const { return m_shape.at(index); }
 
   /// @brief The number of dimensions of the tensor.
   /// @details This is one of the methods required by the library to
-- 
2.43.0


From c75148c74fbfe9af5e125ef85022b4bcfffdbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 28/28] fix: refuse DEFLATE blocks that declare too many codes

---
 src/miniz/miniz.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 2b8608c..8e9912a 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -586,6 +586,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
       else
       {
         for (counter = 0; counter < 3; counter++) { TINFL_GET_BITS(11, r->m_table_sizes[counter], "\05\05\04"[counter]); r->m_table_sizes[counter] += s_min_table_sizes[counter]; }
+        if ((r->m_table_sizes[0] > 286) || (r->m_table_sizes[1] > 30)) { TINFL_CR_RETURN_FOREVER(74, TINFL_STATUS_FAILED); }
         MZ_CLEAR_OBJ(r->m_tables[2].m_code_size); for (counter = 0; counter < r->m_table_sizes[2]; counter++) { mz_uint s; TINFL_GET_BITS(14, s, 3); r->m_tables[2].m_code_size[s_length_dezigzag[counter]] = (mz_uint8)s; }
         r->m_table_sizes[2] = 19;
       }
-- 
2.43.0

