From a4faa368944fa41cfec08f562896a76a5011f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 01/63] fix: JSON whitespace skipping reads past the end of the
 text

---
 src/rapidjson/rapidjson.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rapidjson/rapidjson.h b/src/rapidjson/rapidjson.h
index cc467ba..6bb380d 100644
--- a/src/rapidjson/rapidjson.h
+++ b/src/rapidjson/rapidjson.h
@@ -47,7 +47,8 @@ typedef unsigned __int64 uint64_t;
 // RAPIDJSON_SSE2/RAPIDJSON_SSE42/RAPIDJSON_SIMD
 
 // Enable SSE2 optimization.
-#define RAPIDJSON_SSE2
+// Off: the vectorised whitespace skipping reads up to 15 bytes past the end of the text.
+//#define RAPIDJSON_SSE2
 
 // Enable SSE4.2 optimization.
 //#define RAPIDJSON_SSE42
-- 
2.43.0


From 375d88ecfeb8a028c86dc440cdcd9cc4a0da86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 02/63] fix: JSON numbers outside the range of the field abort
 the process

---
 src/sofa/pbrpc/pbjson.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 341a907..566ee57 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -287,6 +287,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an integer in the range of the field");
+                }
                 if (repeated)
                 {
                     ref->AddInt32(msg, field, (int32_t) json->GetInt());
@@ -303,6 +307,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an integer in the range of the field");
+                }
                 if (repeated)
                 {
                     ref->AddUInt32(msg, field, json->GetUint());
@@ -319,6 +327,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an integer in the range of the field");
+                }
                 if (repeated)
                 {
                     ref->AddInt64(msg, field, json->GetInt64());
@@ -335,6 +347,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an integer in the range of the field");
+                }
                 if (repeated)
                 {
                     ref->AddUInt64(msg, field, json->GetUint64());
@@ -438,6 +454,8 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 const EnumValueDescriptor *ev = 0;
                 if (json->GetType() == rapidjson::kNumberType)
                 {
+                    if (!json->IsInt())
+                        RETURN_ERR(ERR_INVALID_JSON, "Enum value not found");
                     ev = ed->FindValueByNumber(json->GetInt());
                 }
                 else if (json->GetType() == rapidjson::kStringType)
-- 
2.43.0


From e249ea8cc0ee7ab8d3b83bf24fa1b658b617c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 03/63] fix: invalid base64 in a JSON bytes field terminates
 the process

---
 src/sofa/pbrpc/pbjson.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 566ee57..0a136b5 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -421,25 +421,22 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 std::string str_value(value, str_size);
                 if (field->type() == FieldDescriptor::TYPE_BYTES)
                 {
-                    if (repeated)
+                    try
                     {
-                        ref->AddString(msg, field, b64_decode(str_value));
+                        str_value = b64_decode(str_value);
                     }
-                    else
+                    catch (const std::runtime_error& e)
                     {
-                        ref->SetString(msg, field, b64_decode(str_value));
+                        RETURN_ERR(ERR_INVALID_JSON, e.what());
                     }
                 }
+                if (repeated)
+                {
+                    ref->AddString(msg, field, str_value);
+                }
                 else
                 {
-                    if (repeated)
-                    {
-                        ref->AddString(msg, field, str_value);
-                    }
-                    else
-                    {
-                        ref->SetString(msg, field, str_value);
-                    }
+                    ref->SetString(msg, field, str_value);
                 }
                 break;
             }
-- 
2.43.0


From d42fee0f8833892deb642a31710d5e67a07763f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 04/63] fix: deeply nested JSON text exhausts the stack

---
 src/rapidjson/reader.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index 25ef0e7..c488fc8 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -207,7 +207,7 @@ public:
 	/*! \param allocator Optional allocator for allocating stack memory. (Only use for non-destructive parsing)
 		\param stackCapacity stack capacity in bytes for storing a single decoded string.  (Only use for non-destructive parsing)
 	*/
-	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), parseError_(0), errorOffset_(0) {}
+	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), parseError_(0), errorOffset_(0), depth_(0) {}
 
 	//! Parse JSON text.
 	/*! \tparam parseFlags Combination of ParseFlag. 
@@ -221,6 +221,7 @@ public:
 	bool Parse(Stream& stream, Handler& handler) {
 		parseError_ = 0;
 		errorOffset_ = 0;
+		depth_ = 0;
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -258,17 +259,26 @@ public:
 	size_t GetErrorOffset() const { return errorOffset_; }
 
 private:
+	// Values nest by recursion: bound the depth, so that no text can exhaust the stack.
+	template<typename Stream>
+	void EnterNested(Stream& stream) {
+		if (++depth_ > kMaxDepth)
+			RAPIDJSON_PARSE_ERROR("Nested too deeply", stream.Tell() - 1);
+	}
+
 	// Parse object: { string : value, ... }
 	template<unsigned parseFlags, typename Stream, typename Handler>
 	void ParseObject(Stream& stream, Handler& handler) {
 		RAPIDJSON_ASSERT(stream.Peek() == '{');
 		stream.Take();	// Skip '{'
+		EnterNested(stream);
 		handler.StartObject();
 		SkipWhitespace(stream);
 
 		if (stream.Peek() == '}') {
 			stream.Take();
 			handler.EndObject(0);	// empty object
+			--depth_;
 			return;
 		}
 
@@ -294,7 +304,7 @@ private:
 
 			switch(stream.Take()) {
 				case ',': SkipWhitespace(stream); break;
-				case '}': handler.EndObject(memberCount); return;
+				case '}': handler.EndObject(memberCount); --depth_; return;
 				default:  RAPIDJSON_PARSE_ERROR("Must be a comma or '}' after an object member", stream.Tell());
 			}
 		}
@@ -305,12 +315,14 @@ private:
 	void ParseArray(Stream& stream, Handler& handler) {
 		RAPIDJSON_ASSERT(stream.Peek() == '[');
 		stream.Take();	// Skip '['
+		EnterNested(stream);
 		handler.StartArray();
 		SkipWhitespace(stream);
 
 		if (stream.Peek() == ']') {
 			stream.Take();
 			handler.EndArray(0); // empty array
+			--depth_;
 			return;
 		}
 
@@ -321,7 +333,7 @@ private:
 
 			switch (stream.Take()) {
 				case ',': SkipWhitespace(stream); break;
-				case ']': handler.EndArray(elementCount); return;
+				case ']': handler.EndArray(elementCount); --depth_; return;
 				default:  RAPIDJSON_PARSE_ERROR("Must be a comma or ']' after an array element.", stream.Tell());
 			}
 		}
@@ -670,6 +682,8 @@ private:
 	jmp_buf jmpbuf_;					//!< setjmp buffer for fast exit from nested parsing function calls.
 	const char* parseError_;
 	size_t errorOffset_;
+	static const unsigned kMaxDepth = 1000;	//!< Maximum nesting of objects and arrays.
+	unsigned depth_;	//!< Current nesting of objects and arrays.
 }; // class GenericReader
 
 //! Reader with UTF8 encoding and default allocator.
-- 
2.43.0


From dc28f1ad76a1818f1dc08512653f601e22cf6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 05/63] fix: the most negative JSON integers are taken as
 unsigned

---
 src/rapidjson/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index c488fc8..71757aa 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -648,13 +648,13 @@ private:
 		else {
 			if (try64bit) {
 				if (minus)
-					handler.Int64(-(int64_t)i64);
+					handler.Int64((int64_t)(~i64 + 1));
 				else
 					handler.Uint64(i64);
 			}
 			else {
 				if (minus)
-					handler.Int(-(int)i);
+					handler.Int((int)(~i + 1));
 				else
 					handler.Uint(i);
 			}
-- 
2.43.0


From b6a68ce1d4a4d6de94e17f78849b42b689ad3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 06/63] fix: json_escape_string leaves control characters
 unescaped

---
 src/sofa/pbrpc/string_utils.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/string_utils.cc b/src/sofa/pbrpc/string_utils.cc
index 6fd569f..deebe58 100644
--- a/src/sofa/pbrpc/string_utils.cc
+++ b/src/sofa/pbrpc/string_utils.cc
@@ -325,6 +325,8 @@ std::string StringUtils::xml_escape_string(const char* src, int src_len)
     return os.str();
 }
 
+#define XNUM_TO_DIGIT(x)        ("0123456789ABCDEF"[x])
+
 ////////////// json_escape ///////////////////////////////
 void StringUtils::json_escape_string(std::ostream& os, const char* src, int src_len)
 {
@@ -340,8 +342,16 @@ void StringUtils::json_escape_string(std::ostream& os, const char* src, int src_
             case '\n': os << "\\n"; break;
             case '\r': os << "\\r"; break;
             case '\t': os << "\\t"; break;
-            case '\0': os << "\\u0000"; break;
-            default: os << c;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20)
+                {
+                    // the other control characters must not be raw in a json string
+                    os << "\\u00" << XNUM_TO_DIGIT(c >> 4) << XNUM_TO_DIGIT(c & 0xf);
+                }
+                else
+                {
+                    os << c;
+                }
         }
     }
 }
@@ -358,7 +368,6 @@ std::string StringUtils::json_escape_string(const char* src, int src_len)
 #define URL_RESERVED_CHAR(c)    URL_CHR_TEST(c, E_URL_CHR_RESERVED)
 #define URL_UNSAFE_CHAR(c)      URL_CHR_TEST(c, E_URL_UNSAFE)
 
-#define XNUM_TO_DIGIT(x)        ("0123456789ABCDEF"[x])
 #define XDIGIT_TO_NUM(h)        ((h) < 'A' ? (h) - '0' : toupper(h) - 'A' + 10)
 #define X2DIGITS_TO_NUM(h1, h2) ((XDIGIT_TO_NUM (h1) << 4) + XDIGIT_TO_NUM (h2))
 
-- 
2.43.0


From bdd5f2e84eb8ea2154181512012ab9e862a1a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 07/63] fix: hex conversion reads outside its table for bytes
 above 0x7f

---
 src/sofa/pbrpc/bin2ascii.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/bin2ascii.h b/src/sofa/pbrpc/bin2ascii.h
index 7284ba0..42f32d2 100644
--- a/src/sofa/pbrpc/bin2ascii.h
+++ b/src/sofa/pbrpc/bin2ascii.h
@@ -42,8 +42,8 @@ inline std::string hex2bin(const std::string &s)
 	std::string r;
 	r.reserve(s.size() / 2);
 	for (size_t i = 0; i < s.size(); i += 2) {
-		char hi = lookup[(size_t)s[i]];
-		char lo = lookup[(size_t)s[i+1]];
+		char hi = lookup[(unsigned char)s[i]];
+		char lo = lookup[(unsigned char)s[i+1]];
 		if (0x80 & (hi | lo))
 			throw std::runtime_error("Invalid hex data: " + s.substr(i, 6));
 		r.push_back((hi << 4) | lo);
@@ -57,7 +57,7 @@ inline std::string bin2hex(const std::string &s)
 	std::string r;
 	r.reserve(s.size() * 2);
 	for (size_t i = 0; i < s.size(); i++) {
-		char hi = s[i] >> 4;
+		char hi = ((unsigned char)s[i]) >> 4;
 		char lo = s[i] & 0xf;
 		r.push_back(lookup[(size_t)hi]);
 		r.push_back(lookup[(size_t)lo]);
-- 
2.43.0


From 0bcc381bbed3dff85cde42bcc35d7784a26596ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 08/63] fix: a gzip input stream writes to its freed buffer
 when destroyed

---
 src/sofa/pbrpc/gzip_stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index ebc5189..4c1941b 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -81,13 +81,14 @@ GzipInputStream::GzipInputStream(
 }
 
 GzipInputStream::~GzipInputStream() {
-  operator delete(output_buffer_);
   // Back up input stream if there are unused bytes
   if (ExpectAtEnd() && zcontext_.avail_in > 0) {
     sub_stream_->BackUp(zcontext_.avail_in);
     zcontext_.avail_in = 0;
   }
   zerror_ = inflateEnd(&zcontext_);
+  // ExpectAtEnd() may still inflate into the output buffer
+  operator delete(output_buffer_);
 }
 
 static inline int internalInflateInit2(
-- 
2.43.0


From 0287ec8cd2be9b7a5fd62cd75feb4bea7bd67299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 09/63] fix: a successful flush of a gzip stream is reported as
 failed

---
 src/sofa/pbrpc/gzip_stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 4c1941b..25db132 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -357,7 +357,8 @@ bool GzipOutputStream::Flush() {
   do {
     zerror_ = Deflate(Z_FULL_FLUSH);
   } while (zerror_ == Z_OK);
-  return zerror_ == Z_OK;
+  // Flushing goes on until zlib has nothing left to do, which it reports as Z_BUF_ERROR.
+  return zerror_ == Z_OK || (zerror_ == Z_BUF_ERROR && zcontext_.avail_in == 0);
 }
 
 bool GzipOutputStream::Close() {
-- 
2.43.0


From cb0931188fe45c2c4015b130cd5e851d0b6850c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 10/63] fix: skipping in a snappy or LZ4 input stream aborts
 the process

---
 src/sofa/pbrpc/block_wrappers.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 465a78b..65da66a 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -38,9 +38,20 @@ BlockCompressionInputStream::~BlockCompressionInputStream() {
     delete[] _output_buffer;
 }
 
-bool BlockCompressionInputStream::Skip(int /*count*/) {
-    SCHECK(false);
-    return false;
+bool BlockCompressionInputStream::Skip(int count) {
+    const void* data;
+    int size;
+    while (count > 0) {
+        if (!Next(&data, &size)) {
+            return false;
+        }
+        if (size > count) {
+            BackUp(size - count);
+            size = count;
+        }
+        count -= size;
+    }
+    return true;
 };
 
 void BlockCompressionInputStream::BackUp(int count) {
-- 
2.43.0


From b669db7a50495ad91b5167f61f0a52bb87183730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 11/63] fix: data after the first member of a gzip stream is
 decompressed twice

---
 src/sofa/pbrpc/gzip_stream.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 25db132..8bd70e7 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -150,10 +150,6 @@ bool GzipInputStream::Next(const void** data, int* size) {
     return true;
   }
   if (zerror_ == Z_STREAM_END) {
-    // First backup stream
-    if (zcontext_.avail_in) {
-      sub_stream_->BackUp(zcontext_.avail_in);
-    }
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
       zerror_ = inflateEnd(&zcontext_);
-- 
2.43.0


From cb43621d01b9edfb95b4ff85ff332db274197214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 12/63] fix: destroying a flushed snappy or LZ4 output stream
 that got no data aborts

---
 src/sofa/pbrpc/block_wrappers.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 65da66a..e063d7e 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -132,8 +132,15 @@ void BlockCompressionOutputStream::BackUp(int count) {
 bool BlockCompressionOutputStream::Flush()
 {
     size_t size = BLOCKSIZE - _backed_up_bytes;
-    if (!_input_buffer || size == 0) return true;
-    
+    if (!_input_buffer) return true;
+    if (size == 0) {
+        // everything was backed up, nothing to write
+        _backed_up_bytes = 0;
+        delete[] _input_buffer;
+        _input_buffer = 0;
+        return true;
+    }
+
     size_t compressed_size = 0;
     char * compressed_data = new char[MaxCompressedLength(size)];
     compressed_size = RawCompress(_input_buffer, size, compressed_data);
-- 
2.43.0


From 376edff6a82e5d9503a181f8df5c80c370f7e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/63] fix: malformed snappy or LZ4 data aborts the process or
 gives blocks of negative size

---
 src/sofa/pbrpc/block_wrappers.cc | 30 +++++++++++++++++++++---------
 src/sofa/pbrpc/block_wrappers.h  |  8 +++++---
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index e063d7e..85d61a8 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -27,7 +27,7 @@ const size_t BLOCKSIZE = 64 * 1024;
 BlockCompressionInputStream::BlockCompressionInputStream(
     ZeroCopyInputStream* sub_stream)
     : _output_buffer(NULL), _output_buffer_size(0), _output_buffer_capacity(0),
-      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0) {
+      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0), _failed(false) {
     _raw_stream = sub_stream;
     _sub_stream = new CodedInputStream(_raw_stream);
     _sub_stream->SetTotalBytesLimit(1 << 30, 1 << 30);
@@ -78,19 +78,28 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
         return true;
     }
     
+    if (_failed) return false;
+
     uint32_t compressed_size = 0;
     if (!_sub_stream->ReadVarint32(&compressed_size) || compressed_size > 2*BLOCKSIZE) {
+        _failed = true;
         return false;
     }
 
     char * tempbuffer = new char[compressed_size];
     if (!_sub_stream->ReadRaw(tempbuffer, compressed_size)) {
         delete[] tempbuffer;
+        _failed = true;
         return false;
     }
 
-    RawUncompress(tempbuffer, compressed_size);
+    bool success = RawUncompress(tempbuffer, compressed_size);
     delete[] tempbuffer;
+    if (!success) {
+        _output_buffer_size = 0;
+        _failed = true;
+        return false;
+    }
 
     // TODO: probably call this only every Limit/BLOCKSIZE
     if (_sub_stream->BytesUntilLimit() < 1024*1024) reset_input_stream();
@@ -180,21 +189,21 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
 
 /// Snappy implementation
 
-void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     size_t uncompressed_size;
     bool success = ::snappy::GetUncompressedLength(
         input_buffer, compressed_size, &uncompressed_size);
-    SCHECK(success);
-    
+    // no snappy block expands by more than a factor of 64
+    if (!success || uncompressed_size / 64 > compressed_size) return false;
+
     if (uncompressed_size > _output_buffer_capacity) {
         delete[] _output_buffer;
         _output_buffer = new char[uncompressed_size];
         _output_buffer_capacity = uncompressed_size;
     }
     _output_buffer_size = uncompressed_size;
-    success = ::snappy::RawUncompress(input_buffer, compressed_size,
+    return ::snappy::RawUncompress(input_buffer, compressed_size,
         _output_buffer);
-    SCHECK(success);    
 }
 
 
@@ -217,13 +226,16 @@ uint32_t SnappyOutputStream::RawCompress(char* input_buffer, size_t input_size,
 
 /// LZ4 implementation
 
-void LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     if (!_output_buffer) {
         _output_buffer = new char[BLOCKSIZE];
         _output_buffer_capacity = BLOCKSIZE;
     }
-    _output_buffer_size = LZ4_uncompress_unknownOutputSize(input_buffer,
+    int uncompressed_size = LZ4_uncompress_unknownOutputSize(input_buffer,
         _output_buffer, compressed_size, BLOCKSIZE);
+    if (uncompressed_size < 0) return false;
+    _output_buffer_size = uncompressed_size;
+    return true;
 }
 
 uint32_t LZ4OutputStream::MaxCompressedLength(size_t input_size)
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 34637f5..800cc98 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -36,7 +36,8 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   bool ExpectAtEnd() { return true; }
 
  protected:
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
+  // Returns false if the block is malformed.
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
   
   char* _output_buffer;
   size_t _output_buffer_size;
@@ -49,6 +50,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
 
   int _backed_up_bytes;
   size_t _byte_count;
+  bool _failed;
 
   void reset_input_stream();
   
@@ -88,7 +90,7 @@ class SnappyInputStream : public BlockCompressionInputStream {
  public:
   explicit SnappyInputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
 
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(SnappyInputStream);
 };
@@ -110,7 +112,7 @@ class LZ4InputStream : public BlockCompressionInputStream {
 
   explicit LZ4InputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
   
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(LZ4InputStream);
 };
-- 
2.43.0


From 42b5b5ad204eee2c8510b37a8a01121c13c17649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 14/63] fix: an LZ4 match offset of zero yields uninitialized
 memory

---
 src/sofa/pbrpc/lz4.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/lz4.cc b/src/sofa/pbrpc/lz4.cc
index 5b18a01..59f433a 100644
--- a/src/sofa/pbrpc/lz4.cc
+++ b/src/sofa/pbrpc/lz4.cc
@@ -782,6 +782,7 @@ int LZ4_uncompress_unknownOutputSize(
 		// get offset
 		LZ4_READ_LITTLEENDIAN_16(ref,cpy,ip); ip+=2;
 		if (ref < (BYTE* const)dest) goto _output_error;   // Error : offset creates reference outside of destination buffer
+		if (ref >= op) goto _output_error;   // Error : offset 0 would give out uninitialized memory
 
 		// get matchlength
 		if ((length=(token&ML_MASK)) == ML_MASK) { while (ip<iend) { int s = *ip++; length +=s; if (s==255) continue; break; } }
-- 
2.43.0


From 28fb95ab7b957a77d9701ad1f57c6b189bb7a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 15/63] fix: timers fire early when the timer thread is behind

---
 src/sofa/pbrpc/timeout_manager_impl.cc | 3 ---
 src/sofa/pbrpc/timeout_manager_impl.h  | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 0a37d40..4a92c53 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -10,8 +10,6 @@ namespace pbrpc {
 TimeoutManagerImpl::TimeoutManagerImpl()
     : _is_running(false)
     , _epoch_time(ptime_now())
-    , _last_ticks(0)
-    , _rectify_ticks(time_duration_milliseconds(kTimerGranularity).ticks())
     , _next_id(1)
 {
 }
@@ -118,7 +116,6 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
 {
     if (!_is_running) return;
     int64 now_ticks = (now - _epoch_time).ticks();
-    _last_ticks = now_ticks;
 
     EventVec expired;
     {
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index af729dc..cef85c2 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -55,9 +55,11 @@ public:
 
 private:
     // Given interval in milli-seconds, calculate expiration ticks.
+    // Counts from now, not from the last run of the timer, which may be long ago.
     inline int64 calc_expiration(int64 interval)
     {
-        return _last_ticks + time_duration_milliseconds(interval).ticks() + _rectify_ticks;
+        return (ptime_now() - _epoch_time).ticks()
+            + time_duration_milliseconds(interval).ticks();
     }
 
     void timer_run(const PTime& now);
@@ -96,8 +98,6 @@ private:
     volatile bool _is_running;
     MutexLock _start_stop_lock;
     PTime _epoch_time;
-    volatile int64 _last_ticks; 
-    int64 _rectify_ticks;
 
     ThreadGroupImplPtr _thread_group;
     TimerWorkerPtr _timer_worker;
-- 
2.43.0


From e5e5bee9ecc584c23bf81002e2e6151e69bdb4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 16/63] fix: erasing a repeating timer while it is about to run
 frees a callback in use or fails

---
 src/sofa/pbrpc/timeout_manager_impl.cc | 37 ++++++++++++--------------
 src/sofa/pbrpc/timeout_manager_impl.h  |  5 +++-
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 4a92c53..28993fd 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -68,10 +68,7 @@ void TimeoutManagerImpl::clear()
         }
     }
     for (EventVec::iterator it = cleared.begin(); it != cleared.end(); ++it) {
-        Callback* callback = it->callback;
-        bool should_delete = !callback->IsSelfDelete();
-        callback->Run(it->id, TimeoutManager::CLEARED);
-        if (should_delete) delete callback;
+        it->callback->Run(it->id, TimeoutManager::CLEARED);
     }
 }
 
@@ -98,17 +95,17 @@ TimeoutManagerImpl::Id TimeoutManagerImpl::add_repeating(int64 interval, Callbac
 bool TimeoutManagerImpl::erase(Id id)
 {
     Callback* callback = NULL;
+    sofa::pbrpc::shared_ptr<Callback> holder;
     {
         ScopedLocker<MutexLock> _(_timeouts_lock);
         IdIndex& by_id = _timeouts.get<BY_ID>();
         IdIndex::iterator find = by_id.find(id);
         if (find == by_id.end()) return false;
         callback = find->callback;
+        holder = find->holder;
         by_id.erase(find);
     }
-    bool should_delete = !callback->IsSelfDelete();
     callback->Run(id, TimeoutManager::ERASED);
-    if (should_delete) delete callback;
     return true;
 }
 
@@ -126,26 +123,26 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
             expired.insert(expired.end(), by_expiration.begin(), exp_end);
             by_expiration.erase(by_expiration.begin(), exp_end);
         }
-    }
-
-    if (expired.empty()) return;
 
-    // Reinsert if repeating, do this before executing callbacks
-    // so the callbacks have a chance to call erase
-    EventVec repeated;
-    for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
-        if (it->repeat_interval >= 0) {
-            repeated.push_back(Event(it->id, calc_expiration(it->repeat_interval),
-                        it->repeat_interval, it->callback));
+        // Reinsert if repeating, do this before executing callbacks
+        // so the callbacks have a chance to call erase
+        for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+            if (it->repeat_interval >= 0) {
+                Event repeated(*it);
+                repeated.expiration = calc_expiration(it->repeat_interval);
+                _timeouts.insert(repeated);
+            }
         }
     }
-    if (!repeated.empty()) {
-        ScopedLocker<MutexLock> _(_timeouts_lock);
-        _timeouts.insert(repeated.begin(), repeated.end());
-    }
 
     // Execute callbacks
     for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+        if (it->repeat_interval >= 0) {
+            // may have been erased since by another callback or thread
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            IdIndex& by_id = _timeouts.get<BY_ID>();
+            if (by_id.find(it->id) == by_id.end()) continue;
+        }
         it->callback->Run(it->id, TimeoutManager::TIMEOUTED);
     }
 }
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index cef85c2..8a00c3d 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -70,8 +70,11 @@ private:
         int64 expiration;
         int64 repeat_interval;
         Callback* callback;
+        // Keeps the callback of a repeating event alive while it may be running.
+        sofa::pbrpc::shared_ptr<Callback> holder;
         Event(Id i, int64 e, int64 r, Callback* c)
-            : id(i), expiration(e), repeat_interval(r), callback(c) {}
+            : id(i), expiration(e), repeat_interval(r), callback(c)
+        { if (r >= 0) holder.reset(c); }
     };
 
     typedef boost::multi_index_container<
-- 
2.43.0


From 914442a73ebf8a94d683a1f88b26e6a500e9e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 17/63] fix: a long timed wait on a condition variable ends at
 once

---
 src/sofa/pbrpc/condition_variable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/condition_variable.h b/src/sofa/pbrpc/condition_variable.h
index 503745c..da59306 100644
--- a/src/sofa/pbrpc/condition_variable.h
+++ b/src/sofa/pbrpc/condition_variable.h
@@ -67,8 +67,9 @@ private:
     {
         timeval tv;
         gettimeofday(&tv, NULL);
-        int64 usec = tv.tv_usec + timeout_in_ms * 1000LL;
-        ts->tv_sec = tv.tv_sec + usec / 1000000;
+        // split off the seconds first, as a long timeout overflows in microseconds
+        int64 usec = tv.tv_usec + (timeout_in_ms % 1000) * 1000LL;
+        ts->tv_sec = tv.tv_sec + timeout_in_ms / 1000 + usec / 1000000;
         ts->tv_nsec = (usec % 1000000) * 1000;
     }
 private:
-- 
2.43.0


From fdc67e59eeecfa9b958e7e08fa06c1269f038680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 18/63] fix: a statistics query for a period of 2^31 seconds or
 more aborts the server

---
 src/sofa/pbrpc/service_pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 66a1aa1..57546bb 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -257,13 +257,14 @@ public:
 private:
     void GetRealPeriod(int64 expect_period, int64* real_period, int* slot_count)
     {
-        int sc = 1;
+        int64 sc = 1;
         if (expect_period > 1) {
             sc = (expect_period - 1) / STAT_SLOT_SECONDS + 1;
         }
-        sc = std::min(sc, STAT_SLOT_COUNT - 2);
+        // limit before narrowing, as the period is given by the peer
+        sc = std::min<int64>(sc, STAT_SLOT_COUNT - 2);
         *real_period = sc * STAT_SLOT_SECONDS;
-        *slot_count = sc;
+        *slot_count = static_cast<int>(sc);
     }
 
 private:
-- 
2.43.0


From 6e817b213b72490004bc92cb10e208869fb4aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 19/63] fix: calls that end at the same time are lost from the
 statistics

---
 src/sofa/pbrpc/service_pool.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 57546bb..87bc0fe 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -78,18 +78,14 @@ public:
     {
         volatile StatSlot* slot = &_stat_slots[_slot_index];
         if (succeed) {
-            ++slot->succeed_count;
-            slot->succeed_process_time += time_in_us;
-            if (slot->succeed_max_process_time < time_in_us) {
-                slot->succeed_max_process_time = time_in_us;
-            }
+            atomic_inc_ret_old64(&slot->succeed_count);
+            atomic_add_ret_old64(&slot->succeed_process_time, time_in_us);
+            UpdateMax(&slot->succeed_max_process_time, time_in_us);
         }
         else {
-            ++slot->failed_count;
-            slot->failed_process_time += time_in_us;
-            if (slot->failed_max_process_time < time_in_us) {
-                slot->failed_max_process_time = time_in_us;
-            }
+            atomic_inc_ret_old64(&slot->failed_count);
+            atomic_add_ret_old64(&slot->failed_process_time, time_in_us);
+            UpdateMax(&slot->failed_max_process_time, time_in_us);
         }
     }
 
@@ -145,6 +141,20 @@ public:
         stat_out->set_slot_id(stat.slot_id);
     }
 
+private:
+    // Calls end on many threads at a time.
+    static void UpdateMax(volatile int64* max, int64 value)
+    {
+        int64 old = *max;
+        while (old < value) {
+            int64 cur = __sync_val_compare_and_swap(max, old, value);
+            if (cur == old) {
+                break;
+            }
+            old = cur;
+        }
+    }
+
 private:
     ServiceBoard* _service_board;
     const google::protobuf::MethodDescriptor* _desc;
-- 
2.43.0


From 71e200151bc72bf15eec2291e70e87f04cea47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 20/63] fix: a Content-Length of 2^31 or more aborts the server
 or cuts the body

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..75bee0d 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(std::min(static_cast<int64>(data_size), bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From 1f552abf9662dbbd074faba3c9954e74b3fa411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 21/63] fix: servlets see every request as GET

---
 src/sofa/pbrpc/web_service.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/web_service.cc b/src/sofa/pbrpc/web_service.cc
index dc6e02f..8190672 100644
--- a/src/sofa/pbrpc/web_service.cc
+++ b/src/sofa/pbrpc/web_service.cc
@@ -212,6 +212,8 @@ bool WebService::RoutePage(
         static_cast<const HTTPRpcRequest*>(rpc_request.get());
 
     HTTPRequest request;
+    request.type = http_rpc_request->_type == HTTPRpcRequest::GET ?
+        HTTPRequest::GET : HTTPRequest::POST;
     request.path = http_rpc_request->_path;
     request.body = http_rpc_request->_req_body;
     request.headers = &http_rpc_request->_headers;
-- 
2.43.0


From 24e0fe2509b98be12c20cb5c8ae0735ce2c92337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 22/63] fix: HTTP requests without a space after the colon of a
 header are refused

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 75bee0d..3e80f95 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -178,13 +178,13 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
         _header_name.push_back(c);
         return 0;
     case PS_HEAD_COLON:
+        _state = PS_HEAD_VALUE;
         if (c == ' ')
         {
-            _state = PS_HEAD_VALUE;
             return 0;
         }
-        err = "expect space after \':\' in header key-value pair";
-        return -1;
+        // the space after ':' is optional, so this is already the value
+        return ParseInternal(c, err);
     case PS_HEAD_VALUE:
         if (c == '\r')
         {
-- 
2.43.0


From 7e01f94b42c71b9bef12d14c9489933f4884016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 23/63] fix: the length of an HTTP body is lost if the header
 is not spelled "Content-Length"

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 3e80f95..2387ca2 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -2,6 +2,8 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 
+#include <strings.h>
+
 #include <sofa/pbrpc/http_rpc_request_parser.h>
 
 namespace sofa {
@@ -11,6 +13,18 @@ const std::string HTTPRpcRequestParser::CONTENT_LENGTH = "Content-Length";
 const std::string HTTPRpcRequestParser::ACCEPT = "Accept";
 const std::string HTTPRpcRequestParser::ACCEPT_PROTOBUF = "application/protobuf";
 
+// Header names are case-insensitive.
+static std::map<std::string, std::string>::const_iterator FindHeader(
+        const std::map<std::string, std::string>& headers, const std::string& name)
+{
+    std::map<std::string, std::string>::const_iterator it = headers.begin();
+    while (it != headers.end() && strcasecmp(it->first.c_str(), name.c_str()) != 0)
+    {
+        ++it;
+    }
+    return it;
+}
+
 HTTPRpcRequestParser::HTTPRpcRequestParser() :
     _state(PS_METHOD),
     _content_length(0),
@@ -201,7 +215,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
         if (c == '\n')
         {
             std::map<std::string, std::string>::const_iterator it =
-                _req->_headers.find(CONTENT_LENGTH);
+                FindHeader(_req->_headers, CONTENT_LENGTH);
             if (it != _req->_headers.end())
             {
                 char* endptr = NULL;
@@ -213,7 +227,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
                 }
             }
 
-            it = _req->_headers.find(ACCEPT);
+            it = FindHeader(_req->_headers, ACCEPT);
             if (it != _req->_headers.end())
             {
                 if (it->second == ACCEPT_PROTOBUF)
-- 
2.43.0


From d487fad87f99dc5e0cea7d9233c317bfbdc5c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 24/63] fix: the error answer to an HTTP request is not valid
 JSON if the reason has special characters

---
 src/sofa/pbrpc/http_rpc_request.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 6286734..359e531 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -188,7 +188,7 @@ ReadBufferPtr HTTPRpcRequest::AssembleFailedResponse(
 {
     std::ostringstream oss;
     oss << "\"ERROR: " << error_code << ": "
-        << StringUtils::replace_all(reason, "\"", "\\\"") << "\"";
+        << StringUtils::json_escape_string(reason) << "\"";
 
     WriteBuffer write_buffer;
     if (!RenderResponse(&write_buffer, JSON, oss.str()))
-- 
2.43.0


From f7c2a0942f845ca811c9ceb035488ac5b78cea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 25/63] fix: an HTTP request in JSON that lacks required fields
 runs the method

---
 src/sofa/pbrpc/http_rpc_request.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 359e531..cbb4dde 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -114,7 +114,13 @@ void HTTPRpcRequest::ProcessRequest(
 
         std::string err;
         _req_json = ParseJson(json_str.c_str(), err);
-        if (_req_json == NULL || jsonobject2pb(_req_json, request, err) < 0)
+        bool parsed = _req_json != NULL && jsonobject2pb(_req_json, request, err) >= 0;
+        if (parsed && !request->IsInitialized())
+        {
+            err = "missing required fields: " + request->InitializationErrorString();
+            parsed = false;
+        }
+        if (!parsed)
         {
 #if defined( LOG )
             LOG(ERROR) << "ProcessRequest(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From 2cd9327f11f5aa411e2248ef9e149c3f9265598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 26/63] fix: JSON requests are read only up to the first zero
 byte

---
 src/sofa/pbrpc/http_rpc_request.cc | 11 ++++++++---
 src/sofa/pbrpc/http_rpc_request.h  |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index cbb4dde..9f91405 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -113,7 +113,7 @@ void HTTPRpcRequest::ProcessRequest(
         }
 
         std::string err;
-        _req_json = ParseJson(json_str.c_str(), err);
+        _req_json = ParseJson(json_str, err);
         bool parsed = _req_json != NULL && jsonobject2pb(_req_json, request, err) >= 0;
         if (parsed && !request->IsInitialized())
         {
@@ -347,11 +347,16 @@ bool HTTPRpcRequest::RenderResponse(
 }
 
 rapidjson::Document* HTTPRpcRequest::ParseJson(
-        const char* str,
+        const std::string& str,
         std::string& err)
 {
+    if (str.find('\0') != std::string::npos)
+    {
+        err = "zero byte in json";
+        return NULL;
+    }
     rapidjson::Document* d = new rapidjson::Document();
-    d->Parse<0>(str);
+    d->Parse<0>(str.c_str());
     if (d->HasParseError())
     {
         err = d->GetParseError();
diff --git a/src/sofa/pbrpc/http_rpc_request.h b/src/sofa/pbrpc/http_rpc_request.h
index d522d18..92492de 100644
--- a/src/sofa/pbrpc/http_rpc_request.h
+++ b/src/sofa/pbrpc/http_rpc_request.h
@@ -74,7 +74,7 @@ private:
             const HTTPResponse& response);
 
     static rapidjson::Document* ParseJson(
-            const char* str,
+            const std::string& str,
             std::string& err);
 
     void InnerProcess(
-- 
2.43.0


From d9efe40db06397e877181a629e8a61dfd9073945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 27/63] fix: json2pb reads the text only up to the first zero
 byte

---
 src/sofa/pbrpc/pbjson.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 0a136b5..505e25f 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -553,6 +553,11 @@ rapidjson::Value* pb2jsonobject(const google::protobuf::Message* msg, rapidjson:
 
 int json2pb(const std::string& json, google::protobuf::Message* msg, std::string& err)
 {
+    if (json.find('\0') != std::string::npos)
+    {
+        err = "zero byte in json";
+        return ERR_INVALID_JSON;
+    }
     rapidjson::Document d;
     d.Parse<0>(json.c_str());
     if (d.HasParseError())
-- 
2.43.0


From 674dd7329b32778b244c7481c0895abcc700240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 28/63] fix: the server drops requests whose timeout in
 microseconds overflows

---
 src/sofa/pbrpc/rpc_request.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_request.cc b/src/sofa/pbrpc/rpc_request.cc
index a08e369..a1e2fc6 100644
--- a/src/sofa/pbrpc/rpc_request.cc
+++ b/src/sofa/pbrpc/rpc_request.cc
@@ -39,7 +39,7 @@ void RpcRequest::CallMethod(
     {
         int64 server_wait_time_us =
             (time_now - cntl->RequestReceivedTime()).total_microseconds();
-        if (server_wait_time_us > cntl->ServerTimeout() * 1000)
+        if (server_wait_time_us / 1000 >= cntl->ServerTimeout())
         {
 #if defined( LOG )
         LOG(WARNING) << "CallMethod(): " << RpcEndpointToString(_remote_endpoint)
@@ -105,7 +105,7 @@ void RpcRequest::OnCallMethodDone(
     {
         int64 server_used_time_us =
             (cntl->FinishProcessTime() - cntl->RequestReceivedTime()).total_microseconds();
-        if (server_used_time_us > cntl->ServerTimeout() * 1000)
+        if (server_used_time_us / 1000 >= cntl->ServerTimeout())
         {
 #if defined( LOG )
         LOG(WARNING) << "OnCallMethodDone(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From 065813c9431f09caeb347367743f164de014351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 29/63] fix: a very long timeout of a call ends it at once

---
 src/sofa/pbrpc/rpc_controller_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_controller_impl.h b/src/sofa/pbrpc/rpc_controller_impl.h
index 36e9799..b59a009 100644
--- a/src/sofa/pbrpc/rpc_controller_impl.h
+++ b/src/sofa/pbrpc/rpc_controller_impl.h
@@ -288,8 +288,10 @@ public:
 
     void StartTimer()
     {
+        // longer than this is as good as infinite, and must not overflow the time
+        static const int64 max_timeout = 100LL * 365 * 24 * 3600 * 1000;
         int64 timeout = Timeout();
-        _expiration = timeout <= 0 ? ptime_infin()
+        _expiration = (timeout <= 0 || timeout > max_timeout) ? ptime_infin()
             : ptime_now() + time_duration_milliseconds(timeout);
     }
 
-- 
2.43.0


From 0875826fefebb8575c53bbfe5cddf9c3992dcd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 30/63] fix: a request header with an invalid meta size aborts
 the server

---
 src/sofa/pbrpc/binary_rpc_request_parser.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sofa/pbrpc/binary_rpc_request_parser.cc b/src/sofa/pbrpc/binary_rpc_request_parser.cc
index 879826c..6766f94 100644
--- a/src/sofa/pbrpc/binary_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/binary_rpc_request_parser.cc
@@ -76,6 +76,19 @@ int BinaryRpcRequestParser::Parse(const char* buf,
                 return 1;
             }
             // header complete
+            if (_req->_req_header.meta_size <= 0
+                    || _req->_req_header.meta_size > _req->_req_header.message_size)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "Parse(): " << RpcEndpointToString(_req->_remote_endpoint)
+                           << ": invalid meta size[" << _req->_req_header.meta_size << "]";
+#else
+                SLOG(ERROR, "Parse(): %s: invalid meta size[%d]",
+                        RpcEndpointToString(_req->_remote_endpoint).c_str(),
+                        _req->_req_header.meta_size);
+#endif
+                return -1;
+            }
             data_size -= consume;
             offset += consume;
             _state = PS_MSG_BODY;
-- 
2.43.0


From e299c2a79626262756879caa8f621b92bce7ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 31/63] fix: malformed data that makes protobuf stop parsing
 early aborts the process

---
 src/sofa/pbrpc/block_wrappers.cc |  9 +++++++--
 src/sofa/pbrpc/buffer.cc         | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 85d61a8..f17e2d0 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -5,6 +5,8 @@
 // Author: peter.waller@gmail.com (Peter Waller)
 // Author: johannes@ebke.org (Johannes Ebke)
 
+#include <algorithm>
+
 #include <google/protobuf/stubs/common.h>
 
 #include <google/protobuf/io/coded_stream.h>
@@ -56,8 +58,11 @@ bool BlockCompressionInputStream::Skip(int count) {
 
 void BlockCompressionInputStream::BackUp(int count) {
     if (count <= 0) return;
-    SCHECK(_output_buffer);
-    SCHECK_LE(static_cast<size_t>(count), _output_buffer_size - _backed_up_bytes);
+    // When protobuf stops parsing in the middle of malformed data, it may give back
+    // more than the last Next() returned; only the current block can be given back.
+    if (!_output_buffer) return;
+    count = static_cast<int>(std::min(static_cast<size_t>(count),
+                _output_buffer_size - _backed_up_bytes));
     _backed_up_bytes += count;
     _byte_count -= count;
 };
diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index 825aaae..8fbf75e 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -105,16 +105,23 @@ bool ReadBuffer::Next(const void** data, int* size)
 // "count" should be greater than or equal to 0.
 void ReadBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
-    SCHECK_LE(count, _last_bytes);
-    if (count > 0)
-    {
-        --_cur_it;
-        _cur_pos = _cur_it->size - count;
-    }
+    SCHECK_LE(count, _read_bytes);
     _last_bytes = 0;
     _read_bytes -= count;
+    // When protobuf stops parsing in the middle of malformed data, it may give back
+    // more than the last Next() returned, so the count may span several blocks.
+    while (count > 0)
+    {
+        if (_cur_pos == 0)
+        {
+            --_cur_it;
+            _cur_pos = _cur_it->size;
+        }
+        int size = std::min(count, _cur_pos);
+        _cur_pos -= size;
+        count -= size;
+    }
 }
 
 // "count" should be greater than or equal to 0.
-- 
2.43.0


From 6fc1336648ffe84980bbc11587f17ea36e60c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 32/63] fix: the profiling page runs shell commands taken from
 the query of the request

---
 src/sofa/pbrpc/profiling.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/sofa/pbrpc/profiling.cc b/src/sofa/pbrpc/profiling.cc
index 3cbbbc5..bd40c94 100644
--- a/src/sofa/pbrpc/profiling.cc
+++ b/src/sofa/pbrpc/profiling.cc
@@ -2,6 +2,7 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 
+#include <ctype.h>
 #include <limits.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -123,6 +124,20 @@ static bool IsFileExist(const std::string& path)
     }
 }
 
+// The names come from the query of the request and get into a shell command.
+static bool IsValidFileName(const std::string& name)
+{
+    for (size_t i = 0; i < name.size(); ++i)
+    {
+        unsigned char c = name[i];
+        if (!isalnum(c) && c != '.' && c != '_' && c != '-')
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 static std::string Exec(const std::string& cmd)
 {
     FILE* pipe = popen(cmd.c_str(), "r");
@@ -228,6 +243,12 @@ std::string Profiling::ProfilingPage(ProfilingType profiling_type,
         }
     }
 
+    if (!IsValidFileName(view_prof) || !IsValidFileName(base_prof))
+    {
+        oss << "<h2>invalid profiling file name</h2></html>";
+        return oss.str();
+    }
+
     switch (profiling_type)
     {
         case CPU:
-- 
2.43.0


From b67d31e62a19fab5a88492b3b940f6caeee5b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 33/63] fix: damaged compressed messages were taken for the
 part before the damage

---
 src/sofa/pbrpc/binary_rpc_request.cc |  3 ++-
 src/sofa/pbrpc/block_wrappers.cc     | 17 +++++++++++++----
 src/sofa/pbrpc/block_wrappers.h      |  3 ++-
 src/sofa/pbrpc/gzip_stream.cc        |  8 ++++++--
 src/sofa/pbrpc/gzip_stream.h         |  1 +
 src/sofa/pbrpc/rpc_client_impl.cc    |  3 ++-
 6 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/sofa/pbrpc/binary_rpc_request.cc b/src/sofa/pbrpc/binary_rpc_request.cc
index de571d5..de9740e 100644
--- a/src/sofa/pbrpc/binary_rpc_request.cc
+++ b/src/sofa/pbrpc/binary_rpc_request.cc
@@ -87,7 +87,8 @@ void BinaryRpcRequest::ProcessRequest(
     {
         sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(
                 get_compressed_input_stream(_req_body.get(), compress_type));
-        parse_request_return = request->ParseFromZeroCopyStream(is.get());
+        parse_request_return = request->ParseFromZeroCopyStream(is.get())
+            && is->ExpectAtEnd();
     }
     if (!parse_request_return)
     {
diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index f17e2d0..55386c5 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -29,7 +29,8 @@ const size_t BLOCKSIZE = 64 * 1024;
 BlockCompressionInputStream::BlockCompressionInputStream(
     ZeroCopyInputStream* sub_stream)
     : _output_buffer(NULL), _output_buffer_size(0), _output_buffer_capacity(0),
-      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0), _failed(false) {
+      _sub_stream(NULL), _backed_up_bytes(0), _byte_count(0), _failed(false),
+      _corrupt(false) {
     _raw_stream = sub_stream;
     _sub_stream = new CodedInputStream(_raw_stream);
     _sub_stream->SetTotalBytesLimit(1 << 30, 1 << 30);
@@ -85,16 +86,24 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
     
     if (_failed) return false;
 
+    const void* rest;
+    int rest_size;
+    if (!_sub_stream->GetDirectBufferPointer(&rest, &rest_size)) {
+        // the regular end, between two blocks
+        _failed = true;
+        return false;
+    }
+
     uint32_t compressed_size = 0;
     if (!_sub_stream->ReadVarint32(&compressed_size) || compressed_size > 2*BLOCKSIZE) {
-        _failed = true;
+        _failed = _corrupt = true;
         return false;
     }
 
     char * tempbuffer = new char[compressed_size];
     if (!_sub_stream->ReadRaw(tempbuffer, compressed_size)) {
         delete[] tempbuffer;
-        _failed = true;
+        _failed = _corrupt = true;
         return false;
     }
 
@@ -102,7 +111,7 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
     delete[] tempbuffer;
     if (!success) {
         _output_buffer_size = 0;
-        _failed = true;
+        _failed = _corrupt = true;
         return false;
     }
 
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 800cc98..41cfbce 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -33,7 +33,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   void BackUp(int count);
   bool Skip(int count);
   int64_t ByteCount() const { return _byte_count; }
-  bool ExpectAtEnd() { return true; }
+  bool ExpectAtEnd() { return !_corrupt; }
 
  protected:
   // Returns false if the block is malformed.
@@ -51,6 +51,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   int _backed_up_bytes;
   size_t _byte_count;
   bool _failed;
+  bool _corrupt;
 
   void reset_input_stream();
   
diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 8bd70e7..2db39f9 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -52,7 +52,7 @@ static const int kDefaultBufferSize = 65536;
 
 GzipInputStream::GzipInputStream(
     ZeroCopyInputStream* sub_stream, Format format, int buffer_size)
-    : format_(format), sub_stream_(sub_stream), zerror_(Z_OK) {
+    : format_(format), sub_stream_(sub_stream), zerror_(Z_OK), truncated_(false) {
   zcontext_.next_in = NULL;
   zcontext_.avail_in = 0;
   zcontext_.total_in = 0;
@@ -149,6 +149,8 @@ bool GzipInputStream::Next(const void** data, int* size) {
     DoNextOutput(data, size);
     return true;
   }
+  // in the middle of a compressed stream, the input must not end
+  bool inside = zerror_ != Z_STREAM_END && zcontext_.total_in > 0;
   if (zerror_ == Z_STREAM_END) {
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
@@ -169,6 +171,7 @@ bool GzipInputStream::Next(const void** data, int* size) {
   zerror_ = Inflate(Z_NO_FLUSH);
   if ((zerror_ == Z_STREAM_END) && (zcontext_.next_out == NULL)) {
     // The underlying stream's Next returned false inside Inflate.
+    truncated_ = inside;
     return false;
   }
   ok = (zerror_ == Z_OK) || (zerror_ == Z_STREAM_END)
@@ -181,6 +184,7 @@ bool GzipInputStream::Next(const void** data, int* size) {
 }
 
 bool GzipInputStream::ExpectAtEnd() {
+  if (truncated_) return false;
   if (zerror_ == Z_STREAM_END) return true;
   bool ok = (zerror_ == Z_OK) || (zerror_ == Z_BUF_ERROR);
   if (!ok) {
@@ -190,7 +194,7 @@ bool GzipInputStream::ExpectAtEnd() {
   int size = 0;
   while (size == 0) {
     bool ok = Next(&data, &size);
-    if (zerror_ == Z_STREAM_END) return true;
+    if (zerror_ == Z_STREAM_END) return !truncated_;
     if (!ok) {
       return false;
     }
diff --git a/src/sofa/pbrpc/gzip_stream.h b/src/sofa/pbrpc/gzip_stream.h
index e99d45c..4573cf9 100644
--- a/src/sofa/pbrpc/gzip_stream.h
+++ b/src/sofa/pbrpc/gzip_stream.h
@@ -113,6 +113,7 @@ class GzipInputStream : public AbstractCompressedInputStream {
 
   z_stream zcontext_;
   int zerror_;
+  bool truncated_;
 
   void* output_buffer_;
   void* output_position_;
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..340507f 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -448,7 +448,8 @@ void RpcClientImpl::DoneCallback(google::protobuf::Message* response,
         {
             ::sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(
                     get_compressed_input_stream(buffer.get(), compress_type));
-            parse_response_return = response->ParseFromZeroCopyStream(is.get());
+            parse_response_return = response->ParseFromZeroCopyStream(is.get())
+                && is->ExpectAtEnd();
         }
         if (!parse_response_return)
         {
-- 
2.43.0


From 7e230ffaa4affe8df8cbf28ba635a0738b9dc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 34/63] fix: a method that leaves its response incomplete could
 abort the server

---
 src/sofa/pbrpc/rpc_request.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_request.cc b/src/sofa/pbrpc/rpc_request.cc
index a1e2fc6..9054a3b 100644
--- a/src/sofa/pbrpc/rpc_request.cc
+++ b/src/sofa/pbrpc/rpc_request.cc
@@ -143,6 +143,22 @@ void RpcRequest::OnCallMethodDone(
 #endif
         SendFailedResponse(cntl->RpcServerStream(), cntl->ErrorCode(), cntl->Reason());
     }
+    else if (!response->IsInitialized())
+    {
+        // protobuf refuses to serialize it, possibly by aborting the process
+#if defined( LOG )
+        LOG(ERROR) << "OnCallMethodDone(): " << RpcEndpointToString(_remote_endpoint)
+                   << " {" << cntl->SequenceId() << "}"
+                   << ": call method \"" << cntl->MethodId() << "\": response misses required fields: "
+                   << response->InitializationErrorString();
+#else
+        SLOG(ERROR, "OnCallMethodDone(): %s {%lu}: call method \"%s\": response misses required fields: %s",
+                RpcEndpointToString(_remote_endpoint).c_str(), cntl->SequenceId(),
+                cntl->MethodId().c_str(), response->InitializationErrorString().c_str());
+#endif
+        SendFailedResponse(cntl->RpcServerStream(), RPC_ERROR_SERIALIZE_RESPONSE,
+                "response misses required fields: " + response->InitializationErrorString());
+    }
     else
     {
 #if defined( LOG )
-- 
2.43.0


From 4f0b751c411454dd9aa2d778995cf14fba6d0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 35/63] fix: calling with an incomplete request could abort the
 client

---
 src/sofa/pbrpc/rpc_client_impl.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 340507f..407c9a5 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -295,6 +295,21 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
         return;
     }
     header.meta_size = static_cast<int>(write_buffer.ByteCount() - header_pos - header_size);
+    if (!request->IsInitialized())
+    {
+        // protobuf refuses to serialize it, possibly by aborting the process
+#if defined( LOG )
+        LOG(ERROR) << "CallMethod(): " << RpcEndpointToString(cntl->RemoteEndpoint())
+                   << ": request misses required fields: " << request->InitializationErrorString();
+#else
+        SLOG(ERROR, "CallMethod(): %s: request misses required fields: %s",
+                RpcEndpointToString(cntl->RemoteEndpoint()).c_str(),
+                request->InitializationErrorString().c_str());
+#endif
+        cntl->Done(RPC_ERROR_SERIALIZE_REQUEST,
+                "request misses required fields: " + request->InitializationErrorString());
+        return;
+    }
     bool serialize_request_return = false;
     if (meta.compress_type() == CompressTypeNone)
     {
-- 
2.43.0


From f1b905d8404a940223f66ee12c9de646bb7d0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 36/63] fix: a response header with a negative size crashes or
 hangs the client

---
 src/sofa/pbrpc/rpc_message_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..436d1af 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,10 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < _receiving_header.meta_size
+                    || _receiving_header.message_size - _receiving_header.meta_size
+                            != _receiving_header.data_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From 067f872ac98f5ee4148f790a8979344dd9749092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 37/63] fix: a response that fails with code 0 aborts the
 client

---
 src/sofa/pbrpc/rpc_client_stream.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..3e16f8c 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -271,6 +271,19 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"reason\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+                // a failure must not be taken for a success without a response
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: failed without an error code";
+#else
+                SLOG(ERROR,  "on_received(): %s {%lu}: bad rpc meta: failed without an error code",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: failed without an error code");
+            }
             else
             {
                 cntl->Done(meta.error_code(), meta.reason());
-- 
2.43.0


From 4bf306971d8c42f3b40110187fec0f6d300e0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:58 +0000
Subject: [PATCH 38/63] fix: a connection closed while it is being set up comes
 back to life

---
 src/sofa/pbrpc/rpc_byte_stream.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..8bda70e 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -135,7 +135,11 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // already closed
+            return;
+        }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
         if (_connect_timeout > 0) 
@@ -407,7 +411,12 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING)
+                != STATUS_CONNECTING)
+        {
+            // closed in the meantime
+            return;
+        }
         _timer.cancel();
 
         trigger_receive();
-- 
2.43.0


From 37761e71242d8b0bb6b75b46c65372131d94cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 39/63] fix: calls, channels and callbacks of a client that is
 shut down crash or never end

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc |  2 +-
 src/sofa/pbrpc/rpc_client_impl.cc          | 55 +++++++++++++++++-----
 src/sofa/pbrpc/rpc_client_impl.h           |  9 +++-
 src/sofa/pbrpc/simple_rpc_channel_impl.cc  |  2 +-
 4 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 87be808..e237109 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -186,7 +186,7 @@ void DynamicRpcChannelImpl::CallMethod(
         cntl->SetFailed(choose_ret, "choose server failed in dynamic channel");
         CallDone(server, cntl);
         if (done != NULL) {
-            _client_impl->GetCallbackThreadGroup()->post(done);
+            _client_impl->PostCallback(done);
         }
         return;
     }
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 407c9a5..a91d22e 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -21,6 +21,7 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
     , _ticks_per_second(time_duration_seconds(1).ticks())
     , _last_maintain_ticks(0)
     , _last_print_connection_ticks(0)
+    , _is_callback_running(false)
 {
     _slice_count = std::max(1, 1000 / MAINTAIN_INTERVAL_IN_MS);
     _slice_quota_in = _options.max_throughput_in == -1 ?
@@ -74,6 +75,7 @@ void RpcClientImpl::Start()
     _callback_thread_group.reset(new ThreadGroupImpl(
                 _options.callback_thread_num, "sofa_pbrpc_client_callback_thread_group"));
     _callback_thread_group->start();
+    _is_callback_running = true;
 
     _work_thread_group.reset(new ThreadGroupImpl(
                 _options.work_thread_num, "sofa_pbrpc_client_work_thread_group"));
@@ -108,16 +110,17 @@ void RpcClientImpl::Stop()
     StopStreams();
     _work_thread_group->stop();
 
-    _timeout_manager.reset();
     _timer_worker.reset();
     ClearStreams();
+    {
+        ScopedLocker<FastLock> _2(_callback_lock);
+        _is_callback_running = false;
+    }
     _callback_thread_group->stop();
     _maintain_thread_group->stop();
 
-    _work_thread_group.reset();
-    _callback_thread_group.reset();
-    _maintain_thread_group.reset();
-    _flow_controller.reset();
+    // The thread groups, the timeout manager and the flow controller are kept until
+    // the destruction, because calls and channels may be using them concurrently.
 
 #if defined( LOG )
     LOG(INFO) << "Stop(): rpc client stopped";
@@ -224,6 +227,11 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
 
     // get the stream
     RpcClientStreamPtr stream = FindOrCreateStream(cntl->RemoteEndpoint());
+    if (!stream && !_is_running)
+    {
+        cntl->Done(RPC_ERROR_NOT_IN_RUNNING, "client not in running, should start it first");
+        return;
+    }
     if (!stream)
     {
 #if defined( LOG )
@@ -366,9 +374,18 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
     stream->call_method(cntl);
 }
 
-const ThreadGroupImplPtr& RpcClientImpl::GetCallbackThreadGroup() const
+void RpcClientImpl::PostCallback(google::protobuf::Closure* done)
 {
-    return _callback_thread_group;
+    {
+        ScopedLocker<FastLock> _(_callback_lock);
+        if (_is_callback_running)
+        {
+            _callback_thread_group->post(done);
+            return;
+        }
+    }
+    // no callback thread any more
+    done->Run();
 }
 
 bool RpcClientImpl::ResolveAddress(const std::string& address,
@@ -388,7 +405,7 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
         {
             stream = find->second;
         }
-        else
+        else if (_is_running) // else StopStreams() may already be over
         {
             stream.reset(new RpcClientStream(_work_thread_group->io_service(), remote_endpoint));
             stream->set_flow_controller(_flow_controller);
@@ -396,7 +413,8 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
             stream->reset_ticks((ptime_now() - _epoch_time).ticks(), true);
             stream->set_connect_timeout(_options.connect_timeout);
             stream->set_closed_stream_callback(
-                    boost::bind(&RpcClientImpl::OnClosed, shared_from_this(), _1));
+                    boost::bind(&RpcClientImpl::OnStreamClosed,
+                        sofa::pbrpc::weak_ptr<RpcClientImpl>(shared_from_this()), _1));
             stream->set_no_delay(_options.no_delay);
 
             _stream_map[remote_endpoint] = stream;
@@ -410,6 +428,16 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
     return stream;
 }
 
+void RpcClientImpl::OnStreamClosed(const sofa::pbrpc::weak_ptr<RpcClientImpl>& weak_client,
+        const RpcClientStreamPtr& stream)
+{
+    RpcClientImplPtr client = weak_client.lock();
+    if (client)
+    {
+        client->OnClosed(stream);
+    }
+}
+
 void RpcClientImpl::OnClosed(const RpcClientStreamPtr& stream)
 {
     if (!_is_running)
@@ -427,9 +455,12 @@ void RpcClientImpl::OnClosed(const RpcClientStreamPtr& stream)
 
 void RpcClientImpl::StopStreams()
 {
-    ScopedLocker<FastLock> _(_stream_map_lock);
-    for (StreamMap::iterator it = _stream_map.begin();
-            it != _stream_map.end(); ++it)
+    StreamMap streams;
+    {
+        ScopedLocker<FastLock> _(_stream_map_lock);
+        streams = _stream_map;
+    }
+    for (StreamMap::iterator it = streams.begin(); it != streams.end(); ++it)
     {
         it->second->close("client stopped");
     }
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..a4e5f8d 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -49,7 +49,8 @@ public:
             google::protobuf::Message* response,
             const RpcControllerImplPtr& cntl);
 
-    const ThreadGroupImplPtr& GetCallbackThreadGroup() const;
+    // Run the callback in the callback thread group, or at once if the client is stopped.
+    void PostCallback(google::protobuf::Closure* done);
 
     bool ResolveAddress(const std::string& address,
             RpcEndpoint* endpoint);
@@ -58,6 +59,10 @@ private:
     // Get stream for "remote_endpoint".  Return null ptr if failed.
     RpcClientStreamPtr FindOrCreateStream(const RpcEndpoint& remote_endpoint);
 
+    // A stream must not own the client, which owns the stream's io service.
+    static void OnStreamClosed(const sofa::pbrpc::weak_ptr<RpcClientImpl>& weak_client,
+            const RpcClientStreamPtr& stream);
+
     void OnClosed(const RpcClientStreamPtr& stream);
 
     void StopStreams();
@@ -109,6 +114,8 @@ private:
 
     ThreadGroupImplPtr _maintain_thread_group;
     ThreadGroupImplPtr _callback_thread_group;
+    bool _is_callback_running;
+    FastLock _callback_lock;
     ThreadGroupImplPtr _work_thread_group;
 
     TimerWorkerPtr _timer_worker;
diff --git a/src/sofa/pbrpc/simple_rpc_channel_impl.cc b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
index 4d672ed..88211dd 100644
--- a/src/sofa/pbrpc/simple_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
@@ -175,7 +175,7 @@ void SimpleRpcChannelImpl::DoneCallback(google::protobuf::Closure* done,
     else
     {
         SCHECK(done != NULL);
-        _client_impl->GetCallbackThreadGroup()->post(done);
+        _client_impl->PostCallback(done);
     }
 }
 
-- 
2.43.0


From 6c4ac1b357a0ac8d0ae0c28f2151ae5d46b4a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 40/63] fix: shutting down a client that is about to connect
 waits for the connection

---
 src/sofa/pbrpc/rpc_byte_stream.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index 8bda70e..57afd21 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -142,6 +142,13 @@ public:
         }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
+        if (is_closed())
+        {
+            // closed before the socket was opened, so the connecting must be stopped here
+            boost::system::error_code ec;
+            _socket.shutdown(tcp::socket::shutdown_both, ec);
+            return;
+        }
         if (_connect_timeout > 0) 
         {
             _timer.expires_from_now(boost::posix_time::milliseconds(_connect_timeout));
-- 
2.43.0


From 60fc20447b55741f3f1e70fd0ebe44983f900250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 41/63] fix: a call with a timeout of centuries is refused by
 the timeout manager

---
 src/sofa/pbrpc/rpc_controller_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_controller_impl.h b/src/sofa/pbrpc/rpc_controller_impl.h
index b59a009..5c43a75 100644
--- a/src/sofa/pbrpc/rpc_controller_impl.h
+++ b/src/sofa/pbrpc/rpc_controller_impl.h
@@ -291,8 +291,8 @@ public:
         // longer than this is as good as infinite, and must not overflow the time
         static const int64 max_timeout = 100LL * 365 * 24 * 3600 * 1000;
         int64 timeout = Timeout();
-        _expiration = (timeout <= 0 || timeout > max_timeout) ? ptime_infin()
-            : ptime_now() + time_duration_milliseconds(timeout);
+        _expiration = timeout <= 0 ? ptime_infin()
+            : ptime_now() + time_duration_milliseconds(std::min(timeout, max_timeout));
     }
 
     const PTime& Expiration() const
-- 
2.43.0


From 731132e269e01e9c109b98b70ef6cf20d87df867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 42/63] fix: calls see a closed connection before the reason
 for its end is there

---
 src/sofa/pbrpc/rpc_byte_stream.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index 57afd21..f8ac935 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -47,6 +47,7 @@ public:
         , _timer(io_service)
         , _socket(io_service)
         , _connect_timeout(-1)
+        , _closing(0)
         , _status(STATUS_INIT)
     {
         SOFA_PBRPC_INC_RESOURCE_COUNTER(RpcByteStream);
@@ -95,9 +96,11 @@ public:
     void close(const std::string& reason)
     {
         // should run for only once
-        if (atomic_swap(&_status, (int)STATUS_CLOSED) != STATUS_CLOSED)
+        if (atomic_swap(&_closing, 1) == 0)
         {
+            // the reason must be there before others see that the channel is closed
             snprintf(_error_message, sizeof(_error_message), "%s", reason.c_str());
+            atomic_swap(&_status, (int)STATUS_CLOSED);
             boost::system::error_code ec;
             _socket.shutdown(tcp::socket::shutdown_both, ec);
             on_closed();
@@ -229,7 +232,11 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // closed in the meantime
+            return;
+        }
         trigger_receive();
         trigger_send();
     }
@@ -447,6 +454,8 @@ private:
     tcp::socket _socket;
     int64 _connect_timeout;
 
+    volatile int _closing;
+
     enum {
         STATUS_INIT       = 0,
         STATUS_CONNECTING = 1,
-- 
2.43.0


From 3cffbe99423404acb4fc48e4f6611b0e91684c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 43/63] fix: a call with an empty request or response message
 aborts the process

---
 src/sofa/pbrpc/buffer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index 8fbf75e..8238a15 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -286,14 +286,17 @@ bool WriteBuffer::Next(void** data, int* size)
     return true;
 }
 
-// BackUp() can only be called after a successful Next().
+// BackUp() can only be called after a successful Next(), but protobuf also calls
+// it with 0 when there was nothing to write, as for an empty message.
 // "count" should be greater than or equal to 0.
 void WriteBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
     SCHECK_LE(count, _last_bytes);
-    _buf_list.back().size -= count;
+    if (count > 0)
+    {
+        _buf_list.back().size -= count;
+    }
     _last_bytes = 0;
     _write_bytes -= count;
 }
-- 
2.43.0


From 703523118bbff9a56acc12e1d932006c2337ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 44/63] fix: RpcListener: do not accept on an acceptor that is
 being closed

---
 src/sofa/pbrpc/rpc_listener.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index 5f7557c..b23e8c8 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -180,6 +180,10 @@ private:
         if (_create_callback)
             _create_callback(stream);
 
+        // the acceptor must not be closed meanwhile
+        ScopedLocker<MutexLock> _(_close_lock);
+        if (_is_closed)
+            return;
         _acceptor.async_accept(stream->socket(), boost::bind(
                     &RpcListener::on_accept, shared_from_this(), stream, _1));
     }
-- 
2.43.0


From 85719d1e4e552be2dd9ff169e03a66f72eec5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 45/63] fix: RpcServer: Stop does not deadlock with IsListening
 and the restart of the listener

---
 src/sofa/pbrpc/rpc_server_impl.cc | 29 +++++++++++++++++++----------
 src/sofa/pbrpc/rpc_server_impl.h  |  3 +++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..843e67b 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -81,9 +81,12 @@ bool RpcServerImpl::Start(const std::string& server_address)
     ScopedLocker<MutexLock> _(_start_stop_lock);
     if (_is_running) return true;
 
-    _flow_controller.reset(new FlowController(
-                _slice_quota_in == -1, _slice_quota_in,
-                _slice_quota_out == -1, _slice_quota_out));
+    {
+        ScopedLocker<MutexLock> _(_state_lock);
+        _flow_controller.reset(new FlowController(
+                    _slice_quota_in == -1, _slice_quota_in,
+                    _slice_quota_out == -1, _slice_quota_out));
+    }
 
     _maintain_thread_group.reset(new ThreadGroupImpl(
                 1, "sofa_pbrpc_server_maintain_thread_group"));
@@ -168,7 +171,10 @@ bool RpcServerImpl::Start(const std::string& server_address)
                     shared_from_this(), _service_pool, _options.disable_list_service));
     }
 
-    _is_running = true;
+    {
+        ScopedLocker<MutexLock> _(_state_lock);
+        _is_running = true;
+    }
 #if defined( LOG )
     LOG(INFO) << "Start(): rpc server started";
 #else
@@ -181,14 +187,17 @@ void RpcServerImpl::Stop()
 {
     ScopedLocker<MutexLock> _(_start_stop_lock);
     if (!_is_running) return;
-    _is_running = false;
 
     _timer_worker->stop();
-    _listener->close();
+    {
+        ScopedLocker<MutexLock> _(_state_lock);
+        _is_running = false;
+        _listener->close();
+        _listener.reset();
+    }
     StopStreams();
 
     _timer_worker.reset();
-    _listener.reset();
     ClearStreams();
     _io_service_pool->Stop();
     _maintain_thread_group->stop();
@@ -334,13 +343,13 @@ void RpcServerImpl::GetPendingStat(int64* pending_message_count,
 
 bool RpcServerImpl::IsListening()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> _(_state_lock);
     return _is_running && !_listener->is_closed();
 }
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> _(_state_lock);
     if (!_is_running)
     {
 #if defined( LOG )
@@ -482,7 +491,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _start_time).ticks();
 
     // check listener, if closed, then try to restart it every interval.
-    if (_listener->is_closed()
+    if (_is_running && !IsListening()
             && now_ticks - _last_restart_listen_ticks >= _restart_listen_interval_ticks)
     {
         _last_restart_listen_ticks = now_ticks;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..fcb2cee 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -98,6 +98,9 @@ private:
     RpcServer::EventHandler* _event_handler;
     volatile bool _is_running;
     MutexLock _start_stop_lock;
+    // Guards "_is_running", "_listener" and "_flow_controller".  It is never held
+    // while waiting for threads, so it can be used in the threads of the server.
+    MutexLock _state_lock;
 
     PTime _start_time;
     int64 _ticks_per_second;
-- 
2.43.0


From 8ce6a597a18d2a324ceeb609718b4e148925b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 46/63] fix: RpcServer: a connection accepted while the server
 stops is closed and not kept

---
 src/sofa/pbrpc/rpc_server_impl.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 843e67b..8e7d40a 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -426,8 +426,16 @@ void RpcServerImpl::OnAccepted(const RpcServerStreamPtr& stream)
     stream->set_max_pending_buffer_size(_max_pending_buffer_size);
     stream->reset_ticks((ptime_now() - _start_time).ticks(), true);
 
-    ScopedLocker<FastLock> _(_stream_set_lock);
-    _stream_set.insert(stream);
+    {
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        if (_is_running)
+        {
+            _stream_set.insert(stream);
+            return;
+        }
+    }
+    // stopped meanwhile
+    stream->close("server not running");
 }
 
 void RpcServerImpl::OnAcceptFailed(RpcErrorCode error_code, const std::string& error_text)
-- 
2.43.0


From c4ef98e4f102ca9b930116980c8705873b27c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 47/63] fix: RpcServer: ResetOptions works on a server that is
 not running

---
 src/sofa/pbrpc/rpc_server_impl.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8e7d40a..57a49e7 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -204,7 +204,10 @@ void RpcServerImpl::Stop()
 
     _io_service_pool.reset();
     _maintain_thread_group.reset();
-    _flow_controller.reset();
+    {
+        ScopedLocker<MutexLock> _(_state_lock);
+        _flow_controller.reset();
+    }
 
 #if defined( LOG )
     LOG(INFO) << "Stop(): rpc server stopped";
@@ -255,14 +258,20 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    FlowControllerPtr flow_controller;
+    {
+        ScopedLocker<MutexLock> _(_state_lock);
+        flow_controller = _flow_controller;
+    }
+
+    if (flow_controller && _slice_quota_in != old_slice_quota_in)
     {
-        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+        flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (flow_controller && _slice_quota_out != old_slice_quota_out)
     {
-        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+        flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
 
 #if defined( LOG )
-- 
2.43.0


From 81e616f227ea4bef6491b4fe0536370a28f2de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 48/63] fix: RpcServer: Start fails if its maintain thread
 cannot be started

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 57a49e7..6fec474 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -99,6 +99,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From b90d1e891076d9107a052cb8c9d2a68b8ebc42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 49/63] fix: RpcServer: starting again does not leak a built-in
 service

---
 src/sofa/pbrpc/rpc_server_impl.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 6fec474..fe17302 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -168,8 +168,13 @@ bool RpcServerImpl::Start(const std::string& server_address)
     _timer_worker->start();
 
     if (!_options.disable_builtin_services) {
-        _service_pool->RegisterService(new sofa::pbrpc::builtin::BuiltinServiceImpl(
-                    shared_from_this(), _service_pool, _options.disable_list_service));
+        google::protobuf::Service* builtin_service = new sofa::pbrpc::builtin::BuiltinServiceImpl(
+                shared_from_this(), _service_pool, _options.disable_list_service);
+        if (!_service_pool->RegisterService(builtin_service, true))
+        {
+            // registered by an earlier start
+            delete builtin_service;
+        }
     }
 
     {
-- 
2.43.0


From a416fde716645d0f3483dbfddbf65e974d58a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 50/63] fix: throughput limits above 20 GB/s overflow the quota
 of the flow controller and stall all connections

---
 src/sofa/pbrpc/rpc_client_impl.cc | 11 +++++++----
 src/sofa/pbrpc/rpc_server_impl.cc | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index a91d22e..f1bd0ce 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -13,6 +13,9 @@
 namespace sofa {
 namespace pbrpc {
 
+// The flow controller counts quota as int.
+static const int64 MAX_SLICE_QUOTA = 0x7fffffff;
+
 RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
     : _options(options)
     , _is_running(false)
@@ -25,9 +28,9 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
 {
     _slice_count = std::max(1, 1000 / MAINTAIN_INTERVAL_IN_MS);
     _slice_quota_in = _options.max_throughput_in == -1 ?
-        -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
-        -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -147,9 +150,9 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
     _options.keep_alive_time = options.keep_alive_time;
 
     _slice_quota_in = _options.max_throughput_in == -1 ?
-        -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
-        -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index fe17302..822b9c5 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -18,6 +18,9 @@
 namespace sofa {
 namespace pbrpc {
 
+// The flow controller counts quota as int.
+static const int64 MAX_SLICE_QUOTA = 0x7fffffff;
+
 RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
         RpcServer::EventHandler* handler)
     : _options(options)
@@ -37,9 +40,9 @@ RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
 
     _slice_count = std::max(1, 1000 / MAINTAIN_INTERVAL_IN_MS);
     _slice_quota_in = _options.max_throughput_in == -1 ?
-        -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
-        -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -247,9 +250,9 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
     _options.max_connection_count = options.max_connection_count;
 
     _slice_quota_in = _options.max_throughput_in == -1 ?
-        -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
-        -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+        -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
-- 
2.43.0


From e2a3aedb0209cc5680b97761cf0c3d0e8ea5e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 51/63] fix: RpcServer: lifting a throughput limit at run time
 leaves waiting connections stalled

---
 src/sofa/pbrpc/rpc_server_impl.cc | 22 +++++++++++++++++-----
 src/sofa/pbrpc/rpc_server_impl.h  |  3 +++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 822b9c5..fa6a2e8 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -43,6 +43,7 @@ RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
+    _flow_limited = _slice_quota_in != -1 || _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -258,6 +259,11 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
+    if (_slice_quota_in != -1 || _slice_quota_out != -1)
+    {
+        _flow_limited = true;
+    }
+
     if (_max_pending_buffer_size != old_max_pending_buffer_size)
     {
         ScopedLocker<FastLock> _(_stream_set_lock);
@@ -525,7 +531,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited)
     {
         StreamSet streams;
         {
@@ -558,10 +564,13 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_flow_limited)
         {
             // recharge quota pool
-            _flow_controller->recharge_read_quota(_slice_quota_in);
+            if (_slice_quota_in != -1)
+            {
+                _flow_controller->recharge_read_quota(_slice_quota_in);
+            }
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
@@ -593,10 +602,13 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_flow_limited)
         {
             // recharge quota pool
-            _flow_controller->recharge_write_quota(_slice_quota_out);
+            if (_slice_quota_out != -1)
+            {
+                _flow_controller->recharge_write_quota(_slice_quota_out);
+            }
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index fcb2cee..2f66766 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -112,6 +112,9 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    // If there was ever a throughput limit.  Streams which wait for quota have
+    // to be triggered also after the limit was lifted.
+    volatile bool _flow_limited;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
     int64 _restart_listen_interval_ticks;
-- 
2.43.0


From c52f22b7c17996fc9d38d8141e14c420c05886f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 52/63] fix: RpcClient: ResetOptions does not change the
 throughput limits, and lifting one stalls the connections

---
 src/sofa/pbrpc/rpc_client_impl.cc | 32 ++++++++++++++++++++++++++-----
 src/sofa/pbrpc/rpc_client_impl.h  |  3 +++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index f1bd0ce..fa30dac 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -31,6 +31,7 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count);
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
+    _flow_limited = _slice_quota_in != -1 || _slice_quota_out != -1;
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -158,6 +159,11 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
+    if (_slice_quota_in != -1 || _slice_quota_out != -1)
+    {
+        _flow_limited = true;
+    }
+
     if (_max_pending_buffer_size != old_max_pending_buffer_size)
     {
         ScopedLocker<FastLock> _(_stream_map_lock);
@@ -167,6 +173,16 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
+    {
+        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+    }
+
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
+    {
+        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
@@ -521,7 +537,7 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _flow_limited)
     {
         StreamMap streams;
         {
@@ -554,10 +570,13 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_flow_limited)
         {
             // recharge quota pool
-            _flow_controller->recharge_read_quota(_slice_quota_in);
+            if (_slice_quota_in != -1)
+            {
+                _flow_controller->recharge_read_quota(_slice_quota_in);
+            }
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
@@ -589,10 +608,13 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_flow_limited)
         {
             // recharge quota pool
-            _flow_controller->recharge_write_quota(_slice_quota_out);
+            if (_slice_quota_out != -1)
+            {
+                _flow_controller->recharge_write_quota(_slice_quota_out);
+            }
 
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index a4e5f8d..de8dea0 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -107,6 +107,9 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    // If there was ever a throughput limit.  Streams which wait for quota have
+    // to be triggered also after the limit was lifted.
+    volatile bool _flow_limited;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
 
-- 
2.43.0


From 69f4afd571ade22d1a7ef4046cf6bbbd0aeddc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 53/63] fix: RpcClient: ResetOptions passes the rest of its
 format string as an argument

---
 src/sofa/pbrpc/rpc_client_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index fa30dac..daf2e2e 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -204,7 +204,7 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
 #else
     SLOG(INFO, "ResetOptions(): quota_in=%lldMB/s(old %lldMB/s)"
             ", quota_out=%lldMB/s(old %lldMB/s)"
-            ", max_pending_buffer_size=%lldMB(old %lldMB)",
+            ", max_pending_buffer_size=%lldMB(old %lldMB)"
             ", keep_alive_time=%lldseconds(old %lldseconds)",
             _slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L),
             old_slice_quota_in == -1 ? -1 : old_slice_quota_in * _slice_count / (1024L * 1024L),
-- 
2.43.0


From 77ead4de6b5d4deca296cf3c7160e794354d1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 54/63] fix: IOServicePool: Stop destroys io services which
 other threads still use

---
 src/sofa/pbrpc/io_service_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index 1b1aaaa..4b73102 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -45,11 +45,12 @@ bool IOServicePool::Run()
 
 void IOServicePool::Stop()
 {
+    // The io services are kept until the destruction, because threads of the other
+    // groups or of the owner may still use them.
     size_t pool_size = _pool.size();
     for (size_t i = 0; i < pool_size; ++i)
     {
         _pool[i]->stop();
-        _pool[i].reset();
     }
 }
 
-- 
2.43.0


From e4ed0d3b0fd4f537c8ea7879579527bd1de02555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 55/63] fix: RpcServer::Stop destroys io services which streams
 in other threads still use

---
 src/sofa/pbrpc/rpc_byte_stream.h  | 8 ++++++++
 src/sofa/pbrpc/rpc_server_impl.cc | 8 ++++++++
 src/sofa/pbrpc/rpc_server_impl.h  | 2 ++
 3 files changed, 18 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index f8ac935..74892fe 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -241,6 +241,13 @@ public:
         trigger_send();
     }
 
+    // Set the holder, which is released only after the socket and the timer are destroyed,
+    // that is, when the stream does not need its io service any more.
+    void set_holder(const sofa::pbrpc::shared_ptr<int>& holder)
+    {
+        _holder = holder;
+    }
+
     // Get the socket.
     tcp::socket& socket()
     {
@@ -450,6 +457,7 @@ protected:
     size_t _write_buffer_base_block_factor;
 
 private:
+    sofa::pbrpc::shared_ptr<int> _holder; // must be destroyed after the following two
     deadline_timer _timer;
     tcp::socket _socket;
     int64 _connect_timeout;
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index fa6a2e8..61cdd85 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -106,6 +106,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
         return false;
     }
 
+    _stream_holder.reset(new int(0));
     _io_service_pool.reset(new IOServicePool(
                 _options.io_service_pool_size, _options.work_thread_num));
     _io_service_pool->set_init_func(_options.work_thread_init_func);
@@ -209,6 +210,12 @@ void RpcServerImpl::Stop()
 
     _timer_worker.reset();
     ClearStreams();
+    // Other threads may still use streams to send responses, and a stream
+    // must be destroyed before its io service.
+    while (!_stream_holder.unique())
+    {
+        usleep(1000);
+    }
     _io_service_pool->Stop();
     _maintain_thread_group->stop();
 
@@ -415,6 +422,7 @@ bool RpcServerImpl::RestartListen()
 
 void RpcServerImpl::OnCreated(const RpcServerStreamPtr& stream)
 {
+    stream->set_holder(_stream_holder);
     stream->set_flow_controller(_flow_controller);
     stream->set_received_request_callback(
             boost::bind(&RpcServerImpl::OnReceived, shared_from_this(), _1, _2));
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 2f66766..e8f6c8b 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -135,6 +135,8 @@ private:
     typedef std::set<RpcServerStreamPtr> StreamSet;
     StreamSet _stream_set;
     FastLock _stream_set_lock;
+    // Held by all streams which are not destroyed yet.
+    sofa::pbrpc::shared_ptr<int> _stream_holder;
 
     IOServicePoolPtr _io_service_pool;
 
-- 
2.43.0


From 28a66bd48f281581021848082652f8065f35c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 56/63] fix: a connection whose call took longer than the keep
 alive time is closed before the response is sent

---
 src/sofa/pbrpc/rpc_client_impl.cc  | 5 +++--
 src/sofa/pbrpc/rpc_request.cc      | 5 ++++-
 src/sofa/pbrpc/rpc_server_impl.cc  | 5 +++--
 src/sofa/pbrpc/rpc_server_stream.h | 1 +
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index daf2e2e..154191f 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -555,8 +555,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // the pending count first: it drops to zero only after the ticks were updated
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_request.cc b/src/sofa/pbrpc/rpc_request.cc
index 9054a3b..99c1b68 100644
--- a/src/sofa/pbrpc/rpc_request.cc
+++ b/src/sofa/pbrpc/rpc_request.cc
@@ -99,7 +99,6 @@ void RpcRequest::OnCallMethodDone(
         delete controller;
         return;
     }
-    stream->decrease_pending_process_count();
 
     if (cntl->ServerTimeout() > 0)
     {
@@ -121,6 +120,7 @@ void RpcRequest::OnCallMethodDone(
                 cntl->MethodId().c_str(), (cntl->ServerTimeout() * 1000),
                 server_used_time_us, process_time_us);
 #endif
+            stream->decrease_pending_process_count();
             delete request;
             delete response;
             delete controller;
@@ -170,6 +170,9 @@ void RpcRequest::OnCallMethodDone(
         SendSucceedResponse(cntl, response);
     }
 
+    // not earlier: the stream must not be taken as idle before the response is under way
+    stream->decrease_pending_process_count();
+
     delete request;
     delete response;
     delete controller;
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 61cdd85..2e60130 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -557,8 +557,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // the pending count first: it drops to zero only after the ticks were updated
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_stream.h b/src/sofa/pbrpc/rpc_server_stream.h
index 6946a9b..8ef7950 100644
--- a/src/sofa/pbrpc/rpc_server_stream.h
+++ b/src/sofa/pbrpc/rpc_server_stream.h
@@ -75,6 +75,7 @@ public:
     // Decrease pending process count.
     void decrease_pending_process_count()
     {
+        _last_rw_ticks = _ticks; // the time of being idle begins now
         --_pending_process_count;
     }
 
-- 
2.43.0


From cc39351a69a4a1b6599ec2bf25cc455e3b7a2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 57/63] fix: ResetOptions: setting a keep alive time closes
 connections which are in use

---
 src/sofa/pbrpc/rpc_client_impl.cc | 13 ++++++++++++-
 src/sofa/pbrpc/rpc_server_impl.cc | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 154191f..f654e1b 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -156,8 +156,19 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
-    _keep_alive_ticks = _options.keep_alive_time == -1 ?
+    int64 new_keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
+    if (old_keep_alive_ticks == -1 && new_keep_alive_ticks != -1)
+    {
+        // the ticks of the streams were not maintained until now
+        int64 now_ticks = (ptime_now() - _epoch_time).ticks();
+        ScopedLocker<FastLock> _(_stream_map_lock);
+        for (StreamMap::iterator it = _stream_map.begin(); it != _stream_map.end(); ++it)
+        {
+            it->second->reset_ticks(now_ticks, true);
+        }
+    }
+    _keep_alive_ticks = new_keep_alive_ticks;
 
     if (_slice_quota_in != -1 || _slice_quota_out != -1)
     {
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 2e60130..62d58db 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -263,8 +263,19 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         -1 : std::min(MAX_SLICE_QUOTA, std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count);
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
-    _keep_alive_ticks = _options.keep_alive_time == -1 ?
+    int64 new_keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
+    if (old_keep_alive_ticks == -1 && new_keep_alive_ticks != -1)
+    {
+        // the ticks of the streams were not maintained until now
+        int64 now_ticks = (ptime_now() - _start_time).ticks();
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        for (StreamSet::iterator it = _stream_set.begin(); it != _stream_set.end(); ++it)
+        {
+            (*it)->reset_ticks(now_ticks, true);
+        }
+    }
+    _keep_alive_ticks = new_keep_alive_ticks;
 
     if (_slice_quota_in != -1 || _slice_quota_out != -1)
     {
-- 
2.43.0


From 37f6d0e506f376653bca6b652c4d446dd2c1f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 58/63] fix: destroying a dynamic channel that was never
 initialized crashes

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index e237109..4cc0c3b 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -88,7 +88,10 @@ bool DynamicRpcChannelImpl::Init()
 void DynamicRpcChannelImpl::Stop()
 {
     // remove TimerDetect
-    _timeout_manager->erase(_timer_id);
+    if (_timeout_manager) {
+        // may be not inited yet
+        _timeout_manager->erase(_timer_id);
+    }
     {
         ScopedLocker<LockType> _(_detect_lock);
         _is_detect_disabled = true;
-- 
2.43.0


From e50883157cb209dbb41df36ee9b50a4eca553c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 59/63] fix: removing an address of a stopped dynamic channel
 with pending calls aborts

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 4cc0c3b..09ba4b4 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -118,6 +118,7 @@ void DynamicRpcChannelImpl::Stop()
         }
         _live_map.clear();
         _unlive_map.clear();
+        _added_set.clear();
     }
 
 #if defined( LOG )
-- 
2.43.0


From ce02fda4b2d59cc89ab20202614731e251667cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 60/63] fix: failed call to a removed server makes the server
 which was added again for its address unlive

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 20 +++++++++++---------
 src/sofa/pbrpc/dynamic_rpc_channel_impl.h  |  4 ++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 09ba4b4..6d2d039 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -162,7 +162,7 @@ void DynamicRpcChannelImpl::CallMethod(
                 SLOG(ERROR, "CallMethod(): init channel failed: [%s]",
                         server->server_address.c_str());
 #endif
-                MoveToUnlive(server->server_address, "init channel failed");
+                MoveToUnlive(server, "init channel failed");
                 choose_ret = RPC_ERROR_SERVER_UNAVAILABLE;
                 server.reset();
             }
@@ -369,7 +369,7 @@ void DynamicRpcChannelImpl::CallDone(
         if (cntl->Failed()) {
             server->is_last_request_succeed = false;
             if (server->is_in_live_map) {
-                MoveToUnlive(server->server_address, cntl->Reason());
+                MoveToUnlive(server, cntl->Reason());
             }
         }
         else {
@@ -484,15 +484,16 @@ RpcErrorCode DynamicRpcChannelImpl::ChooseServer(ServerContextPtr& choosed_serve
 }
 
 void DynamicRpcChannelImpl::MoveToUnlive(
-        const std::string& server_address,
+        const ServerContextPtr& server,
         const std::string& reason)
 {
+    const std::string& server_address = server->server_address;
     bool succeed = false;
     {
         ScopedLocker<LockType> _(_map_lock);
         ServerContextMap::iterator find = _live_map.find(server_address);
-        if (find != _live_map.end()) {
-            ServerContextPtr server = find->second;
+        // the address may be removed and added again, which is another server context
+        if (find != _live_map.end() && find->second == server) {
             _live_map.erase(find);
             server->is_in_live_map = false;
             _unlive_map[server_address] = server;
@@ -508,14 +509,15 @@ void DynamicRpcChannelImpl::MoveToUnlive(
     }
 }
 
-void DynamicRpcChannelImpl::MoveToLive(const std::string& server_address)
+void DynamicRpcChannelImpl::MoveToLive(const ServerContextPtr& server)
 {
+    const std::string& server_address = server->server_address;
     bool succeed = false;
     {
         ScopedLocker<LockType> _(_map_lock);
         ServerContextMap::iterator find = _unlive_map.find(server_address);
-        if (find != _unlive_map.end()) {
-            ServerContextPtr server = find->second;
+        // the address may be removed and added again, which is another server context
+        if (find != _unlive_map.end() && find->second == server) {
             _unlive_map.erase(find);
             server->is_in_live_map = true;
             _live_map[server_address] = server;
@@ -591,7 +593,7 @@ void DynamicRpcChannelImpl::DetectCallback(
     if (!server->is_removed && !server->is_in_live_map
             && !cntl->Failed() && response->health() == "OK") {
         // detect succeed
-        MoveToLive(server->server_address);
+        MoveToLive(server);
     }
     delete request;
     delete response;
diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.h b/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
index 616ce87..0755c8a 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
@@ -110,9 +110,9 @@ private:
 
     RpcErrorCode ChooseServer(ServerContextPtr& choosed_server, int try_num);
 
-    void MoveToUnlive(const std::string& server_address, const std::string& reason);
+    void MoveToUnlive(const ServerContextPtr& server, const std::string& reason);
 
-    void MoveToLive(const std::string& server_address);
+    void MoveToLive(const ServerContextPtr& server);
 
     void TimerDetect(TimeoutManager::Id id, TimeoutManager::Type type);
 
-- 
2.43.0


From 69a95325fc2fea688a5305eab14d5cd03bab1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 61/63] fix: server in dynamic channel whose address was not
 resolved once never becomes live again

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 6d2d039..cd7857c 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -560,8 +560,9 @@ void DynamicRpcChannelImpl::TimerDetect(
             // ignore
             continue;
         }
-        // init builtin service.
-        if (!server->InitBuiltinService(_options)) {
+        // init channel and builtin service.
+        if (!server->InitChannel(_client_impl, _options)
+                || !server->InitBuiltinService(_options)) {
             // init failed
 #if defined( LOG )
             LOG(WARNING) << "TimerDetect(): init builtin service failed: ["
-- 
2.43.0


From 3396601601c6feb55b7f0d522c9cac8c4620ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 62/63] fix: calls started at the same time, or while servers
 are unlive, exceed server_load_capacity

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 23 +++++++++++++++++++---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.h  |  4 ++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index cd7857c..c7b387d 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -162,6 +162,7 @@ void DynamicRpcChannelImpl::CallMethod(
                 SLOG(ERROR, "CallMethod(): init channel failed: [%s]",
                         server->server_address.c_str());
 #endif
+                ReleaseServer(server);
                 MoveToUnlive(server, "init channel failed");
                 choose_ret = RPC_ERROR_SERVER_UNAVAILABLE;
                 server.reset();
@@ -366,6 +367,7 @@ void DynamicRpcChannelImpl::CallDone(
     --_wait_count;
 
     if (server) {
+        ReleaseServer(server);
         if (cntl->Failed()) {
             server->is_last_request_succeed = false;
             if (server->is_in_live_map) {
@@ -399,8 +401,7 @@ RpcErrorCode DynamicRpcChannelImpl::ChooseServer(ServerContextPtr& choosed_serve
         for (ServerContextMap::const_iterator it = _live_map.begin();
                 it != _live_map.end(); ++it) {
             const ServerContextPtr& server = it->second;
-            // if channel is not inited, set wait_count as 0.
-            uint32 wait_count = server->is_channel_inited ? server->channel->WaitCount() : 0;
+            uint32 wait_count = server->wait_count;
             // compare by <wait_count,last_request_seq>
             if (wait_count < min_wait_count
                     || (wait_count == min_wait_count
@@ -431,17 +432,25 @@ RpcErrorCode DynamicRpcChannelImpl::ChooseServer(ServerContextPtr& choosed_serve
 
     // found in _live_map, return it.
     if (choosed_server) {
+        ++choosed_server->wait_count;
         return RPC_SUCCESS;
     }
 
     // then choose the channel in _unlive_map with minimal last_request_seq,
     // and prefer channel with last_request_succeed=true.
+    bool reached_capacity = false;
     if (!_unlive_map.empty()) {
         bool last_request_succeed = false;
         uint64 min_last_request_seq = kuint64max;
         for (ServerContextMap::const_iterator it = _unlive_map.begin();
                 it != _unlive_map.end(); ++it) {
             const ServerContextPtr& server = it->second;
+            if (_options.server_load_capacity > 0
+                    && server->wait_count >= _options.server_load_capacity) {
+                // exceed the load capacity
+                reached_capacity = true;
+                continue;
+            }
             if (last_request_succeed) {
                 if (server->is_last_request_succeed) {
                     if (server->last_request_seq < min_last_request_seq) {
@@ -467,6 +476,7 @@ RpcErrorCode DynamicRpcChannelImpl::ChooseServer(ServerContextPtr& choosed_serve
     }
     
     if (choosed_server) {
+        ++choosed_server->wait_count;
         return RPC_SUCCESS;
     }
     else {
@@ -479,10 +489,16 @@ RpcErrorCode DynamicRpcChannelImpl::ChooseServer(ServerContextPtr& choosed_serve
                 ", live_map_size=%u, unlive_map_size=%u",
                 try_num, _live_map.size(), _unlive_map.size());
 #endif
-        return RPC_ERROR_SERVER_UNAVAILABLE;
+        return reached_capacity ? RPC_ERROR_SERVER_BUSY : RPC_ERROR_SERVER_UNAVAILABLE;
     }
 }
 
+void DynamicRpcChannelImpl::ReleaseServer(const ServerContextPtr& server)
+{
+    ScopedLocker<LockType> _(_map_lock);
+    --server->wait_count;
+}
+
 void DynamicRpcChannelImpl::MoveToUnlive(
         const ServerContextPtr& server,
         const std::string& reason)
@@ -610,6 +626,7 @@ DynamicRpcChannelImpl::ServerContext::ServerContext(const std::string& server_ad
     is_channel_inited = false;
     is_builtin_service_inited = false;
     last_request_seq = 0;
+    wait_count = 0;
 }
 
 DynamicRpcChannelImpl::ServerContext::~ServerContext()
diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.h b/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
index 0755c8a..1d0e117 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.h
@@ -51,6 +51,7 @@ private:
         LockType builtin_service_init_lock;
         ::sofa::pbrpc::scoped_ptr<builtin::BuiltinService_Stub> builtin_service;
         uint64 last_request_seq; // the last request sequence number sent by this channel.
+        uint32 wait_count; // calls given to this server and not done yet, guarded by _map_lock.
 
         ServerContext(const std::string& server_address_);
         ~ServerContext();
@@ -108,8 +109,11 @@ private:
                        const RpcControllerImplPtr& cntl,
                        ::google::protobuf::Closure* done);
 
+    // If succeed, a call to the choosed server is counted until ReleaseServer().
     RpcErrorCode ChooseServer(ServerContextPtr& choosed_server, int try_num);
 
+    void ReleaseServer(const ServerContextPtr& server);
+
     void MoveToUnlive(const ServerContextPtr& server, const std::string& reason);
 
     void MoveToLive(const ServerContextPtr& server);
-- 
2.43.0


From c278b539aed77183d2321bb37fd92dbb778c5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 63/63] fix: http agent: reading the services again during
 calls uses freed descriptors

---
 src/sofa/pbrpc/http-agent/http_agent.cc | 105 ++++++++++++------------
 src/sofa/pbrpc/http-agent/http_agent.h  |  28 +++++--
 2 files changed, 75 insertions(+), 58 deletions(-)

diff --git a/src/sofa/pbrpc/http-agent/http_agent.cc b/src/sofa/pbrpc/http-agent/http_agent.cc
index 906da44..b46da80 100644
--- a/src/sofa/pbrpc/http-agent/http_agent.cc
+++ b/src/sofa/pbrpc/http-agent/http_agent.cc
@@ -19,15 +19,11 @@ HttpAgent::HttpAgent(RpcClient* rpc_client)
     : _rpc_client(rpc_client)
     , _rpc_channel(NULL)
     , _stub(NULL)
-    , _desc_pool(NULL)
-    , _msg_factory(NULL)
 {
 }
 
 HttpAgent::~HttpAgent()
 {
-    delete _msg_factory;
-    delete _desc_pool;
     delete _stub;
     delete _rpc_channel;
 }
@@ -53,52 +49,53 @@ bool HttpAgent::UpdateServiceInfo()
         return false;
     }
 
-    WriteLocker _(&_desc_lock);
-    if (_desc_pool != NULL) {
-        delete _desc_pool;
-        _desc_pool = NULL;
-        delete _msg_factory;
-        _msg_factory = NULL;
-        _svc_desc_map.clear();
-    }
-    _desc_pool = new ::google::protobuf::DescriptorPool();
+    ServiceInfoPtr info(new ServiceInfo());
     for (int i = 0; i < response.files_size(); ++i) {
         const ::google::protobuf::FileDescriptorProto& d = response.files(i);
-        const ::google::protobuf::FileDescriptor* fd = _desc_pool->BuildFile(d);
+        const ::google::protobuf::FileDescriptor* fd = info->desc_pool.BuildFile(d);
         if (fd == NULL) {
             SLOG(ERROR, "UpdateServiceInfo(): build file descriptor failed: %s", d.name().c_str());
-            delete _desc_pool;
-            _desc_pool = NULL;
-            return false;
+            info.reset();
+            break;
         }
         SLOG(INFO, "UpdateServiceInfo(): add file [%s]", d.name().c_str());
     }
-    for (int j = 0; j < response.services_size(); ++j) {
+    for (int j = 0; info && j < response.services_size(); ++j) {
         const std::string& s = response.services(j);
         SLOG(INFO, "UpdateServiceInfo(): add service [%s]", s.c_str());
-        const ::google::protobuf::ServiceDescriptor* sd = _desc_pool->FindServiceByName(s);
+        const ::google::protobuf::ServiceDescriptor* sd = info->desc_pool.FindServiceByName(s);
         if (sd == NULL) {
             SLOG(ERROR, "UpdateServiceInfo(): find service descriptor failed: %s", s.c_str());
-            delete _desc_pool;
-            _desc_pool = NULL;
-            return false;
+            info.reset();
+            break;
         }
-        _svc_desc_map[s] = sd;
+        info->svc_desc_map[s] = sd;
     }
-    _msg_factory = new ::google::protobuf::DynamicMessageFactory(_desc_pool);
-    return true;
+    if (info) {
+        info->msg_factory.reset(new ::google::protobuf::DynamicMessageFactory(&info->desc_pool));
+    }
+    // the old service info may still be used by pending calls
+    WriteLocker _(&_desc_lock);
+    _service_info.swap(info);
+    return _service_info.get() != NULL;
 }
 
-bool HttpAgent::ListService(std::map<std::string, ::google::protobuf::ServiceDescriptorProto>* service_map)
+HttpAgent::ServiceInfoPtr HttpAgent::GetServiceInfo()
 {
     ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    return _service_info;
+}
+
+bool HttpAgent::ListService(std::map<std::string, ::google::protobuf::ServiceDescriptorProto>* service_map)
+{
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "ListService(): descriptor pool not exist");
         return false;
     }
 
-    for (ServiceDescriptorMap::iterator it = _svc_desc_map.begin();
-            it != _svc_desc_map.end(); ++it) {
+    for (ServiceDescriptorMap::iterator it = info->svc_desc_map.begin();
+            it != info->svc_desc_map.end(); ++it) {
         const ::google::protobuf::ServiceDescriptor* sd = it->second;
         ::google::protobuf::ServiceDescriptorProto& sdp = (*service_map)[sd->full_name()];
         sd->CopyTo(&sdp);
@@ -108,14 +105,14 @@ bool HttpAgent::ListService(std::map<std::string, ::google::protobuf::ServiceDes
 
 bool HttpAgent::ListService(std::map<std::string, std::string>* desc_map)
 {
-    ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "ListService(): descriptor pool not exist");
         return false;
     }
 
-    for (ServiceDescriptorMap::iterator it = _svc_desc_map.begin();
-            it != _svc_desc_map.end(); ++it) {
+    for (ServiceDescriptorMap::iterator it = info->svc_desc_map.begin();
+            it != info->svc_desc_map.end(); ++it) {
         const ::google::protobuf::ServiceDescriptor* sd = it->second;
         (*desc_map)[sd->full_name()] = sd->DebugString();
     }
@@ -124,27 +121,27 @@ bool HttpAgent::ListService(std::map<std::string, std::string>* desc_map)
 
 bool HttpAgent::GetDescriptor(const std::string& name, ProtobufType* type, std::string* desc)
 {
-    ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "GetDescriptor(): descriptor pool not exist");
         return false;
     }
 
-    const ::google::protobuf::ServiceDescriptor* sd = _desc_pool->FindServiceByName(name);
+    const ::google::protobuf::ServiceDescriptor* sd = info->desc_pool.FindServiceByName(name);
     if (sd != NULL) {
         *type = PT_SERVICE;
         *desc = sd->DebugString();
         return true;
     }
 
-    const ::google::protobuf::Descriptor* d = _desc_pool->FindMessageTypeByName(name);
+    const ::google::protobuf::Descriptor* d = info->desc_pool.FindMessageTypeByName(name);
     if (d != NULL) {
         *type = PT_MESSAGE;
         *desc = d->DebugString();
         return true;
     }
 
-    const ::google::protobuf::EnumDescriptor* ed = _desc_pool->FindEnumTypeByName(name);
+    const ::google::protobuf::EnumDescriptor* ed = info->desc_pool.FindEnumTypeByName(name);
     if (ed != NULL) {
         *type = PT_ENUM;
         *desc = ed->DebugString();
@@ -176,7 +173,11 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         return;
     }
 
-    if (_desc_pool == NULL && !UpdateServiceInfo()) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info && UpdateServiceInfo()) {
+        info = GetServiceInfo();
+    }
+    if (!info) {
         SLOG(ERROR, "CallMethod(): fetch service descriptor from server failed");
         cntl->SetFailed(RPC_ERROR_CREATE_STREAM, "fetch service descriptor from server failed");
         if (done != NULL) done->Run();
@@ -192,9 +193,8 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         return;
     }
 
-    ReadLocker _(&_desc_lock);
-    ServiceDescriptorMap::iterator find = _svc_desc_map.find(service_full_name);
-    if (find ==  _svc_desc_map.end()) {
+    ServiceDescriptorMap::iterator find = info->svc_desc_map.find(service_full_name);
+    if (find == info->svc_desc_map.end()) {
         SLOG(ERROR, "CallMethod(): service not found: %s", service_full_name.c_str());
         cntl->SetFailed(RPC_ERROR_FOUND_SERVICE, "service not found");
         if (done != NULL) done->Run();
@@ -210,7 +210,7 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
     }
     const ::google::protobuf::Descriptor* id = md->input_type();
     const ::google::protobuf::Descriptor* od = md->output_type();
-    ::google::protobuf::Message* request_message = _msg_factory->GetPrototype(id)->New();
+    ::google::protobuf::Message* request_message = info->msg_factory->GetPrototype(id)->New();
     std::string request_str = StringUtils::trim(*request);
     bool parse_failed = false;
     if (request_str.size() > 0 && request_str[0] == '{') {
@@ -243,7 +243,11 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         if (done != NULL) done->Run();
         return;
     }
-    ::google::protobuf::Message* response_message = _msg_factory->GetPrototype(od)->New();
+    ::google::protobuf::Message* response_message = info->msg_factory->GetPrototype(od)->New();
+    CallContext* context = new CallContext();
+    context->info = info;
+    context->request_message.reset(request_message);
+    context->response_message.reset(response_message);
     ::google::protobuf::Closure* real_done = NULL;
     if (done == NULL) {
         // sync call
@@ -252,7 +256,7 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
     else {
         // async call
         real_done = NewClosure(&HttpAgent::CallMethodDone,
-                cntl, response, request_message, response_message, done);
+                cntl, response, context, done);
     }
     _rpc_channel->CallMethod(md, controller, request_message, response_message, real_done);
     if (done == NULL) {
@@ -263,25 +267,22 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
                 cntl->SetFailed(RPC_ERROR_SERIALIZE_RESPONSE, "print response message failed");
             }
         }
-        delete request_message;
-        delete response_message;
+        delete context;
     }
 }
 
 void HttpAgent::CallMethodDone(const RpcControllerImplPtr& cntl,
                                std::string* response,
-                               ::google::protobuf::Message* request_message,
-                               ::google::protobuf::Message* response_message,
+                               CallContext* context,
                                ::google::protobuf::Closure* done)
 {
     if (!cntl->Failed()) {
-        if (!::google::protobuf::TextFormat::PrintToString(*response_message, response)) {
+        if (!::google::protobuf::TextFormat::PrintToString(*context->response_message, response)) {
             SLOG(ERROR, "CallMethod(): print response message failed");
             cntl->SetFailed(RPC_ERROR_SERIALIZE_RESPONSE, "print response message failed");
         }
     }
-    delete request_message;
-    delete response_message;
+    delete context;
     done->Run();
 }
 
diff --git a/src/sofa/pbrpc/http-agent/http_agent.h b/src/sofa/pbrpc/http-agent/http_agent.h
index 8c46c3a..478f579 100644
--- a/src/sofa/pbrpc/http-agent/http_agent.h
+++ b/src/sofa/pbrpc/http-agent/http_agent.h
@@ -54,10 +54,29 @@ public:
                     ::google::protobuf::Closure* done);
 
 private:
+    typedef std::map<std::string, const ::google::protobuf::ServiceDescriptor*> ServiceDescriptorMap;
+
+    // Service info of the server, which is kept until all the messages made of it are deleted.
+    struct ServiceInfo
+    {
+        ::google::protobuf::DescriptorPool desc_pool;
+        sofa::pbrpc::scoped_ptr< ::google::protobuf::MessageFactory> msg_factory;
+        ServiceDescriptorMap svc_desc_map;
+    };
+    typedef sofa::pbrpc::shared_ptr<ServiceInfo> ServiceInfoPtr;
+
+    ServiceInfoPtr GetServiceInfo();
+
+    struct CallContext
+    {
+        ServiceInfoPtr info;
+        sofa::pbrpc::scoped_ptr< ::google::protobuf::Message> request_message;
+        sofa::pbrpc::scoped_ptr< ::google::protobuf::Message> response_message;
+    };
+
     static void CallMethodDone(const sofa::pbrpc::shared_ptr<RpcControllerImpl>& cntl,
                                std::string* response,
-                               ::google::protobuf::Message* request_message,
-                               ::google::protobuf::Message* response_message,
+                               CallContext* context,
                                ::google::protobuf::Closure* done);
 
     bool ParseMethodFullName(const std::string& method_full_name,
@@ -70,10 +89,7 @@ private:
     std::string _server_address;
 
     RWLock _desc_lock;
-    ::google::protobuf::DescriptorPool* _desc_pool;
-    ::google::protobuf::MessageFactory* _msg_factory;
-    typedef std::map<std::string, const ::google::protobuf::ServiceDescriptor*> ServiceDescriptorMap;
-    ServiceDescriptorMap _svc_desc_map;
+    ServiceInfoPtr _service_info;
 };
 
 } // namespace http_agent
-- 
2.43.0

