From 81bfe2569d808aee531447654b151a649bce68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 01/44] fix: error messages longer than the format buffer read
 past its end

---
 src/error.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7edf5b..c5da385 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -21,10 +21,24 @@ std::string verrorFormat(const char* fmt, ...)
     std::va_list args;
     va_start(args, fmt);
 
-    char buf[1024];
-    int n = std::vsnprintf(buf, sizeof(buf) - 1, fmt, args);
+    std::va_list retry;
+    va_copy(retry, args);
 
-    return std::string(buf, n);
+    char buf[1024];
+    int n = std::vsnprintf(buf, sizeof(buf), fmt, args);
+    va_end(args);
+
+    std::string result;
+    if (n >= 0 && size_t(n) < sizeof(buf)) result.assign(buf, n);
+    else if (n >= 0) {
+        // vsnprintf always writes a terminating nil so leave some space for it.
+        result.resize(n + 1);
+        std::vsnprintf(&result[0], result.size(), fmt, retry);
+        result.resize(n);
+    }
+    va_end(retry);
+
+    return result;
 }
 
 
-- 
2.43.0


From 68200ac1299555e69777e17095c9a0c78314f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 02/44] fix: json skip passed a Token object to a printf-style
 format

---
 src/utils/json/parser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index f2f99b3..7b6c53f 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -117,7 +117,7 @@ void skip(Reader& reader)
         break;
 
     default:
-        reader.error("unable to skip token %s", token);
+        reader.error("unable to skip token %s", token.print());
         break;
 
     }
-- 
2.43.0


From 7d10b904dfa5156dd81df5891047b56184c85f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 03/44] fix: default constructed Argument left its ref type
 uninitialized

---
 src/argument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index e279d7b..05f8516 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -41,7 +41,9 @@ std::ostream& operator<<(std::ostream& stream, Match match)
 /******************************************************************************/
 
 Argument::
-Argument() : type_(reflect::type<void>()), isConst_(false) {}
+Argument() :
+    type_(reflect::type<void>()), refType_(RefType::Copy), isConst_(false)
+{}
 
 Argument::
 Argument(const Type* type, RefType refType, bool isConst) :
-- 
2.43.0


From 486147cd474451b53985ff9ef01f8e310aa9b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 04/44] fix: move-assigning a Function leaked its previous
 target

---
 src/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/function.cpp b/src/function.cpp
index 0c2a826..c5ceda4 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -32,6 +32,7 @@ operator=(Function&& other) noexcept
 {
     if (this == &other) return *this;
 
+    if (fn) freeValueFunction(fn);
     fn = other.fn;
     other.fn = nullptr;
 
-- 
2.43.0


From 1298d00c6c460b03644acada4f9aa9eec993d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 05/44] fix: json::print to a stream called parse and did not
 compile

---
 src/utils/json/printer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index acf7704..7616028 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,7 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return parse(stream, value);
+    return print(writer, value);
 }
 
 template<typename T>
-- 
2.43.0


From d01d8f73a08db5d16d68c63715d962a752f366bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/44] fix: json printer missed duplicate keys introduced by
 an alias

---
 src/utils/json/printer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index e8fa643..ab28d59 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -250,8 +250,8 @@ struct ObjectPrinter : public Printer
                 isSkipEmpty = traits.skipEmpty;
             }
 
-            if (fields.count(key))
-                reflectError("duplicate json key <%s> in <%s>", key, type->id());
+            if (keys.count(alias))
+                reflectError("duplicate json key <%s> in <%s>", alias, type->id());
 
             keys[alias] = key;
             sortedKeys.push_back(alias);
-- 
2.43.0


From 04ec28c31689b2f1559be1ae3f09207912f40164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/44] fix: json writer read past its padding buffer when
 deeply indented

---
 src/utils/json/writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/writer.cpp b/src/utils/json/writer.cpp
index 9cd1c5e..41647ef 100644
--- a/src/utils/json/writer.cpp
+++ b/src/utils/json/writer.cpp
@@ -26,7 +26,10 @@ newline()
     if (!pretty()) return;
 
     push("\n");
-    push(spaces.c_str(), indent_ * 4);
+
+    size_t n = indent_ * 4;
+    for (; n > spaces.size(); n -= spaces.size()) push(spaces);
+    push(spaces.c_str(), n);
 }
 
 } // namespace json
-- 
2.43.0


From d8c1e7389aaa437f2d260d38612f730010645ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 08/44] fix: json reader did not count the newline that ends a
 comment

---
 src/utils/json/token.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 64dccad..096cec3 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -125,6 +125,7 @@ char nextChar(Reader& reader)
                 reader.error("comments are not allowed");
 
             while (reader && (c = reader.pop()) != '\n') continue;
+            if (reader) reader.newline();
             continue;
         }
 
-- 
2.43.0


From 15eaf6ed86abe10241ba15947f0818e7f9351101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 09/44] fix: json null did not reset raw pointers

---
 src/utils/json/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index f14d695..da8cb8b 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -104,7 +104,7 @@ struct PointerParser : public Parser
             reader.nextToken();
 
             if (isSmartPtr) ptr.call<void>("reset");
-            else ptr = inner.type->construct();
+            else ptr.assign(ptr.type()->construct());
 
             return;
         }
-- 
2.43.0


From d182a168c7e88c1ea6a4bb833fe0db3d45849425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 10/44] fix: json reader accepted numbers with missing digits

---
 src/utils/json/token.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 096cec3..eaa50b4 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -289,8 +289,14 @@ Token::Type readNumber(Reader& reader, char c)
     reader.save(c); // can be either - or [0-9].
 
     auto readDigits = [&] {
-        while (reader && std::isdigit(c = reader.peek()))
+        size_t n = 0;
+        for (; reader && std::isdigit(c = reader.peek()); ++n)
             reader.save(reader.pop());
+        return n;
+    };
+
+    auto expectDigits = [&] {
+        if (!readDigits()) reader.error("expected digit in number");
     };
 
     auto readChar = [&] (char c) {
@@ -308,16 +314,18 @@ Token::Type readNumber(Reader& reader, char c)
         return true;
     };
 
-    readDigits();
+    if (c == '-') expectDigits();
+    else readDigits();
+
     if (readChar('.')) {
         type = Token::Float;
-        readDigits();
+        expectDigits();
     }
 
     if (readChars('e', 'E')) {
         type = Token::Float;
         readChars('+', '-');
-        readDigits();
+        expectDigits();
     }
 
     return type;
-- 
2.43.0


From f27cdbc1106e73f08edb627d83471eeefe734e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 11/44] fix: json integers could not be parsed into floats

---
 src/utils/json/token.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index eaa50b4..b864421 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -49,10 +49,11 @@ double
 Token::
 asFloat() const
 {
-    if (type_ != Float)
+    if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
-    return std::stod(*value_);
+    // Unlike stod, doesn't throw for values that don't fit in a double.
+    return std::strtod(value_->c_str(), nullptr);
 }
 
 const std::string&
-- 
2.43.0


From c20673dee1ff064b8c0149f0af507b8d35e757f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 12/44] fix: json type mismatches and out of range numbers
 raised instead of returning an error

---
 src/utils/json/json.h     |  1 +
 src/utils/json/parser.cpp | 12 ++++++++----
 src/utils/json/parser.tcc | 23 +++++++++++++++++++----
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/utils/json/json.h b/src/utils/json/json.h
index 0e2e7db..c46ee74 100644
--- a/src/utils/json/json.h
+++ b/src/utils/json/json.h
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <istream>
 #include <ostream>
 #include <sstream>
diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index da8cb8b..d0748ef 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -57,7 +57,8 @@ struct BoolParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseBool(reader));
+        bool result = parseBool(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -65,7 +66,8 @@ struct IntParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseInt(reader));
+        int64_t result = parseInt(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -73,7 +75,8 @@ struct FloatParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseFloat(reader));
+        double result = parseFloat(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
@@ -81,7 +84,8 @@ struct StringParser : public Parser
 {
     void parse(Reader& reader, Value& value) const
     {
-        value.assign(parseString(reader));
+        std::string result = parseString(reader);
+        if (!reader.error()) value.assign(std::move(result));
     }
 };
 
diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 7b6c53f..fe9092a 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -21,12 +21,20 @@ void parseNull(Reader& reader)
 
 bool parseBool(Reader& reader)
 {
-    return reader.expectToken(Token::Bool).asBool();
+    Token token = reader.expectToken(Token::Bool);
+    return reader.error() ? false : token.asBool();
 }
 
 int64_t parseInt(Reader& reader)
 {
-    return reader.expectToken(Token::Int).asInt();
+    Token token = reader.expectToken(Token::Int);
+    if (reader.error()) return 0;
+
+    try { return token.asInt(); }
+    catch (const std::out_of_range&) {
+        reader.error("integer %s is out of range", token.print());
+        return 0;
+    }
 }
 
 double parseFloat(Reader& reader)
@@ -36,12 +44,19 @@ double parseFloat(Reader& reader)
     if (token.type() == Token::Int);
     else reader.assertToken(token, Token::Float);
 
-    return token.asFloat();
+    if (reader.error()) return 0;
+
+    double value = token.asFloat();
+    if (std::isinf(value))
+        reader.error("float %s is out of range", token.print());
+
+    return value;
 }
 
 std::string parseString(Reader& reader)
 {
-    return reader.expectToken(Token::String).asString();
+    Token token = reader.expectToken(Token::String);
+    return reader.error() ? std::string() : token.asString();
 }
 
 template<typename Fn>
-- 
2.43.0


From cf002383d39c63f6a52727e2b038b5f2f43676f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 13/44] fix: json objects and arrays: truncation was not an
 error and a bad key raised

---
 src/utils/json/parser.tcc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index fe9092a..2239e70 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -64,7 +64,7 @@ void parseObject(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ObjectStart);
+    if (!reader.assertToken(token, Token::ObjectStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
@@ -74,8 +74,11 @@ void parseObject(Reader& reader, const Fn& fn)
 
     while (reader) {
         token = reader.expectToken(Token::String);
+        if (reader.error()) return;
+
         const std::string& key = token.asString();
         token = reader.expectToken(Token::KeySeparator);
+        if (reader.error()) return;
 
         fn(key);
 
@@ -83,6 +86,8 @@ void parseObject(Reader& reader, const Fn& fn)
         if (token.type() == Token::ObjectEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of object");
 }
 
 template<typename Fn>
@@ -90,7 +95,7 @@ void parseArray(Reader& reader, const Fn& fn)
 {
     Token token = reader.nextToken();
     if (token.type() == Token::Null) return;
-    reader.assertToken(token, Token::ArrayStart);
+    if (!reader.assertToken(token, Token::ArrayStart)) return;
 
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
@@ -105,6 +110,8 @@ void parseArray(Reader& reader, const Fn& fn)
         if (token.type() == Token::ArrayEnd) return;
         reader.assertToken(token, Token::Separator);
     }
+
+    reader.error("unexpected end of array");
 }
 
 
-- 
2.43.0


From f25721ef34a78c5f6f03d94dc1a0e0b2d4a68eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 14/44] fix: json reader shifted out of bounds on invalid UTF-8
 headers

---
 src/utils/json/token.cpp | 6 +++++-
 src/utils/json/utils.h   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index b864421..165ee31 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -221,7 +221,10 @@ void validateUnicode(Reader& reader, char c)
     reader.save(c);
 
     size_t bytes = clz(~c);
-    if (bytes > 4 || bytes < 2) reader.error("invalid UTF-8 header: %x", c);
+    if (bytes > 4 || bytes < 2) {
+        reader.error("invalid UTF-8 header: %x", c);
+        return;
+    }
 
     uint32_t mask = (1 << (7 - bytes)) - 1;
     uint32_t code = uint32_t(c) & mask;
@@ -247,6 +250,7 @@ void readString(Reader& reader)
 
     while (reader) {
         char c = reader.pop();
+        if (!reader) break;
 
         if (c == '\n') {
             reader.error("invalid \\n character in a string");
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 6c46988..1384500 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -12,7 +12,10 @@ namespace json {
 /* BIT OPS                                                                    */
 /******************************************************************************/
 
-size_t clz(char value) { return __builtin_clz(uint32_t(value) << 24); }
+size_t clz(char value)
+{
+    return value ? __builtin_clz(uint32_t(value) << 24) : 8;
+}
 
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 6a9a9c63330a4f0130ed9bd229cb054f6d226798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 15/44] fix: json writer mishandled invalid and overlong UTF-8
 when escaping

---
 src/utils/json/format.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index 9c8f743..cbb1613 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -53,11 +53,21 @@ void formatFloat(Writer& writer, double value)
     format(writer, "%1.12g", value);
 }
 
+void checkOverlong(Writer& writer, size_t bytes, uint32_t code)
+{
+    switch (bytes) {
+    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
+    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
+    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
+    }
+}
+
 size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
 {
     size_t bytes = clz(~value[i]);
     if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
     if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (!writer) return value.size();
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -68,6 +78,8 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
         code = (code << 6) | (value[i] & 0x3F);
     }
 
+    checkOverlong(writer, bytes, code);
+    if (!writer) return value.size();
     format(writer, "\\u%04x", code);
 
     return i - 1;
@@ -78,6 +90,7 @@ size_t readUnicode(Writer& writer, const std::string& value, size_t i)
     size_t bytes = clz(~value[i]);
     if (bytes > 4 || bytes < 2) writer.error("invalid UTF-8 header");
     if (i + bytes > value.size()) writer.error("invalid UTF-8 encoding");
+    if (!writer) return value.size();
 
     size_t leftover = 8 - (bytes + 1);
     uint32_t code = value[i] & ((1 << leftover) - 1);
@@ -90,11 +103,7 @@ size_t readUnicode(Writer& writer, const std::string& value, size_t i)
         writer.push(value[i]);
     }
 
-    switch (bytes) {
-    case 4: if (code <= 0xFFFF) writer.error("invalid UTF-8 encoding"); break;
-    case 3: if (code <= 0x7FF) writer.error("invalid UTF-8 encoding"); break;
-    case 2: if (code <= 0x7F) writer.error("invalid UTF-8 encoding"); break;
-    }
+    checkOverlong(writer, bytes, code);
 
     return i - 1;
 }
-- 
2.43.0


From 29769355c5e09ad12b45ec2e58f98faf643cd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/44] fix: json escapes corrupted code points above U+FFFF

---
 src/utils/json/format.cpp |  7 +++++++
 src/utils/json/token.cpp  | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index cbb1613..c98e29f 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -79,7 +79,14 @@ size_t escapeUnicode(Writer& writer, const std::string& value, size_t i)
     }
 
     checkOverlong(writer, bytes, code);
+    if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF))
+        writer.error("code point can't be escaped");
     if (!writer) return value.size();
+
+    if (code > 0xFFFF) {
+        format(writer, "\\u%04x", 0xD800 + ((code - 0x10000) >> 10));
+        code = 0xDC00 + (code & 0x3FF);
+    }
     format(writer, "\\u%04x", code);
 
     return i - 1;
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 165ee31..85a74cc 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -146,7 +146,7 @@ void readLiteral(Reader& reader, const char* literal)
     if (*l) reader.error("expected literal <%s>", literal);
 }
 
-void unescapeUnicode(Reader& reader)
+uint32_t readCodeUnit(Reader& reader)
 {
     uint32_t code = 0;
 
@@ -163,8 +163,28 @@ void unescapeUnicode(Reader& reader)
     }
 
     if (reader && i != 4) reader.error("\\u requires 4 hex digits", i);
+
+    return code;
+}
+
+void unescapeUnicode(Reader& reader)
+{
+    uint32_t code = readCodeUnit(reader);
     if (!reader) return;
 
+    if (code >= 0xD800 && code <= 0xDFFF) {
+        uint32_t low = 0;
+
+        if (code <= 0xDBFF && reader.pop() == '\\' && reader.pop() == 'u')
+            low = readCodeUnit(reader);
+
+        if (low < 0xDC00 || low > 0xDFFF)
+            reader.error("unpaired surrogate in unicode code point");
+        if (!reader) return;
+
+        code = 0x10000 + ((code & 0x3FF) << 10) + (low & 0x3FF);
+    }
+
     auto encode = [&] (unsigned pos, uint32_t mask, uint32_t head) {
         reader.save(((code >> (6 * pos)) & mask) | head);
     };
-- 
2.43.0


From 48025c762ba95ecd48e2f21881cc49d25be64289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 17/44] fix: json writer printed non-finite floats as malformed
 json

---
 src/utils/json/format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index c98e29f..dcfb96d 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -50,6 +50,11 @@ void formatInt(Writer& writer, int64_t value)
 
 void formatFloat(Writer& writer, double value)
 {
+    if (!std::isfinite(value)) {
+        writer.error("json can't represent non-finite numbers");
+        return;
+    }
+
     format(writer, "%1.12g", value);
 }
 
-- 
2.43.0


From 258fade11499bb346f5a86c9d703c76b344ac713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 18/44] fix: Scope::hasFunction raised when an enclosing scope
 is missing

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 8850893..4d6e346 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -345,8 +345,10 @@ hasFunction(const std::string& name) const
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
+    if (!split.second.empty()) {
+        if (!hasScope(split.second)) return false;
         return scope(split.second)->hasFunction(split.first);
+    }
 
     auto it = functions_.find(split.first);
     return it != functions_.end();
-- 
2.43.0


From b326360e081ef4a4c5d7770fd467dec607b97c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/44] fix: Scope::function created the missing scopes of the
 name it looked up

---
 src/scope.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 4d6e346..6880ecf 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -360,8 +360,11 @@ function(const std::string& name)
 {
     auto split = tail(name);
 
-    if (!split.second.empty())
-        return scope(split.second)->function(split.first);
+    if (!split.second.empty()) {
+        // Looking up a function shouldn't create its missing scopes.
+        const Scope* self = this;
+        return self->scope(split.second)->function(split.first);
+    }
 
     auto it = functions_.find(split.first);
     if (it == functions_.end())
-- 
2.43.0


From 26270085099beecb6093278939d56bba401d93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 20/44] fix: the registry was never locked because its lock
 guards were temporaries

---
 src/argument.cpp   |  6 +++++-
 src/dsl/template.h |  4 ++--
 src/reflect.h      |  1 +
 src/registry.cpp   | 14 ++++++--------
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 05f8516..71c1609 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -94,7 +94,11 @@ Match
 Argument::
 isConvertibleTo(const Argument& target) const
 {
-    static const Type* valueType = reflect::type<Value>();
+    // Not a regular static because its initialization would be able to deadlock
+    // with the registry's lock.
+    static std::atomic<const Type*> cachedValueType(nullptr);
+    const Type* valueType = cachedValueType;
+    if (!valueType) cachedValueType = valueType = reflect::type<Value>();
 
     if (*this == target) return Match::Exact;
 
diff --git a/src/dsl/template.h b/src/dsl/template.h
index ab1184c..6984b34 100644
--- a/src/dsl/template.h
+++ b/src/dsl/template.h
@@ -17,10 +17,10 @@ namespace reflect {
 #define reflectTemplateLoader()                 \
     static void loader()                        \
     {                                           \
-        static bool loaded = false;             \
+        static std::atomic<bool> loaded(false); \
         if (loaded) return;                     \
-        loaded = true;                          \
         Registry::add<T_>();                    \
+        loaded = true;                          \
     }
 
 
diff --git a/src/reflect.h b/src/reflect.h
index 607a90c..744f36a 100644
--- a/src/reflect.h
+++ b/src/reflect.h
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <string>
 #include <memory>
 #include <functional>
diff --git a/src/registry.cpp b/src/registry.cpp
index 461b467..6563e7d 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -19,19 +19,17 @@ namespace {
 
 struct RegistryState
 {
-    std::mutex lock;
+    std::recursive_mutex lock; // loaders look up and add other types.
     std::unordered_map<std::string, const Type*> types;
     std::unordered_map<std::string, std::string> aliases;
     std::unordered_map<std::string, std::function<void(Type*)> > loaders;
     Scope scopes;
 };
 
-RegistryState* registry_ = nullptr;
-
 RegistryState& getRegistry()
 {
-    if (!registry_) registry_ = new RegistryState();
-    return *registry_;
+    static RegistryState* registry = new RegistryState();
+    return *registry;
 }
 
 } // namespace anonymous
@@ -53,7 +51,7 @@ Registry::
 get(const std::string& id)
 {
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     const std::string* pId = &id;
 
@@ -109,7 +107,7 @@ add(const std::string& id, std::function<void(Type*)> loader)
         reflectError("can't add loader for<%s>", id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     // If we already have a loader then too-bad.
     registry.loaders.emplace(std::move(id), std::move(loader));
@@ -124,7 +122,7 @@ alias(const std::string& id, const std::string& alias)
         reflectError("<%s> can't be aliased to <%s>", alias, id);
 
     auto& registry = getRegistry();
-    std::lock_guard<std::mutex>(registry.lock);
+    std::lock_guard<std::recursive_mutex> guard(registry.lock);
 
     auto ret = registry.aliases.emplace(std::move(alias), std::move(id));
     if (!ret.second) {
-- 
2.43.0


From f988430c7d74b7c1f4e37998dc31a3aef78ded62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 21/44] fix: json printed the items of dynamic Value arrays and
 objects as {}

---
 src/utils/json/printer.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index ab28d59..48082bf 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -334,6 +334,37 @@ private:
 };
 
 
+/******************************************************************************/
+/* VALUE PRINTER                                                              */
+/******************************************************************************/
+
+const Printer* getPrinterLocked(const Type* type);
+
+struct ValuePrinter : public Printer
+{
+    bool isEmpty(const Value& value) const
+    {
+        if (value.isVoid()) return true;
+        if (isWrapped(value)) return isEmpty(value.get<Value>());
+        return getPrinterLocked(value.type())->isEmpty(value);
+    }
+
+    void print(Writer& writer, const Value& value) const
+    {
+        if (value.isVoid()) printNull(writer);
+        else if (isWrapped(value)) print(writer, value.get<Value>());
+        else getPrinterLocked(value.type())->print(writer, value);
+    }
+
+private:
+
+    static bool isWrapped(const Value& value)
+    {
+        return value.type() == reflect::type<Value>();
+    }
+};
+
+
 /******************************************************************************/
 /* GET PRINTER                                                                */
 /******************************************************************************/
@@ -359,6 +390,7 @@ const Printer* getPrinter(const Type* type)
     else if (!customPrinter(type).empty()) printer = new CustomPrinter;
     else if (type == reflect::type<void>())
         reflectError("unable to print void value");
+    else if (type == reflect::type<Value>()) printer = new ValuePrinter;
 
     else printer = new ObjectPrinter;
 
-- 
2.43.0


From 531c2f47cafc0368ecc839284a87b99787fe7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 22/44] fix: looking up a nested scope through a const Scope
 created it

---
 src/scope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 6880ecf..0318a80 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -181,7 +181,9 @@ scope(const std::string& name) const
     if (it == scopes_.end())
         reflectError("<%s> doesn't have scope <%s>", name_, name);
 
-    return !split.second.empty() ? it->second->scope(split.second) : it->second;
+    // The non-const overload would create the missing scopes.
+    const Scope* scope = it->second;
+    return !split.second.empty() ? scope->scope(split.second) : it->second;
 }
 
 Scope*
-- 
2.43.0


From 253fe90aa3e63cf9757c90aee509650c4249bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 23/44] fix: postfix ++ and -- of Value were templates that can
 never be used

---
 src/value.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/value.h b/src/value.h
index c837038..b98fb19 100644
--- a/src/value.h
+++ b/src/value.h
@@ -61,6 +61,14 @@ struct CleanValue
         return call<bool>(#op, std::forward<Arg>(arg)); \
     }
 
+// The int argument only distinguishes the postfix from the prefix operator and
+// can't be a template parameter.
+#define reflectValueOpPostfix(op)               \
+    Value op(int arg) const                     \
+    {                                           \
+        return call<Value>(#op, arg);           \
+    }
+
 #define reflectValueOpNary(op)                                  \
     template<typename... Args>                                  \
     Value op(Args&&... args) const                              \
@@ -133,9 +141,9 @@ struct Value
     reflectValueOpBinary(operator>>=)
 
     reflectValueOpUnary (operator++)
-    reflectValueOpBinary(operator++)
+    reflectValueOpPostfix(operator++)
     reflectValueOpUnary (operator--)
-    reflectValueOpBinary(operator--)
+    reflectValueOpPostfix(operator--)
 
     reflectValueOpBinary(operator+)
     reflectValueOpBinary(operator-)
-- 
2.43.0


From b8646e52062a79c5f9259d8d47d12515e6f98407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 24/44] fix: a json type that failed to initialize was silently
 used by the next call

---
 src/utils/json/parser.cpp  | 26 ++++++++++++++++++++++++--
 src/utils/json/printer.cpp | 26 ++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index d0748ef..c5cb291 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -335,9 +335,15 @@ struct ValueParser : public Parser
 /* GET PARSER                                                                 */
 /******************************************************************************/
 
-const Parser* getParser(const Type* type)
+std::unordered_map<const Type*, const Parser*>& parserCache()
 {
     static std::unordered_map<const Type*, const Parser*> parsers;
+    return parsers;
+}
+
+const Parser* getParser(const Type* type)
+{
+    auto& parsers = parserCache();
 
     auto it = parsers.find(type);
     if (it != parsers.end()) return it->second;
@@ -369,7 +375,23 @@ const Parser* getParserLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getParser(type);
+    auto& parsers = parserCache();
+
+    auto it = parsers.find(type);
+    if (it != parsers.end()) return it->second;
+
+    // If the initialization raises then all the parsers created along the way
+    // could be incomplete and must not be found by the next call.
+    auto complete = parsers;
+
+    try { return getParser(type); }
+    catch (...) {
+        for (const auto& entry : parsers)
+            if (!complete.count(entry.first)) delete entry.second;
+
+        parsers = std::move(complete);
+        throw;
+    }
 }
 
 } // namespace anonymous
diff --git a/src/utils/json/printer.cpp b/src/utils/json/printer.cpp
index 48082bf..a2cf68b 100644
--- a/src/utils/json/printer.cpp
+++ b/src/utils/json/printer.cpp
@@ -369,9 +369,15 @@ private:
 /* GET PRINTER                                                                */
 /******************************************************************************/
 
-const Printer* getPrinter(const Type* type)
+std::unordered_map<const Type*, const Printer*>& printerCache()
 {
     static std::unordered_map<const Type*, const Printer*> printers;
+    return printers;
+}
+
+const Printer* getPrinter(const Type* type)
+{
+    auto& printers = printerCache();
 
     auto it = printers.find(type);
     if (it != printers.end()) return it->second;
@@ -405,7 +411,23 @@ const Printer* getPrinterLocked(const Type* type)
     static std::mutex mutex;
     std::lock_guard<std::mutex> guard(mutex);
 
-    return getPrinter(type);
+    auto& printers = printerCache();
+
+    auto it = printers.find(type);
+    if (it != printers.end()) return it->second;
+
+    // If the initialization raises then all the printers created along the way
+    // could be incomplete and must not be found by the next call.
+    auto complete = printers;
+
+    try { return getPrinter(type); }
+    catch (...) {
+        for (const auto& entry : printers)
+            if (!complete.count(entry.first)) delete entry.second;
+
+        printers = std::move(complete);
+        throw;
+    }
 }
 
 } // namespace anonymous
-- 
2.43.0


From cea165f46182875066699e0464be457dc349b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 25/44] fix: deeply nested json overflowed the stack

---
 src/utils/json/parser.tcc | 19 +++++++++++++++++++
 src/utils/json/reader.h   | 12 ++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/utils/json/parser.tcc b/src/utils/json/parser.tcc
index 2239e70..fb88259 100644
--- a/src/utils/json/parser.tcc
+++ b/src/utils/json/parser.tcc
@@ -59,6 +59,19 @@ std::string parseString(Reader& reader)
     return reader.error() ? std::string() : token.asString();
 }
 
+namespace details {
+
+struct Nesting
+{
+    Nesting(Reader& reader) : reader(reader) { reader.enter(); }
+    ~Nesting() { reader.leave(); }
+
+private:
+    Reader& reader;
+};
+
+} // namespace details
+
 template<typename Fn>
 void parseObject(Reader& reader, const Fn& fn)
 {
@@ -66,6 +79,9 @@ void parseObject(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ObjectStart)) return;
 
+    details::Nesting nesting(reader);
+    if (reader.error()) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ObjectEnd) {
         reader.expectToken(Token::ObjectEnd);
@@ -97,6 +113,9 @@ void parseArray(Reader& reader, const Fn& fn)
     if (token.type() == Token::Null) return;
     if (!reader.assertToken(token, Token::ArrayStart)) return;
 
+    details::Nesting nesting(reader);
+    if (reader.error()) return;
+
     token = reader.peekToken();
     if (token.type() == Token::ArrayEnd) {
         reader.expectToken(Token::ArrayEnd);
diff --git a/src/utils/json/reader.h b/src/utils/json/reader.h
index 75e229a..25ed133 100644
--- a/src/utils/json/reader.h
+++ b/src/utils/json/reader.h
@@ -29,6 +29,7 @@ struct Reader
     Reader(std::istream& stream, Options options = Default) :
         stream(stream),
         pos_(1), line_(1),
+        depth_(0),
         options(options)
     {
         buffer_.reserve(128);
@@ -57,6 +58,16 @@ struct Reader
     size_t line() const { return line_; }
     void newline() { pos_ = 1; line_++; }
 
+    // Bounds the recursion of the parsers such that a document can't make them
+    // run out of stack.
+    enum { MaxDepth = 1024 };
+
+    void enter()
+    {
+        if (++depth_ > MaxDepth) error("nested more than %d levels deep", int(MaxDepth));
+    }
+    void leave() { depth_--; }
+
     bool allowComments() const { return options & AllowComments; }
     bool unescapeUnicode() const { return options & UnescapeUnicode; }
     bool validateUnicode() const { return options & ValidateUnicode; }
@@ -68,6 +79,7 @@ private:
 
     size_t pos_;
     size_t line_;
+    size_t depth_;
 
     Options options;
 
-- 
2.43.0


From 45632fe19dbb42b47b279764becf0aecc9b54f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 26/44] fix: printing a Value to a stream or string did not
 compile

---
 src/utils/json/printer.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/json/printer.tcc b/src/utils/json/printer.tcc
index 7616028..fe23d46 100644
--- a/src/utils/json/printer.tcc
+++ b/src/utils/json/printer.tcc
@@ -114,7 +114,8 @@ template<typename T>
 Error print(std::ostream& stream, const T& value)
 {
     Writer writer(stream);
-    return print(writer, value);
+    print(writer, value);
+    return writer.error();
 }
 
 template<typename T>
-- 
2.43.0


From f77f8f6e7dcd23a1708ee8f55bd8c6e3605fcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 27/44] fix: a converter to a parent hid the parent when
 matching arguments

---
 src/argument.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/argument.cpp b/src/argument.cpp
index 71c1609..e7f7196 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -107,7 +107,8 @@ isConvertibleTo(const Argument& target) const
 
     bool isExact = false;
 
-    if (type()->hasConverter(target.type())) {
+    // As in C++, a converter is never used to reach a parent.
+    if (type()->hasConverter(target.type()) && !target.type()->isParentOf(type())) {
         if (target.refType() != RefType::LValue) return Match::Partial;
         return Match::None;
     }
-- 
2.43.0


From e9772803ec2a42d80d7964ffccea604afe060c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 28/44] fix: reflectOperators() raised for a class with a
 single operator*

---
 src/dsl/operators.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dsl/operators.h b/src/dsl/operators.h
index 8ebed0c..624ff3f 100644
--- a/src/dsl/operators.h
+++ b/src/dsl/operators.h
@@ -37,6 +37,26 @@ namespace reflect {
 #define reflectOp(op, name) reflect::reflectOpName(name)<T_>(type_, #op)
 
 
+/******************************************************************************/
+/* REFLECT OP ARGS                                                            */
+/******************************************************************************/
+
+// Only reflects the operator if it has the given number of arguments, object
+// included. Tells apart the unary and binary operators that share a name.
+#define reflectOpArgsFn(op, name, args)                         \
+    template<typename T,                                        \
+        class = typename std::enable_if<                        \
+            FunctionType<decltype(&T::op)>::ArgCount == args    \
+        >::type>                                                \
+    void reflectOpName(name) (Type* type, std::string name)     \
+    {                                                           \
+        reflectFunction(type, name, &T::op);                    \
+    }                                                           \
+                                                                \
+    template<typename>                                          \
+    void reflectOpName(name)(...) {}
+
+
 /******************************************************************************/
 /* REFLECT OP TYPED                                                           */
 /******************************************************************************/
@@ -118,7 +138,7 @@ reflectOpTypedFn(operator--, DecPost, T (T::*)(int))
 // \todo Add unary +/-
 reflectOpFn(operator+,  Plus)
 reflectOpFn(operator-,  Minus)
-reflectOpFn(operator*,  Mult)
+reflectOpArgsFn(operator*, Mult, 2)
 reflectOpFn(operator/,  Div)
 reflectOpFn(operator%,  Mod)
 reflectOpFn(operator~,  BitNot)
@@ -188,7 +208,7 @@ reflectOpFn(operator>=, GEComp)
 
 reflectOpFn(operator(),  Function)
 reflectOpFn(operator[],  Array)
-reflectOpFn(operator*,   Indirection)
+reflectOpArgsFn(operator*, Indirection, 1)
 
 #define reflectOpOther()                                \
     do {                                                \
-- 
2.43.0


From d9342361d79d734f6945af23755b23a60a476634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 29/44] fix: reflectPlumbing() did not compile for assignable
 classes that can't be moved

---
 src/dsl/plumbing.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsl/plumbing.h b/src/dsl/plumbing.h
index 83a20e4..ee2a7bc 100644
--- a/src/dsl/plumbing.h
+++ b/src/dsl/plumbing.h
@@ -174,8 +174,11 @@ void reflectCopyAssignOperator(...) {}
 /* OP ASSIGN MOVE                                                             */
 /******************************************************************************/
 
+// The argument is moved out of its Value so T also needs to be constructible.
 template<typename T,
-    class = typename std::enable_if<std::is_move_assignable<T>::value>::type>
+    class = typename std::enable_if<
+        std::is_move_assignable<T>::value &&
+        std::is_move_constructible<T>::value>::type>
 void reflectMoveAssignOperator(Type* type)
 {
     type->addFunction("operator=", [] (T& obj, T&& other) -> T& {
-- 
2.43.0


From c4612ae10c3b4c6bd1eab9eed5c33ce42d47c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:10 +0000
Subject: [PATCH 30/44] fix: the error for a duplicate field left out the name
 of the new field

---
 src/type.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/type.cpp b/src/type.cpp
index fa66f24..625a725 100644
--- a/src/type.cpp
+++ b/src/type.cpp
@@ -167,11 +167,14 @@ addField(const std::string& name, Field&& field)
                 field.print(), it->second.print(), id());
     }
 
-    auto ret = fields_.emplace(name, std::move(field));
-    if (!ret.second) {
+    // A failed emplace could still move the field which we need for the error.
+    auto fieldIt = fields_.find(name);
+    if (fieldIt != fields_.end()) {
         reflectError("field <%s> already exists as field <%s> in <%s>",
-                field.print(), ret.first->second.print(), id());
+                field.print(), fieldIt->second.print(), id());
     }
+
+    fields_.emplace(name, std::move(field));
 }
 
 void
-- 
2.43.0


From 43cb386526f29edf51aa0baa1603fe74c2d26bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:10 +0000
Subject: [PATCH 31/44] fix: in abort mode the error was lost when stdout is
 not a terminal

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index c5da385..583bdc2 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -53,6 +53,7 @@ void verror(bool except, const char* file, int line, std::string msg)
     if (except) throw Error(msg);
 
     printf("%s\n", msg.c_str());
+    fflush(stdout); // abort doesn't flush.
     abort();
 }
 
-- 
2.43.0


From 8d37c3d4f35ca2acd369ec5f74d91943ac201dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:40 +0000
Subject: [PATCH 32/44] fix: Type::addFunction() moved out of the functor it
 was given as an lvalue

---
 src/type.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type.tcc b/src/type.tcc
index 5706ef7..5fba65e 100644
--- a/src/type.tcc
+++ b/src/type.tcc
@@ -19,7 +19,7 @@ void
 Type::
 addFunction(const std::string& name, Fn&& rawFn)
 {
-    addFunction(name, Function(name, std::move(rawFn)));
+    addFunction(name, Function(name, std::forward<Fn>(rawFn)));
 }
 
 template<typename T>
-- 
2.43.0


From 3f6ede6c4aaf0e2330c1059e06508932f1f72714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 33/44] fix: destroying a scope leaked its nested scopes

---
 src/scope.cpp | 6 ++++++
 src/scope.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/scope.cpp b/src/scope.cpp
index 0318a80..88f065f 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -94,6 +94,12 @@ Scope(const std::string& name, Scope* parent) :
     name_(name), parent_(parent)
 {}
 
+Scope::
+~Scope()
+{
+    for (const auto& scope : scopes_) delete scope.second;
+}
+
 std::string
 Scope::
 id() const
diff --git a/src/scope.h b/src/scope.h
index cf2dddb..e1482e6 100644
--- a/src/scope.h
+++ b/src/scope.h
@@ -18,6 +18,7 @@ struct Scope : public Traits
 {
     Scope();
     Scope(const std::string& name, Scope* parent = nullptr);
+    ~Scope();
 
     Scope(const Scope&) = delete;
     Scope& operator=(const Scope&) = delete;
-- 
2.43.0


From 4674c680c527fcc26b42b021f41bd242e984f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 34/44] fix: json parsing leaked the new pointee of a pointer
 when its parser threw

---
 src/utils/json/parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/json/parser.cpp b/src/utils/json/parser.cpp
index c5cb291..7b3e2a0 100644
--- a/src/utils/json/parser.cpp
+++ b/src/utils/json/parser.cpp
@@ -119,12 +119,14 @@ struct PointerParser : public Parser
         }
 
         else {
+            // The pointer must own its pointee before we parse it because the
+            // parser could throw.
             Value value = inner.type->alloc();
-            Value pointee = *value;
-            inner.parser->parse(reader, pointee);
-
             if (isSmartPtr) ptr.call<void>("reset", value);
             else ptr.assign(value);
+
+            Value pointee = *ptr;
+            inner.parser->parse(reader, pointee);
         }
     }
 
-- 
2.43.0


From 6bbcd1fd1126d5791504da72d1a89ded42f5322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 35/44] fix: a Function that failed to be built leaked its
 functor

---
 src/function.tcc       | 5 ++++-
 src/value_function.cpp | 7 ++++++-
 src/value_function.h   | 7 ++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/function.tcc b/src/function.tcc
index 5e5529d..1610ca3 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -118,11 +118,14 @@ std::vector<Argument> reflectArguments(Args&&... args)
 template<typename Fn>
 Function::
 Function(const std::string& name, Fn fn) :
-    fn(makeValueFunction(std::move(fn))),
+    fn(nullptr),
     name_(name)
 {
     ret = reflectReturn<Fn>();
     args = reflectArguments<Fn>();
+
+    // Our destructor won't free the functor if the constructor throws.
+    this->fn = makeValueFunction(std::move(fn));
 }
 
 
diff --git a/src/value_function.cpp b/src/value_function.cpp
index bf0baf1..c71113b 100644
--- a/src/value_function.cpp
+++ b/src/value_function.cpp
@@ -25,7 +25,12 @@ void freeValueFunction(void* fn)
     typedef ValueFunction<0> Fn;
     static_cast<Fn*>(fn)->free();
 
-    free(fn);
+    releaseValueFunction(fn);
+}
+
+void releaseValueFunction(void* ptr)
+{
+    std::free(ptr);
 }
 
 void
diff --git a/src/value_function.h b/src/value_function.h
index 28fb062..59be786 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -149,6 +149,7 @@ struct MakeValueFunction
 
 void* allocValueFunction(size_t size);
 void freeValueFunction(void* fn);
+void releaseValueFunction(void* ptr); // doesn't call any destructors.
 
 template<typename Fn>
 auto makeValueFunction(Fn fn) -> typename MakeValueFunction<Fn>::type*
@@ -156,7 +157,11 @@ auto makeValueFunction(Fn fn) -> typename MakeValueFunction<Fn>::type*
     typedef typename MakeValueFunction<Fn>::type ValueFn;
 
     ValueFn* ptr = (ValueFn*) allocValueFunction(sizeof(ValueFn));
-    new (ptr) ValueFn(std::move(fn));
+    try { new (ptr) ValueFn(std::move(fn)); }
+    catch (...) {
+        releaseValueFunction(ptr);
+        throw;
+    }
     return ptr;
 }
 
-- 
2.43.0


From 8ae9b4d73e17e3679829f301f824440464441281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 36/44] fix: a nested scope leaked when there was no memory to
 add it

---
 src/scope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.cpp b/src/scope.cpp
index 88f065f..99b2b5f 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -201,7 +201,8 @@ scope(const std::string& name)
     auto it = scopes_.find(split.first);
     if (it == scopes_.end()) {
         std::unique_ptr<Scope> scope(new Scope(split.first, this));
-        it = scopes_.emplace(split.first, scope.release()).first;
+        it = scopes_.emplace(split.first, scope.get()).first;
+        scope.release();
     }
 
     return !split.second.empty() ? it->second->scope(split.second) : it->second;
-- 
2.43.0


From 13ffbe79a0bb429cab5d901e9fcf1878439831fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 37/44] fix: json read and wrote floats in the locale of the
 program

---
 src/utils/json/format.cpp |  1 +
 src/utils/json/token.cpp  |  2 ++
 src/utils/json/utils.h    | 27 +++++++++++++++++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/utils/json/format.cpp b/src/utils/json/format.cpp
index dcfb96d..3209d67 100644
--- a/src/utils/json/format.cpp
+++ b/src/utils/json/format.cpp
@@ -55,6 +55,7 @@ void formatFloat(Writer& writer, double value)
         return;
     }
 
+    ClassicLocale guard;
     format(writer, "%1.12g", value);
 }
 
diff --git a/src/utils/json/token.cpp b/src/utils/json/token.cpp
index 85a74cc..f89d4eb 100644
--- a/src/utils/json/token.cpp
+++ b/src/utils/json/token.cpp
@@ -52,6 +52,8 @@ asFloat() const
     if (type_ != Float && type_ != Int)
         reflectError("invalid conversion of token %s to <float>", print());
 
+    ClassicLocale guard;
+
     // Unlike stod, doesn't throw for values that don't fit in a double.
     return std::strtod(value_->c_str(), nullptr);
 }
diff --git a/src/utils/json/utils.h b/src/utils/json/utils.h
index 1384500..f22254e 100644
--- a/src/utils/json/utils.h
+++ b/src/utils/json/utils.h
@@ -5,6 +5,8 @@
 
 #pragma once
 
+#include <locale.h>
+
 namespace reflect {
 namespace json {
 
@@ -17,5 +19,30 @@ size_t clz(char value)
     return value ? __builtin_clz(uint32_t(value) << 24) : 8;
 }
 
+
+/******************************************************************************/
+/* CLASSIC LOCALE                                                             */
+/******************************************************************************/
+
+// Numbers in json never depend on the locale of the program. Only affects the
+// current thread and only while the object lives.
+struct ClassicLocale
+{
+    ClassicLocale() : old(uselocale(classic())) {}
+    ~ClassicLocale() { uselocale(old); }
+
+    ClassicLocale(const ClassicLocale&) = delete;
+    ClassicLocale& operator=(const ClassicLocale&) = delete;
+
+private:
+    static locale_t classic()
+    {
+        static const locale_t locale = newlocale(LC_ALL_MASK, "C", locale_t(0));
+        return locale;
+    }
+
+    locale_t old;
+};
+
 } // namespace json
 } // namespace reflect
-- 
2.43.0


From 249f7c55b2436ec975c4880268fcd1fd64fcca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 38/44] fix: the position in json errors was formatted in the
 locale of the program

---
 src/utils/json/reader.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/json/reader.tcc b/src/utils/json/reader.tcc
index 91715ab..3cbf5e8 100644
--- a/src/utils/json/reader.tcc
+++ b/src/utils/json/reader.tcc
@@ -21,6 +21,7 @@ error(const char* fmt, Args&&... args)
     if (error_) return;
 
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators within the position.
     ss << line_ << ":" << pos_ << ": ";
     ss << reflect::errorFormat(fmt, std::forward<Args>(args)...);
     error_ = Error(ss.str());
-- 
2.43.0


From aab526f56ee0a55a4529c81139bad3412df82ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 39/44] fix: printed field offsets were formatted in the locale
 of the program

---
 src/field.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/field.cpp b/src/field.cpp
index deb8f3e..4684ce3 100644
--- a/src/field.cpp
+++ b/src/field.cpp
@@ -28,6 +28,7 @@ Field::
 print() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators within the offset.
 
     ss << std::hex << "0x" << offset_ << std::dec << ": ";
     ss << arg.type()->id() << " " << name_;
-- 
2.43.0


From cf65534f5584c084d3528a2857c5e1b9381ab42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:38 +0000
Subject: [PATCH 40/44] fix: scopes were read without a lock while types are
 added to them

---
 src/registry.cpp | 12 ++++++++++++
 src/registry.h   | 11 +++++++++++
 src/scope.cpp    | 13 +++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/registry.cpp b/src/registry.cpp
index 6563e7d..d59e157 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -39,6 +39,18 @@ RegistryState& getRegistry()
 /* REGISTRY                                                                   */
 /******************************************************************************/
 
+Registry::Guard::
+Guard()
+{
+    getRegistry().lock.lock();
+}
+
+Registry::Guard::
+~Guard()
+{
+    getRegistry().lock.unlock();
+}
+
 Scope*
 Registry::
 globalScope()
diff --git a/src/registry.h b/src/registry.h
index e975de7..813567c 100644
--- a/src/registry.h
+++ b/src/registry.h
@@ -60,6 +60,17 @@ struct Registry
 
     static Scope* globalScope();
 
+    // Holds the lock of the registry, which is also the lock of the scopes since
+    // types are added to them as they're registered.
+    struct Guard
+    {
+        Guard();
+        ~Guard();
+
+        Guard(const Guard&) = delete;
+        Guard& operator=(const Guard&) = delete;
+    };
+
 private:
     static void add(const std::string& id, const Type* type);
     static const Type* load(const std::string& id);
diff --git a/src/scope.cpp b/src/scope.cpp
index 99b2b5f..2d7ee2f 100644
--- a/src/scope.cpp
+++ b/src/scope.cpp
@@ -112,6 +112,7 @@ std::string
 Scope::
 print(int indent) const
 {
+    Registry::Guard guard;
     enum { PadInc = 4 };
 
     std::stringstream ss;
@@ -156,6 +157,7 @@ std::vector<std::string>
 Scope::
 scopes() const
 {
+    Registry::Guard guard;
     std::vector<std::string> result;
     result.reserve(scopes_.size());
 
@@ -169,6 +171,7 @@ bool
 Scope::
 hasScope(const std::string& name) const
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -181,6 +184,7 @@ Scope*
 Scope::
 scope(const std::string& name) const
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -196,6 +200,7 @@ Scope*
 Scope::
 scope(const std::string& name)
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     auto it = scopes_.find(split.first);
@@ -217,6 +222,7 @@ std::vector<std::string>
 Scope::
 types(bool includeScopes) const
 {
+    Registry::Guard guard;
     std::vector<std::string> result;
     result.reserve(types_.size());
 
@@ -240,6 +246,7 @@ bool
 Scope::
 hasType(const std::string& name)
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -262,6 +269,7 @@ const Type*
 Scope::
 type(const std::string& name)
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     auto it = types_.find(split.first);
@@ -289,6 +297,7 @@ void
 Scope::
 addType(const std::string& name)
 {
+    Registry::Guard guard;
     auto split = head(name);
 
     if (split.second.empty()) {
@@ -317,6 +326,7 @@ void
 Scope::
 addFunction(const std::string& name, Function&& fn)
 {
+    Registry::Guard guard;
     auto split = tail(name);
 
     if (!split.second.empty())
@@ -329,6 +339,7 @@ std::vector<std::string>
 Scope::
 functions(bool includeScopes) const
 {
+    Registry::Guard guard;
     std::vector<std::string> result;
     result.reserve(types_.size());
 
@@ -352,6 +363,7 @@ bool
 Scope::
 hasFunction(const std::string& name) const
 {
+    Registry::Guard guard;
     auto split = tail(name);
 
     if (!split.second.empty()) {
@@ -367,6 +379,7 @@ Overloads&
 Scope::
 function(const std::string& name)
 {
+    Registry::Guard guard;
     auto split = tail(name);
 
     if (!split.second.empty()) {
-- 
2.43.0


From ff308343abddcd23dc9d21e3d71b69e845474e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:48 +0000
Subject: [PATCH 41/44] fix: a move() that couldn't construct its object
 destroyed the one it was given

---
 src/value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value.cpp b/src/value.cpp
index 5e0c84d..2cee3bd 100644
--- a/src/value.cpp
+++ b/src/value.cpp
@@ -100,9 +100,10 @@ move()
     if (!type()->isMovable())
         reflectError("<%s> is not movable", type()->id());
 
-    Value arg = rvalue();
+    // If nothing can be constructed then we keep what we have.
+    Value result = type()->construct(rvalue());
     *this = Value();
-    return arg.type()->construct(arg);
+    return result;
 }
 
 Value
-- 
2.43.0


From 892fad6e0c3ec80bc21815dd293e69d638f9f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:46 +0000
Subject: [PATCH 42/44] fix: a result that refers to a temporary argument was
 read after the argument was destroyed

---
 src/function.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/function.tcc b/src/function.tcc
index 1610ca3..ae23675 100644
--- a/src/function.tcc
+++ b/src/function.tcc
@@ -168,8 +168,10 @@ call(Args&&... args) const
     typedef ValueFunction<sizeof...(Args)> Fn;
     Fn& typedFn = *static_cast<Fn*>(fn);
 
-    Value ret = typedFn(cast<Value>(std::forward<Args>(args))...);
-    return retCast<Ret>(ret);
+    // The result could refer to an argument so it must be converted within the
+    // same expression: that's how long temporary arguments live.
+    auto convert = [] (Value&& ret) -> Ret { return retCast<Ret>(ret); };
+    return convert(typedFn(cast<Value>(std::forward<Args>(args))...));
 }
 
 } // reflect
-- 
2.43.0


From 4bfd65184375374e0a27e52470b549b819293702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:39 +0000
Subject: [PATCH 43/44] fix: a function that returns the r-value reference it
 was given left a Value of a dead object

---
 src/value_function.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/value_function.h b/src/value_function.h
index 59be786..a12dd2d 100644
--- a/src/value_function.h
+++ b/src/value_function.h
@@ -69,6 +69,14 @@ struct ValueFunctionImpl< Fn, TypeVector<Values...> > :
     typedef FunctionType<Fn> FnType;
     typedef typename FnType::Return Ret;
 
+    // An r-value reference can refer to an argument that our call functions cast
+    // and that is gone once they return.
+    typedef typename std::decay<Ret>::type CleanRet;
+    typedef typename std::conditional<
+        std::is_rvalue_reference<Ret>::value
+            && std::is_constructible<CleanRet, Ret>::value, CleanRet, Ret>::type
+    Result;
+
     ValueFunctionImpl(Fn fn) : fn(std::move(fn)) {}
 
     // Compile-time optimization. See ValueFunctionBase::free()
@@ -103,13 +111,13 @@ private:
 
 
     template<typename... Args>
-    Ret call(GlobalFunction, TypeVector<Args...>, Values&... values)
+    Result call(GlobalFunction, TypeVector<Args...>, Values&... values)
     {
         return (*fn)(cast<Args>(values)...);
     }
 
     template<typename Obj, typename... Args, typename... Rest>
-    Ret call(
+    Result call(
             MemberFunction, TypeVector<Obj, Args...>,
             Value& obj, Rest&... values)
     {
@@ -117,7 +125,7 @@ private:
     }
 
     template<typename Obj, typename... Args, typename... Rest>
-    Ret call(
+    Result call(
             MemberFunction, TypeVector<const Obj, Args...>,
             Value& obj, Rest&... values)
     {
@@ -125,7 +133,7 @@ private:
     }
 
     template<typename... Args>
-    Ret call(FunctorFunction, TypeVector<Args...>, Values&... values)
+    Result call(FunctorFunction, TypeVector<Args...>, Values&... values)
     {
         return fn(cast<Args>(values)...);
     }
-- 
2.43.0


From 6c326a20a69e56cc2a44d9cba6177603f2d81247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:22 +0000
Subject: [PATCH 44/44] fix: moving from the result of a converter that returns
 a reference emptied the object it was converted from

---
 src/cast.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cast.cpp b/src/cast.cpp
index ca8f3fe..66e3bcc 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -41,8 +41,13 @@ Value rref(Value& value, const Argument& target)
         if (value.type()->isChildOf(target.type()))
             return value;
 
-        if (value.type()->hasConverter(target.type()))
-            return value.convert<Value>(target.type());
+        if (value.type()->hasConverter(target.type())) {
+            Value converted = value.convert<Value>(target.type());
+
+            // The converter can return a reference to something that isn't ours
+            // to move from.
+            return converted.isStored() ? converted : converted.copy();
+        }
     }
 
     reflectError("<%s> is not movable to <%s>",
-- 
2.43.0

