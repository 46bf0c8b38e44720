From a01e284d738f80dbe8c7293272bbc6fccf1ace9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 01/47] fix: dangling bracket string in
 SimpleOutput::writeContainer

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..ac37b87 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -43,7 +43,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From 66e8dc038a5ad10b57f17c5f6ec7e048cd76bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 02/47] fix: out-of-bounds pointer arithmetic when building
 error messages

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From a4f0bd8b54e7fdce6bbaae1a49b8b1b397efa904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 03/47] fix: StreamConsumer used without withConfig() reads an
 uninitialised pointer

---
 src/streamConsumer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..5ae9860 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -231,7 +231,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && params->isStrict()))
+        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
@@ -326,7 +326,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
     }
     for (int i =1; i < 4; ++i)
         _bufLower += std::tolower(_buf[i]);
-    if (_bufLower == "null" && (_bufLower == buf.str() || !params->isStrict()))
+    if (_bufLower == "null" && (_bufLower == buf.str() || (params && !params->isStrict())))
     {
         if (buf.str() != "null")
             warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-- 
2.43.0


From d2a76a14ffecb965e09fb6d80763a66b64e55abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 04/47] fix: abort on numbers that are not integers or do not
 fit 64 bits; locale-dependent decimals

---
 include/streamConsumer.hh |  6 ++++++
 src/streamConsumer.cpp    | 33 ++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 24f3cd6..3863de4 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -63,6 +63,12 @@ class StreamConsumer
         JSonElement *consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar);
         bool consumeEscapedChar(char c, std::stringstream &buf);
 
+        /**
+         * convert string to double
+         * @throws JsonFormatException if str is not a (finite) number
+        **/
+        double readDouble(const std::string &str);
+
         /**
          * read next item, fill object or array if found
         **/
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 5ae9860..a5d6453 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -284,21 +284,24 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             history.pop_back();
             stream.unget();
             if (numberIsDouble)
+                return new JSonPrimitive<double>(parent, readDouble(buf.str()));
+            try
+            {
+                return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
+            }
+            catch (std::invalid_argument &e)
             {
-                try {
-                    return new JSonPrimitive<double>(parent, atof(buf.str().c_str()));
-                } catch (std::runtime_error &e)
-                {
-                    throw JsonFormatException(stream.tellg(), history);
-                }
+                throw JsonFormatException(stream.tellg(), history);
             }
+            catch (std::out_of_range &e)
+            { }
             try
             {
-                return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
+                return new JSonPrimitive<long long>(parent, std::stoll(buf.str()));
             }
-            catch(std::out_of_range e)
+            catch (std::out_of_range &e)
             {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                return new JSonPrimitive<double>(parent, readDouble(buf.str()));
             }
         }
     }
@@ -307,6 +310,18 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
     return nullptr;
 }
 
+double StreamConsumer::readDouble(const std::string &str)
+{
+    // Not atof: decimal separator must not depend on user's locale
+    std::istringstream ss(str);
+    double value;
+
+    ss >> value;
+    if (ss.fail() || !ss.eof())
+        throw JsonFormatException(stream.tellg(), history);
+    return value;
+}
+
 JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     char _buf[5] = { firstChar, '\0', '\0', '\0', '\0' };
-- 
2.43.0


From a7233b033b0a58fe38c3b10d6c8a72fef25c6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 05/47] fix: numbers with an exponent are rejected

---
 src/streamConsumer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index a5d6453..b141603 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -262,6 +262,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     bool numberIsDouble = false;
+    bool hasExponent = false;
+    char lastChar = firstChar;
 
     buf.str("");
     buf.clear();
@@ -279,6 +281,13 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             numberIsDouble = true;
             buf.write(&c, 1);
         }
+        else if ((c == 'e' || c == 'E') && !hasExponent)
+        {
+            numberIsDouble = hasExponent = true;
+            buf.write(&c, 1);
+        }
+        else if ((c == '+' || c == '-') && (lastChar == 'e' || lastChar == 'E'))
+            buf.write(&c, 1);
         else
         {
             history.pop_back();
@@ -304,6 +313,7 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
                 return new JSonPrimitive<double>(parent, readDouble(buf.str()));
             }
         }
+        lastChar = c;
     }
     buf.str("");
     buf.clear();
-- 
2.43.0


From 1d2ce56ec662df5e155712f9aa2fc24f362b34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 06/47] fix: doubles are printed with only 6 decimals

---
 src/jsonPrimitive.cpp  | 26 +++++++++++++++++++++++++-
 src/streamConsumer.cpp |  1 +
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/jsonPrimitive.cpp b/src/jsonPrimitive.cpp
index bd02733..7f2baf7 100644
--- a/src/jsonPrimitive.cpp
+++ b/src/jsonPrimitive.cpp
@@ -4,6 +4,9 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <iomanip>
+#include <locale>
+#include <sstream>
 #include "jsonPrimitive.hh"
 
 AJSonPrimitive::AJSonPrimitive(JSonElement *p): JSonElement(p)
@@ -28,9 +31,30 @@ template<> std::string JSonPrimitive<std::string>::toString() const
 template<> std::string JSonPrimitive<Null>::toString() const
 { return "null"; }
 
+/**
+ * shortest decimal representation that reads back as the same double
+ * Not std::to_string: 6 decimals lose data, and decimal separator depends on locale
+**/
 template<> std::string JSonPrimitive<double>::toString() const
 {
-    return std::to_string(value);
+    std::string result;
+
+    for (int precision = 15; precision <= 17; ++precision)
+    {
+        std::ostringstream out;
+        double readback = 0;
+
+        out.imbue(std::locale::classic());
+        out << std::setprecision(precision) << value;
+        result = out.str();
+        std::istringstream in(result);
+        in.imbue(std::locale::classic());
+        if ((in >> readback) && readback == value)
+            break;
+    }
+    if (result.find_first_of(".en") == std::string::npos)
+        result += ".0";
+    return result;
 }
 
 template<> std::string JSonPrimitive<long long>::toString() const
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index b141603..1ef02e0 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -326,6 +326,7 @@ double StreamConsumer::readDouble(const std::string &str)
     std::istringstream ss(str);
     double value;
 
+    ss.imbue(std::locale::classic());
     ss >> value;
     if (ss.fail() || !ss.eof())
         throw JsonFormatException(stream.tellg(), history);
-- 
2.43.0


From 8a96cdd9d1f31fca01c8ccd9eb562f6a3bc16442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 07/47] fix: objects with a missing value crash, with a missing
 comma are silently truncated

---
 src/streamConsumer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 1ef02e0..111b721 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -92,10 +92,13 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
-        keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (consumeToken(result, buf) != nullptr || (buf.str() != "," && buf.str() != "}"))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From a8c08dd28a28296bd2f4cc8e266369723db01767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 08/47] fix: WrappedBuffer exposes stale items after pop_back
 or batch put, and counts from garbage

---
 include/wrappedBuffer.hpp | 62 ++++++++-------------------------------
 1 file changed, 13 insertions(+), 49 deletions(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..b7d7d0d 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
@@ -83,70 +83,34 @@ template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::put(T item)
 {
     written++;
-    if (curW +1 == SIZE)
-    {
-        curR = 1;
-        curW = 0;
-        buffer[0] = item;
-    }
-    else if (curW == -1)
-    {
-        curR = SIZE;
-        buffer[curW = 0] = item;
-    }
+    if (curW == -1)
+        curR = curW = 0;
     else
     {
-        buffer[++curW] = item;
-        if (curR == curW)
-        {
-            if (++curR > SIZE)
-                curR = 0;
-        }
+        const bool full = (size() == SIZE);
+
+        curW = (curW +1) % SIZE;
+        if (full)
+            curR = (curW +1) % SIZE;
     }
+    buffer[curW] = item;
 }
 
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::put(T items[], unsigned int count)
 {
-    unsigned int newSize = size() + count;
-
-    if (!count)
-        return;
-    written += count;
-    while (count > SIZE)
-    {
-        count -= SIZE;
-        items += SIZE;
-    }
-    if (curW + count >= SIZE)
-    {
-        if (curW +1 != SIZE)
-        {
-            memcpy(&buffer[curW +1], items, sizeof(T) * (SIZE - curW -1));
-            items += (SIZE - curW -1);
-            count -= (SIZE - curW -1);
-        }
-        curW = -1;
-    }
-    memcpy(&buffer[curW +1], items, sizeof(T) * count);
-    curW += count;
-    if (curW == SIZE)
-    {
-        curW = 0;
-        curR = 1;
-    }
-    else if (newSize >= SIZE)
-        curR = (curW +1) % SIZE;
+    for (unsigned int i =0; i < count; ++i)
+        WrappedBuffer<T, SIZE>::put(items[i]);
 }
 
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::pop_back()
 {
     unsigned int oldSize = size();
-    written--;
     if (oldSize == 0)
         return;
-    else if (oldSize == 1)
+    written--;
+    if (oldSize == 1)
     {
         curW = -1;
         curR = 0;
-- 
2.43.0


From 04ecbeccbc22ad3f5ca5d492867e8b609da9a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 09/47] fix: wrong line and column in error messages (batch
 put, number before new-line, CRLF, end of file, empty line)

---
 include/linearHistory.hh |  9 +++++++++
 src/linearHistory.cpp    | 40 ++++++++++++++++------------------------
 src/main.cpp             |  2 +-
 src/streamConsumer.cpp   | 23 +++++++++++++++++------
 4 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..8640e7e 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -27,11 +27,20 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
         void put(char item);
         void put(char item[], unsigned int count);
 
+        /**
+         * Remove last char, possibly a new-line
+        **/
+        void pop_back();
+
     private:
         /**
          * True if new line found, and should reset at new put
         **/
         bool willReset;
+        /**
+         * True if last item is \r, which makes one new-line with a following \n
+        **/
+        bool lastIsCR;
         /**
          * Current line
         **/
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..c7d98bf 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -6,7 +6,7 @@
 
 #include "linearHistory.hh"
 
-LinearHistory::LinearHistory(): willReset(false), line(1)
+LinearHistory::LinearHistory(): willReset(false), lastIsCR(false), line(1)
 { }
 
 LinearHistory::~LinearHistory()
@@ -19,10 +19,16 @@ void LinearHistory::put(char item)
 {
     if (willReset)
     {
+        if (item == '\n' && lastIsCR)
+        {
+            lastIsCR = false;
+            return; // CRLF is only one new-line
+        }
         reset();
         line++;
         willReset = false;
     }
+    lastIsCR = (item == '\r');
     if (item == L'\n' || item == L'\r')
         willReset = true;
     else
@@ -31,29 +37,15 @@ void LinearHistory::put(char item)
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
+}
+
+void LinearHistory::pop_back()
+{
+    if (willReset)
+        willReset = lastIsCR = false; // new-line is not in the buffer
+    else
+        WrappedBuffer<char, ERROR_HISTORY_LEN>::pop_back();
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 111b721..04b2b8f 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -147,6 +147,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
+        if (stream.eof())
+            break;
         history.put(c);
 
         if (!escaped)
@@ -224,7 +226,9 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     {
         const char c = stream.get();
         const char cLower = std::tolower(c);
-        history.put(c);
+        const bool eof = stream.eof();
+        if (!eof)
+            history.put(c);
 
         if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
         {
@@ -240,7 +244,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (!eof)
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, true);
         }
@@ -248,7 +253,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (!eof)
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, false);
         }
@@ -275,7 +281,9 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
-        history.put(c);
+        const bool eof = stream.eof();
+        if (!eof)
+            history.put(c);
 
         if (c >= '0' && c <= '9')
             buf.write(&c, 1);
@@ -293,7 +301,8 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             buf.write(&c, 1);
         else
         {
-            history.pop_back();
+            if (!eof)
+                history.pop_back();
             stream.unget();
             if (numberIsDouble)
                 return new JSonPrimitive<double>(parent, readDouble(buf.str()));
@@ -346,7 +355,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
@@ -369,6 +378,8 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
     while (stream.good())
     {
         char c = stream.get();
+        if (stream.eof())
+            break;
         history.put(c);
 
         //!InString, !inbool
-- 
2.43.0


From f098586ce6226da38f5a7926997fa31d312a38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 10/47] fix: strings holding quotes, backslashes or control
 characters are printed as other strings; surrogate pairs abort

---
 include/streamConsumer.hh | 13 ++++++
 src/simpleOutput.cpp      | 20 ++++++++-
 src/streamConsumer.cpp    | 87 +++++++++++++++++++++++++++++++--------
 3 files changed, 100 insertions(+), 20 deletions(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 3863de4..ad13c42 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -89,8 +89,21 @@ class StreamConsumer
 
         /**
          * compute unicode value and append it to buffer
+         * control characters and backslashes stay escaped: a backslash always starts an escape sequence in strings
         **/
         static void appendUnicode(const char [4], std::stringstream &);
+        static void appendUnicode(unsigned int codePoint, std::stringstream &);
+
+        /**
+         * read XXXX from \uXXXX
+         * @return false on end of file
+        **/
+        bool readUnicode(char result[4]);
+        /**
+         * read next char
+         * @return true if as expected
+        **/
+        bool readChar(char expected);
 
         /**
          * input stream
diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index ac37b87..e18b5af 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -10,9 +10,25 @@
 SimpleOutput::SimpleOutput(std::ostream &output, const Params &p): out(output), params(p), indent(0)
 { }
 
+/**
+ * Other escape sequences are kept as they were read
+**/
+static std::string escapeQuotes(const std::string &str)
+{
+    std::string result;
+
+    for (char c : str)
+    {
+        if (c == '"')
+            result += '\\';
+        result += c;
+    }
+    return result;
+}
+
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? ",\"" : "\"") << item->stringify() << "\":";
+    out << getIndent() << (prependComma ? ",\"" : "\"") << escapeQuotes(item->stringify()) << "\":";
 
     if (dynamic_cast<const JSonContainer *> (**item))
     {
@@ -33,7 +49,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
     out << getIndent() << (prependComma ? "," : "");
 
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << item->stringify() << "\"";
+        out << "\"" << escapeQuotes(item->stringify()) << "\"";
     else
         out << item->stringify();
     if (!params.compressed())
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 04b2b8f..96421a1 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -157,6 +157,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
                 return new JSonPrimitive<std::string>(parent, buf.str());
             else if (c == '\\')
                 escaped = true;
+            else if (c >= 0 && c < ' ')
+                appendUnicode((unsigned int)c, buf); // keep it printable
             else
                 buf.write(&c, 1);
         }
@@ -175,30 +177,40 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
 bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
 {
-    if (c == '\\' || c == '"' || c == '/')
+    if (c == '"' || c == '/')
         buf.write(&c, 1);
     else if (c == 'u')
     {
-        if (params && params->isIgnoringUnicode())
-            buf.write("\\u", 2);
-        else
-        {
+        try {
             char unicodeBuf[4];
-            stream.read(unicodeBuf, 4);
-            std::streamsize gcount = stream.gcount();
-            history.put(unicodeBuf, gcount);
-            if (gcount != 4)
+            if (!readUnicode(unicodeBuf))
                 return false;
-            try {
-                appendUnicode(unicodeBuf, buf);
+            unsigned int uni = hexbyte<unsigned int>(unicodeBuf, 4);
+            if (params && params->isIgnoringUnicode())
+            {
+                buf.write("\\u", 2).write(unicodeBuf, 4);
+                return true;
             }
-            catch (std::invalid_argument &e)
+            if (uni >= 0xD800 && uni < 0xE000)
             {
-                throw JsonHexvalueException(e.what(), stream.tellg(), history);
+                // surrogate pair
+                if (uni >= 0xDC00 || !readChar('\\') || !readChar('u'))
+                    throw JsonFormatException(stream.tellg(), history);
+                if (!readUnicode(unicodeBuf))
+                    return false;
+                const unsigned int low = hexbyte<unsigned int>(unicodeBuf, 4);
+                if (low < 0xDC00 || low >= 0xE000)
+                    throw JsonFormatException(stream.tellg(), history);
+                uni = 0x10000 + ((uni - 0xD800) << 10) + (low - 0xDC00);
             }
+            appendUnicode(uni, buf);
+        }
+        catch (std::invalid_argument &e)
+        {
+            throw JsonHexvalueException(e.what(), stream.tellg(), history);
         }
     }
-    else if (c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
+    else if (c == '\\' || c == 'b' || c == 'f' || c == 'r' || c == 'n' || c == 't')
         buf.write("\\", 1).write(&c, 1);
     else if (params && params->isStrict())
         throw JsonEscapedException(c, stream.tellg(), history);
@@ -210,6 +222,23 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
     return true;
 }
 
+bool StreamConsumer::readUnicode(char result[4])
+{
+    stream.read(result, 4);
+    const std::streamsize gcount = stream.gcount();
+    history.put(result, gcount);
+    return gcount == 4;
+}
+
+bool StreamConsumer::readChar(char expected)
+{
+    const char c = stream.get();
+    if (stream.eof())
+        return false;
+    history.put(c);
+    return c == expected;
+}
+
 JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     size_t read =1;
@@ -408,10 +437,32 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
-    unsigned short uni = hexbyte<unsigned short>(unicode, 4);
-    std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
-    std::string unichar = converter.to_bytes(uni);
-    buf.write(unichar.c_str(), unichar.size());
+    appendUnicode(hexbyte<unsigned int>(unicode, 4), buf);
+}
+
+void StreamConsumer::appendUnicode(unsigned int uni, std::stringstream &buf)
+{
+    static const char hexdigits[] = "0123456789abcdef";
+
+    if (uni == '\\')
+        buf << "\\\\";
+    else if (uni == '\b')
+        buf << "\\b";
+    else if (uni == '\f')
+        buf << "\\f";
+    else if (uni == '\n')
+        buf << "\\n";
+    else if (uni == '\r')
+        buf << "\\r";
+    else if (uni == '\t')
+        buf << "\\t";
+    else if (uni < ' ')
+        buf << "\\u00" << hexdigits[uni >> 4] << hexdigits[uni & 0xF];
+    else
+    {
+        std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
+        buf << converter.to_bytes(uni);
+    }
 }
 
 std::string StreamConsumer::extractUnicode(const char *buf)
-- 
2.43.0


From 3e66457fbb39e608a14e009043e09dd609b09541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 11/47] fix: search pattern: uninitialised type filter, abort
 on invalid regex, whole-word at string ends, /i changing regex classes

---
 src/searchPattern.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..43045bd 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -68,12 +65,18 @@ void SearchPattern::evalFlags(const char *s)
             typeFlag = SearchPattern::TYPE_OBJKEY;
         s++;
     }
+    if (flags & FLAG_CASE && !(flags & FLAG_REGEX))
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
         if (flags & FLAG_CASE)
             opts |= std::regex_constants::icase;
-        regex = new std::regex(pattern, opts);
+        try {
+            regex = new std::regex(pattern, opts);
+        }
+        catch (std::regex_error &e)
+        { } // invalid pattern: match nothing
     }
 }
 
@@ -106,14 +109,15 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
             return false;
     }
     if (flags & FLAG_REGEX)
-        return regex_search(str, *regex);
+        return regex && regex_search(str, *regex);
     if ((flags & FLAG_WHOLESTR && str.length() != pattern.length())
             || pattern.length() > str.length())
         return false;
     if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())
     {
-        std::string pattern = " " +this->pattern +' ';
-        return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        const std::string padded = " " +str +' ';
+        const std::string pattern = " " +this->pattern +' ';
+        return std::search(padded.begin(), padded.end(), pattern.begin(), pattern.end(), *this) != padded.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From e530459e0dd4e81d0d23549197076ecfe9b95b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 12/47] fix: SIGINT and SIGTERM are ignored until next key
 press

---
 src/inputSequence.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6efeadf..dd15525 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -20,9 +20,15 @@ InputSequence InputSequence::read(WINDOW *w)
         const int input = wgetch(w ? w : stdscr);
 
         if (input == -1)
+        {
+            if (result.seq.empty())
+                break; // let caller check for signals
             continue;
+        }
 
         kname = keyname(toupper(input));
+        if (!kname)
+            continue;
 
         if (!result.seq.empty())
             result.seq += "-";
-- 
2.43.0


From 3e260d96d8d5f7762252133cac5c2cd09cf11d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 13/47] fix: search input: out-of-bounds read on empty input,
 backspace key, non-ASCII bytes, abort on invalid escape; message drawn on
 unfinished screen

---
 src/curseOutput.cpp    | 30 +++++++++++-------------------
 src/streamConsumer.cpp | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..4f6e37c 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -157,10 +157,10 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
+    while (!redraw()); // may need to scroll
 
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
-    return result;
+    return true;
 }
 
 unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, OutputFlag flags)
@@ -203,7 +203,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer;
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -214,34 +214,26 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     {
         int c;
 
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
-        if (c == L'\n' || c == L'\r')
+        if (c == '\n' || c == '\r' || c == KEY_ENTER)
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == '\b' || c == 127 || c == KEY_BACKSPACE)
         {
             if (!buffer.empty())
                 buffer.pop_back();
         }
-        else if (c == 27)
+        else if (c == 27 || breakLoop)
             abort = true;
-        else
+        else if (c >= 0 && c < KEY_MIN)
             buffer += c;
     }
     wtimeout(w, 150);
     curs_set(false);
 
-    {
-        const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
-        std::string str;
-        if (params.isIgnoringUnicode())
-            str = bytesString;
-        else
-            str = StreamConsumer::extractUnicode(bytesString);
-        return abort ? nullptr : new SearchPattern(str);
-    }
+    if (abort)
+        return nullptr;
+    return new SearchPattern(params.isIgnoringUnicode() ? buffer : StreamConsumer::extractUnicode(buffer));
 }
 
 void CurseOutput::writeTopLine(const std::string &buffer, short color) const
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 96421a1..ccad0fa 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -469,15 +469,21 @@ std::string StreamConsumer::extractUnicode(const char *buf)
 {
     std::stringstream result;
 
-    for (; *buf; buf++)
+    while (*buf)
     {
         if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
         {
-            appendUnicode(buf +2, result);
-            buf += 6;
+            try {
+                appendUnicode(buf +2, result);
+                buf += 6;
+                continue;
+            }
+            catch (std::exception &e)
+            { } // Not a character, keep it as is
         }
-        else
-            result.write(buf, 1);
+        else if (*buf == '\\' && buf[1])
+            result.write(buf++, 1); // escaped character
+        result.write(buf++, 1);
     }
     return result.str();
 }
-- 
2.43.0


From 800d17a1606cfd2e5654d932392df8175546a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 14/47] fix: buffer overflow in JSonElement::strlen and
 lazystrlen

---
 src/jsonElement.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..b05974a 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -4,6 +4,7 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <stdlib.h>
 #include "jsonElement.hh"
 #include "jsonContainer.hh"
 #include "jsonObjectEntry.hh"
@@ -25,12 +26,7 @@ size_t JSonElement::lazystrlen()
 {
     if (_strlen)
         return _strlen;
-    const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    return _strlen = strlen();
 }
 
 size_t JSonElement::strlen() const
@@ -38,11 +34,8 @@ size_t JSonElement::strlen() const
     if (_strlen)
         return _strlen;
     const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return len == (size_t) -1 ? buf.size() : len;
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From f3c78a63fb9aed420bc0ed0e2ec017da5eab8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 15/47] fix: viewer keeps pointers to previous input's (freed)
 items

---
 src/curseSimpleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..05e613f 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -28,6 +28,8 @@ void CurseSimpleOutput::run(JSonElement *root, const std::string &i)
 {
     scrollTop = 0;
     selection = data = root;
+    search_result.clear(); // do not keep previous input's items
+    collapsed.clear();
     inputName = i;
     loop(nullptr);
 }
-- 
2.43.0


From 80049d7fc0d77d702b5d10ddf4afa8da2a7baa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 16/47] fix: external diff: inputs with similar names share one
 temporary file, endless loop if it cannot be created

---
 src/main.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..52f90b8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -9,6 +9,9 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <errno.h>
+#include <stdlib.h>
+#include <string.h>
 #include <locale.h>
 #include "curseSimpleOutput.hh"
 #include "curseSplitOutput.hh"
@@ -64,19 +67,18 @@ StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> in
     return stream;
 }
 
-std::ofstream getOutputFile(const std::string iname, std::string &outfile)
+std::ofstream getOutputFile(std::string &outfile)
 {
-    unsigned long long hash = DiffCmd::hashString(iname);
-    unsigned int i = 0;
+    char fname[] = "/tmp/jsondifftmpXXXXXX.tmp";
     std::ofstream fout;
-    std::stringstream ss;
+    int fd = mkstemps(fname, 4);
 
-    do {
-        ss = std::stringstream("");
-        ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
-        outfile = ss.str();
+    if (fd != -1)
+    {
+        close(fd);
+        outfile = fname;
         fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+    }
     return fout;
 }
 
@@ -96,8 +98,15 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
 
         if (!stream)
             return inputsFilenames;
-        std::ofstream fout = getOutputFile(input.first, fname);
-        inputsFilenames.push_back(fname);
+        std::ofstream fout = getOutputFile(fname);
+        if (!fname.empty())
+            inputsFilenames.push_back(fname);
+        if (!fout.is_open())
+        {
+            std::cerr << p.getProgName() << ": cannot create temporary file: " << strerror(errno) << std::endl;
+            delete stream;
+            return inputsFilenames;
+        }
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
     }
-- 
2.43.0


From 52957fad707bea3086589fd69d7f5f3965636958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 17/47] fix: external diff never returns if the command is
 killed, and goes on twice if it cannot be executed

---
 src/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 52f90b8..a2a1ade 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -123,11 +123,14 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
-        execvp(*av, av);
+    {
+        if (*av)
+            execvp(*av, av);
+        std::cerr << p.getProgName() << ": cannot execute " << (*av ? *av : "empty command") << std::endl;
+        _exit(127);
+    }
     // Wait for child to terminate
-    do {
-        waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+    while (waitpid(fk, &status, 0) == -1 && errno == EINTR);
     return inputsFilenames;
 }
 
-- 
2.43.0


From 58c4d851063d2be59085a801cf89d14b406f5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 18/47] fix: --diff with 3 files aborts, as only 2 are
 implemented

---
 src/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/params.cpp b/src/params.cpp
index eea9de8..e711306 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -123,9 +123,9 @@ bool Params::read()
     }
     if (diffMode)
     {
-        if (inputs.size() > 3)
+        if (inputs.size() > 2)
         {
-            std::cerr << progName << ": more than 3 files to compare" << std::endl;
+            std::cerr << progName << ": more than 2 files to compare" << std::endl;
             usage();
             return false;
         }
@@ -154,7 +154,7 @@ void Params::usage() const noexcept
     << progName << " [OPTIONS]" << std::endl
     << "or: " << progName << " [OPTIONS] FILENAME" << std::endl
     << "or: " << progName << " [OPTIONS] -- INPUT" << std::endl
-    << "or: " << progName << " --diff [OPTIONS] FILENAME FILENAME [FILENAME]" << std::endl
+    << "or: " << progName << " --diff [OPTIONS] FILENAME FILENAME" << std::endl
     << "Read json input and print it using ncurse" << std::endl << std::endl
     << "if not INPUT nor FILENAME, use standard input" << std::endl << std::endl
     << "When output is redirected to a file or another command, output will be prettyfied unless --compress" << std::endl << std::endl
-- 
2.43.0


From b8033bd3207360368664d05b326e406ffd9318b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 19/47] fix: diff: changed items shown as equal, crash on empty
 containers, distance overflow

---
 include/levenshteinMatrice.hpp | 46 +++++++++++++++++++++++-----------
 src/levenshtein.cpp            | 31 +++++++++++++++++------
 2 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..13db894 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -14,6 +14,10 @@ class LevenshteinMatrice_base
         virtual const std::map<const JSonElement*, eLevenshteinOperator> path() const;
         virtual size_t result() const =0;
         virtual bool areSimilar() const =0;
+        /**
+         * true if both elements (and all their descendants) are the same
+        **/
+        virtual bool areEqual() const =0;
 
         eLevenshteinOperator get(const JSonElement *) const;
         virtual std::map<const JSonElement *, const JSonElement *> getEquivalences() const;
@@ -39,6 +43,7 @@ class LevenshteinMatrice_manual: public LevenshteinMatrice_base
         LevenshteinMatrice_manual *add(const JSonElement*, eLevenshteinOperator);
         size_t result() const;
         bool areSimilar() const;
+        bool areEqual() const;
 
     public:
         size_t _result;
@@ -54,18 +59,22 @@ class LevenshteinMatriceWithScore: public LevenshteinMatrice_base
 
         size_t result() const;
         bool areSimilar() const;
+        bool areEqual() const;
 
     private:
-        bool _result;
+        bool _result, _equal;
         const JSonElement *equivalentA, *equivalentB;
 };
 
 class LevenshteinMatrice: public LevenshteinMatrice_base
 {
     public:
+        /**
+         * @param sameType whether both containers are of the same type
+        **/
         template<typename T>
         static LevenshteinMatrice *build(const JSonContainer::const_iterator aBegin, const JSonContainer::const_iterator bBegin,
-                const size_t n, const size_t m)
+                const size_t n, const size_t m, bool sameType)
         {
             LevenshteinMatrice *result = new LevenshteinMatrice();
             size_t i, j;
@@ -97,10 +106,10 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     LevenshteinMatrice_base *_subMatrice = matriceBuilder.build(*a, *b);
                     if (_subMatrice != nullptr)
                     {
-                        const T chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
+                        const size_t chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
 
-                        if (chCost <= matrice[i -1][j] +1 &&
-                                chCost <= matrice[i][j -1] +1)
+                        if (chCost <= (size_t) matrice[i -1][j] +1 &&
+                                chCost <= (size_t) matrice[i][j -1] +1)
                         {
                             matrice[i][j] = chCost;
                             subMatrice[i -1][j -1] = _subMatrice;
@@ -113,8 +122,11 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
-            if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
+            if (!sameType && !result->levenDist)
+                result->levenDist = 1;
+            result->similar = !result->levenDist || result->levenDist < std::max(n, m);
+            result->equal = sameType && n == m;
+            if (result->similar && n && m)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
             return result;
@@ -140,14 +152,14 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
 
         void addRoot(const JSonContainer *a, const JSonContainer *b)
         {
-            if (levenRelativeDist < LEVENSHTEIN_SENSIBILITY)
+            if (!similar)
             {
                 operations[a] = eLevenshteinOperator::add;
                 operations[b] = eLevenshteinOperator::add;
             }
             else
             {
-                operations[a] = operations[b] = levenRelativeDist < 1.f ? eLevenshteinOperator::mod : eLevenshteinOperator::equ;
+                operations[a] = operations[b] = equal ? eLevenshteinOperator::equ : eLevenshteinOperator::mod;
                 equivalences[a] = b;
                 equivalences[b] = a;
             }
@@ -157,6 +169,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
 
         size_t result() const;
         bool areSimilar() const;
+        bool areEqual() const;
         const JSonElement *getEquivalence(const JSonElement *) const;
 
     private:
@@ -171,27 +184,30 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                 if (_i && (!_j || matrice[_i][_j] > matrice[_i-1][_j]))
                 {
                     operations[*i] = eLevenshteinOperator::add;
+                    equal = false;
                     --i;
                     --_i;
                 }
                 else if (_j && (!_i || matrice[_i][_j] > matrice[_i][_j -1]))
                 {
                     operations[*j] = eLevenshteinOperator::add;
+                    equal = false;
                     --j;
                     --_j;
                 }
                 else if (_i && _j)
                 {
-                    eLevenshteinOperator op =
-                        matrice[_i][_j] == matrice[_i -1][_j -1] ?
-                        eLevenshteinOperator::equ :
-                        eLevenshteinOperator::mod;
-                    operations[*i] = operations[*j] = op;
+                    const bool sameItems = subMatrice[_i -1][_j -1]->areEqual();
+
                     for (std::pair<const JSonElement *, eLevenshteinOperator> e : subMatrice[_i -1][_j -1]->path())
                         operations[e.first] = e.second;
                     for (std::pair<const JSonElement *, const JSonElement *> e : (subMatrice[_i -1][_j -1])->getEquivalences())
                         equivalences[e.first] = e.second;
+                    // Those are paired, even if sub-elements are not
+                    operations[*i] = operations[*j] = sameItems ? eLevenshteinOperator::equ : eLevenshteinOperator::mod;
                     equivalences[*i] = *j;
+                    if (!sameItems)
+                        equal = false;
                     --i;
                     --j;
                     --_i;
@@ -217,7 +233,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
         LevenshteinMatrice();
 
         size_t levenDist;
-        float levenRelativeDist;
+        bool similar, equal;
         std::map<const JSonElement*, const JSonElement *> equivalences;
 };
 
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..097c910 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -59,14 +59,17 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
         const JSonContainer::const_iterator aBegin = ((const JSonContainer*)a)->cbegin();
         const JSonContainer::const_iterator bBegin = ((const JSonContainer*)b)->cbegin();
 
+        const bool sameType = a->stringify() == b->stringify(); // brackets
+
         LevenshteinMatrice *result = nullptr;
 
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
-            result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
-            result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
+        // distance cannot be greater than lenA + lenB
+        if (lenA + lenB < UCHAR_MAX)
+            result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB, sameType);
+        else if (lenA + lenB < USHRT_MAX)
+            result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB, sameType);
         else
-            result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
+            result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB, sameType);
         result->addRoot((const JSonContainer *)a, (const JSonContainer *)b);
         return result;
     }
@@ -129,7 +132,10 @@ size_t LevenshteinMatrice::result() const
 { return levenDist; }
 
 bool LevenshteinMatrice::areSimilar() const
-{ return levenRelativeDist > LEVENSHTEIN_SENSIBILITY; }
+{ return similar; }
+
+bool LevenshteinMatrice::areEqual() const
+{ return equal; }
 
 const JSonElement *LevenshteinMatrice::getEquivalence(const JSonElement *e) const
 {
@@ -165,12 +171,18 @@ bool LevenshteinMatrice_manual::areSimilar() const
     return false;
 }
 
+bool LevenshteinMatrice_manual::areEqual() const
+{
+    return false;
+}
+
 /**
  * Score matrice
 **/
 LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElement *a, const JSonElement *b, bool sameType)
 {
     _result = s > LEVENSHTEIN_SENSIBILITY;
+    _equal = sameType && a->stringify() == b->stringify();
     if (sameType)
     {
         equivalentA = a;
@@ -179,7 +191,7 @@ LevenshteinMatriceWithScore::LevenshteinMatriceWithScore(float s, const JSonElem
     else
         equivalentA = equivalentB = nullptr;
     if (sameType)
-        operations[a] = operations[b] = (_result ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
+        operations[a] = operations[b] = (_equal ? eLevenshteinOperator::equ : eLevenshteinOperator::mod);
     else
         operations[a] = operations[b] = eLevenshteinOperator::add;
 }
@@ -209,3 +221,8 @@ bool LevenshteinMatriceWithScore::areSimilar() const
     return _result;
 }
 
+bool LevenshteinMatriceWithScore::areEqual() const
+{
+    return _equal;
+}
+
-- 
2.43.0


From 945b6c8d4ede76fd2054e7184496d60d07dec185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 20/47] fix: split viewer: uninitialised number of windows,
 diff marks drawn on wrong lines once scrolled

---
 src/curseSplitOutput.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..728c686 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -27,6 +27,9 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
 CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
 {
     diffMatrice = nullptr;
+    bottomLine = nullptr;
+    nbInputs = 1; // until run
+    selectedWin = workingWin = 0;
     init();
 }
 
@@ -476,8 +479,9 @@ bool CurseSplitOutput::redraw()
 
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
-                        for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                        for (unsigned int j = 0; j < diffY; ++j, ++wi.cursor.second)
+                            if (wi.cursor.second > wi.scrollTop)
+                                displayDiffOp(wi.innerWin, wi.cursor.second - wi.scrollTop, eLevenshteinOperator::rem);
                 restart = true;
 
                 break;
@@ -778,7 +782,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 3b9dd09e261bed0a55cbb87407f79321e0de7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 21/47] fix: stack overflow on deeply nested input

---
 include/config.h          |  7 +++++++
 include/streamConsumer.hh |  5 +++++
 src/streamConsumer.cpp    | 15 ++++++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/config.h b/include/config.h
index 1d3376e..cc2e810 100644
--- a/include/config.h
+++ b/include/config.h
@@ -18,6 +18,13 @@
 # define INDENT_LEVEL 4
 #endif //INDENT_LEVEL
 
+/**
+ * Max nested containers to read (parser and outputs are recursive)
+**/
+#ifndef  MAX_NESTING_LEVEL
+# define MAX_NESTING_LEVEL 1024
+#endif //MAX_NESTING_LEVEL
+
 /**
  * Version number
 **/
diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index ad13c42..be96b07 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -118,6 +118,11 @@ class StreamConsumer
         **/
         const AParams *params;
 
+        /**
+         * number of containers currently being read
+        **/
+        unsigned int nestingLevel;
+
         /**
          * non-blocking errors
         **/
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index ccad0fa..0c9f9c7 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr), nestingLevel(0)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -69,11 +69,16 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
     JSonObject *result = nullptr;
     std::stringstream buf;
 
+    if (++nestingLevel > MAX_NESTING_LEVEL)
+        throw JsonFormatException(stream.tellg(), history);
     do
     {
         keyObj = consumeToken(result, buf);
         if (result == nullptr && keyObj == nullptr && buf.str() == "}")
+        {
+            nestingLevel--;
             return new JSonObject(parent);
+        }
         JSonPrimitive<std::string> *key = dynamic_cast<JSonPrimitive<std::string> *>(keyObj);
         if (key == nullptr)
             throw JSonObject::NotAKeyException(stream.tellg(), history);
@@ -99,6 +104,7 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
         if (consumeToken(result, buf) != nullptr || (buf.str() != "," && buf.str() != "}"))
             throw JsonUnexpectedException('}', stream.tellg(), history);
     } while (buf.str() != "}");
+    nestingLevel--;
     return result;
 }
 
@@ -106,11 +112,17 @@ JSonArray *StreamConsumer::readArray(JSonContainer *parent)
 {
     JSonArray *result = nullptr;
     std::stringstream sbuf;
+
+    if (++nestingLevel > MAX_NESTING_LEVEL)
+        throw JsonFormatException(stream.tellg(), history);
     JSonElement *child = consumeToken(parent, sbuf);
     std::string buf = sbuf.str();
 
     if (child == nullptr && buf == "]")
+    {
+        nestingLevel--;
         return new JSonArray(parent); //Empty object
+    }
     do
     {
         if (child == nullptr && buf == "[")
@@ -134,6 +146,7 @@ JSonArray *StreamConsumer::readArray(JSonContainer *parent)
         child = consumeToken(result, sbuf);
         buf = sbuf.str();
     } while (true);
+    nestingLevel--;
     return result;
 }
 
-- 
2.43.0


From 9fb95e4dd6afb9dec8d7d928ddadb6c59fb9b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 22/47] fix: string values of objects are printed without
 quotes

---
 src/simpleOutput.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index e18b5af..91be116 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -26,6 +26,13 @@ static std::string escapeQuotes(const std::string &str)
     return result;
 }
 
+static std::string primitiveToString(const JSonElement *item)
+{
+    if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
+        return '"' +escapeQuotes(item->stringify()) +'"';
+    return item->stringify();
+}
+
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
     out << getIndent() << (prependComma ? ",\"" : "\"") << escapeQuotes(item->stringify()) << "\":";
@@ -38,7 +45,7 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        out << primitiveToString(**item);
         if (!params.compressed())
             out << std::endl;
     }
@@ -46,12 +53,7 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
 
 void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? "," : "");
-
-    if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << escapeQuotes(item->stringify()) << "\"";
-    else
-        out << item->stringify();
+    out << getIndent() << (prependComma ? "," : "") << primitiveToString(item);
     if (!params.compressed())
         out << std::endl;
 }
-- 
2.43.0


From 9cc04281140cd9544e01a5a3e3ade5a7ebdbd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 23/47] fix: findNext does not leave containers held by an
 object entry

---
 src/jsonElement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index b05974a..69922b2 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -79,8 +79,10 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
-    if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
+    if (parent == nullptr)
         return nullptr; // Root node, can't have brothers
+    if (!dynamic_cast<const JSonContainer*>(parent))
+        return parent->findNext(); // Value of an object entry
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
     while (it != ((const JSonContainer*)parent)->cend())
     {
-- 
2.43.0


From a530e2ee1cac86f236f47e9c127abc36c5414e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 24/47] fix: split viewer: search selects items of the other
 file

---
 src/curseSplitOutput.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 728c686..21521a9 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -315,8 +315,12 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
     unsigned int result =0;
 
+    workingWin = 0;
     for (t_subWindow &w : subWindows)
+    {
         result += search(searchPattern, w.root);
+        ++workingWin;
+    }
     return result;
 }
 
@@ -336,14 +340,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
         if (current && current->match(searchPattern))
         {
             if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
+                subWindows.at(workingWin).searchResults.push_back(current->getParent());
             else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+                subWindows.at(workingWin).searchResults.push_back(current);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
     }
-    return subWindows.at(selectedWin).searchResults.size();
+    return subWindows.at(workingWin).searchResults.size();
 }
 
 bool CurseSplitOutput::jumpToNextSearch()
@@ -875,8 +879,8 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
                 item) != subWindows.at(selectedWin).searchResults.cend());
 
     try {
-- 
2.43.0


From 0b3e78b7fbdac47e910f2d30a9a5c5b088e228ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 25/47] fix: Down and Right keys skip children or get stuck at
 the bottom of the screen

---
 include/curseOutput.hh       |  6 ++++++
 include/curseSimpleOutput.hh |  2 +-
 src/curseOutput.cpp          | 11 +++++++++++
 src/curseSimpleOutput.cpp    | 16 ++++------------
 src/curseSplitOutput.cpp     | 11 +----------
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 848ea59..52fda09 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -159,6 +159,12 @@ class CurseOutput
         **/
         void unfold(const JSonElement *);
 
+        /**
+         * get element following item in document order, item itself if it is the last one
+         * Children are skipped if item is collapsed
+        **/
+        const JSonElement *nextElement(const JSonElement *item) const;
+
 
         // Fields
         /**
diff --git a/include/curseSimpleOutput.hh b/include/curseSimpleOutput.hh
index 1f6081a..6dce092 100644
--- a/include/curseSimpleOutput.hh
+++ b/include/curseSimpleOutput.hh
@@ -90,6 +90,6 @@ class CurseSimpleOutput: public CurseOutput
          * Selection helpers
          * Used for moving viewport
         **/
-        bool selectFound, selectIsLast;
+        bool selectFound, selectIsFirst, selectIsLast;
 };
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 4f6e37c..80b8cf7 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -201,6 +201,17 @@ void CurseOutput::unfold(const JSonElement *item)
     }
 }
 
+const JSonElement *CurseOutput::nextElement(const JSonElement *item) const
+{
+    const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(item);
+    const JSonContainer *container = dynamic_cast<const JSonContainer*>(entry ? **entry : item);
+
+    if (container && !container->empty() && collapsed.find(container) == collapsed.cend())
+        return *(container->cbegin());
+    const JSonElement *next = item->findNext();
+    return next ? next : item;
+}
+
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
     std::string buffer;
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 05e613f..116cc90 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -43,7 +43,7 @@ bool CurseSimpleOutput::redraw()
     bool result;
 
     select_up = select_down = nullptr;
-    selectFound = selectIsLast = false;
+    selectFound = selectIsFirst = selectIsLast = false;
     clear();
     writeTopLine(inputName, OutputFlag::SPECIAL_ACTIVEINPUTNAME);
     try {
@@ -61,16 +61,7 @@ bool CurseSimpleOutput::redraw()
     if (!result && !select_down)
         selectIsLast = true;
     if (!select_down)
-    {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
-        if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
-            select_down = *(pselect->cbegin());
-        else
-        {
-            const JSonElement *next = selection->findNext();
-            select_down = next ? next : selection;
-        }
-    }
+        select_down = nextElement(selection);
     if (!select_up)
         select_up = selection;
     refresh();
@@ -85,7 +76,7 @@ inputResult CurseSimpleOutput::selectUp()
 
 inputResult CurseSimpleOutput::selectDown()
 {
-    if (selectIsLast)
+    if (selectIsLast && !selectIsFirst)
         scrollTop += 2;
     else if (selection != select_down)
         selection = select_down;
@@ -511,6 +502,7 @@ void CurseSimpleOutput::checkSelection(const JSonElement *item, const t_Cursor &
             if (cursor.second <= scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
                 scrollTop = cursor.second == 0 ? 0 : cursor.second -1;
             selectFound = true;
+            selectIsFirst = (cursor.second == scrollTop +1); // cannot scroll further
         }
         else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))
             select_up = item;
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 21521a9..cdae7fb 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -393,16 +393,7 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
                 w.selectIsLast = true;
         }
         if (!w.select_down)
-        {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
-            if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
-                w.select_down = *(pselect->cbegin());
-            else
-            {
-                const JSonElement *next = w.lastSelection->findNext();
-                w.select_down = next ? next : w.lastSelection;
-            }
-        }
+            w.select_down = nextElement(w.lastSelection);
         if (!w.select_up)
             w.select_up = subWindows.at(workingWin).lastSelection;
         return Optional<bool>::of(true);
-- 
2.43.0


From 5f4dc5963e18902560dfd4dde05584d108413eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 26/47] fix: diff: containers without any item in common are
 shown as equal

---
 include/levenshteinMatrice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 13db894..82ed0fd 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -125,7 +125,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             if (!sameType && !result->levenDist)
                 result->levenDist = 1;
             result->similar = !result->levenDist || result->levenDist < std::max(n, m);
-            result->equal = sameType && n == m;
+            result->equal = sameType && n == m && result->similar;
             if (result->similar && n && m)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
-- 
2.43.0


From e38227f35c3cd43765728baa05af5d3785441fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 27/47] fix: viewer: title as wide as the screen colours the
 next line

---
 src/curseOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 80b8cf7..44b3bfe 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -254,7 +254,9 @@ void CurseOutput::writeTopLine(const std::string &buffer, short color) const
 
     if (params.colorEnabled())
         attron(COLOR_PAIR(color));
-    mvprintw(0, 0, "%s%*c", str.c_str(), screenSize.first - bufsize, ' ');
+    mvprintw(0, 0, "%s", str.c_str());
+    if (bufsize < screenSize.first)
+        printw("%*c", (int) (screenSize.first - bufsize), ' ');
     if (params.colorEnabled())
         attroff(COLOR_PAIR(color));
 }
-- 
2.43.0


From 54ca96c8ddccffb0153e61b23ab42136e5a0f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 28/47] fix: split viewer: whole unselected side drawn in
 search colour

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index cdae7fb..d28c4f4 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -872,7 +872,7 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
     res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
                 subWindows.at(workingWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From 5359a2e7d57cf43fcce61203007c1a7552ba10b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 29/47] fix: SIGINT and SIGTERM are ignored after ^W until next
 key press

---
 include/inputSequence.hh | 6 +++++-
 src/curseOutput.cpp      | 2 +-
 src/inputSequence.cpp    | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 8759f3e..da5d421 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -11,7 +11,11 @@ class InputSequence
     public:
         ~InputSequence();
 
-        static InputSequence read(WINDOW *);
+        /**
+         * read next key sequence
+         * @param abort stop waiting for the end of a sequence once true (set by signal handler)
+        **/
+        static InputSequence read(WINDOW *, const bool &abort);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 44b3bfe..99f3235 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -107,7 +107,7 @@ inputResult CurseOutput::readInput(WINDOW *w)
 {
     while (!breakLoop)
     {
-        inputResult r = evalKey(InputSequence::read(w));
+        inputResult r = evalKey(InputSequence::read(w, breakLoop));
         if (r != inputResult::nextInput)
             return r;
     }
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index dd15525..de6dd5b 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w)
+InputSequence InputSequence::read(WINDOW *w, const bool &abort)
 {
     InputSequence result;
     const char *kname = nullptr;
@@ -21,7 +21,7 @@ InputSequence InputSequence::read(WINDOW *w)
 
         if (input == -1)
         {
-            if (result.seq.empty())
+            if (result.seq.empty() || abort)
                 break; // let caller check for signals
             continue;
         }
-- 
2.43.0


From 5259455ae325d6ab80a9bc314e0a08c0e3407aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 30/47] fix: viewer: last cell of the screen shows a character
 of the cut part of an entry

---
 include/curseOutput.hh    | 6 ++++++
 src/curseSimpleOutput.cpp | 4 +++-
 src/curseSplitOutput.cpp  | 4 +++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 52fda09..9eba821 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -188,6 +188,12 @@ class CurseOutput
         **/
         bool breakLoop;
 
+        /**
+         * true once current line is cut by the end of the screen: nothing more to write on it
+         * (ncurses would write over the last char)
+        **/
+        mutable bool lineCut;
+
         /**
          * initialized colors
         **/
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 116cc90..9355113 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -371,6 +371,7 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
     if (y <= scrollTop)
         return 1;
     move(y - scrollTop, x);
+    lineCut = false;
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
@@ -387,7 +388,8 @@ void CurseSimpleOutput::write(const std::string &str, const OutputFlag flags) co
     if (color != OutputFlag::SPECIAL_NONE)
         attron(COLOR_PAIR(color));
 
-    printw("%s", str.c_str());
+    if (!lineCut)
+        lineCut = (printw("%s", str.c_str()) == ERR);
     attroff(A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         attroff(COLOR_PAIR(color));
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index d28c4f4..335fb53 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -779,6 +779,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
         return 1;
     displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
+    lineCut = false;
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
 }
@@ -797,7 +798,8 @@ void CurseSplitOutput::write(const std::string &str, const OutputFlag flags) con
     if (color != OutputFlag::SPECIAL_NONE)
         wattron(currentWin, COLOR_PAIR(color));
 
-    wprintw(currentWin, "%s", str.c_str());
+    if (!lineCut)
+        lineCut = (wprintw(currentWin, "%s", str.c_str()) == ERR);
     wattroff(currentWin, A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
-- 
2.43.0


From 1805ac6f6f774ff1c0aed9512771ce59957cf971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 31/47] fix: split viewer: selection is out of the screen, and
 misplaced, below gaps that fill the screen

---
 src/curseSplitOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 335fb53..be15d05 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -371,7 +371,9 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     bool result;
 
     try {
-        if (w.parentsIterators.empty())
+        if (hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second)) // gaps filled the screen
+            result = false;
+        else if (w.parentsIterators.empty())
             result = redraw(w, w.root);
         else
             result = redraw(w, w.parentsIterators.top());
-- 
2.43.0


From b398aa6f3f435c52c558b28931d9bd5fc0568384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 32/47] fix: split viewer: counterpart of an item found in a
 collapsed container stays hidden

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 107aaef..633f88a 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -98,6 +98,11 @@ class CurseSplitOutput: public CurseOutput
 
         void setSelection(const JSonElement *);
 
+        /**
+         * remove selection's parents from the collapsed list, on every window
+        **/
+        void unfoldSelection();
+
         void computeDiff();
         std::deque<t_subWindow> subWindows;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index be15d05..1359bb7 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -358,14 +358,21 @@ bool CurseSplitOutput::jumpToNextSearch()
     if (!res)
     {
         setSelection(*(subWindows.at(selectedWin).searchResults.cbegin()));
-        unfold(subWindows.at(selectedWin).selection);
+        unfoldSelection();
         CurseOutput::redraw("Search hit BOTTOM, continuing at TOP");
         return false;
     }
-    unfold(subWindows.at(selectedWin).selection);
+    unfoldSelection();
     return true;
 }
 
+void CurseSplitOutput::unfoldSelection()
+{
+    for (const t_subWindow &w : subWindows)
+        if (w.selection)
+            unfold(w.selection);
+}
+
 const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
 {
     bool result;
-- 
2.43.0


From cb7eb2ca63baf9d3ebc6d6d74185fe38d1d5c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 33/47] fix: split viewer: items below a container paired with
 a value of another type face the wrong rows

---
 include/curseSplitOutput.hh |  4 ++++
 src/curseSplitOutput.cpp    | 17 +++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 633f88a..617e371 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -42,6 +42,10 @@ class CurseSplitOutput: public CurseOutput
         const Optional<bool> redrawOneItemToWorkingWin(t_subWindow &w);
         bool isAdded(const std::pair<int, JSonContainer *> &) const;
         bool isAdded(const JSonElement *e) const;
+        /**
+         * true if the item is drawn on several lines, the last one being its closing bracket
+        **/
+        bool hasClosingBracket(const JSonElement *e) const;
 
         bool writeContainer(JSonContainer *, bool opening = true);
         bool writeObjectEntry(t_subWindow &w, JSonObjectEntry *item);
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 1359bb7..5b162ba 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -631,13 +631,18 @@ bool CurseSplitOutput::isAdded(const JSonElement *e) const
 
 bool CurseSplitOutput::isAdded(const std::pair<int, JSonContainer *> &item) const
 {
-    const JSonElement *e;
+    if ((unsigned int) (item.first +1) >= item.second->size()) // closing bracket
+        return !hasClosingBracket(diffMatrice->getEquivalence(item.second));
+    return isAdded(list_at<JSonElement*>(*(item.second), item.first +1));
+}
 
-    if ((unsigned int) (item.first +1) >= item.second->size())
-        e = item.second;
-    else
-        e = list_at<JSonElement*>(*(item.second), item.first +1);
-    return isAdded(e);
+bool CurseSplitOutput::hasClosingBracket(const JSonElement *e) const
+{
+    const JSonContainer *container = dynamic_cast<const JSonContainer*>(e);
+
+    if (!container || collapsed.find(container) != collapsed.cend())
+        return false;
+    return container->size() || !dynamic_cast<const JSonObjectEntry*>(container->getParent()); // empty entries are inlined
 }
 
 bool CurseSplitOutput::redraw(t_subWindow &w, std::pair<int, JSonContainer *> &item)
-- 
2.43.0


From 6638f6dedfbf1abe23bf26e09eb465f4ca5e9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 34/47] fix: split viewer: search expands the containers of one
 side only when the found item has no counterpart

---
 include/curseSplitOutput.hh | 2 +-
 src/curseSplitOutput.cpp    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 617e371..8f96e2f 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -103,7 +103,7 @@ class CurseSplitOutput: public CurseOutput
         void setSelection(const JSonElement *);
 
         /**
-         * remove selection's parents from the collapsed list, on every window
+         * remove selection's parents and their equivalences from the collapsed list
         **/
         void unfoldSelection();
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5b162ba..f51be4e 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -368,9 +368,11 @@ bool CurseSplitOutput::jumpToNextSearch()
 
 void CurseSplitOutput::unfoldSelection()
 {
-    for (const t_subWindow &w : subWindows)
-        if (w.selection)
-            unfold(w.selection);
+    const JSonElement *item = subWindows.at(selectedWin).selection;
+
+    unfold(item);
+    while ((item = item->getParent()))
+        collapsed.erase((const JSonContainer *) diffMatrice->getEquivalence(item));
 }
 
 const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
-- 
2.43.0


From 8d257daafd6a207ee9c796915f6bbc895d150b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 35/47] fix: split viewer: both sides scroll apart, so that
 counterparts are not on the same line

---
 include/curseSplitOutput.hh |  5 +++++
 src/curseSplitOutput.cpp    | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 8f96e2f..f3a55c7 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -107,6 +107,11 @@ class CurseSplitOutput: public CurseOutput
         **/
         void unfoldSelection();
 
+        /**
+         * scroll every window, so that equivalent items stay on the same line
+        **/
+        void scrollTo(unsigned int);
+
         void computeDiff();
         std::deque<t_subWindow> subWindows;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index f51be4e..65ae24a 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -258,8 +258,12 @@ void CurseSplitOutput::checkSelection(const JSonElement *item)
     {
         if (w.lastSelection == item)
         {
-            if (w.cursor.second <= w.scrollTop) //Selection is above vp, move scroll pos to selection and start drawing
-                w.scrollTop = w.cursor.second == 0 ? 0 : w.cursor.second -1;
+            if (w.cursor.second <= w.scrollTop && workingWin == selectedWin) //Selection is above vp, move scroll pos to selection and restart drawing
+            {
+                scrollTo(w.cursor.second == 0 ? 0 : w.cursor.second -1);
+                if (!hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second)) // or there is no line to draw it on
+                    throw SelectionOutOfRange();
+            }
             w.selectFound = true;
         }
         else if (!item->getParent() || !dynamic_cast<const JSonObjectEntry*>(item->getParent()))
@@ -395,9 +399,9 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     {
         if (!result)
         {
-            if (!w.selectFound)
+            if (!w.selectFound && workingWin == selectedWin)
             {
-                w.scrollTop++;
+                scrollTo(w.scrollTop +1);
                 return Optional<bool>::empty;
             }
             if (!w.select_down)
@@ -412,6 +416,12 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
     return Optional<bool>::of(false);
 }
 
+void CurseSplitOutput::scrollTo(unsigned int pos)
+{
+    for (t_subWindow &w : subWindows)
+        w.scrollTop = pos;
+}
+
 void CurseSplitOutput::onResizeHandler()
 {
     size_t i =0;
-- 
2.43.0


From 1ba288baa96b561c06275affc0adea77e8013d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 36/47] fix: a file named ARGS is lost when text is given after
 --

---
 src/params.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/params.cpp b/src/params.cpp
index e711306..dd1f441 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -46,7 +46,10 @@ bool Params::read()
         if (!input && !inDiff)
         {
             if (tmp == "--")
-                inputs["ARGS"] = input = new std::stringstream();
+            {
+                input = new std::stringstream();
+                inputs.push_back(std::make_pair("ARGS", input)); // may also be the name of a file
+            }
             else if (tmp == "-W")
                 strict = false;
             else if (tmp == "--ascii")
-- 
2.43.0


From cf5bd264607db3bdc15441117e82b71acf4b4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 37/47] fix: SIGINT and SIGTERM wait for a key in a comparison
 and in the search prompt

---
 src/curseOutput.cpp      | 3 +--
 src/curseSplitOutput.cpp | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 99f3235..1d7d843 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -220,7 +220,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         w = stdscr;
 
     curs_set(true);
-    wtimeout(w, -1);
+    wtimeout(w, 150); // do not block signals until next key
     while (!abort)
     {
         int c;
@@ -239,7 +239,6 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         else if (c >= 0 && c < KEY_MIN)
             buffer += c;
     }
-    wtimeout(w, 150);
     curs_set(false);
 
     if (abort)
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 65ae24a..2036797 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -65,6 +65,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
+        wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
-- 
2.43.0


From 338ced9dfb67af3ffeb00945cdf5df472048df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 38/47] fix: signals received while drawing corrupt the memory
 of ncurses

---
 include/curseOutput.hh   |  8 +++++++-
 include/inputSequence.hh |  5 +++--
 src/curseOutput.cpp      | 24 ++++++++++++++++--------
 src/inputSequence.cpp    |  3 ++-
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 9eba821..2a043a3 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -39,12 +39,18 @@ class CurseOutput
         virtual ~CurseOutput();
 
         /**
-         * Called on SIG* while displaying data
+         * Called after SIG* while displaying data (not by the signal handler: it may interrupt ncurses anywhere)
          * Do not use (private).
         **/
         bool onsig(int signo);
 
     protected:
+        /**
+         * Call onsig for each signal received since last call
+         * @return true if ncurses should stop
+        **/
+        bool handleSignals();
+
         /**
          * until kill-input, display data and read user inputs
         **/
diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index da5d421..2c9ccf7 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <functional>
 #include <string>
 
 class InputSequence
@@ -13,9 +14,9 @@ class InputSequence
 
         /**
          * read next key sequence
-         * @param abort stop waiting for the end of a sequence once true (set by signal handler)
+         * @param onWait called after each wait; stop waiting for the end of a sequence once it returns true
         **/
-        static InputSequence read(WINDOW *, const bool &abort);
+        static InputSequence read(WINDOW *, const std::function<bool()> &onWait);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 1d7d843..715b64f 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -20,18 +20,15 @@
 #include "except.hh"
 #include "streamConsumer.hh"
 
-static CurseOutput *runningInst = nullptr;
+static volatile sig_atomic_t receivedSig[NSIG]; // until handleSignals
 
 CurseOutput::CurseOutput(const Params &p): params(p)
-{
-    runningInst = this;
-}
+{ }
 
 CurseOutput::~CurseOutput()
 {
     struct winsize size;
 
-    runningInst = nullptr;
     if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
         resize_term(size.ws_row, size.ws_col);
 }
@@ -90,11 +87,21 @@ bool CurseOutput::onsig(int signo)
 
 void _resizeFnc(int signo)
 {
-    if (runningInst)
-        runningInst->onsig(signo);
+    receivedSig[signo] = true;
     signal(signo, _resizeFnc);
 }
 
+bool CurseOutput::handleSignals()
+{
+    for (int signo: { SIGCONT, SIGWINCH, SIGINT, SIGTERM }) // SIGCONT may raise SIGWINCH
+        if (receivedSig[signo])
+        {
+            receivedSig[signo] = false;
+            onsig(signo);
+        }
+    return breakLoop;
+}
+
 /**
  * Read input and expect signal
  * @Return true on:
@@ -107,7 +114,7 @@ inputResult CurseOutput::readInput(WINDOW *w)
 {
     while (!breakLoop)
     {
-        inputResult r = evalKey(InputSequence::read(w, breakLoop));
+        inputResult r = evalKey(InputSequence::read(w, [this]() { return handleSignals(); }));
         if (r != inputResult::nextInput)
             return r;
     }
@@ -227,6 +234,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
         writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
+        handleSignals();
         if (c == '\n' || c == '\r' || c == KEY_ENTER)
             break;
         else if (c == '\b' || c == 127 || c == KEY_BACKSPACE)
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index de6dd5b..853cc02 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w, const bool &abort)
+InputSequence InputSequence::read(WINDOW *w, const std::function<bool()> &onWait)
 {
     InputSequence result;
     const char *kname = nullptr;
@@ -18,6 +18,7 @@ InputSequence InputSequence::read(WINDOW *w, const bool &abort)
     do
     {
         const int input = wgetch(w ? w : stdscr);
+        const bool abort = onWait();
 
         if (input == -1)
         {
-- 
2.43.0


From b961892654fcbb6b6ff7fa23fee3e82efcf00975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 39/47] fix: without a usable terminal, the viewer crashes or
 never ends

---
 src/curseOutput.cpp |  4 ++++
 src/main.cpp        | 26 +++++++++++++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 715b64f..4d6caaa 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -301,6 +301,8 @@ void CurseOutput::init()
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
+        if (!screen_fd)
+            throw std::runtime_error("cannot open the terminal");
         setbuf(screen_fd, nullptr);
         screen = newterm(nullptr, screen_fd, screen_fd);
     }
@@ -309,6 +311,8 @@ void CurseOutput::init()
         screen = newterm(nullptr, stdout, stdin);
         screen_fd = nullptr;
     }
+    if (!screen)
+        throw std::runtime_error("cannot use this type of terminal");
     wtimeout(stdscr, 150);
     cbreak();
     clear();
diff --git a/src/main.cpp b/src/main.cpp
index a2a1ade..857e397 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -243,16 +243,24 @@ int main(int ac, char **av)
     {
         if (!params->isIgnoringUnicode())
             setlocale(LC_ALL, "");
-        if (params->getExternalDiff())
-            runExternalDiff(*params);
-        else if (params->isDiff())
-            runDiff(*params);
-        else
-        {
-            if (!params->compressed() && isatty(fileno(stdout)))
-                run(*params);
+        try {
+            if (params->getExternalDiff())
+                runExternalDiff(*params);
+            else if (params->isDiff())
+                runDiff(*params);
             else
-                runStdout(*params);
+            {
+                if (!params->compressed() && isatty(fileno(stdout)))
+                    run(*params);
+                else
+                    runStdout(*params);
+            }
+        }
+        catch (std::runtime_error &e) // no usable terminal
+        {
+            std::cerr << *av << ": " << e.what() << std::endl;
+            delete params;
+            exit (EXIT_FAILURE);
         }
     }
     delete params;
-- 
2.43.0


From 1bf8f6886b6555b9bb2555a9a5aed82ad029147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 40/47] fix: on a terminal, the message about a malformed file
 is wiped out when the viewer ends

---
 src/main.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 857e397..f0aeaa6 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -21,12 +21,12 @@
 #include "diffCmd.hh"
 #include "params.hh"
 
-void displayException(const std::string &filename, const Params &params, const std::string &type, const JsonException &e)
+void displayException(const std::string &filename, const Params &params, const std::string &type, const JsonException &e, std::ostream &err =std::cerr)
 {
     const std::string buffer = e.getHistory();
 
-    std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
+    err << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
+    err << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
@@ -40,7 +40,7 @@ StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input
     return stream;
 }
 
-StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params, std::deque<Warning> &warns)
+StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params, std::deque<Warning> &warns, std::ostream &err =std::cerr)
 {
     StreamConsumer *stream;
 
@@ -50,13 +50,13 @@ StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> in
     }
     catch (EofException &e)
     {
-        std::cerr << params.getProgName() << ": " << input.first << " " << Warning::getType(e) << " ("  << e.what() << ") error while reading" << std::endl;
+        err << params.getProgName() << ": " << input.first << " " << Warning::getType(e) << " ("  << e.what() << ") error while reading" << std::endl;
         return nullptr;
     }
     catch (JsonException &e)
     {
-        std::cerr << "Error: ";
-        displayException(input.first, params, Warning::getType(e), e);
+        err << "Error: ";
+        displayException(input.first, params, Warning::getType(e), e, err);
         return nullptr;
     }
     for (Warning w : stream->getMessages())
@@ -204,10 +204,11 @@ void run(const Params &params)
     IndexedDeque inputs = params.getInputs();
     CurseSimpleOutput *out = new CurseSimpleOutput(params);
     std::deque<Warning> warns;
+    std::stringstream errors; // to be shown once ncurses gave the terminal back
 
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
     {
-        StreamConsumer *stream = readOneFile(input, params, warns);
+        StreamConsumer *stream = readOneFile(input, params, warns, errors);
         if (!stream)
             break;
         out->run(stream->getRoot(), input.first);
@@ -215,6 +216,7 @@ void run(const Params &params)
     }
     if (out)
         delete out;
+    std::cerr << errors.str();
     for (Warning w : warns)
     {
         std::cerr << "Warning: ";
-- 
2.43.0


From 05989c064c7434eeeaa9d8848f90d9ef721fda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 41/47] fix: after ^Z, the viewer keeps drawing for the size
 the terminal had

ncurses resizes its screen itself when the program is resumed, so that SIGCONT finds nothing left to do: compare with the size the viewer last handled.
---
 include/curseOutput.hh | 5 +++++
 src/curseOutput.cpp    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index 2a043a3..b913c39 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -207,6 +207,11 @@ class CurseOutput
 
         t_Cursor screenSize;
 
+        /**
+         * size of the whole screen, as of the last time it was handled
+        **/
+        t_Cursor handledSize;
+
         class SelectionOutOfRange { };
 };
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 4d6caaa..8aa3a94 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -60,6 +60,7 @@ bool CurseOutput::onsig(int signo)
     case SIGWINCH:
         if (ioctl(fileno(screen_fd ? screen_fd : stdout), TIOCGWINSZ, &size) == 0)
             resize_term(size.ws_row, size.ws_col);
+        handledSize = getScreenSizeUnsafe();
         screenSize = getScreenSize();
         onResizeHandler();
         while (!redraw());
@@ -99,6 +100,8 @@ bool CurseOutput::handleSignals()
             receivedSig[signo] = false;
             onsig(signo);
         }
+    if (getScreenSizeUnsafe() != handledSize) // resized by ncurses, after ^Z
+        onsig(SIGWINCH);
     return breakLoop;
 }
 
@@ -319,6 +322,7 @@ void CurseOutput::init()
     noecho();
     curs_set(false);
     keypad(stdscr, true);
+    handledSize = getScreenSizeUnsafe();
     screenSize = getScreenSize();
 
     if (params.colorEnabled())
-- 
2.43.0


From a162ef1573c40fb0ffe9dc1cabb1f806470046db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 42/47] fix: rows of the keys of containers: no empty row below
 long ones

---
 src/curseSimpleOutput.cpp | 13 +------------
 src/curseSplitOutput.cpp  | 13 +------------
 2 files changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 9355113..ac281ee 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -306,18 +306,7 @@ bool CurseSimpleOutput::writeContent(t_Cursor &cursor, std::list<JSonElement*> *
 
 bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_Cursor &cursor, OutputFlag flags, unsigned int extraLen)
 {
-    if (cursor.second <= scrollTop)
-    {
-        cursor.second++;
-        return true;
-    }
-    char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen, screenSize.first -extraLen -2, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
-    return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
+    return writeKey(key, keylen, "", extraLen, cursor, flags);
 }
 
 bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, const std::string &after, size_t afterlen, t_Cursor &cursor, OutputFlag flags)
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 2036797..28cfe28 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -600,18 +600,7 @@ void CurseSplitOutput::writeBottomLine(const std::wstring &buffer, short color)
 
 bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const size_t keylen, OutputFlag flags, unsigned int extraLen)
 {
-    if (w.cursor.second <= w.scrollTop)
-    {
-        w.cursor.second++;
-        return true;
-    }
-    char oldType = flags.type();
-    flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen, screenSize.first -extraLen -2 -2, flags);
-    flags.type(OutputFlag::TYPE_OBJ);
-    write(": ", flags);
-    flags.type(oldType);
-    return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
+    return writeKey(w, key, keylen, "", extraLen, w.cursor, flags);
 }
 
 bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const size_t keylen, const std::string &after, const size_t afterlen, t_Cursor &cursor, OutputFlag flags)
-- 
2.43.0


From 2e132f4f9841433f649a710fdf0964c3511cb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 43/47] fix: flag i of a search: bytes beyond ASCII do match
 themselves

---
 src/searchPattern.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 43045bd..5a98857 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -66,7 +66,7 @@ void SearchPattern::evalFlags(const char *s)
         s++;
     }
     if (flags & FLAG_CASE && !(flags & FLAG_REGEX))
-        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), [](unsigned char c) { return std::tolower(c); });
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
@@ -88,7 +88,7 @@ bool SearchPattern::operator()(char a, char b)
     if (a == '\t')
         a = ' ';
     if (flags & SearchPattern::FLAG_CASE)
-        return std::tolower(a) == b;
+        return (char) std::tolower((unsigned char) a) == b;
     return a == b;
 }
 
-- 
2.43.0


From 6dcae70c0c4c831c4d719bc8e7153ea4515ff700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:44 +0000
Subject: [PATCH 44/47] fix: items indented further than the width of the
 screen were drawn over the previous ones

---
 include/curseOutput.hh    |  8 ++++++++
 src/curseOutput.cpp       | 10 ++++++++++
 src/curseSimpleOutput.cpp | 10 +++++-----
 src/curseSplitOutput.cpp  | 15 +++++++++------
 4 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/curseOutput.hh b/include/curseOutput.hh
index b913c39..eaca6d5 100644
--- a/include/curseOutput.hh
+++ b/include/curseOutput.hh
@@ -125,6 +125,14 @@ class CurseOutput
         **/
         static unsigned int getNbLines(const size_t nbChar, unsigned int maxWidth);
 
+        /**
+         * Return the column of an item, which start over from the margin when it is indented further than the screen
+         * @param x indentation, including margin
+         * @param maxWidth screen width
+         * @param margin columns to be kept free
+        **/
+        static unsigned int getIndent(unsigned int x, unsigned int maxWidth, unsigned int margin =0);
+
         /**
          * get flags to be passed to write.
          * Contains indications on who to write item
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 8aa3a94..dea25dd 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -180,12 +180,22 @@ unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, u
 
 unsigned int CurseOutput::getNbLines(const size_t nbChar, unsigned int maxWidth)
 {
+    if (!nbChar)
+        return 1; // empty text
+
     double nLine = (double) nbChar / maxWidth;
     if (nLine == (unsigned int) nLine)
         return nLine;
     return nLine +1;
 }
 
+unsigned int CurseOutput::getIndent(unsigned int x, unsigned int maxWidth, unsigned int margin)
+{
+    if (x < maxWidth || maxWidth <= margin)
+        return x;
+    return margin + (x -margin) % (maxWidth -margin);
+}
+
 bool CurseOutput::hasReachedBottom(unsigned int pos, unsigned int scrollTop, unsigned int height) const
 {
     return (pos >= scrollTop && (pos -scrollTop) > height -1);
diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index ac281ee..d601934 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -323,7 +323,7 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, co
     write(": ", flags);
     flags.type(oldType);
     write(after.c_str(), flags);
-    cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first);
+    cursor.second += getNbLines(getIndent(cursor.first, screenSize.first) +keylen +2 +afterlen, screenSize.first);
     return !hasReachedBottom(cursor.second, scrollTop, screenSize.second);
 }
 
@@ -348,21 +348,21 @@ unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int
 
     if (color != OutputFlag::SPECIAL_NONE)
         attron(COLOR_PAIR(color));
-    mvprintw(y - scrollTop, x, "%c", item);
+    mvprintw(y - scrollTop, getIndent(x, screenSize.first), "%c", item);
     attroff(A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         attroff(COLOR_PAIR(color));
-    return getNbLines(x +1, maxWidth);
+    return getNbLines(getIndent(x, maxWidth) +1, maxWidth);
 }
 
 unsigned int CurseSimpleOutput::write(const unsigned int &x, const unsigned int &y, const std::string &str, const size_t strlen, unsigned int maxWidth, const OutputFlag flags)
 {
     if (y <= scrollTop)
         return 1;
-    move(y - scrollTop, x);
+    move(y - scrollTop, getIndent(x, screenSize.first));
     lineCut = false;
     write(str, flags);
-    return getNbLines(strlen +x, maxWidth);
+    return getNbLines(strlen +getIndent(x, maxWidth), maxWidth);
 }
 
 void CurseSimpleOutput::write(const std::string &str, const OutputFlag flags) const
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 28cfe28..29c5832 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -16,6 +16,9 @@
 #include "jsonPrimitive.hh"
 #include "levenshteinMatrice.hpp"
 
+// columns of the diff marks
+#define DIFF_MARGIN 2u
+
 template<class T> static const T &list_at(const std::list<T> &l, unsigned int pos)
 {
     typename std::list<T>::const_iterator it = l.cbegin();
@@ -451,7 +454,7 @@ bool CurseSplitOutput::redraw()
     workingWin = 0;
     for (t_subWindow &w : subWindows)
     {
-        w.cursor = t_Cursor(2, 1);
+        w.cursor = t_Cursor(DIFF_MARGIN, 1);
         w.select_up = w.select_down = nullptr;
         w.selectFound = w.selectIsLast = false;
 
@@ -617,7 +620,7 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     write(": ", flags);
     flags.type(oldType);
     write(after, flags);
-    cursor.second += getNbLines(cursor.first +keylen +2 +afterlen, screenSize.first -2);
+    cursor.second += getNbLines(getIndent(cursor.first, screenSize.first -2, DIFF_MARGIN) +keylen +2 +afterlen, screenSize.first -2);
     return !hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second);
 }
 
@@ -744,13 +747,13 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (color != OutputFlag::SPECIAL_NONE)
         wattron(currentWin, COLOR_PAIR(color));
-    mvwprintw(currentWin, offsetY, x, "%c", item);
+    mvwprintw(currentWin, offsetY, getIndent(x, screenSize.first -2, DIFF_MARGIN), "%c", item);
     wattroff(currentWin, A_REVERSE | A_BOLD);
     if (color != OutputFlag::SPECIAL_NONE)
         wattroff(currentWin, COLOR_PAIR(color));
 
     displayDiffOp(currentWin, offsetY, flags.diffOp());
-    return getNbLines(x +1, maxWidth);
+    return getNbLines(getIndent(x, maxWidth, DIFF_MARGIN) +1, maxWidth);
 }
 
 void CurseSplitOutput::displayDiffOp(WINDOW *w, const int &y, const eLevenshteinOperator &op) const
@@ -794,10 +797,10 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
     if (y <= w.scrollTop)
         return 1;
     displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
-    wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
+    wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, getIndent(x, screenSize.first -2, DIFF_MARGIN));
     lineCut = false;
     write(str, flags);
-    return getNbLines(strlen +x, maxWidth);
+    return getNbLines(strlen +getIndent(x, maxWidth, DIFF_MARGIN), maxWidth);
 }
 
 void CurseSplitOutput::write(const std::string &str, const OutputFlag flags) const
-- 
2.43.0


From abf64cc5b77eb021f578ceccdaf96b9a480d65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:15 +0000
Subject: [PATCH 45/47] fix: --diff and --diff-cmd lost the warnings about the
 inputs before a malformed one

---
 src/main.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index f0aeaa6..0edf9de 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -67,6 +67,15 @@ StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> in
     return stream;
 }
 
+static void displayWarnings(const Params &params, const std::deque<Warning> &warns)
+{
+    for (Warning w : warns)
+    {
+        std::cerr << "Warning: ";
+        displayException(w.filename(), params, w.getType(), w());
+    }
+}
+
 std::ofstream getOutputFile(std::string &outfile)
 {
     char fname[] = "/tmp/jsondifftmpXXXXXX.tmp";
@@ -97,7 +106,10 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         StreamConsumer *stream = readOneFile(input, p, warns);
 
         if (!stream)
+        {
+            displayWarnings(p, warns);
             return inputsFilenames;
+        }
         std::ofstream fout = getOutputFile(fname);
         if (!fname.empty())
             inputsFilenames.push_back(fname);
@@ -110,11 +122,7 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
     }
-    for (Warning w : warns)
-    {
-        std::cerr << "Warning: ";
-        displayException(w.filename(), p, w.getType(), w());
-    }
+    displayWarnings(p, warns);
 
     char **av = p.getExternalDiff()->computeArgv(inputsFilenames);
     int fk = fork();
@@ -160,6 +168,7 @@ void runDiff(const Params &params)
         {
             for (StreamConsumer *s : streams)
                 delete s;
+            displayWarnings(params, warns);
             return;
         }
         roots.push_back(stream->getRoot());
@@ -172,11 +181,7 @@ void runDiff(const Params &params)
     }
     for (StreamConsumer *stream: streams)
         delete stream;
-    for (Warning w : warns)
-    {
-        std::cerr << "Warning: ";
-        displayException(w.filename(), params, w.getType(), w());
-    }
+    displayWarnings(params, warns);
 }
 
 void runStdout(const Params &params)
-- 
2.43.0


From ae48950a715c6737e7742d068cac13ea0b14e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 46/47] fix: --diff-cmd handed truncated files to the command
 when they could not be written

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 0edf9de..cb0e0bb 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -121,6 +121,12 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         }
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
+        fout.close();
+        if (!fout)
+        {
+            std::cerr << p.getProgName() << ": cannot write temporary file: " << strerror(errno) << std::endl;
+            return inputsFilenames;
+        }
     }
     displayWarnings(p, warns);
 
-- 
2.43.0


From 0c8ffaff6cd08998c477e42a357f32efeb4f4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 47/47] fix: an output that cannot be written was lost without
 a message

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index cb0e0bb..a0db0ca 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -208,6 +208,8 @@ void runStdout(const Params &params)
         std::cerr << "Warning: ";
         displayException(w.filename(), params, w.getType(), w());
     }
+    if (!std::cout.flush())
+        throw std::runtime_error("cannot write the output");
 }
 
 void run(const Params &params)
@@ -269,7 +271,7 @@ int main(int ac, char **av)
                     runStdout(*params);
             }
         }
-        catch (std::runtime_error &e) // no usable terminal
+        catch (std::runtime_error &e) // no usable terminal, or output
         {
             std::cerr << *av << ": " << e.what() << std::endl;
             delete params;
-- 
2.43.0

