From f07c413f0cfccca75026a7830c64fb6cb7919112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 001/163] fix: Base64::decode returned padding bytes and left
 its buffers on incomplete input

---
 src/core/Base64.cpp | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..e8cb996 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -123,49 +123,33 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 {
    uint8 c1 = 0, c2 = 0, c3 = 0, c4 = 0;
    uint8 b1 = 0, b2 = 0, b3 = 0;
-   int len = length;
+   int64 len = length;
 
-   uint32 lenb64 = (len * 3) / 4 ;
+   // An incomplete last group counts as a padded one.
+   int64 lenb64 = ((len + 3) / 4) * 3;
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
 
-   for(int32 i = 0; i < len; i = i + 4)
+   for(int64 i = 0; i < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
-      c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
+      c3 = (i + 2 < len) ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = (i + 3 < len) ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      // Padding or an invalid character ends the data.
+      if(c1 >= 64 || c2 >= 64)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
 
-
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 64)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 64)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
    length = index;
    return ret;
-- 
2.43.0


From e581ed4110a491b4e1749055d3f41efa2239b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 002/163] fix: String::insert of the string into itself
 inserted shifted characters

---
 src/core/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..d5612a3 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -549,6 +549,13 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(&str == this)
+   {
+      // The characters to insert would be moved away.
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From c34ccae598015df6c46a89f61087c4443406aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 003/163] fix: String::hashCode gave a different value on the
 first call than later

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index d5612a3..2a43ba2 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -290,7 +290,7 @@ int64 String::hashCode()
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
@@ -298,7 +298,7 @@ int64 String::constHashCode() const
    if(mHash != 0)return mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
-- 
2.43.0


From 9bd3ab557e6ad2bf2a24b6d60b06364f40a4d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 004/163] fix: String case change, character replacement and
 reverse kept the hash code of their source

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2a43ba2..e68a4c1 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -309,6 +309,7 @@ String String::toLowerCase() const
    {
       ret.mValue[a] = ret.mValue[a].toLowerCase();;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -321,6 +322,7 @@ String String::toUpperCase() const
    {
       ret.mValue[a] = ret.mValue[a].toUpperCase();
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -438,6 +440,7 @@ String String::replace(Char oldChar, Char newChar) const
    {
       if(ret.mValue[a] == oldChar)ret.mValue[a] = newChar;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -483,6 +486,7 @@ String String::reverse() const
       ret.mValue[last] = tmp;
       last--;
    }
+   ret.mHash = 0;
 
    return ret;
 }
-- 
2.43.0


From 035cd0f7acd89abbada3f1b07eca38aa8dea97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 005/163] fix: String::indexOf compared characters beyond the
 end of the string

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e68a4c1..ac8c9a2 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a <= mStrLength - str.mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From bad1cfbd3950b23023aee4daba7b5fe4f61f4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 006/163] fix: String::replace of the empty string did not
 terminate

---
 src/core/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index ac8c9a2..793abfe 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -447,6 +447,8 @@ String String::replace(Char oldChar, Char newChar) const
 
 String String::replace(const String& oldStr, const String& newStr)const
 {
+   if(oldStr.isEmpty())return *this;
+
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
    if(pos2 < 0)return *this;
-- 
2.43.0


From c49f1b30443c0f04a37ea95f2e1fa9bd8d5992ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 007/163] fix: String::atIs and atIsIgnoreCase read in front of
 the string for negative positions

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 793abfe..260c397 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -260,7 +260,7 @@ bool String::endsWith(const String& another) const
 
 bool String::atIs(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
@@ -272,7 +272,7 @@ bool String::atIs(int64 position, const String& another)
 
 bool String::atIsIgnoreCase(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
-- 
2.43.0


From 0d94c0bfac34f3ed194a39f3786877b22363d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 008/163] fix: String::deleteCharRangeAt made the length
 negative for ranges beyond the end

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 260c397..06b12e9 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -591,6 +591,9 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(length < 0)length = 0;
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From c5760011d97135f4c821db0019d0404a090585e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 009/163] fix: String assignment kept the hash code of the old
 content

---
 src/core/String.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 06b12e9..521752c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1253,6 +1253,7 @@ namespace jm
          delete[] mValue;
          mStrLength = another.mStrLength;
          mArrLength = another.mArrLength;
+         mHash = another.mHash;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
       }
-- 
2.43.0


From d9f87bf939c0a05c6c7480667d1d4654a6370940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 010/163] fix: String::valueOf of the smallest 64-bit integer
 was "-"

---
 src/core/String.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 521752c..0890486 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -986,7 +986,6 @@ String String::valueOf(int64 number)
    // Check sign
    if(number < 0)
    {
-      number *= -1;
       neg = true;
    }
    // Check 0
@@ -996,9 +995,9 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(number != 0)
    {
-      int64 digit = number % 10;
+      int64 digit = std::abs(number % 10);
       number = number / 10;
       ret.append(Char(digit + '0'));
    }
-- 
2.43.0


From ee4d9b6a8dd25a7c1ce61eb27ccd7fb9ceed7b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 011/163] fix: String::arg showed unsigned 64-bit values above
 2^63 as negative

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 0890486..ec012fe 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -905,7 +905,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From a2a14e0fba65d780faa36d44666e78042c350e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 012/163] fix: String::arg duplicated texts with a percent sign
 but no placeholder and left a digit of %0n

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index ec012fe..222ba58 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -815,13 +815,13 @@ bool String::argIndicies(int64& first, int64& second) const
          {
             first = index;
             second = index + 2;
-            if(number > 9)second++;
+            if(second < mStrLength && charAt(second).isDigit())second++;
             lowest = number;
          }
       }
    }
 
-   return true;
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 20fef11571f83cc888f137abbb038fb7bd8c2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 013/163] fix: Integer::digits of the smallest 64-bit integer

---
 src/core/Integer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..8b03389 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -42,11 +42,10 @@ uint8 Integer::digits(int64 number)
    uint8 i = 1;
    if(number < 0)
    {
-      number *= -1;
       i++;
    }
 
-   while(number > 9)
+   while(number > 9 || number < -9)
    {
       number = number / 10;
       i++;
-- 
2.43.0


From 799a3d92e2725bed078264d08178f22d91753f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 014/163] fix: Integer::toHexString of negative numbers was
 empty

---
 src/core/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 8b03389..acbd3b9 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -108,10 +108,11 @@ jm::String Integer::toHexString(int64 number)
    int32 base = 16;
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   uint64 rest = static_cast<uint64>(number);
+   while(rest > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      int64 digit = rest % base;
+      rest = rest / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From 6926cec60c85ba1e09d0963a64dd4b19e8a7e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 015/163] fix: Integer::toLatinAlphabetString of multiples of
 26

---
 src/core/Integer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index acbd3b9..c8326ce 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -149,8 +149,8 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      int64 div = (number - 1) / 26;
+      int16 rest = (int16)((number - 1) % 26);
 
       output.append('A' + rest);
 
-- 
2.43.0


From 360483d493505912766c3ece5c040048a54de989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 016/163] fix: String::valueOf(double, precision) lost the sign
 of numbers closer to zero than 1e-6

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 222ba58..61f87f0 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1067,7 +1067,7 @@ String String::valueOf(double number)
 
 String String::valueOf(double number, int64 precision, bool trunc)
 {
-   bool neg = jm::isLess(number, 0.0);
+   bool neg = number < 0.0;
    int64 before = static_cast<int64>(number);
    if(neg)before *= -1;
 
@@ -1087,7 +1087,7 @@ String String::valueOf(double number, int64 precision, bool trunc)
    }
 
    String b = String::valueOf(before);
-   if(neg)b.insert(0, '-');
+   if(neg && (before != 0 || after != 0))b.insert(0, '-');
 
    String a = String::valueOf(after);
    while(a.size() < precision)a.insert(0, '0');
-- 
2.43.0


From 847d5eb6634538294bf407a2cfa083efb6533e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 017/163] fix: String::toInt accepted a minus sign inside of a
 number

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 61f87f0..2cf79c8 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1134,7 +1134,7 @@ int64 String::toInt() const
          val *= 10;
          val += c.digitValue();
       }
-      else if(c == '-')neg = true;
+      else if(c == '-' && a == 0)neg = true;
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-- 
2.43.0


From 1bdab3650768a2c10b9e7cadaafa8bb6d7e014e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 018/163] fix: StringList::append of an own element read freed
 memory when the list grew

---
 src/core/StringList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..189455d 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,8 +82,10 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   // The string may be an element of this list, which is moved when the list grows.
+   const String item = string;
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
-- 
2.43.0


From 78bcaac11706f870b58074a3f4744c41095ee7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 019/163] fix: StringList::remove of an own element compared
 with shifted elements

---
 src/core/StringList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 189455d..9b908ac 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -88,8 +88,11 @@ void StringList::append(const jm::String& string)
    mData[mSize++] = item;
 }
 
-void StringList::remove(const jm::String& string)
+void StringList::remove(const jm::String& item)
 {
+   // The string may be an element of this list, which changes while removing.
+   const String string = item;
+
    for(int64 index = 0; index < mSize; index++)
    {
       if(mData[index] == string)
-- 
2.43.0


From 5bb6b00ad7048d6c6e9901b98dc9eee98c085d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 020/163] fix: Hashtable::isEmpty and containsValue were
 declared, but not defined

---
 src/core/Hashtable.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index a1b7c86..1198e19 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -109,6 +109,24 @@ bool Hashtable::containsKey(const String& key) const noexcept
    return get(key) != nullptr;
 }
 
+bool Hashtable::isEmpty() const noexcept
+{
+   return mDataLength == 0;
+}
+
+bool Hashtable::containsValue(void* value) const noexcept
+{
+   for(int64 index = 0; index < mArrLength; index++)
+   {
+      for(HashtableEntry* e = mData[index]; e != nullptr; e = e->next)
+      {
+         if(e->value == value)return true;
+      }
+   }
+
+   return false;
+}
+
 void* Hashtable::remove(const String& key) noexcept
 {
    int64 hash = key.constHashCode();
-- 
2.43.0


From 0363315869ccfc1019a303df8279975e4d543517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 021/163] fix: LinkedList::swapData without undo manager did
 nothing

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From be723278d8e2c394dc41bc630736095975324a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 022/163] fix: UndoManager::rollback recorded changes made by
 objects while they were restored

---
 src/core/UndoManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..a9dd334 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -401,13 +401,15 @@ void UndoManager::rollback()
    {
       UndoStep* step = mTransaction;
 
-      // Undo all changes
+      // Undo all changes. Changes made by regenerating objects are not recorded, as in undo().
+      mUndoing = true;
       UndoChange* change = step->recent;
       while(change != nullptr)
       {
          change->swap();
          change = change->mPrev;
       }
+      mUndoing = false;
 
       delete mTransaction;
       mTransaction = nullptr;
-- 
2.43.0


From a5c11a89e98aad53314e01bcceb39ce9b6dc8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 023/163] fix: EditableObject::setMember of NaN did not fail
 the transaction

---
 src/core/EditableObject.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/EditableObject.cpp b/src/core/EditableObject.cpp
index 708ea33..b10bd44 100644
--- a/src/core/EditableObject.cpp
+++ b/src/core/EditableObject.cpp
@@ -87,11 +87,18 @@ Status EditableObject::setMember(int64* pointer,
 
 Status EditableObject::setMember(double* pointer, double value)
 {
-   if(isNaN(value))return Status::eInvalidInput;
    if(value == *pointer)return Status::eNotChanged;
 
    UndoManager* um = nullptr;
    if(mDocument != nullptr)um = mDocument->undoManager();
+
+   if(isNaN(value))
+   {
+      Status status = Status::eInvalidInput;
+      if(um != nullptr)um->registerTransactionStatus(status);
+      return status;
+   }
+
    if(um != nullptr)um->registerChange(this, pointer);
    *pointer = value;
    return Status::eOK;
-- 
2.43.0


From 6c88691b15937cf9a7c2eb4e6896238637e89787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 024/163] fix: Property::setBoolValue kept bytes of an earlier
 number

---
 src/core/Property.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Property.cpp b/src/core/Property.cpp
index 7412b74..c4cdb90 100644
--- a/src/core/Property.cpp
+++ b/src/core/Property.cpp
@@ -197,6 +197,7 @@ double Property::doubleValue() const
 
 Status Property::setBoolValue(bool value)
 {
+   mNumberValue.intValue = 0;
    mNumberValue.boolValue = value;
    mType = PropertyType::kBoolean;
    return Status::eOK;
-- 
2.43.0


From d4e5184543a1dfbabbd48e4812935f8531fe7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 025/163] fix: Copies of a null ByteArray were neither null nor
 terminated

---
 src/core/ByteArray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..e4b0638 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -91,6 +91,9 @@ ByteArray::ByteArray(const ByteArray& other) : Object()
 {
    mArrSize = other.mArrSize;
    mRawSize = other.mRawSize;
+   mData = nullptr;
+   if(other.mData == nullptr)return;
+
    mData = new uint8[mRawSize];
    for(int64 index = 0; index < mRawSize; index++)
    {
@@ -260,6 +263,9 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
 
       mArrSize = another.mArrSize;
       mRawSize = another.mRawSize;
+      mData = nullptr;
+      if(another.mData == nullptr)return *this;
+
       mData = new uint8[mRawSize];
       for(int64 a = 0; a < mRawSize; a++)
       {
-- 
2.43.0


From 619fefbe885562c15f7fdd0e4409eab37616404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 026/163] fix: ByteArray::resize left the grown array without
 terminator and freed it with the wrong operator

---
 src/core/ByteArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index e4b0638..9727f6a 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -234,9 +234,10 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = 0;
       }
+      tmp[newSize] = 0;
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From 40dcf77eeefae498528ef6086d6f4c7d0c57ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 027/163] fix: ByteArray::replace ignored the target offset and
 read beyond the source

---
 src/core/ByteArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 9727f6a..6cf9652 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -200,10 +200,11 @@ void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffe
                         int64 length)
 {
    int64 range = std::min(length, mArrSize - tgtOffset);
+   range = std::min(range, buffer.mArrSize - srcOffset);
 
    for(int64 a = 0; a < range; a++)
    {
-      mData[a] = buffer.mData[srcOffset + a];
+      mData[tgtOffset + a] = buffer.mData[srcOffset + a];
    }
 }
 
-- 
2.43.0


From e98d68131cd09e76ac86be472f4172c06658b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 028/163] fix: Windows-1252 byte 0x88 is U+02C6

---
 src/core/Windows1252Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..aaca226 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
-- 
2.43.0


From 1fad9a1911aaa4a1be84b6f0a58dc983cd3968aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 029/163] fix: MacRoman bytes 0x92, 0x93 and 0xB0 were decoded
 as other characters than they encode

---
 src/core/MacRomanDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..4a2e256 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,9 +47,9 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
-- 
2.43.0


From 6d011b909dd236fad43480a34aa81bd68aedf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 030/163] fix: UTF8Decoder read beyond the end of texts with
 incomplete sequences

---
 src/core/UTF8Decoder.cpp | 53 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..8807a42 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -33,6 +33,27 @@
 
 using namespace jm;
 
+namespace
+{
+   // Length of the byte sequence of a character. If continuation bytes are missing (e.g. the text
+   // ends within the sequence), this is an encoding error and the byte is a sequence of its own.
+   uint32 sequenceLength(const char* cstring)
+   {
+      uint8 c = cstring[0];
+      uint32 length = 1;
+
+      if((c & 0xE0) == 0xC0)length = 2;
+      else if((c & 0xF0) == 0xE0)length = 3;
+      else if((c & 0xF8) == 0xF0)length = 4;
+
+      for(uint32 a = 1; a < length; a++)
+      {
+         if((cstring[a] & 0xC0) != 0x80)return 1;
+      }
+      return length;
+   }
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -70,31 +91,12 @@ CharArray UTF8Decoder::decode(const char* cstring)
    {
       uint8 c = cstring[cntC];
 
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
-      {
-         strLength++;
-         cntC += 2;
-      }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
+      if(c == 0xFF && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; // Ignored, see below
       else
       {
-         // In fact an encoding error, but we then take the byte as a single character
+         // In case of an encoding error we take the byte as a single character
          strLength++;
-         cntC++;
+         cntC += sequenceLength(&cstring[cntC]);
       }
    }
    cntC = start;
@@ -104,6 +106,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
+      uint32 seq = sequenceLength(&cstring[cntC]);
 
       if((c & 0x80) == 0)     //1 Zeichen
       {
@@ -111,7 +114,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC++;
       }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      else if(seq == 2)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
@@ -119,7 +122,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(seq == 3)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
@@ -128,7 +131,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(seq == 4)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
-- 
2.43.0


From 0025effec883663ac4727d143b6b27b08c9f33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 031/163] fix: UTF16Decoder ended at characters with a zero
 byte and encoded little endian as big endian

---
 src/core/UTF16Decoder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..903853b 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,8 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   // A character ends the text only if both bytes are zero
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
@@ -97,9 +98,9 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
+      cstring[idx] = (int8)(be ? character >> 8 : character);
       idx++;
-      cstring[idx] = (int8)character;
+      cstring[idx] = (int8)(be ? character : character >> 8);
       idx++;
    }
    return cstring;
-- 
2.43.0


From 45bf8fb1ff912ceefdb1f3906dd044167fc16dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 032/163] fix: String of UTF-16 bytes read beyond the end of
 the bytes

---
 src/core/String.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2cf79c8..da8b734 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
+   char* cstring = new char[size + 3];
    memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with an incomplete character required
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -131,11 +132,9 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
    copy(array);
 }
 
-String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
-   mHash(0)
+String::String(const ByteArray& buffer, Charset* charset) :
+   String(buffer.isNull() ? "" : buffer.constData(), buffer.size(), charset)
 {
-   CharArray array = charset->decode(buffer.constData());
-   copy(array);
 }
 
 String::~String()
-- 
2.43.0


From ee9e2fe44ce60c0b9b1eb50cc2d0c0db157bf05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 033/163] fix: RawDecoder extended the sign of bytes above 127

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..a797360 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char(static_cast<uint8>(cstring[a]));
    }
 
    return array;
-- 
2.43.0


From 7cd86a4c7d1abe6bbfa90c3b52f48485c3563e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 034/163] fix: Charset with alternative names allocated an
 undefined number of them

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..4dff164 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,7 +112,7 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
+   mAlternatives = new String[altCount];
    mAltCount = altCount;
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
-- 
2.43.0


From 437235d8dc97d538b941a20b43c5ee706169d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 035/163] fix: Charset::guess took every text for ASCII and
 read beyond short texts

---
 src/core/Charset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 4dff164..51f462b 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -182,15 +182,15 @@ String Charset::guess(const char* stream, int64 length)
 
 
    //UTF-16BE
-   if(stream[0] == static_cast<char>(0xFE) &&
+   if(length >= 2 && stream[0] == static_cast<char>(0xFE) &&
          stream[1] == static_cast<char>(0xFF))return "UTF-16BE";
 
    //UTF-16LE
-   else if(stream[0] == static_cast<char>(0xFF) &&
+   else if(length >= 2 && stream[0] == static_cast<char>(0xFF) &&
            stream[1] == static_cast<char>(0xFE))return "UTF-16LE";
 
    //UTF-8
-   else if(stream[0] == static_cast<char>(0xEF) &&
+   else if(length >= 3 && stream[0] == static_cast<char>(0xEF) &&
            stream[1] == static_cast<char>(0xBB) &&
            stream[2] == static_cast<char>(0xBF))return "UTF-8";
 
@@ -225,7 +225,7 @@ String Charset::guess(const char* stream, int64 length)
    {
       for(uint32 a = 0; a < length; a++)
       {
-         switch(stream[a])
+         switch(static_cast<uint8>(stream[a]))
          {
             case 0x81:
             case 0x8D:
@@ -247,7 +247,7 @@ String Charset::guess(const char* stream, int64 length)
    bool isASCII = true;
    for(uint32 a = 0; a < length; a++)
    {
-      if(stream[a] > 0x7F)
+      if(static_cast<uint8>(stream[a]) > 0x7F)
       {
          isASCII = false;
          break;
-- 
2.43.0


From e887b004c35927d004c6422223b7b96a22146473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 036/163] fix: URLEncode left non-ASCII characters, which
 URLDecode truncated

---
 src/core/String.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index da8b734..d056a3c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1409,7 +1409,19 @@ String jm::URLEncode(const String& str)
             break;
 
          default:
-            ret.append(str.charAt(a));
+            if(str.charAt(a).unicode() < 0x80)ret.append(str.charAt(a));
+            else
+            {
+               // All other characters are the percent-encoded bytes of their UTF-8 form
+               const char* hex = "0123456789ABCDEF";
+               ByteArray bytes = str.substring(a, a + 1).toCString();
+               for(int64 b = 0; b < bytes.size(); b++)
+               {
+                  ret.append('%');
+                  ret.append(hex[bytes[b] >> 4]);
+                  ret.append(hex[bytes[b] & 0x0F]);
+               }
+            }
             break;
       }
    }
-- 
2.43.0


From f6f06df145e2128f2c2c51a2f57b867e2260c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 037/163] fix: MacRoman encoding lost the character 0x7F

---
 src/core/MacRomanDecoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 4a2e256..527f66f 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -327,7 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
-      //0x7f is DEL (invisible)
+      case 0x7F: //DEL (invisible)
+         return 0x7F;
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
       case 0x00C5:
-- 
2.43.0


From 139b48fbdd01ded9f052bc42e72b5e3a7d567be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 038/163] fix: Deflater truncated the output of empty, short
 and incompressible input

---
 src/core/Deflater.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..97e67f1 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -55,7 +55,8 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
+   uLong capacity = compressBound((uLong)mUncompLength); // larger than the input, if it cannot be compressed
+   buffer = new uint8[capacity];
 
    z_stream defstream;
    defstream.zalloc = Z_NULL;
@@ -64,7 +65,7 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
+   defstream.avail_out = (uInt)capacity; // size of output
    defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
    // the actual compression work.
-- 
2.43.0


From 0435aeb1bdae48bee72c834cde11d714428c7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 039/163] fix: Inflater without Reset wrote to a null buffer

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..a7b1d65 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -47,7 +47,7 @@ Inflater::Inflater(): Object()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
    mTotalIn = 0;
-- 
2.43.0


From be48c9e6bd4b255d019004a0a85a68fbc54d69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 040/163] fix: Inflater read beyond the end of truncated data

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index a7b1d65..823dd46 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -164,6 +164,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -187,6 +188,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From 64f3a687dcbde604d828adcb9ef2401e04cbf22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 041/163] fix: Inflater copied from a wrong position after 32
 KB with fixed Huffman codes

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 823dd46..8f4cb9d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -309,7 +309,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
-- 
2.43.0


From 13410edc8330af565015b92e0d5f5ea9bcb7e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 042/163] fix: Inflater accepted stored blocks with corrupt
 lengths

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 8f4cb9d..6fd3f8f 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -258,7 +258,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if(nlen != (uint16)~len)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
-- 
2.43.0


From 50992c3f4701576b7c1f2826d4ba272890bb60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 043/163] fix: Inflater created exceptions for corrupt data,
 but did not throw them

---
 src/core/Inflater.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 6fd3f8f..03bbb18 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -683,7 +683,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -724,7 +724,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -759,7 +759,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -793,7 +793,7 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
+      else throw Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From c3a5a2bf84e473397fdc0d108aac0351b9568330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 044/163] fix: Inflater read beyond its tables for the unused
 distance codes 30 and 31

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 03bbb18..0a2570d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -300,6 +300,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -667,6 +668,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
-- 
2.43.0


From 7f210860fe4441126c4c8303a7993817aa7a13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 045/163] fix: Inflater rejected dynamic blocks with code
 length repetitions across both alphabets

---
 src/core/Inflater.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 0a2570d..5a39fd1 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -623,11 +623,14 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // The lengths of both alphabets are one sequence, repetitions may cross the border.
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
-
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   Array<uint16>* alllengths = new Array<uint16>(HLIT + HDIST);
+   readLengthDists(alllengths, intermediate, HLIT + HDIST);
+   for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = (*alllengths)[a];
+   for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = (*alllengths)[HLIT + a];
+   delete alllengths;
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
-- 
2.43.0


From af6840a75082ccf063ba5047f0732a3ec767bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 046/163] fix: Inflater did not check repetitions of code
 lengths

---
 src/core/Inflater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 5a39fd1..706e8f2 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -557,6 +557,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //16: Copy the previous code length 3 - 6 times.
          case 16:
             repeat = nextUIntXR(2) + 3;
+            if(cnt == 0 || cnt + repeat > count)throw Exception("Invalid repetition of code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = (*target)[cnt - 1];
@@ -567,6 +568,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //17: Repeat a code length of 0 for 3 - 10 times.
          case 17:
             repeat = nextUIntXR(3) + 3;
+            if(cnt + repeat > count)throw Exception("Invalid repetition of code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
@@ -577,6 +579,7 @@ void Inflater::readLengthDists(Array<uint16>* target, Inflater::HuffmanTree* tre
          //18: Repeat a code length of 0 for 11 - 138 times
          case 18:
             repeat = nextUIntXR(7) + 11;
+            if(cnt + repeat > count)throw Exception("Invalid repetition of code lengths.");
             for(uint16 a = 0; a < repeat; a++)
             {
                (*target)[cnt] = 0;
-- 
2.43.0


From 0a91fca97679457c5c9bd29da89b06633e6d52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 047/163] fix: Inflater had no tree for blocks without distance
 codes and a wrong one for single codes

---
 src/core/Inflater.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 706e8f2..e0a721b 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -447,7 +447,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
       maxBits--;
 
    }
-   while(nodes.size() > 1);
+   while(maxBits > 0);
+
+   if(nodes.empty())return new HuffmanTree(); // no codes at all
 
    return nodes[0];
 }
-- 
2.43.0


From 232272d85daebdfeea0964c4588449492aa193e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 048/163] fix: Inflater built trees of contradicting Huffman
 codes

---
 src/core/Inflater.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index e0a721b..cb883e0 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -339,6 +339,10 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    //1. Determine maxBits at the same time
    std::vector<Inflater::HuffmanTree*> nodes;
    int32 maxBits = 0;
+   int32 used = 0; // of 2^15 possible codes of full length
+   for(int64 a = 0; a < lengths->size(); a++)if((*lengths)[a] != 0)used += 0x8000 >> (*lengths)[a];
+   if(used > 0x8000)throw Exception("More Huffman codes than possible.");
+
    for(int64 a = 0; a < lengths->size(); a++)
    {
       // Only insert the elements that exist (i.e. length>0)
-- 
2.43.0


From 58ab139982c4a2c8acf5e9f8d64b16811ac3d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 049/163] fix: MemoryStream::write wrote beyond the end of the
 array

---
 src/core/MemoryStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..c0e5488 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -98,7 +98,7 @@ int64 MemoryStream::position()
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
    int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   memcpy(&mStream[mPosition], buffer, available);
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From 628439a142cf574439fc4d1d1949172328fe60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 050/163] fix: MemoryStream moved its cursor in front of the
 array and could not move it to the end

---
 src/core/MemoryStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index c0e5488..8559228 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -81,13 +81,13 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
    int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From 615d9ea2b85e49e2e0f3652ca3902531478386ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 051/163] fix: File kinds of paths which do not exist were
 undefined

---
 src/core/File.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..441d5ef 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -249,7 +249,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false; // does not exist
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -271,7 +271,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false; // does not exist
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -311,7 +311,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false; // does not exist
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -335,7 +335,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false; // does not exist
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
-- 
2.43.0


From 2bbdc9fb9f8515563d530fd732c6e2824fc7041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 052/163] fix: File::lastModified of paths which do not exist
 was undefined

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 441d5ef..c257ffc 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -357,7 +357,7 @@ Date File::lastModified() const
    #if defined(__APPLE__) //macOS
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(int64(0));
 
    //Umrechnen
    timespec tm = st.st_mtimespec;
@@ -369,7 +369,7 @@ Date File::lastModified() const
    #elif defined(__linux__) //Linux
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(int64(0));
 
    //Umrechnen
    timespec tm = st.st_mtim;
-- 
2.43.0


From 4b4dcaa55e1bed619230e4747e663830ce8b1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 053/163] fix: File::lastModified added microseconds as
 milliseconds

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index c257ffc..8128ec3 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -362,7 +362,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
@@ -374,7 +374,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From f0a0648b20c559cca4de4543c24279d5f602c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 054/163] fix: File::extension of files without extension was
 the path or a part of it

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 8128ec3..be1ad80 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -570,7 +570,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From 90f2f6682793ddfe4fd14d25be982350929417d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 055/163] fix: File::parent of files in the root directory was
 empty

---
 src/core/File.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index be1ad80..cd4d34b 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -560,6 +560,7 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   if(idx == 0 && mPathname.size() > 1 && mPathname.charAt(0) == DIR_SEP)idx = 1; // in the root directory
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From 9488702d4a53663dc60aa3a66110ba867b77ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 056/163] fix: File::isHidden of the root directory threw an
 exception

---
 src/core/File.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index cd4d34b..6925d47 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -293,7 +293,8 @@ bool File::isHidden() const
 
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
-   return name().charAt(0) == '.';
+   String filename = name();
+   return filename.size() > 0 && filename.charAt(0) == '.';
 
    #elif defined _WIN32//Windows
 
-- 
2.43.0


From 34e21c405184e2aeb6157ea3ec1227ecb6d60e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 057/163] fix: File with a separator as child kept it at the
 end of the path

---
 src/core/File.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 6925d47..da4184a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -121,6 +121,7 @@ String File::resolve(String parent, String child)
    if(child.charAt(0) == DIR_SEP)
    {
       if(parent.equals(sep))return child;
+      if(child.equals(sep))return parent;
       return parent + child;
    }
    else
-- 
2.43.0


From 6fd3f2e2be1c6b0ceee4b1d6c136cd6959cbfdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 058/163] fix: File::renameTo kept a path which is not
 normalized

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index da4184a..1ae5022 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -437,8 +437,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From 4fe751da53ce65fec71a1f5c721af0abe4bf7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 059/163] fix: File::createNewFile emptied existing files

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 1ae5022..895db78 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -588,11 +588,13 @@ bool File::isAbsolute() const
 bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
+   if(exists())return false;
    mHandle = fopen(mCstr.constData(), "wb");
    bool exist = (mHandle != nullptr);
    close();
    return exist;
    #elif defined _WIN32 //Windows
+   if(exists())return false;
    int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
    close();
    return ret == 0;
-- 
2.43.0


From 54b1caf1655bc722a8969ae1a81cc0c01d840f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 060/163] fix: File::isAbsolute was true for relative paths

---
 src/core/File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 895db78..429b6f3 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -581,6 +581,9 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
+   #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
+   return mPathname.size() > 0 && mPathname.charAt(0) == DIR_SEP;
+   #endif
    return true;
 }
 
-- 
2.43.0


From 43910b0c15cde9e67c99459951bf1ceb68580b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 061/163] fix: File::getTags lost all tags if they are longer
 than 4 KB

---
 src/core/File.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 429b6f3..9115e95 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -779,14 +779,13 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
-   char buffer[sz];
-   int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
+   int64 result = getxattr(mCstr.constData(), "user.xdg.tags", nullptr, 0); // size only
+   ByteArray tagList = ByteArray(result > 0 ? result : 0, 0);
+   if(result > 0)result = getxattr(mCstr.constData(), "user.xdg.tags", tagList.data(), result);
 
    if(result > 0)
    {
       // Data is stored usually as comma(,) separated list.
-      ByteArray tagList = ByteArray((int8*)buffer, result);
       String string(tagList);
       return string.split(',');
    }
-- 
2.43.0


From 93e491534892a39580ee07ad74999596882b49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 062/163] fix: ZipFile did not find the directory of empty
 archives with comment and searched 4 GB in short files

---
 src/core/ZipFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..6361d23 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -56,12 +56,13 @@ ZipFile::~ZipFile()
 void ZipFile::open()
 {
    uint32 length = (uint32)mFile->size();
-   uint32 seek = length - 22;
+   int64 seek = int64(length) - 22;
 
    mFile->open(FileMode::kRead);
 
    // If the file is empty, then we are done
    if(length == 0)return;
+   if(length < 22)throw jm::Exception(Tr("ZIP-File is invalid."));
 
    // We first read the file at the end, where the directory with the entries is located.
    // It's idiotic that you have to search for the end because the last entry has a variable length.
@@ -85,7 +86,7 @@ void ZipFile::open()
          break;
       }
    }
-   while(seek > 0);
+   while(seek >= 0);
 
    if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
 
-- 
2.43.0


From 50edf9b2bcd78842649b47085a2b6b9cc5480926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 063/163] fix: ZipFile read beyond the end of damaged
 directories

---
 src/core/ZipFile.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 6361d23..13122b7 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -94,6 +94,8 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
+   if(uint64(dictOffset) + dictSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
    mFile->Stream::readFully(dict);
@@ -103,7 +105,9 @@ void ZipFile::open()
    uint32 count = 0;
    while(count < recordCount)
    {
-      //signature = jm::DeserializeLEInt32(dict, index);
+      if(uint64(index) + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
+      signature = jm::deserializeLEInt32((uint8*)dict.constData(), index);
+      if(signature != 0x02014b50)throw jm::Exception(Tr("ZIP-File is invalid."));
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
       uint32 fileNameLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 28);
@@ -111,6 +115,9 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
+      if(uint64(index) + 46 + fileNameLength + extraFieldLength + commentLength > dictSize)
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+
       jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
       jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
       jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-- 
2.43.0


From ec1ede2fab125f33b80712abb653000e6d8c7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 064/163] fix: ZipFile::stream read and wrote beyond its
 buffers for entries with wrong sizes

---
 src/core/ZipFile.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 13122b7..35de953 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -175,6 +175,10 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
+   if(entry == nullptr)return nullptr;
+   if(uint64(entry->mHeaderOffset) + 30 + entry->mCompressedSize > (uint64)mFile->size())
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+
    ByteArray input = ByteArray(entry->mCompressedSize, 0);
 
    //Local Header
@@ -193,23 +197,32 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    uint32 el = jm::deserializeLEUInt16(localHeader, 28);
 
 
-   mFile->seek(entry->mHeaderOffset + 30 + fl + el);
-   mFile->Stream::readFully(input);
+   mFile->seek(int64(entry->mHeaderOffset) + 30 + fl + el);
+   if(mFile->position() != int64(entry->mHeaderOffset) + 30 + fl + el
+         || mFile->Stream::readFully(input) != entry->mCompressedSize)
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
 
    uint8* buffer = nullptr;
    if(cm == 0) //Daten uncompressed
    {
+      if(entry->mUncompressedSize != entry->mCompressedSize)throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
       buffer = new uint8[entry->mUncompressedSize];
       memcpy(buffer, input.constData(), entry->mCompressedSize);
    }
-   if(cm == 8) //Deflate
+   else if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
       int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
+      if(control != entry->mUncompressedSize)
+      {
+         delete[] buffer;
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+      }
    }
+   else throw jm::Exception(Tr("ZIP file Error. Compression method not supported."));
 
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
-- 
2.43.0


From 6010243c9a4b416544bc5b8fc8665b49f9476fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 065/163] fix: ZipEntry::isDirectory was false for directories

---
 src/core/ZipFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 35de953..bfba63e 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -258,5 +258,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.endsWith("/");
 }
-- 
2.43.0


From cd1f5c0e828c49d83299fd4bed77c99763117222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 066/163] fix: ZipOutputFile left the end of a longer existing
 file behind the archive

---
 src/core/ZipOutputFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..7d0bd9c 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -62,7 +62,7 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 void ZipOutputFile::open()
 {
    if(mFile->exists() == false)mFile->createNewFile();
-   mFile->open(FileMode::kReadWrite);
+   mFile->open(FileMode::kWrite); // removes older content
 }
 
 void ZipOutputFile::close()
-- 
2.43.0


From ba2573186980b2b1c3c5542781b64c9bd4f77812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 067/163] fix: ZipOutputFile for a relative path created its
 temporary file in the root directory

---
 src/core/ZipOutputFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 7d0bd9c..2216506 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -219,7 +219,9 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
+   String directory = mFile->parent();
+   if(directory.size() > 0)mTemp = new jm::File(directory, "jmzipdata.tmp");
+   else mTemp = new jm::File("jmzipdata.tmp"); // relative to the current directory
    mTemp->createNewFile();
    mTemp->open(FileMode::kReadWrite);
 
-- 
2.43.0


From 583a8dece7d1740d9dc4cb4028e9d29326d7d5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 068/163] fix: ZipFile::comment was always empty

---
 include/core/ZipFile.h | 3 +++
 src/core/ZipFile.cpp   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..c9ac031 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -161,6 +161,9 @@ namespace jm
          //! The entries
          LinkedList mEntries;
 
+         //! The comment of the archive
+         String mComment;
+
    };
 
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index bfba63e..810ed15 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -93,6 +93,11 @@ void ZipFile::open()
    uint16 recordCount = jm::deserializeLEUInt16((uint8*)eocd.constData(), 10);
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
+   uint16 archiveCommentLength = jm::deserializeLEUInt16((uint8*)eocd.constData(), 20);
+
+   ByteArray archiveComment = ByteArray(archiveCommentLength, 0); // follows the record
+   int64 commentRead = mFile->Stream::readFully(archiveComment);
+   mComment = jm::String(archiveComment.constData(), commentRead);
 
    if(uint64(dictOffset) + dictSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
 
@@ -147,7 +152,7 @@ void ZipFile::close()
 
 jm::String ZipFile::comment()
 {
-   return kEmptyString;
+   return mComment;
 }
 
 ZipEntry* ZipFile::entry(const String& name)
-- 
2.43.0


From 3842948183c8f0f0ce638dd8328a5d53ef9ddfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 069/163] fix: File with a separator as child of an empty path
 is the root directory

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 9115e95..2a075b2 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -121,7 +121,7 @@ String File::resolve(String parent, String child)
    if(child.charAt(0) == DIR_SEP)
    {
       if(parent.equals(sep))return child;
-      if(child.equals(sep))return parent;
+      if(child.equals(sep) && parent.size() > 0)return parent;
       return parent + child;
    }
    else
-- 
2.43.0


From 1d8f34bb4dec70e2f1ea82e2279916a8ae7e2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 070/163] fix: ZipFile rejected archives whose binary extra
 fields look like UTF-16 text

---
 src/core/ZipFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 810ed15..a7bcef9 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -124,7 +124,8 @@ void ZipFile::open()
          throw jm::Exception(Tr("ZIP-File is invalid."));
 
       jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
-      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
+      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength,
+                                    Charset::forName("RAW")); // binary data
       jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
                                       commentLength);
 
-- 
2.43.0


From b6190363a209c8b2f0c3c57ef83feaac846e9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 071/163] fix: Preferences return a value with line breaks or
 backslashes as it was set, also after saving and loading

---
 src/core/Preferences.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..5b88f38 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -77,12 +77,6 @@ void Preferences::load(File file)
          String key = line.substring(0, pos).trim();
          String value = line.substring(pos + 1).trim();
 
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
-
          //Ersetze
          int64 index = 0;
          while(index < value.size())
@@ -97,7 +91,17 @@ void Preferences::load(File file)
                   value.setCharAt(index, '\t');
                   value.deleteCharAt(index + 1);
                }
-               if(d == '\\')
+               else if(d == 'n')
+               {
+                  value.setCharAt(index, '\n');
+                  value.deleteCharAt(index + 1);
+               }
+               else if(d == 'r')
+               {
+                  value.setCharAt(index, '\r');
+                  value.deleteCharAt(index + 1);
+               }
+               else if(d == '\\')
                {
                   value.deleteCharAt(index + 1);
                }
@@ -156,6 +160,18 @@ void Preferences::save(File file)
                val.insert(index + 1, 't');
                index++;
             }
+            else if(c == '\n')
+            {
+               val.setCharAt(index, '\\');
+               val.insert(index + 1, 'n');
+               index++;
+            }
+            else if(c == '\r')
+            {
+               val.setCharAt(index, '\\');
+               val.insert(index + 1, 'r');
+               index++;
+            }
             index++;
          }
 
@@ -193,11 +209,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From e19b39e5ae8fbcf8e27cff6fda487634c63d1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 072/163] fix: Preferences::setValue stored a literal text as
 "true"

---
 include/core/Preferences.h | 7 +++++++
 src/core/Preferences.cpp   | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 712cb67..96934af 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -85,6 +85,13 @@ namespace jm
           */
          void setValue(const String& key, const String& value);
 
+         /*!
+          \brief Sets the property to a literal text, which would be taken for a truth value otherwise.
+          \param key The property key.
+          \param value The value.
+          */
+         void setValue(const String& key, const char* value);
+
          /*!
           \brief Sets the property. Essentially calls the Put() method of Hashtable, but ensures that strings are used.
           \param key The property key.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 5b88f38..a54987c 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -214,6 +214,11 @@ void Preferences::setValue(const String& key, const String& value)
    if(old != nullptr)delete old;
 }
 
+void Preferences::setValue(const String& key, const char* value)
+{
+   setValue(key, String(value));
+}
+
 void Preferences::setValue(const String& key, int64 value)
 {
    setValue(key, String::valueOf(value));
-- 
2.43.0


From b6b1cec0515b5d490c7b1faf2b584f3927c46701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 073/163] fix: copying SAXAttributes used uninitialized
 pointers

---
 src/core/SAXAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..60490d7 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,10 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
+   mNames = new std::vector<String>();
+   mValues = new std::vector<String>();
 
    for(uint32 a = 0; a < other.mNames->size(); a++)
    {
-- 
2.43.0


From 8a14d776d68a254db5572e5cda1bf9683f54baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 074/163] fix: SAXParser dropped &apos;, character references
 and unknown entities

---
 include/core/SAXParser.h |  8 ++++++
 src/core/SAXParser.cpp   | 53 +++++++++++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/include/core/SAXParser.h b/include/core/SAXParser.h
index 96d83ce..f99847a 100644
--- a/include/core/SAXParser.h
+++ b/include/core/SAXParser.h
@@ -292,6 +292,14 @@ namespace jm
           */
          void parseTagString(const String& token);
 
+         /*!
+          \brief This helper method appends the character of an entity or character reference.
+          \param name The text between & and ;
+          \param token The text to append to.
+          \return false, if there is no such entity.
+          */
+         static bool appendEntity(const String& name, String& token);
+
    };
 
 }
diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..14fbe49 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -144,18 +144,11 @@ void SAXParser::parse(const String& xml)
          {
             pos++;
             c = xml.charAt(pos);
-            escape.append(c);
+            if(c != ';')escape.append(c);
          }
          while(c != ';' && pos < length - 1);
 
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
-         else if(escape.equals("le;"))token.append(0x2264); //≤
-         else if(escape.equals("ge;"))token.append(0x2265); //≥
-         else if(escape.equals("leq;"))token.append(0x2264); //≤
-         else if(escape.equals("geq;"))token.append(0x2265); //≥
+         if(!appendEntity(escape, token))skippedEntity(escape);
       }
       else if(c == '>' && inTag == true && inValue == false)
       {
@@ -259,14 +252,11 @@ void SAXParser::parseTagString(const String& xmlline)
          {
             pos++;
             c = line.charAt(pos);
-            escape.append(c);
+            if(c != ';')escape.append(c);
          }
          while(c != ';' && pos < length - 1);
 
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
+         appendEntity(escape, token);
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
@@ -313,6 +303,41 @@ void SAXParser::parseTagString(const String& xmlline)
 
 }
 
+bool SAXParser::appendEntity(const String& name, String& token)
+{
+   if(name.equals("lt"))token.append('<');
+   else if(name.equals("gt"))token.append('>');
+   else if(name.equals("amp"))token.append('&');
+   else if(name.equals("quot"))token.append('"');
+   else if(name.equals("apos"))token.append('\'');
+   else if(name.equals("le"))token.append(0x2264); //≤
+   else if(name.equals("ge"))token.append(0x2265); //≥
+   else if(name.equals("leq"))token.append(0x2264); //≤
+   else if(name.equals("geq"))token.append(0x2265); //≥
+   else if(name.size() > 1 && name.charAt(0) == '#')
+   {
+      // Reference by the code of the character, decimal or hexadecimal
+      const bool hex = name.charAt(1) == 'x';
+      if(hex && name.size() == 2)return false;
+
+      int64 code = 0;
+      for(int64 a = hex ? 2 : 1; a < name.size(); a++)
+      {
+         const Char c = name.charAt(a);
+         if(c >= '0' && c <= '9')code = code * (hex ? 16 : 10) + (c.unicode() - '0');
+         else if(hex && c >= 'a' && c <= 'f')code = code * 16 + (c.unicode() - 'a' + 10);
+         else if(hex && c >= 'A' && c <= 'F')code = code * 16 + (c.unicode() - 'A' + 10);
+         else return false;
+         if(code > 0xFFFF)return false;
+      }
+      if(code == 0)return false;
+      token.append((uint16)code);
+   }
+   else return false;
+
+   return true;
+}
+
 void SAXParser::characters(const String& /*characters*/)
 {
    // Dummy method
-- 
2.43.0


From 30a21d5053488940a9f50d2ed1462a0af6efcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 075/163] fix: SAXParser took comments, CDATA sections,
 processing instructions and declarations for tags

---
 include/core/SAXParser.h |  9 ++++++
 src/core/SAXParser.cpp   | 65 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+)

diff --git a/include/core/SAXParser.h b/include/core/SAXParser.h
index f99847a..569691c 100644
--- a/include/core/SAXParser.h
+++ b/include/core/SAXParser.h
@@ -300,6 +300,15 @@ namespace jm
           */
          static bool appendEntity(const String& name, String& token);
 
+         /*!
+          \brief This helper method handles a comment, a CDATA section, a processing instruction or
+          a declaration, if there is one.
+          \param xml The XML code.
+          \param pos The position of the character '<'.
+          \return The position behind it, or pos, if it is a tag.
+          */
+         int64 parseMarkup(const String& xml, int64 pos);
+
    };
 
 }
diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 14fbe49..2956c6c 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -136,6 +136,14 @@ void SAXParser::parse(const String& xml)
          }
 
          token.zero();
+
+         // Comments and the like are no tags
+         const int64 behind = parseMarkup(xml, pos);
+         if(behind > pos)
+         {
+            inTag = false;
+            pos = behind - 1;
+         }
       }
       else if(c == '&' && inTag == false)
       {
@@ -178,6 +186,63 @@ void SAXParser::parse(const String& xml)
    endDocument();
 }
 
+int64 SAXParser::parseMarkup(const String& xml, int64 pos)
+{
+   const int64 length = xml.size();
+   if(pos + 1 >= length)return pos;
+
+   if(xml.charAt(pos + 1) == '?') // Processing instruction or XML declaration
+   {
+      const int64 end = xml.indexOf("?>", pos + 2);
+      if(end < 0)return length;
+
+      int64 sub = pos + 2;
+      while(sub < end && !xml.charAt(sub).isWhitespace())sub++;
+      const String target = xml.substring(pos + 2, sub);
+      while(sub < end && xml.charAt(sub).isWhitespace())sub++;
+      if(!target.equals("xml"))processingInstruction(target, xml.substring(sub, end));
+      return end + 2;
+   }
+
+   if(xml.charAt(pos + 1) != '!')return pos;
+
+   if(xml.substring(pos, std::min(pos + 4, length)).equals("<!--")) // Comment
+   {
+      const int64 end = xml.indexOf("-->", pos + 4);
+      return end < 0 ? length : end + 3;
+   }
+
+   if(xml.substring(pos, std::min(pos + 9, length)).equals("<![CDATA[")) // CDATA section
+   {
+      const int64 end = xml.indexOf("]]>", pos + 9);
+      if(end < 0)return length;
+      if(end > pos + 9)characters(xml.substring(pos + 9, end));
+      return end + 3;
+   }
+
+   // Declaration, the internal subset may contain quoted texts, comments and further declarations
+   int64 depth = 0;
+   while(pos < length)
+   {
+      const Char c = xml.charAt(pos);
+      if(c == '\"' || c == '\'')
+      {
+         pos = xml.indexOf(c, pos + 1);
+         if(pos < 0)return length;
+      }
+      else if(c == '<' && depth > 0 && xml.substring(pos, std::min(pos + 4, length)).equals("<!--"))
+      {
+         pos = xml.indexOf("-->", pos + 4);
+         if(pos < 0)return length;
+         pos += 2;
+      }
+      else if(c == '<')depth++;
+      else if(c == '>' && --depth == 0)return pos + 1;
+      pos++;
+   }
+   return length;
+}
+
 void SAXParser::parseTagString(const String& xmlline)
 {
    String line = xmlline;
-- 
2.43.0


From 604866244e5f86d6d0f3f040df571b935c645623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 076/163] fix: XMLWriter indented the end tag behind base64
 data that follows other content

---
 src/core/XMLWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 2520426..0c67040 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -186,10 +186,11 @@ void XMLWriter::WriteBase64(uint8* data, int64 length)
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOpenElements->topRef()->hasCharacters = true;
       mOutput->write(">");
    }
 
+   if(mOpenElements->size() > 0)mOpenElements->topRef()->hasCharacters = true;
+
 
    uint8* encoded = jm::Base64::encode(data, length);
    mOutput->write(encoded, length);
-- 
2.43.0


From 7254db6ec31c6291315aa38c59e40ea1eca1744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 077/163] fix: SAXParser reports an unknown entity behind the
 text before it

---
 src/core/SAXParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 2956c6c..d2f6f95 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -156,7 +156,13 @@ void SAXParser::parse(const String& xml)
          }
          while(c != ';' && pos < length - 1);
 
-         if(!appendEntity(escape, token))skippedEntity(escape);
+         if(!appendEntity(escape, token))
+         {
+            // Report in the order of the document
+            if(token.size() > 0)characters(token);
+            token.zero();
+            skippedEntity(escape);
+         }
       }
       else if(c == '>' && inTag == true && inValue == false)
       {
-- 
2.43.0


From 3938ee5bdc5bdf278604453cb8f692bc3b524930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 078/163] fix: DiffBacktrace recorded the element of the wrong
 sequence

---
 src/core/DiffBacktrace.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 246c60a..4130d46 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -155,8 +155,9 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
 
          case DiffOperation::kDiffModified:
             //			ret->last=Backtrace(diag,i-1);
-            ret->mObj1 = diag->objectU(i);
-            ret->mObj2 = diag->objectV(i);
+            // Below the main diagonal the sequences have changed places.
+            ret->mObj1 = diag->offset() >= 0 ? diag->objectU(i) : diag->objectV(i);
+            ret->mObj2 = diag->offset() >= 0 ? diag->objectV(i) : diag->objectU(i);
             i--;
             break;
 
@@ -177,7 +178,7 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             else
             {
                //				ret->last=Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
@@ -187,14 +188,14 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             if(diag->offset() == 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
             else if(diag->offset() >= 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
-- 
2.43.0


From ef2762635d077162d5af525deb2d114c3f5dfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 079/163] fix: Date: week days before 1970 were negative

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From 1e527c1d92881582d6a417033deb4eea4ded142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 080/163] fix: DateFormatter took a field in front of a quoted
 text for a part of that text

---
 src/core/DateFormatter.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..d4e05ef 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,19 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            isText = true;
+
+            // A field in front of the text ends here.
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
-- 
2.43.0


From 7646efa4b002ed90863cf9d8f46ddeb7201ea3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 081/163] fix: DateFormatter misspelt September

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index d4e05ef..86b1041 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -476,7 +476,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From d3049e5fd0122fb2a52b00c5045283f3b1f6e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 082/163] fix: Color::toGreyScale gave white for nearly every
 colour and dropped the alpha value

---
 src/core/Color.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..d4b3a20 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,9 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
-         mAlpha = 255;
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
          break;
       }
 
-- 
2.43.0


From 910967dfeebfcb5d6a528f38f2b665e3efaf5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 083/163] fix: Color::toCmyk divided by zero for black and
 dropped the alpha value

---
 src/core/Color.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index d4b3a20..9f8392a 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -164,19 +164,19 @@ void Color::toCmyk()
          float k = 1.0f - std::max(r, std::max(g, b));
          //The cyan colour (C) is calculated from the red (R') and black (K) colours:
          //C = (1-R'-K) / (1-K)
-         float c = (1 - r - k) / (1 - k);
+         // Black has no colour components.
+         float c = k < 1.0f ? (1 - r - k) / (1 - k) : 0.0f;
          //The magenta colour (M) is calculated from the green (G') and black (K) colours:
          //M = (1-G'-K) / (1-K)
-         float m = (1 - g - k) / (1 - k);
+         float m = k < 1.0f ? (1 - g - k) / (1 - k) : 0.0f;
          //The yellow colour (Y) is calculated from the blue (B') and black (K) colours:
          //Y = (1-B'-K) / (1-K)
-         float y = (1 - b - k) / (1 - k);
+         float y = k < 1.0f ? (1 - b - k) / (1 - k) : 0.0f;
          mMode = ColorMode::kCmyk;
          col.cmyk.cyan = static_cast<uint8>(255.0f * c);
          col.cmyk.magenta = static_cast<uint8>(255.0f * m);
          col.cmyk.yellow = static_cast<uint8>(255.0f * y);
          col.cmyk.key = static_cast<uint8>(255.0f * k);
-         mAlpha = 255;
          break;
       }
 
@@ -188,7 +188,6 @@ void Color::toCmyk()
          col.cmyk.magenta = 0;
          col.cmyk.yellow = 0;
          col.cmyk.key = 255 - grey;
-         mAlpha = 255;
          break;
       }
 
-- 
2.43.0


From d82381e45fab878f018983de764c0c7e30f842a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 084/163] fix: blend overflowed for low alpha values and
 divided by zero for transparent colours

---
 src/core/Color.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 9f8392a..36126a6 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -460,11 +460,14 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
+
+   // Both colours are fully transparent.
+   if(alphaC <= 0.0f)return 0;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-   return (uint8)(C * 255);
+   return (uint8)std::min(255.0f, C * 255);
 }
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
-- 
2.43.0


From 500151517bac65e42c52572414f5e835cb70a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 085/163] fix: blend and interpolate took the components of
 grey and CMYK colours for RGB

---
 src/core/Color.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 36126a6..2674599 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -472,6 +472,9 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
 {
+   background.toRgb();
+   foreground.toRgb();
+
    //Simple Alpha-Blendung for non transparent color
    if(background.mAlpha == 255 && foreground.mAlpha == 255)
    {
@@ -498,6 +501,9 @@ Color jm::blend(Color background, Color foreground, uint8 alpha)
 
 Color jm::interpolate(Color colour1, Color colour2, float percent)
 {
+   colour1.toRgb();
+   colour2.toRgb();
+
    Color ret;
    ret.col.rgb.red = static_cast<uint8>(colour1.col.rgb.red + (colour2.col.rgb.red -
                                         colour1.col.rgb.red) * percent);
-- 
2.43.0


From 82919efabd609899d034902e942f20a68ca30947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 086/163] fix: isLess and its relatives contradicted isEqual
 for large numbers and near the tolerance

---
 src/core/Math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..8ab132d 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -92,22 +92,22 @@ bool jm::isNotEqual(double v1, double v2)
 
 bool jm::isLess(double v1, double v2)
 {
-   return v1 + RESABS <= v2;
+   return v2 - v1 >= RESABS;
 }
 
 bool jm::isLessEqual(double v1, double v2)
 {
-   return v1 < v2 + RESABS;
+   return v1 - v2 < RESABS;
 }
 
 bool jm::isGreater(double v1, double v2)
 {
-   return v1 >= v2 + RESABS;
+   return v1 - v2 >= RESABS;
 }
 
 bool jm::isGreaterEqual(double v1, double v2)
 {
-   return v1 > v2 - RESABS;
+   return v2 - v1 < RESABS;
 }
 
 bool jm::isNaN(double d)
-- 
2.43.0


From 9bf9c3a4a7c56ff99b52d4eb62134ad7af1ea59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 087/163] fix: jm::round was wrong just below one half and for
 large odd numbers

---
 src/core/Math.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 8ab132d..f1c507a 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -53,12 +53,7 @@ int16 jm::sign(double d)
 
 int64 jm::round(double number)
 {
-   //TODO: We have issues with some negative values. What do?
-   /* if (d < 0)
-        return std::ceil(d - 0.5);
-    else
-        return std::floor(d + 0.5);*/
-   return ((number > 0.0) ? std::floor(number + 0.5) : std::ceil(number - 0.5));
+   return std::llround(number);
 }
 
 float jm::roundFrac(float f, int32 digits)
-- 
2.43.0


From 03c49e9ffe061e4d41f055e443b6b6338e0b8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 088/163] fix: roundFrac overflowed for numbers with many
 digits

---
 src/core/Math.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index f1c507a..d02cd06 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -60,8 +60,7 @@ float jm::roundFrac(float f, int32 digits)
 {
    double factor = std::pow(10, digits);
    double value = f * factor;
-   int64 result = round(value);
-   value = static_cast<double>(result);
+   value = std::round(value);
    return static_cast<float>(value / factor);
 }
 
@@ -69,7 +68,7 @@ double jm::roundFrac(double value, int64 digits)
 {
    double factor = std::pow(10, digits);
    double result = value * factor;
-   result = round(result);
+   result = std::round(result);
    return result / factor;
 }
 
-- 
2.43.0


From 6ac88b197bcc801fc96cad445e3b25e1b0a04433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 089/163] fix: swap zeroed an integer that is swapped with
 itself

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index d02cd06..20a08db 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -118,30 +118,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From a1af9f222dbacd7342e5878f0adeaff1db0cdd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 090/163] fix: random overflowed for large ranges,
 probability(0) could come true

---
 src/core/Math.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 20a08db..fb80a0d 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -162,14 +162,13 @@ double jm::random()
 
 int32 jm::random(int32 lower, int32 upper)
 {
-   int32 z = rand() % (upper + 1 - lower);
-
-   return z + lower;
+   int64 range = static_cast<int64>(upper) + 1 - lower;
+   return static_cast<int32>(lower + rand() % range);
 }
 
 bool jm::probability(double percent)
 {
-   int32 value = random(0, 10000);
+   int32 value = random(1, 10000);
    int32 threshold = (int32)(percent * 10000);
    return value <= threshold;
 }
-- 
2.43.0


From 1f51acb2a6b9f6a2e88f44aafbaf1b486d00eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 091/163] fix: modFloor trapped for the smallest number modulo
 -1

---
 src/core/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index fb80a0d..a3b95ce 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -235,7 +235,7 @@ int64 jm::divFloor(int64 x, int64 y)
 
 int64 jm::modFloor(int64 x, int64 y)
 {
-   if(y == 0)return 0;
+   if(y == 0 || y == -1)return 0;
    int64 r = x % y;
    if((r != 0) && ((r < 0) != (y < 0)))
    {
-- 
2.43.0


From a12f06e87996741f7340b66c4d2ec92dcb3c640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 092/163] fix: sum and difference of matrices accepted operands
 of different shape and refused equal ones

---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..b8ae3f5 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   //Beide Matrizen müssen gleich viele Zeilen und gleich viele Spalten haben
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   //Beide Matrizen müssen gleich viele Zeilen und gleich viele Spalten haben
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From 0b69c2497e2f62758859e2df24c04a2d1089a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 093/163] fix: Matrix::inverse filled singular matrices with
 infinities and reported success

---
 src/core/Matrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index b8ae3f5..681b17b 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -255,6 +255,7 @@ Status Matrix::inverse()
    {
       if(m == 1)
       {
+         if(data[0] == 0.0)return Status::eError;
          data[0] = 1 / data[0];
 
          return Status::eOK;
@@ -263,6 +264,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -284,6 +286,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -316,6 +319,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
-- 
2.43.0


From 936a7be3fe2422eaeccf85be28f885d29bd8f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 094/163] fix: Matrix::eigen gave NaN for 2x2 matrices with
 nearly equal eigenvalues

---
 src/core/Matrix.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 681b17b..484c7e3 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -546,9 +546,7 @@ Vector Matrix::eigen() const
       Vector v = Vector(2);
 
       double trA = trace();
-      double detA;
-      det(detA);
-      double gapA = sqrt(trA * trA - 4 * detA);
+      double gapA = sqrt(pow(get(0, 0) - get(1, 1), 2.0) + 4.0 * get(0, 1) * get(1, 0));
 
       v.data[0] = (trA - gapA) / 2.0;
       v.data[1] = (trA + gapA) / 2.0;
-- 
2.43.0


From 5dfa254ce17f7ab32ce68693e8190a6915af601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 095/163] fix: Vector::dotProduct read behind the end of a
 shorter vector

---
 src/core/Vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Vector.cpp b/src/core/Vector.cpp
index 329230b..af3a017 100644
--- a/src/core/Vector.cpp
+++ b/src/core/Vector.cpp
@@ -94,6 +94,8 @@ void jm::Vector::ones()
 
 double jm::Vector::dotProduct(const Vector& another) const
 {
+   if(m != another.m) throw Exception("Dimensions don't match");
+
    double prod = 0.0;
    for(int64 a = 0; a < m; a++)
    {
-- 
2.43.0


From 7fd1b248a7ac09688f64da6b25d2f356187bbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 096/163] fix: Vertex2::angleTo and Vertex3::angleTo gave NaN
 for parallel vectors

---
 src/core/Vertex2.cpp | 3 ++-
 src/core/Vertex3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Vertex2.cpp b/src/core/Vertex2.cpp
index 7e3b414..65246d3 100644
--- a/src/core/Vertex2.cpp
+++ b/src/core/Vertex2.cpp
@@ -89,7 +89,8 @@ bool Vertex2::isOrthogonal(const Vertex2& another) const
 double Vertex2::angleTo(const Vertex2& another) const
 {
    // Enclosed angles returned
-   double tmp = dotProduct(another) / (abs() * another.abs());
+   // Rounding may carry the cosine of parallel vectors slightly beyond 1
+   double tmp = std::clamp(dotProduct(another) / (abs() * another.abs()), -1.0, 1.0);
 
    // Same sign convention as in SVG
    double sgn = crossProduct(another) > 0 ? 1 : -1;
diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..78c44eb 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -76,7 +76,8 @@ bool Vertex3::isOrthogonal(const Vertex3& another) const
 double Vertex3::angleTo(const Vertex3& another) const
 {
    double angle = this->dotProduct(another) / (this->abs() * another.abs());
-   return acos(angle);
+   // Rounding may carry the cosine of parallel vectors slightly beyond 1
+   return acos(std::clamp(angle, -1.0, 1.0));
 }
 
 double Vertex3::abs() const
-- 
2.43.0


From 076009f83bd87ad77e3fb6b804724ca84142abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 097/163] fix: Vertex3::rotate distorted the vector unless the
 axis had length 1

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index 78c44eb..3281c2a 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -138,7 +138,7 @@ Vertex3 Vertex3::rotatedZ(double angle) const
 
 void Vertex3::rotate(double angle, const Vertex3& axis)
 {
-   Matrix r = Matrix::generate3x3RotationMatrix(angle, axis);
+   Matrix r = Matrix::generate3x3RotationMatrix(angle, axis.normalized());
    Vertex3 n = r * (*this);
    x = n.x;
    y = n.y;
-- 
2.43.0


From f3588115cdc020e824a9f43e83ec1ea25eecc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 098/163] fix: Matrix::transAngle lost the sign of the angle

---
 src/core/Matrix.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 484c7e3..7c9e057 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -831,9 +831,7 @@ double Matrix::transAngle(double angle) const
 
    direction -= center;
 
-   double newrotation = direction.angleTo(x);
-
-   return newrotation;
+   return std::atan2(direction.y, direction.x);
 }
 
 
-- 
2.43.0


From c066229096bc6020dd7d3f8fac5bab249d994cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 099/163] fix: the rotation matrix between two nearly opposite,
 nearly parallel or short vectors missed the target

---
 src/core/Matrix.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 7c9e057..da83b41 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -1091,8 +1091,12 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
    // Calculate the dot product
    double cosTheta = u_norm.dotProduct(v_norm);
 
+   // The cross product is as long as the sine of the angle
+   jm::Vertex3 axis = u_norm.crossProduct(v_norm);
+   double sinTheta = axis.abs();
+
    // Check if the angle is π (cosTheta is -1)
-   if(jm::isEqual(cosTheta, -1.0))
+   if(cosTheta < 0.0 && sinTheta < 1e-8)
    {
       // Special case for 180 degree rotation
       // Find an orthogonal vector to u_norm
@@ -1117,11 +1121,8 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
    }
    else
    {
-      // Calculate the cross product
-      jm::Vertex3 axis = u.crossProduct(v).normalized();
-
-      // Calculate the sine of the angle
-      double sinTheta = std::sqrt(1 - cosTheta * cosTheta); // sinTheta = sqrt(1 - cosTheta^2)
+      // Equal directions need no axis
+      if(sinTheta > 0.0) axis = axis / sinTheta;
 
       // Construct the rotation matrix using Rodrigues' rotation formula
       jm::Matrix rotationMatrix = jm::Matrix(3, 3);
-- 
2.43.0


From 77240897a1a6bed8f9a9072d022a420c106bf465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 100/163] fix: Vertex3::biggest returned the smallest component
 if the other two were equal

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index 3281c2a..149a904 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -166,7 +166,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return std::max(x, std::max(y, z));
 }
 
 /*
-- 
2.43.0


From c7010fa6f5e19b20083c6042f3af36538d4e392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 101/163] fix: intersectionPointsOfCircles missed the common
 point of touching circles

---
 src/core/Geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index a189d3c..becc7ae 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -97,7 +97,8 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    }
 
    double a = (r1 * r1 - r2 * r2 + d * d) / (2 * d);
-   double h = std::sqrt(r1 * r1 - a * a);
+   // Rounding may make this negative for touching circles
+   double h = std::sqrt(std::max(0.0, r1 * r1 - a * a));
 
    double px = x1 + a * (x2 - x1) / d;
    double py = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 762d7c9ae0682f9da6a2d541dfdf67b2fbffc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 102/163] fix: closestPointOnCircle and distancePointToCircle
 gave NaN for points on the axis of the circle

---
 src/core/Geometry.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index becc7ae..6527f22 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -216,7 +216,11 @@ Vertex3 jm::closestPointOnCircle(const Vertex3& point,
    // Calculate the intersection.
 
    const Vertex3 loc = closestPointOnPlane(point, center, normal);
-   const Vertex3 r = loc - center;
+   Vertex3 r = loc - center;
+
+   // On the axis all points of the circle are equally close, choose any of them.
+   if(r.isNull()) r = normal.crossProduct(std::abs(normal.x) < std::abs(normal.y) ? Vertex3(1.0, 0.0, 0.0) : Vertex3(0.0, 1.0, 0.0));
+
    const double lambda = radius / r.abs();
    return center + r * lambda;
 }
-- 
2.43.0


From d007f93cd222e3b59a2e20edea16ff32caed9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 103/163] fix: isPointOnPlane was false for every point unless
 a tolerance was given

---
 src/core/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 6527f22..383dc26 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -331,7 +331,7 @@ bool jm::isPointOnPlane(const Vertex3& point,
                         double maxDistance)
 {
    double dist = distancePointToPlane(point, position, normal);
-   return isLess(dist, maxDistance);
+   return isLessEqual(dist, maxDistance);
 }
 
 bool jm::isPointOnLine(const Vertex3& point,
-- 
2.43.0


From f679088216057e49d156926aead1c0d016694bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 104/163] fix: distancePointToLine gave NaN for points beside
 the line segment

---
 src/core/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 383dc26..229c0f4 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -278,6 +278,10 @@ double jm::distancePointToLine(const Vertex3& point,
    // 3. The magnitude is the distance
 
    Vertex3 loc = closestPointOnLine(point, lineStart, lineEnd, extend);
+
+   // Beside the line segment one of its end points is the closest one
+   if(!extend && !loc.isValid())return std::min((lineStart - point).abs(), (lineEnd - point).abs());
+
    loc = loc - point;
    return loc.abs();
 }
-- 
2.43.0


From ea8070e06513034538bcd06b05ba8c41ba37c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 105/163] fix: extensionPointOnArc and extensionPointOnEllipse
 missed points of arcs with negative start angles

---
 src/core/Geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 229c0f4..88954b7 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -509,6 +509,7 @@ bool CheckAngle(const Vertex2& point,
 
    // Ensure that the start angle is in the range of 0-2PI
    while(isGreaterEqual(start, DBL_PI))start -= DBL_PI;
+   while(isLess(start, 0.0))start += DBL_PI;
 
    // Ensure that the start angle is greater than start, but not multiple times greater
    while(isGreaterEqual(end, DBL_PI))end -= DBL_PI;
-- 
2.43.0


From 7e76f912fb626367195bb362edae27ec0d18ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 106/163] fix: extensionPointOnEllipse gave points that are not
 on the ellipse

---
 src/core/Geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 88954b7..83ac13d 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -650,7 +650,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
 
    // First, the ellipse and the vector must be rotated so that the ellipse lies with the main axis
    // on the x-axis.
-   double angle = std::atan2(center_.y, center_.x);
+   double angle = std::atan2(mainAxis.y, mainAxis.x);
 
    Vertex2 center = center_;
    center.rotate(-angle);
@@ -685,7 +685,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
    double div = (direction.x * direction.x / a2) + (direction.y * direction.y / b2);
 
    double p = 2 * ((direction.x * qx / a2) + (direction.y * qy / b2)) / div;
-   double q = ((qx * qx / a2) + (qy * qy / b) - 1.0) / div;
+   double q = ((qx * qx / a2) + (qy * qy / b2) - 1.0) / div;
 
    Vertex2 result = PQCheck(p, q, rayorigin, direction, center, start, end);
    if(result.isValid())result.rotate(angle);
-- 
2.43.0


From a87683ff2af2bea1295b5a31d81c78811edc87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 107/163] fix: circleParameterBy3Points reported an infinite
 circle for points on a straight line

---
 src/core/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 83ac13d..e1c0861 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -739,6 +739,10 @@ jm::Status jm::circleParameterBy3Points(Vertex2& centre, double& radius,
    status = M13.det(m13);
    if(status != Status::eOK)return status;
 
+   // There is no circle through points on a straight line
+   double size = std::max((p2 - p1).abs(), (p3 - p1).abs());
+   if(std::abs(m11) <= 1e-12 * size * size)return Status::eInvalidInput;
+
    double x = 0.5 * m12 / m11;
    double y = -0.5 * m13 / m11;
 
-- 
2.43.0


From 4f060bfed6c97fd7a78d5e04de6dd9f33eae4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 108/163] fix: adding extents of 2d points spoiled the z range

---
 src/core/Extents.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/Extents.cpp b/src/core/Extents.cpp
index c8f1036..a1ef57e 100644
--- a/src/core/Extents.cpp
+++ b/src/core/Extents.cpp
@@ -62,8 +62,14 @@ void Extents::add(const Extents& ext)
 {
    if(!ext.isValid())return;
 
-   add(ext.mPtMin);
-   add(ext.mPtMax);
+
+   mPtMin.x = std::min(mPtMin.x, ext.mPtMin.x);
+   mPtMin.y = std::min(mPtMin.y, ext.mPtMin.y);
+   mPtMin.z = std::min(mPtMin.z, ext.mPtMin.z);
+
+   mPtMax.x = std::max(mPtMax.x, ext.mPtMax.x);
+   mPtMax.y = std::max(mPtMax.y, ext.mPtMax.y);
+   mPtMax.z = std::max(mPtMax.z, ext.mPtMax.z);
 }
 
 const Vertex3& Extents::minPoint()const
-- 
2.43.0


From 56ff7171e1dd476d207c6295adb4722323293908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 109/163] fix: Nurbs::point gave NaN for the end of the curve

---
 src/core/NURBS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 206a449..274655e 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -81,6 +81,9 @@ double Nurbs::N(uint32 i, uint32 k, double t)
    if(k == 0)
    {
       if(mKnots[i] <= t && t < mKnots[i + 1]) return 1.0;
+
+      // The last interval includes its end
+      if(t == mKnots[mKnotCount - 1] && mKnots[i] < t && mKnots[i + 1] == t) return 1.0;
       return 0.0;
    }
 
-- 
2.43.0


From 606d226de508004713e200e9fb4891dc6d3fd574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 110/163] fix: Nurbs::end was beyond the last knot, where there
 is no curve

---
 src/core/NURBS.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 274655e..ea50e9b 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -134,9 +134,7 @@ double Nurbs::start()
 double Nurbs::end()
 {
    if(mKnotCount < 1)return 0;
-   double m = mControlCount - mDegree + 2;
-   if(m < mKnots[mKnotCount - 1])m = mKnots[mKnotCount - 1];
-   return m;
+   return mKnots[mKnotCount - 1];
 }
 
 uint32 Nurbs::controlPointCount()
-- 
2.43.0


From e95f1453fb48a1c7ad0762ecae4a165a1bd12e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 111/163] fix: AutoreleasePool::drain hung when a destructor
 autoreleased an object

---
 src/core/AutoreleasePool.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..31dbfc3 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -56,20 +56,29 @@ AutoreleasePool::~AutoreleasePool()
 void AutoreleasePool::drain()
 {
    mPoolMutex.lock();
-   PoolEntry* pool = mPool->next;
 
-   while(pool != nullptr)
+   while(mPool->next != nullptr)
    {
-      //Release objects
-      pool->object->release();
+      // Detach the accumulated objects. The mutex must not be held while the objects are released,
+      // because their destructors may add further objects.
+      PoolEntry* pool = mPool->next;
+      mTop = mPool;
+      mPool->next = nullptr;
+      mPoolMutex.unlock();
 
-      PoolEntry* next = pool->next;
-      delete pool;
-      pool = next;
+      while(pool != nullptr)
+      {
+         //Release objects
+         pool->object->release();
+
+         PoolEntry* next = pool->next;
+         delete pool;
+         pool = next;
+      }
+
+      mPoolMutex.lock();
    }
 
-   mTop = mPool;
-   mPool->next = nullptr;
    mPoolMutex.unlock();
 }
 
-- 
2.43.0


From 04617082de43ef7ed132eead959828604ce099c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 112/163] fix: copying or assigning an object copied its
 reference count

---
 include/core/Object.h | 12 ++++++++++++
 src/core/Object.cpp   | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..9092f41 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,11 +54,23 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. The copy is an object of its own with one reference.
+          \param other The object to copy.
+          */
+         Object(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
          virtual ~Object() noexcept;
 
+         /*!
+          \brief Assignment. The references to this object remain unaffected.
+          \param other The object to assign.
+          */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Decreases the reference counter and releases the object immediately when the
           reference counter becomes 0.
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..eb04e32 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,11 +41,24 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept:
+   mRefCount(1),
+   mPool(System::autoreleasePool())
+{
+   // The references belong to the other object
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
 }
 
+Object& Object::operator=(const Object&) noexcept
+{
+   // The references to this object do not change
+   return *this;
+}
+
 void Object::release() noexcept
 {
    if(mPool == nullptr)return;
-- 
2.43.0


From f08b7080108dc560ce017697fd85c3f123962d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 113/163] fix: Object::setHighBit lost references taken at the
 same time

---
 src/core/Object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index eb04e32..e4950f1 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -118,7 +118,11 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   // The bit shares its word with the reference count
+   Mutex* mutex = mPool == nullptr ? nullptr : mPool->mutex();
+   if(mutex != nullptr)mutex->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   if(mutex != nullptr)mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From b3d466c75974816942417e2309d9bcaf6f7a6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 114/163] fix: Thread::interrupt right after Thread::start was
 lost

---
 src/core/Thread.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..d7ec93f 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -38,11 +38,6 @@ using namespace jm;
 void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
-
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -96,8 +91,20 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // Must be set before the thread runs, otherwise an early interrupt() gets lost.
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
-   if(ret != 0)throw Exception("Error on starting Thread");
+   if(ret != 0)
+   {
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+      thread = 0;
+      throw Exception("Error on starting Thread");
+   }
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
-- 
2.43.0


From ebf4093fd0b233587abaa58a9d43e0f86997c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 115/163] fix: Thread::sleep slept forever if the thread was
 interrupted just before

---
 src/core/Thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index d7ec93f..b14fbb0 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -161,7 +161,8 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   // If interrupt() was called already, nobody will send a signal any more.
+   if(alive)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
-- 
2.43.0


From bdd6ba5592b9b78f40039e7a496eed033f506985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 116/163] fix: Thread::interrupt joined a thread that was never
 started or joined already

---
 src/core/Thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index b14fbb0..9d06940 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -187,7 +187,11 @@ void Thread::interrupt()
    alive = false;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
-   pthread_join(thread, nullptr);
+   if(thread != 0)
+   {
+      pthread_join(thread, nullptr);
+      thread = 0;
+   }
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From 42752663410f2b180a207291de728a3d34b7f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 117/163] =?UTF-8?q?fix:=20Char::toLowerCase=20and=20toUppe?=
 =?UTF-8?q?rCase=20left=20letters=20such=20as=20=C3=89=20unchanged?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/core/Character.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/core/Character.cpp b/src/core/Character.cpp
index afbf25b..5e76182 100644
--- a/src/core/Character.cpp
+++ b/src/core/Character.cpp
@@ -146,16 +146,9 @@ jm::Char jm::Char::toLowerCase() const
       case 'Z':
          return Char('z');
 
-      case 0x00C4://Ä
-         return Char(0x00E4);//ä
-
-      case 0x00D6://Ö
-         return Char(0x00F6);//ö
-
-      case 0x00DC://Ü
-         return Char(0x00FC);//ü
-
       default:
+         // The upper case letters U+00C0-U+00DE (À-Þ), includes Ä, Ö and Ü
+         if(mChar >= 0x00C0 && isUpperCase())return Char(mChar + 0x20);
          return Char(mChar);
    }
 }
@@ -219,16 +212,10 @@ jm::Char jm::Char::toUpperCase() const
       case 'z':
          return 'Z';
 
-      case 0x00E4://ä
-         return 0x00C4;//Ä
-
-      case 0x00F6://ö
-         return 0x00D6;//Ö
-
-      case 0x00FC://ü
-         return 0x00DC;//Ü
-
       default:
+         // The lower case letters U+00E0-U+00FE (à-þ), includes ä, ö and ü. The letters ß and ÿ have
+         // no counterpart there.
+         if(mChar >= 0x00E0 && mChar <= 0x00FE && isLowerCase())return Char(mChar - 0x20);
          return mChar;
    }
 }
-- 
2.43.0


From 0171f472339a7edd68c29b75b00fc2d2177d39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 118/163] fix: I18nBundle::appendMo read beyond the end of
 damaged translation files

---
 src/core/I18nBundle.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..4624c0f 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -69,6 +69,12 @@ void I18nBundle::appendMo(Stream* file)
       System::log(Tr("Translation file not fully read"), LogLevel::kError);
       return;
    }
+   if(length < 20)
+   {
+      System::log(Tr("Translation file is damaged"), LogLevel::kError);
+      return;
+   }
+
    uint8* buffer = (uint8*)buf.constData();
 
    // Process content
@@ -99,6 +105,14 @@ void I18nBundle::appendMo(Stream* file)
 
    std::vector<Record>records;
 
+   // Both tables must be inside the file
+   if(origOffset + 8 * (uint64)stringCount > (uint64)length ||
+         transOffset + 8 * (uint64)stringCount > (uint64)length)
+   {
+      System::log(Tr("Translation file is damaged"), LogLevel::kError);
+      return;
+   }
+
    // Read the string records
    uint32 offset = 0;
    for(uint32 a = 0; a < stringCount; a++)
@@ -111,6 +125,15 @@ void I18nBundle::appendMo(Stream* file)
 
       offset += 8;
 
+      // The texts must be inside the file, too
+      if(rec.origOffset + (uint64)rec.origLength > (uint64)length ||
+            rec.transOffset + (uint64)rec.transLength > (uint64)length)
+      {
+         System::log(Tr("Translation file is damaged"), LogLevel::kError);
+         return;
+      }
+
+
       records.push_back(rec);
    }
 
-- 
2.43.0


From 854aeb3b36b2a4995cb0b803a089356188ce928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 119/163] fix: DiffDistance never deleted the diagonals it
 calculated, except one

---
 include/core/DiffDistance.h |  5 +++++
 src/core/DiffDiag.cpp       | 13 +++++++++++++
 src/core/DiffDistance.cpp   | 10 +++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/core/DiffDistance.h b/include/core/DiffDistance.h
index 91bf8b7..4ecb488 100644
--- a/include/core/DiffDistance.h
+++ b/include/core/DiffDistance.h
@@ -140,6 +140,11 @@ namespace jm
           */
          std::vector<Object*>* v;
 
+         /*!
+          \brief Deletes the diagonals of the last calculation.
+          */
+         void deleteDiagonals();
+
    };
 
 }
diff --git a/src/core/DiffDiag.cpp b/src/core/DiffDiag.cpp
index 2581474..b513795 100644
--- a/src/core/DiffDiag.cpp
+++ b/src/core/DiffDiag.cpp
@@ -49,6 +49,19 @@ DiffDiag::DiffDiag(DiffDistance* dist, std::vector<Object*>* u, std::vector<Obje
 
 DiffDiag::~DiffDiag()
 {
+   // The diagonals above belong to this one. They are detached first, because there may be many.
+   DiffDiag* diagonal = mAbove;
+   while(diagonal != nullptr)
+   {
+      DiffDiag* next = diagonal->mAbove;
+      diagonal->mAbove = nullptr;
+      delete diagonal;
+      diagonal = next;
+   }
+
+   // Only the main diagonal owns the diagonal below, in the others it is the way back.
+   if(mOffset == 0)delete mBelow;
+
    mElements->clear();
    delete mElements;
 }
diff --git a/src/core/DiffDistance.cpp b/src/core/DiffDistance.cpp
index 1cfd0cb..ffc55a4 100644
--- a/src/core/DiffDistance.cpp
+++ b/src/core/DiffDistance.cpp
@@ -52,13 +52,20 @@ DiffDistance::~DiffDistance()
    delete v;
 }
 
-void DiffDistance::clear()
+void DiffDistance::deleteDiagonals()
 {
    if(mDiagonal != nullptr)
    {
+      // The main diagonal owns all others.
+      while(mDiagonal->offset() != 0)mDiagonal = mDiagonal->below();
       delete mDiagonal;
       mDiagonal = nullptr;
    }
+}
+
+void DiffDistance::clear()
+{
+   deleteDiagonals();
    u->clear();
    v->clear();
    mDistance = 0;
@@ -93,6 +100,7 @@ DiffBacktrace* DiffDistance::solve()
    // which is the diagonal containing the bottom R.H. element?
    int64 lba = v->size() - u->size();
 
+   deleteDiagonals();
    DiffDiag* main = new DiffDiag(this, u, v, 0);
 
 
-- 
2.43.0


From 01ebe663ab3546ed4e97b704425a7d48c6ad5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 120/163] fix: deleting a long DiffBacktrace overflowed the
 stack

---
 src/core/DiffBacktrace.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 4130d46..41b7f44 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -55,13 +55,15 @@ DiffBacktrace::DiffBacktrace(const DiffBacktrace& another)
 
 DiffBacktrace::~DiffBacktrace()
 {
-
-   if(mNext != nullptr)
+   // The path can be long, so the steps are detached before they are deleted.
+   DiffBacktrace* step = mNext;
+   while(step != nullptr)
    {
-      delete mNext;
-      mNext = nullptr;
+      DiffBacktrace* next = step->mNext;
+      step->mNext = nullptr;
+      delete step;
+      step = next;
    }
-
 }
 
 
-- 
2.43.0


From a7130190e6b97290fa3cd153476789286f77fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 121/163] fix: Inflater lost its output buffer and, with
 damaged data, its code trees

---
 include/core/Inflater.h |  4 ++++
 src/core/Inflater.cpp   | 48 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/core/Inflater.h b/include/core/Inflater.h
index 6a4f354..4ab886b 100644
--- a/include/core/Inflater.h
+++ b/include/core/Inflater.h
@@ -165,6 +165,10 @@ namespace jm
           */
          explicit Inflater(bool wrap);
 
+         Inflater(const Inflater& other) = delete;
+
+         Inflater& operator=(const Inflater& another) = delete;
+
          /*!
           \brief Destructor
           */
diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index cb883e0..594a101 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -30,6 +30,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "PrecompiledCore.hpp"
+#include <memory>
 
 using std::max;
 
@@ -66,6 +67,7 @@ Inflater::Inflater(bool wrap): Object()
 
 Inflater::~Inflater()
 {
+   delete[] mUncompBytes;
 }
 
 void Inflater::SetInput(uint8* buffer, int64 length)
@@ -88,6 +90,11 @@ bool Inflater::Finished()
 void Inflater::Inflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
+   if(mUncompBytes == nullptr) // the last one belongs to the caller
+   {
+      mUncompBytes = new uint8[1024];
+      mUncompLength = 1024;
+   }
 
    // You are at the beginning of the stream. Read in ZLIB header (RFC1950)
    if(mTotalIn == 0 && mWrap == false)
@@ -128,6 +135,8 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    buffer = mUncompBytes;
    length = mUncompIndex;
+   mUncompBytes = nullptr;
+   mUncompLength = 0;
 }
 
 void Inflater::Reset()
@@ -135,7 +144,7 @@ void Inflater::Reset()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   delete[] mUncompBytes;
    mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
@@ -617,7 +626,7 @@ void Inflater::handleCompressedDynamicHuffman()
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
    //Codelängenarray erzeugen und Nullen
-   Array<uint16>* codelengths = new Array<uint16>(19);
+   std::unique_ptr<Array<uint16>> codelengths(new Array<uint16>(19));
    for(uint32 a = 0; a < codelengths->size(); a++)(*codelengths)[a] = 0;
 
    //Einlesen der definierten Codelängen (3 Bit feste Breite)
@@ -628,35 +637,34 @@ void Inflater::handleCompressedDynamicHuffman()
    }
 
    //Erzeuge aus den Codelängen die HuffmanCodes
-   Array<uint16>* codes = huffmanCodes(codelengths);
+   std::unique_ptr<Array<uint16>> codes(huffmanCodes(codelengths.get()));
 
-   HuffmanTree* intermediate = createTree(codelengths, codes);
+   std::unique_ptr<HuffmanTree> intermediate(createTree(codelengths.get(), codes.get()));
 
    // The lengths of both alphabets are one sequence, repetitions may cross the border.
-   Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   Array<uint16>* alllengths = new Array<uint16>(HLIT + HDIST);
-   readLengthDists(alllengths, intermediate, HLIT + HDIST);
+   std::unique_ptr<Array<uint16>> lengths2(new Array<uint16>(HLIT));
+   std::unique_ptr<Array<uint16>> distances2(new Array<uint16>(HDIST));
+   std::unique_ptr<Array<uint16>> alllengths(new Array<uint16>(HLIT + HDIST));
+   readLengthDists(alllengths.get(), intermediate.get(), HLIT + HDIST);
    for(uint16 a = 0; a < HLIT; a++)(*lengths2)[a] = (*alllengths)[a];
    for(uint16 a = 0; a < HDIST; a++)(*distances2)[a] = (*alllengths)[HLIT + a];
-   delete alllengths;
 
-   Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
+   std::unique_ptr<Array<uint16>> lengthcodes2(huffmanCodes(lengths2.get()));
 
-   Array<uint16>* distcodes2 = huffmanCodes(distances2);
+   std::unique_ptr<Array<uint16>> distcodes2(huffmanCodes(distances2.get()));
 
    //Workaround
    MAX_BITS = 15;
 
-   HuffmanTree* htvallen = createTree(lengths2, lengthcodes2);
-   HuffmanTree* htdist = createTree(distances2, distcodes2);
+   std::unique_ptr<HuffmanTree> htvallen(createTree(lengths2.get(), lengthcodes2.get()));
+   std::unique_ptr<HuffmanTree> htdist(createTree(distances2.get(), distcodes2.get()));
 
    bool endOfBlock = false;
    while(!endOfBlock)
    {
       uint16 value ;
 
-      value = decodeHuffmanSymbol(htvallen);
+      value = decodeHuffmanSymbol(htvallen.get());
 
       if(value < 256)
       {
@@ -679,7 +687,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //codes, with possible additional bits as shown in the table
          //shown in Paragraph 3.2.5, above.
 
-         uint16 code = decodeHuffmanSymbol(htdist);
+         uint16 code = decodeHuffmanSymbol(htdist.get());
          if(code > 29)throw Exception("Invalid distance code: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
@@ -701,16 +709,6 @@ void Inflater::handleCompressedDynamicHuffman()
 
 
    }
-
-   delete codelengths;
-   delete codes;
-   delete lengths2;
-   delete distances2;
-   delete lengthcodes2;
-   delete distcodes2;
-   delete intermediate;
-   delete htvallen;
-   delete htdist;
 }
 
 
-- 
2.43.0


From 6dd1c37c6d432c3dc8e8ae17307e541e78d00871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 122/163] fix: Matrix::initIdentity and the other
 initializations lost the former values of the matrix

---
 include/core/Matrix.h | 2 +-
 src/core/Matrix.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/core/Matrix.h b/include/core/Matrix.h
index 39edc68..a63e832 100644
--- a/include/core/Matrix.h
+++ b/include/core/Matrix.h
@@ -364,7 +364,7 @@ namespace jm
           \brief This field stores the data. In analogy to the OpenGL storage convention, the data
           is stored column by column.
           */
-         double* data;
+         double* data = nullptr;
 
          void init(int64 rows, int64 cols);
    };
diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index da83b41..0217d93 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -132,6 +132,7 @@ void Matrix::init(int64 rows, int64 cols)
 {
    m = rows;
    n = cols;
+   delete[] data;
    data = new double[m * n];
 }
 
-- 
2.43.0


From 868c03f18ffce191aed60af6d9d48721748d3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 123/163] fix: Thread::setName crashed before the thread was
 started

---
 include/core/Thread.h |  2 ++
 src/core/Thread.cpp   | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index f314b43..3dd182b 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -40,6 +40,7 @@
 
 #include "Types.h"
 #include "Object.h"
+#include "String.h"
 
 #if defined __APPLE__ || defined __linux__
 extern "C" void* StartThread(void* arg);
@@ -71,6 +72,7 @@ namespace jm
          pthread_cond_t cond;
          pthread_mutex_t criticalSection;
          pthread_mutexattr_t attra;
+         String mName; // set before the start
 
          #elif defined _WIN32
 
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 9d06940..b5c01b0 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -38,6 +38,11 @@ using namespace jm;
 void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
+   #if defined __linux__
+   if(!t->mName.isEmpty())pthread_setname_np(pthread_self(), t->mName.toCString().constData());
+   #elif defined __APPLE__
+   if(!t->mName.isEmpty())pthread_setname_np(t->mName.toCString().constData());
+   #endif
    t->run();
    pthread_exit(nullptr);
 }
@@ -217,6 +222,14 @@ bool Thread::isAlive()
 
 void Thread::setName(const jm::String& name)
 {
+   #if defined __APPLE__ || defined __linux__
+   if(thread == 0)
+   {
+      mName = name;
+      return;
+   }
+   #endif
+
    #if defined __APPLE__
    pthread_setname_np(name.toCString().constData());
    #elif defined __linux__
-- 
2.43.0


From 27b9434e7e26ad5b96e3366f07f6cd5e294d5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 124/163] fix: Preferences::clear lost the values

---
 include/core/Preferences.h | 5 +++++
 src/core/Preferences.cpp   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 96934af..5ebd191 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -57,6 +57,11 @@ namespace jm
          */
          ~Preferences() override;
 
+         /*!
+          \brief Removes all values.
+          */
+         void clear() noexcept;
+
          /*!
           \brief This method reads the data from the file.
           \param file The file containing the properties.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index a54987c..2b77a92 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -39,6 +39,11 @@ Preferences::Preferences(): Hashtable()
 
 
 Preferences::~Preferences()
+{
+   clear();
+}
+
+void Preferences::clear() noexcept
 {
    Iterator* i = keys();
    while(i->hasNext())
@@ -48,6 +53,7 @@ Preferences::~Preferences()
       delete p;
    }
    delete i;
+   Hashtable::clear();
 }
 
 
-- 
2.43.0


From 9741a6b58150eab0107d118c52038062f6ebb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 125/163] fix: File::createNewFile lost the handle of an open
 file

---
 src/core/File.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 2a075b2..27fde25 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -592,10 +592,11 @@ bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    if(exists())return false;
-   mHandle = fopen(mCstr.constData(), "wb");
-   bool exist = (mHandle != nullptr);
-   close();
-   return exist;
+   // The file itself may be open still, if it was removed in the meantime.
+   FILE* handle = fopen(mCstr.constData(), "wb");
+   if(handle == nullptr)return false;
+   fclose(handle);
+   return true;
    #elif defined _WIN32 //Windows
    if(exists())return false;
    int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
-- 
2.43.0


From fb239d97a1e815d4dc6824565ac5a590e1f0d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 126/163] fix: copies of a DiffBacktrace deleted the steps of
 the original

---
 src/core/DiffBacktrace.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 41b7f44..c2fc16a 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -50,7 +50,21 @@ DiffBacktrace::DiffBacktrace(const DiffBacktrace& another)
    mObj1 = another.mObj1;
    mObj2 = another.mObj2;
    mPrev = another.mPrev;
-   mNext = another.mNext;
+   mNext = nullptr;
+
+   // The following steps belong to their predecessor, so the copy needs its own ones.
+   DiffBacktrace* last = this;
+   for(const DiffBacktrace* step = another.mNext; step != nullptr; step = step->mNext)
+   {
+      DiffBacktrace* copy = new DiffBacktrace();
+      copy->mSize = step->mSize;
+      copy->mOperation = step->mOperation;
+      copy->mObj1 = step->mObj1;
+      copy->mObj2 = step->mObj2;
+      copy->mPrev = last;
+      last->mNext = copy;
+      last = copy;
+   }
 }
 
 DiffBacktrace::~DiffBacktrace()
-- 
2.43.0


From 1fddbf803748be4cb94c910bd4ab0e9f0b859840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 127/163] fix: DiffInfo printed a wrong delta for decreasing
 unsigned numbers and far apart numbers

---
 src/core/DiffInfo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/DiffInfo.cpp b/src/core/DiffInfo.cpp
index c1d581c..7e7e89e 100644
--- a/src/core/DiffInfo.cpp
+++ b/src/core/DiffInfo.cpp
@@ -75,8 +75,9 @@ void DiffInfo::print(DiffOperation operation,
       case DiffOperation::kDiffModified:
          if(obj1 != obj2)
          {
+            // The difference as magnitude, because it may be beyond the range of the type.
             std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: " <<
-                      (obj2 - obj1) << std::endl;
+                      (obj2 < obj1 ? "-" : "") << (obj2 < obj1 ? uint64(obj1) - uint64(obj2) : uint64(obj2) - uint64(obj1)) << std::endl;
          }
          break;
 
@@ -100,8 +101,9 @@ void DiffInfo::print(DiffOperation operation,
       case DiffOperation::kDiffModified:
          if(obj1 != obj2)
          {
+            // The difference as magnitude, because it may be beyond the range of the type.
             std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: " <<
-                      (obj2 - obj1) << std::endl;
+                      (obj2 < obj1 ? "-" : "") << (obj2 < obj1 ? uint64(obj1) - uint64(obj2) : uint64(obj2) - uint64(obj1)) << std::endl;
          }
          break;
 
-- 
2.43.0


From 8bda062f86bb301e4c03f96860da89e15252b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 128/163] fix: assigning a Resource lost its former stream

---
 src/core/Resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Resource.cpp b/src/core/Resource.cpp
index e535b36..e340034 100644
--- a/src/core/Resource.cpp
+++ b/src/core/Resource.cpp
@@ -61,8 +61,10 @@ Resource& Resource::operator=(const Resource& other)
 {
    if(this != &other)
    {
+      jm::Stream* former = mStream;
       mStream = other.mStream;
       if(mStream != nullptr)mStream->retain();
+      if(former != nullptr)former->release();
    }
 
    return *this;
-- 
2.43.0


From 101d5c01b239a2e36c3f7e1ecc2d26ddd17aa98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 129/163] fix: System::language returned a list of categories
 if they are not all the same

---
 src/core/System.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index 802ca29..8c9899e 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -65,7 +65,8 @@ jm::String jm::System::language()
    }
 
    // Use nl_langinfo to get the language
-   const char* language = setlocale(LC_ALL, nullptr);
+   // Only the category of messages, because LC_ALL names all categories if they are different
+   const char* language = setlocale(LC_MESSAGES, nullptr);
 
    jm::String lang = jm::String(language);
    int64 index = lang.indexOf('.');
-- 
2.43.0


From 994a4ad50318e3fed93a67106607c8a23f32400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 130/163] fix: ExecDir threw an exception for a program in the
 root directory

---
 src/core/File.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 27fde25..ff4672a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -960,8 +960,9 @@ String jm::ExecDir()
 {
    String exec = ExecPath();
    int64 pos = exec.lastIndexOf(DIR_SEP);
-   if(exec.charAt(pos - 1) == '.' && exec.charAt(pos - 2) == DIR_SEP)pos -= 2;
-   return exec.substring(0, pos);
+   if(pos > 1 && exec.charAt(pos - 1) == '.' && exec.charAt(pos - 2) == DIR_SEP)pos -= 2;
+   // The root directory is the only one that ends with the separator
+   return exec.substring(0, pos > 0 ? pos : pos + 1);
 }
 
 
-- 
2.43.0


From 5d8cf72d38373f5b58efdf3fa0f6d6dc96a15cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 131/163] fix: File::open returned a wrong status if logging
 changed errno

---
 src/core/File.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ff4672a..bd0d181 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -641,13 +641,14 @@ Status File::open(FileMode mode)
 
    if(mHandle == nullptr)
    {
-      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(errno));
+      const int error = errno; // logging can change it
+      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(error));
       jm::System::log(msg, jm::LogLevel::kError);
 
-      if(errno == EACCES)return Status::eNotAllowed;
-      if(errno == ENOENT)return  Status::eNotFound;
-      if(errno == ETIMEDOUT)return Status::eTimeout;
-      if(errno == ENOTDIR)return Status::eNoDirectory;
+      if(error == EACCES)return Status::eNotAllowed;
+      if(error == ENOENT)return  Status::eNotFound;
+      if(error == ETIMEDOUT)return Status::eTimeout;
+      if(error == ENOTDIR)return Status::eNoDirectory;
       throw Exception(msg);
    }
    return Status::eOK;
-- 
2.43.0


From efd24c24d4902a7ed651023264d5d869ee0b71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 132/163] fix: a File was still open after closing it failed,
 and was closed twice

---
 src/core/File.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index bd0d181..b98d486 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -662,9 +662,10 @@ bool File::isOpen()
 void File::close()
 {
    if(mHandle == nullptr)return;
-   int32 eof = fclose(mHandle);
+   FILE* handle = mHandle;
+   mHandle = nullptr; // it is gone, even if closing fails
+   int32 eof = fclose(handle);
    if(eof == EOF)throw Exception(Tr("Error while closing file!"));
-   mHandle = nullptr;
 }
 
 void File::seek(int64 position)
-- 
2.43.0


From efc0eedbca579c8325646b17ca3428ee810f31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 133/163] fix: SAXParser parsed an incompletely read file
 without a report

---
 src/core/SAXParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index d2f6f95..3a5399b 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -50,8 +50,10 @@ void SAXParser::parse(File& file)
    int64 length = file.size();
    ByteArray buffer = ByteArray(length, 0);
    file.open(jm::FileMode::kRead);
-   file.Stream::readFully(buffer);
+   int64 check = file.Stream::readFully(buffer);
    file.close();
+   if(check != length)throw Exception(Tr("XML file incomplete loaded."));
+
    jm::String content = jm::String(buffer);
    parse(content);
 }
-- 
2.43.0


From 1f72b43f0a37da68d0f2c6919ae32e2e0cd865b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 134/163] fix: File::listFiles failed if the directory changed
 meanwhile, and ignored read errors

---
 src/core/File.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index b98d486..1579db1 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -466,25 +466,24 @@ Array<File>* File::listFiles()const
       throw Exception(Tr("Cannot open directory"));
    }
 
-   uint32 fileCount = 0;
-
-   //Zähle Einträge
-   while(readdir(dp) != nullptr)fileCount++;
-
-   //Zum Anfang
-   rewinddir(dp);
-
-   //Array füllen
-   Array<File>* list = new Array<File>(fileCount);
-   uint32 cnt = 0;
+   // The directory can change in the meantime. Hence, it is read only once.
+   std::vector<String> filenames;
 
+   errno = 0;
    while((dirp = readdir(dp)) != nullptr)
    {
-      String filename = String(dirp->d_name);
-      list->set(cnt++, File(*this, filename));
+      filenames.push_back(String(dirp->d_name));
+      errno = 0;
    }
+   const int error = errno;
    closedir(dp);
 
+   if(error != 0)throw Exception(Tr("Cannot read directory"));
+
+   //Array füllen
+   Array<File>* list = new Array<File>(filenames.size());
+   for(size_t a = 0; a < filenames.size(); a++)list->set(a, File(*this, filenames[a]));
+
    return list;
 
 
-- 
2.43.0


From ed4111702f7d2b7dc8233c58c7443c51949f662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 135/163] fix: ZipOutputFile wrote wrong data if a file could
 not be read

---
 src/core/ZipOutputFile.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 2216506..6665876 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -131,12 +131,14 @@ void ZipOutputFile::closeEntry()
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   mTemp->Stream::readFully(buffer);
+   int64 check = mTemp->Stream::readFully(buffer);
    mTemp->close();
    mTemp->remove();
    delete mTemp;
    mTemp = nullptr;
 
+   if(check != buffer.size())throw jm::Exception(Tr("Temporary file incomplete loaded."));
+
    //CRC berechnen
    entry->mCRC = CRC32(buffer.constData(), entry->mUncompressedSize);
 
@@ -162,10 +164,11 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
    entry->mUncompressedSize = static_cast<uint32>(file->size());
-   file->open(FileMode::kRead);
+   if(file->open(FileMode::kRead) != Status::eOK)throw jm::Exception(Tr("Cannot open file."));
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   file->Stream::readFully(buffer);
+   int64 check = file->Stream::readFully(buffer);
    file->close();
+   if(check != buffer.size())throw jm::Exception(Tr("File incomplete loaded."));
 
    mTemp->close();
    mTemp->remove();
-- 
2.43.0


From 3c3cecdad1e3c1c89f5390b1d05ca5a570e6fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 136/163] fix: operations on a File that is not open crashed

---
 src/core/File.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 1579db1..0f11104 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -669,6 +669,7 @@ void File::close()
 
 void File::seek(int64 position)
 {
+   if(mHandle == nullptr)throw Exception(Tr("File is not open."));
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)position, SEEK_SET);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
@@ -676,6 +677,7 @@ void File::seek(int64 position)
 
 void File::move(int64 offset)
 {
+   if(mHandle == nullptr)throw Exception(Tr("File is not open."));
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)offset, SEEK_CUR);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
@@ -683,12 +685,14 @@ void File::move(int64 offset)
 
 int64 File::position()
 {
+   if(mHandle == nullptr)throw Exception(Tr("File is not open."));
    return int64((uint64)ftell(mHandle));
 }
 
 
 int64 File::read(uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr)throw Exception(Tr("File is not open."));
    return fread(buffer, 1, length, mHandle);
 }
 
@@ -710,6 +714,7 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 
 int64 File::write(const uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr)throw Exception(Tr("File is not open."));
    return fwrite(buffer, 1, length, mHandle);
 }
 
-- 
2.43.0


From 5d11e293c7bd908f128bce512d4b1fcc2e94c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 137/163] fix: closing a File was successful although data
 could not be written

---
 include/core/File.h | 3 +++
 src/core/File.cpp   | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/core/File.h b/include/core/File.h
index 896a08d..fd6c01f 100644
--- a/include/core/File.h
+++ b/include/core/File.h
@@ -348,6 +348,9 @@ namespace jm
          //! Filehandle in operating system
          FILE* mHandle;
 
+         //! Data could not be written since the file was opened.
+         bool mWriteFailed = false;
+
          /*!
           \brief This method normalizes the pathname.
           \details On Unix, a normalized pathname does not contain duplicate slashes
diff --git a/src/core/File.cpp b/src/core/File.cpp
index 0f11104..703152a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -67,6 +67,7 @@ File::File(const File& other): Stream(), Comparable<File>()
 {
    mPathname = other.mPathname;
    mHandle = other.mHandle;
+   mWriteFailed = other.mWriteFailed;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -82,6 +83,7 @@ File& File::operator=(const File& another)
    {
       mPathname = another.mPathname;
       mHandle = another.mHandle;
+      mWriteFailed = another.mWriteFailed;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
@@ -606,6 +608,7 @@ bool File::createNewFile()
 
 Status File::open(FileMode mode)
 {
+   mWriteFailed = false;
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
@@ -664,7 +667,7 @@ void File::close()
    FILE* handle = mHandle;
    mHandle = nullptr; // it is gone, even if closing fails
    int32 eof = fclose(handle);
-   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
+   if(eof == EOF || mWriteFailed)throw Exception(Tr("Error while closing file!"));
 }
 
 void File::seek(int64 position)
@@ -715,7 +718,9 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 int64 File::write(const uint8* buffer, int64 length)
 {
    if(mHandle == nullptr)throw Exception(Tr("File is not open."));
-   return fwrite(buffer, 1, length, mHandle);
+   int64 written = fwrite(buffer, 1, length, mHandle);
+   if(written != length)mWriteFailed = true; // close() reports it
+   return written;
 }
 
 int32 File::compareTo(const File& other) const
-- 
2.43.0


From 731141ea3ebed63d23d822cc33fa893d8ab0f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 138/163] fix: ZipFile showed a wrong directory if the archive
 could not be read

---
 src/core/ZipFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index a7bcef9..f5d5392 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -76,7 +76,8 @@ void ZipFile::open()
    do
    {
       mFile->seek(seek);
-      mFile->Stream::readFully(eocd);
+      int64 check = mFile->Stream::readFully(eocd);
+      if(check != eocd.size())throw jm::Exception(Tr("ZIP-File incomplete loaded."));
       signature = jm::deserializeLEInt32((uint8*)eocd.constData(), 0);
       seek--;
 
@@ -103,7 +104,8 @@ void ZipFile::open()
 
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
-   mFile->Stream::readFully(dict);
+   int64 dictRead = mFile->Stream::readFully(dict);
+   if(dictRead != dict.size())throw jm::Exception(Tr("ZIP-File incomplete loaded."));
 
 
    uint32 index = 0;
-- 
2.43.0


From 79425bc3b8b02dac59de933b0fecba49139e2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 139/163] fix: constructing a String from text of another
 encoding leaked its copy

---
 src/core/String.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index d056a3c..20748ac 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -61,30 +61,27 @@ String::String(const String& another) noexcept: Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 1];
-   memcpy(cstring, buffer, size);
+   std::vector<char> cstring(size + 1); // given back, even if the decoder throws
+   memcpy(cstring.data(), buffer, size);
    cstring[size] = 0;
 
    // Intentionally not used Charset::GetDefault, since this leads to problems with global strings.
    // (Initialization sequence not predictable)
    UTF8Decoder dec = UTF8Decoder();
-   CharArray array = dec.decode(cstring);
+   CharArray array = dec.decode(cstring.data());
    copy(array);
-
-   delete[] cstring;
 }
 
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 3];
-   memcpy(cstring, buffer, size);
+   std::vector<char> cstring(size + 3); // given back, even if the decoder throws
+   memcpy(cstring.data(), buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
    cstring[size + 2] = 0; //For UTF16 with an incomplete character required
-   CharArray array = charset->decode(cstring);
+   CharArray array = charset->decode(cstring.data());
    copy(array);
-   delete[] cstring;
 }
 
 String::String(const char* cstring): Object(), Comparable<String>(),
-- 
2.43.0


From 3af3c1ac9d86ef15866ef76202fa710e00bd547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 140/163] fix: File::createNewFile truncates a file that
 another thread or process creates meanwhile

---
 src/core/File.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 703152a..a7becc1 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -594,7 +594,9 @@ bool File::createNewFile()
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    if(exists())return false;
    // The file itself may be open still, if it was removed in the meantime.
-   FILE* handle = fopen(mCstr.constData(), "wb");
+   // Another one may create it in the meantime: "x" never opens an existing file.
+   FILE* handle = fopen(mCstr.constData(), "wbx");
+   if(handle == nullptr && errno == EEXIST && isLink())handle = fopen(mCstr.constData(), "wb"); // to nowhere
    if(handle == nullptr)return false;
    fclose(handle);
    return true;
-- 
2.43.0


From ff737039bed8790844f38c9119f5b912bb91e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 141/163] fix: archives written at the same time in one folder
 share a temporary file and mix their data

---
 src/core/ZipOutputFile.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 6665876..b23117f 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -223,9 +223,17 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
    String directory = mFile->parent();
-   if(directory.size() > 0)mTemp = new jm::File(directory, "jmzipdata.tmp");
-   else mTemp = new jm::File("jmzipdata.tmp"); // relative to the current directory
-   mTemp->createNewFile();
+   String name = "jmzipdata.tmp";
+   if(directory.size() > 0)mTemp = new jm::File(directory, name);
+   else mTemp = new jm::File(name); // relative to the current directory
+
+   // Another archive which is written at the same time, or a file of the user may have that name.
+   for(int64 number = 1; mTemp->createNewFile() == false && number < 1000; number++)
+   {
+      name = String("jmzipdata%1.tmp").arg(number);
+      if(directory.size() > 0)*mTemp = jm::File(directory, name);
+      else *mTemp = jm::File(name);
+   }
    mTemp->open(FileMode::kReadWrite);
 
    mEntries.add(entry, nullptr);
-- 
2.43.0


From 80fed3a349e2fede99e93a8e8dc4d8865837df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 142/163] fix: printing strings in several threads is a data
 race

---
 src/core/String.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 20748ac..47cd3d9 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1178,9 +1178,10 @@ namespace jm
    std::ostream& operator << (std::ostream& out, const String& str)
    {
       //\todo It is best to set and get the charset globally. It's inefficient that way
-      if(gConsoleCharset == nullptr)gConsoleCharset = Charset::forName("Windows-1252");
+      Charset* charset = gConsoleCharset;
+      if(charset == nullptr)charset = Charset::forName("Windows-1252");
       String s = str;
-      ByteArray cstr = s.toCString(gConsoleCharset);
+      ByteArray cstr = s.toCString(charset);
       out << cstr.constData();
       return out;
    }
-- 
2.43.0


From 536bedb46a184265959aed8cbe5cf757f39a48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 143/163] fix: System::lastErrorMessage returns a reference to
 a string that log() of another thread replaces

---
 include/core/System.h | 2 +-
 src/core/System.cpp   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/core/System.h b/include/core/System.h
index 0989ea2..ae13bd5 100644
--- a/include/core/System.h
+++ b/include/core/System.h
@@ -124,7 +124,7 @@ namespace jm
          /*!
           \brief Returns the last error message
           */
-         static const String& lastErrorMessage();
+         static String lastErrorMessage();
 
          /*!
           \brief This method loads a dynamic library. On macOS *.dylib, Windows *.dll, and Linux *.so
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 8c9899e..efd5297 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -185,9 +185,12 @@ void jm::System::log(const String& message, LogLevel logLevel)
    gSystemMutex.unlock();
 }
 
-const jm::String& jm::System::lastErrorMessage()
+jm::String jm::System::lastErrorMessage()
 {
-   return gSystemError;
+   gSystemMutex.lock();
+   String message = gSystemError;
+   gSystemMutex.unlock();
+   return message;
 }
 
 
-- 
2.43.0


From 45fbe3dcacc20b4cc7a235155058769451055388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 144/163] fix: String::valueOf(double, precision) writes
 nonsense for large numbers, many digits and no digits

---
 src/core/String.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 47cd3d9..a4a3e1c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1063,7 +1063,31 @@ String String::valueOf(double number)
 
 String String::valueOf(double number, int64 precision, bool trunc)
 {
+   if(!std::isfinite(number))return valueOf(number);
+
    bool neg = number < 0.0;
+
+   // Beyond the range of the integer arithmetic below.
+   if(std::abs(number) >= 1E15 || precision > 12)
+   {
+      std::stringstream ss;
+      ss << std::fixed << std::setprecision(precision > 0 ? (int32)precision : 0) << std::abs(number);
+      String text = String(ss.str().c_str());
+      int64 point = text.indexOf('.');
+      String fraction;
+      if(point >= 0)
+      {
+         fraction = text.substring(point + 1);
+         text = text.substring(0, point);
+      }
+      bool zero = true;
+      for(int64 index = 0; index < fraction.size(); index++)zero = zero && fraction.charAt(index) == '0';
+      while(trunc && fraction.size() > 0 && fraction.charAt(fraction.size() - 1) == '0')fraction.deleteCharAt(fraction.size() - 1);
+
+      if(neg && !(zero && text == "0"))text.insert(0, '-');
+      return fraction.size() > 0 ? text + "," + fraction : text;
+   }
+
    int64 before = static_cast<int64>(number);
    if(neg)before *= -1;
 
@@ -1090,7 +1114,7 @@ String String::valueOf(double number, int64 precision, bool trunc)
 
    while(trunc && a.size() > 1 && a.charAt(a.size() - 1) == '0')a.deleteCharAt(a.size() - 1);
 
-   if(after != 0 || trunc == false)return b + "," + a;
+   if(precision > 0 && (after != 0 || trunc == false))return b + "," + a;
    else return b;
 }
 
-- 
2.43.0


From d516accf53792e3890bd078a3d223d6b42f367a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 145/163] fix: taking an element from an empty Stack crashes
 instead of raising the exception of top2 and top3

---
 include/core/Stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/core/Stack.h b/include/core/Stack.h
index 7bdf28e..1ce4f4f 100644
--- a/include/core/Stack.h
+++ b/include/core/Stack.h
@@ -96,6 +96,7 @@ namespace jm
           */
          inline T pop()
          {
+            if(mTop == nullptr)throw jm::Exception(Tr("Not enough elements on the stack"));
             StackElement* pop = mTop;
             T ret = pop->data;
             mTop = pop->prev;
@@ -110,6 +111,7 @@ namespace jm
           */
          inline T& top() const
          {
+            if(mTop == nullptr)throw jm::Exception(Tr("Not enough elements on the stack"));
             return mTop->data;
          };
 
@@ -119,6 +121,7 @@ namespace jm
           */
          inline T* topRef()
          {
+            if(mTop == nullptr)throw jm::Exception(Tr("Not enough elements on the stack"));
             return &mTop->data;
          };
 
-- 
2.43.0


From 3c0936cb2285f33d4c65b09c5e51d09656c2df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 146/163] fix: copies of a Stack share their elements and
 delete them twice

---
 include/core/Stack.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/core/Stack.h b/include/core/Stack.h
index 1ce4f4f..bece578 100644
--- a/include/core/Stack.h
+++ b/include/core/Stack.h
@@ -74,6 +74,28 @@ namespace jm
             mCount = 0;
          };
 
+         /*!
+          \brief Copy constructor. The copy has elements of its own.
+          */
+         Stack(const Stack& another): Stack()
+         {
+            *this = another;
+         };
+
+         /*!
+          \brief Assignment operator. The stack gets elements of its own.
+          */
+         Stack& operator=(const Stack& another)
+         {
+            if(this != &another)
+            {
+               clear();
+               for(StackElement* item = another.mTop; item != nullptr; item = item->prev)push(item->data);
+               reverse();
+            }
+            return *this;
+         };
+
          /*!
           \brief Destructor for the stack. Here all variables are deleted.
           */
-- 
2.43.0


From dd41acfc376d7d0890f7f21796a727843a061dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:18 +0000
Subject: [PATCH 147/163] fix: characters beyond U+FFFF are turned into others
 when UTF-8 is decoded or encoded

---
 src/core/UTF8Decoder.cpp | 53 ++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index 8807a42..bb352ba 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -52,6 +52,24 @@ namespace
       }
       return length;
    }
+
+   // The character of a sequence of four bytes. Beyond U+FFFF it takes two 16-bit characters.
+   uint32 longCharacter(const char* cstring)
+   {
+      return (uint32)(cstring[0] & 0x07) << 18 | (uint32)(cstring[1] & 0x3F) << 12 |
+             (uint32)(cstring[2] & 0x3F) << 6 | (uint32)(cstring[3] & 0x3F);
+   }
+
+   bool isPair(uint32 character)
+   {
+      return character >= 0x10000 && character <= 0x10FFFF;
+   }
+
+   // Do both characters together stand for one beyond U+FFFF?
+   bool isPair(uint16 first, uint16 second)
+   {
+      return (first & 0xFC00) == 0xD800 && (second & 0xFC00) == 0xDC00;
+   }
 }
 
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
@@ -95,14 +113,15 @@ CharArray UTF8Decoder::decode(const char* cstring)
       else
       {
          // In case of an encoding error we take the byte as a single character
-         strLength++;
-         cntC += sequenceLength(&cstring[cntC]);
+         uint32 seq = sequenceLength(&cstring[cntC]);
+         strLength += seq == 4 && isPair(longCharacter(&cstring[cntC])) ? 2 : 1;
+         cntC += seq;
       }
    }
    cntC = start;
 
    CharArray ret = CharArray(strLength);
-   uint16 d, e, f;
+   uint16 d, e;
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
@@ -133,11 +152,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
       }
       else if(seq == 4)     //4 Zeichen
       {
-         c = (c & 0x0007) << 18;
-         d = (cstring[cntC + 1] & 0x3F) << 12;
-         e = (cstring[cntC + 2] & 0x3F) << 6;
-         f = cstring[cntC + 3] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e | f);
+         uint32 character = longCharacter(&cstring[cntC]);
+         if(isPair(character))
+         {
+            ret.buffer[cntV] = Char((uint16)(0xD800 + ((character - 0x10000) >> 10)));
+            cntV++;
+            character = 0xDC00 + (character & 0x3FF);
+         }
+         ret.buffer[cntV] = Char((uint16)character);
          cntV++;
          cntC += 4;
       }
@@ -168,6 +190,11 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
       {
          cntC += 2;
       }
+      else if(a + 1 < string.length && isPair(character, string.buffer[a + 1].unicode()))   //4 Zeichen
+      {
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cntC += 3;
@@ -190,6 +217,16 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
          cstring[cntC + 1] = (int8)(character & 0x3F) | 0x80;
          cntC += 2;
       }
+      else if(a + 1 < string.length && isPair(character, string.buffer[a + 1].unicode()))   //4 Zeichen
+      {
+         uint32 both = 0x10000 + ((uint32)(character & 0x3FF) << 10) + (string.buffer[a + 1].unicode() & 0x3FF);
+         cstring[cntC] = (int8)((both >> 18) & 0x07) | 0xF0;
+         cstring[cntC + 1] = (int8)((both >> 12) & 0x3F) | 0x80;
+         cstring[cntC + 2] = (int8)((both >> 6) & 0x3F) | 0x80;
+         cstring[cntC + 3] = (int8)(both & 0x3F) | 0x80;
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cstring[cntC] = (int8)((character >> 12) & 0x0F) | 0xE0;
-- 
2.43.0


From fb9032eff1df6bb6bd346481be6bc9c44b9bce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:18 +0000
Subject: [PATCH 148/163] fix: URLEncode writes invalid UTF-8 for characters
 beyond U+FFFF

---
 src/core/String.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index a4a3e1c..534386a 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1436,7 +1436,12 @@ String jm::URLEncode(const String& str)
             {
                // All other characters are the percent-encoded bytes of their UTF-8 form
                const char* hex = "0123456789ABCDEF";
-               ByteArray bytes = str.substring(a, a + 1).toCString();
+               // (two characters that stand for one beyond U+FFFF are encoded together)
+               uint32 count = 1;
+               if((str.charAt(a).unicode() & 0xFC00) == 0xD800 && a + 1 < str.size() &&
+                     (str.charAt(a + 1).unicode() & 0xFC00) == 0xDC00)count = 2;
+               ByteArray bytes = str.substring(a, a + count).toCString();
+               a += count - 1;
                for(int64 b = 0; b < bytes.size(); b++)
                {
                   ret.append('%');
-- 
2.43.0


From cafeeb3eee8f2aa2d619dd3a80e3b19fc90587df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:18 +0000
Subject: [PATCH 149/163] fix: the SAX parser does not replace references to
 characters beyond U+FFFF

---
 src/core/SAXParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3a5399b..e5e2379 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -401,9 +401,15 @@ bool SAXParser::appendEntity(const String& name, String& token)
          else if(hex && c >= 'a' && c <= 'f')code = code * 16 + (c.unicode() - 'a' + 10);
          else if(hex && c >= 'A' && c <= 'F')code = code * 16 + (c.unicode() - 'A' + 10);
          else return false;
-         if(code > 0xFFFF)return false;
+         if(code > 0x10FFFF)return false;
       }
       if(code == 0)return false;
+      if(code > 0xFFFF)
+      {
+         // Two characters of 16 bit stand for one beyond U+FFFF
+         token.append((uint16)(0xD800 + ((code - 0x10000) >> 10)));
+         code = 0xDC00 + (code & 0x3FF);
+      }
       token.append((uint16)code);
    }
    else return false;
-- 
2.43.0


From 4a2face0c8ab295216f3ecab7ad33da30409f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:40 +0000
Subject: [PATCH 150/163] fix: the temporary file of an archive stays open and
 on disk if an entry cannot be completed

---
 include/core/ZipFile.h     |  5 +++++
 src/core/ZipOutputFile.cpp | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index c9ac031..6355842 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -181,6 +181,11 @@ namespace jm
          */
          explicit ZipOutputFile(File* file);
 
+         /*!
+         \brief Destructor. Removes the temporary file of an entry that was not completed.
+         */
+         ~ZipOutputFile();
+
          /*!
          \brief Opens the file for writing.
          */
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index b23117f..f88d10f 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -59,6 +59,19 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
    mTemp = nullptr;
 }
 
+ZipOutputFile::~ZipOutputFile()
+{
+   if(mTemp == nullptr)return;
+   try
+   {
+      mTemp->close();
+   }
+   catch(Exception&)
+   {}
+   mTemp->remove();
+   delete mTemp;
+}
+
 void ZipOutputFile::open()
 {
    if(mFile->exists() == false)mFile->createNewFile();
@@ -228,11 +241,19 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    else mTemp = new jm::File(name); // relative to the current directory
 
    // Another archive which is written at the same time, or a file of the user may have that name.
-   for(int64 number = 1; mTemp->createNewFile() == false && number < 1000; number++)
+   bool created = mTemp->createNewFile();
+   for(int64 number = 1; created == false && number < 1000; number++)
    {
       name = String("jmzipdata%1.tmp").arg(number);
       if(directory.size() > 0)*mTemp = jm::File(directory, name);
       else *mTemp = jm::File(name);
+      created = mTemp->createNewFile();
+   }
+   if(created == false)
+   {
+      delete mTemp; // it is not ours
+      mTemp = nullptr;
+      throw jm::Exception(Tr("Cannot create temporary file."));
    }
    mTemp->open(FileMode::kReadWrite);
 
-- 
2.43.0


From 66a74ab9c804448ca07a54a94167008a50ec0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 151/163] fix: copies of a Hashtable share their entries and
 delete them twice

---
 include/core/Hashtable.h | 15 +++++++++++++++
 src/core/Hashtable.cpp   | 23 +++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/core/Hashtable.h b/include/core/Hashtable.h
index b50e12c..20321ba 100644
--- a/include/core/Hashtable.h
+++ b/include/core/Hashtable.h
@@ -55,6 +55,11 @@ namespace jm
           */
          Hashtable() noexcept;
 
+         /*!
+          \brief Copy constructor. The copy has the same keys and values, but entries of its own.
+          */
+         Hashtable(const Hashtable& other) noexcept;
+
          /*!
           \brief Destructor for the Hashtable class.
           */
@@ -127,6 +132,11 @@ namespace jm
           */
          void clear() noexcept;
 
+         /*!
+          \brief Replaces the content with the keys and values of the other table.
+          */
+         Hashtable& operator=(const Hashtable& other) noexcept;
+
       protected:
 
          /*!
@@ -136,6 +146,11 @@ namespace jm
 
       private:
 
+         /*!
+          \brief Inserts all keys and values of the other table.
+          */
+         void putAll(const Hashtable& other) noexcept;
+
          /*!
           \brief This private typedef simplifies the sorting of data into the data array.
           It is a linked list for performance reasons.
diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index 1198e19..88ae2a2 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -46,6 +46,11 @@ Hashtable::Hashtable() noexcept: Object(),
    }
 }
 
+Hashtable::Hashtable(const Hashtable& other) noexcept: Hashtable()
+{
+   putAll(other);
+}
+
 Hashtable::~Hashtable() noexcept
 {
    clear();
@@ -178,6 +183,24 @@ void Hashtable::clear() noexcept
    mDataLength = 0;
 }
 
+void Hashtable::putAll(const Hashtable& other) noexcept
+{
+   for(int64 index = 0; index < other.mArrLength; index++)
+   {
+      for(HashtableEntry* e = other.mData[index]; e != nullptr; e = e->next)put(e->key, e->value);
+   }
+}
+
+Hashtable& Hashtable::operator=(const Hashtable& other) noexcept
+{
+   if(this != &other)
+   {
+      clear();
+      putAll(other);
+   }
+   return *this;
+}
+
 int64 Hashtable::size() const noexcept
 {
    return mDataLength;
-- 
2.43.0


From 60a47a97ed5cf8a0b3fe61cbf5b662f255ba0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 152/163] fix: copies of Preferences share their values and
 delete them twice

---
 include/core/Preferences.h | 10 ++++++++++
 src/core/Preferences.cpp   | 23 +++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 5ebd191..53a2e03 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -52,6 +52,11 @@ namespace jm
          */
          Preferences();
 
+         /*!
+         \brief Copy constructor. The values are copied.
+         */
+         Preferences(const Preferences& other);
+
          /*!
          \brief Destructor. Deletes all entries in the hashtable.
          */
@@ -62,6 +67,11 @@ namespace jm
           */
          void clear() noexcept;
 
+         /*!
+          \brief Replaces the values with copies of the values of the other preferences.
+          */
+         Preferences& operator=(const Preferences& other);
+
          /*!
           \brief This method reads the data from the file.
           \param file The file containing the properties.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 2b77a92..7e88dd7 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -37,12 +37,35 @@ Preferences::Preferences(): Hashtable()
 {
 }
 
+Preferences::Preferences(const Preferences& other): Hashtable()
+{
+   *this = other;
+}
 
 Preferences::~Preferences()
 {
    clear();
 }
 
+Preferences& Preferences::operator=(const Preferences& other)
+{
+   if(this != &other)
+   {
+      clear();
+      Hashtable::operator=(other);
+
+      // The values belong to the other preferences
+      Iterator* i = keys();
+      while(i->hasNext())
+      {
+         const String key = *static_cast<String*>(i->next());
+         put(key, new String(*static_cast<String*>(get(key))));
+      }
+      delete i;
+   }
+   return *this;
+}
+
 void Preferences::clear() noexcept
 {
    Iterator* i = keys();
-- 
2.43.0


From 465f7dac5cb030c09e6ad33c5b836880a1ce5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 153/163] fix: copies of a NURBS curve share their points,
 knots and weights and delete them twice

---
 include/core/Nurbs.h | 10 ++++++++++
 src/core/NURBS.cpp   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/core/Nurbs.h b/include/core/Nurbs.h
index 814f367..d9a277e 100644
--- a/include/core/Nurbs.h
+++ b/include/core/Nurbs.h
@@ -77,11 +77,21 @@ namespace jm
                double* weights,
                uint32 weightCount);
 
+         /*!
+          \brief Copy constructor
+          */
+         Nurbs(const Nurbs& other);
+
          /*!
           \brief Destructor
           */
          ~Nurbs() override;
 
+         /*!
+          \brief Copies the other curve into this one.
+          */
+         Nurbs& operator=(const Nurbs& other);
+
          /*!
           \brief Returns a point on the curve at a given parameter value.
           \param t The parameter value on the curve. Should be in the range [0, t_max].
diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index ea50e9b..43e6520 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -68,6 +68,36 @@ Nurbs::Nurbs(uint32 degree,
    for(uint32 a = 0; a < mWeightCount; a++)mWeights[a] = weights[a];
 }
 
+Nurbs::Nurbs(const Nurbs& other): Nurbs()
+{
+   *this = other;
+}
+
+Nurbs& Nurbs::operator=(const Nurbs& other)
+{
+   if(this == &other)return *this;
+
+   delete[] mControlpoints;
+   delete[] mKnots;
+   delete[] mWeights;
+
+   mDegree = other.mDegree;
+
+   mControlCount = other.mControlCount;
+   mControlpoints = new Vertex3[mControlCount];
+   for(uint32 a = 0; a < mControlCount; a++)mControlpoints[a] = other.mControlpoints[a];
+
+   mKnotCount = other.mKnotCount;
+   mKnots = new double[mKnotCount];
+   for(uint32 a = 0; a < mKnotCount; a++)mKnots[a] = other.mKnots[a];
+
+   mWeightCount = other.mWeightCount;
+   mWeights = new double[mWeightCount];
+   for(uint32 a = 0; a < mWeightCount; a++)mWeights[a] = other.mWeights[a];
+
+   return *this;
+}
+
 Nurbs::~Nurbs()
 {
    if(mControlpoints != nullptr)delete[] mControlpoints;
-- 
2.43.0


From cc106b657230287562182fb2979f9f91f405660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 154/163] fix: copies of a LinkedList share their elements and
 delete them twice

---
 include/core/LinkedList.h | 11 +++++++++++
 src/core/LinkedList.cpp   | 15 +++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/core/LinkedList.h b/include/core/LinkedList.h
index e5e84f5..f91f51b 100644
--- a/include/core/LinkedList.h
+++ b/include/core/LinkedList.h
@@ -102,6 +102,11 @@ namespace jm
           */
          explicit LinkedList(Object* owner);
 
+         /*!
+          \brief Copy constructor. The copy has the same owner and holds the same objects.
+          */
+         LinkedList(const LinkedList& other);
+
          /*!
           \brief Destructor for the linked list. This function deletes all variables.
           \warning If you are using the LinkedList together with UndoManager, you must call
@@ -155,6 +160,12 @@ namespace jm
 
          LinkedListIterator iterator() const;
 
+         /*!
+          \brief Replaces the content with the objects of the other list, without undo.
+          The owner stays the same.
+          */
+         LinkedList& operator=(const LinkedList& other);
+
          jm::String displayName() const override
          {
             return "jm::LinkedList";
diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 699ae69..e5f4843 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -53,6 +53,21 @@ LinkedList::LinkedList(Object* owner): Object()
    }
 }
 
+LinkedList::LinkedList(const LinkedList& other): LinkedList(other.mOwner)
+{
+   *this = other;
+}
+
+LinkedList& LinkedList::operator=(const LinkedList& other)
+{
+   if(this != &other)
+   {
+      clear(nullptr);
+      for(LListElement* item = other.listStart; item != nullptr; item = item->next)add(item->data, nullptr);
+   }
+   return *this;
+}
+
 LinkedList::~LinkedList()
 {
    clear(nullptr);
-- 
2.43.0


From 72fa34a4bb35f2fef3ed76a232662d6ed49a19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:55 +0000
Subject: [PATCH 155/163] fix: the path of an executable is cut off after 1023
 bytes

---
 src/core/File.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index a7becc1..f65d190 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -925,11 +925,10 @@ String jm::ExecPath()
    String ret = String(path);
    return ret;
    #elif defined __linux__ //Linux
-   char buff[1024];
+   char buff[PATH_MAX];
    ssize_t len = ::readlink("/proc/self/exe", buff, sizeof(buff) - 1);
    if(len > 0)
    {
-      if(len >= 1024)len = 1023;
       buff[len] = '\0';
       return String(buff);
    }
-- 
2.43.0


From b49f38f1970173d07153e39b767647f181f87161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:55 +0000
Subject: [PATCH 156/163] fix: the current directory is read from uninitialised
 memory if it has been removed

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f65d190..3693648 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -1161,7 +1161,7 @@ File jm::TempDir()
    return File(temp);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File(); // e.g. it has been removed
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
@@ -1181,7 +1181,7 @@ File jm::currentDir()
    return File(cwd);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File(); // e.g. it has been removed
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
-- 
2.43.0


From 52ebfe7a3f17609fa34f6290e7a67d1c31e7ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:28 +0000
Subject: [PATCH 157/163] fix: copies of a DateFormatter share their patterns
 and delete them twice

---
 include/core/Date.h        | 13 +++++++++++++
 src/core/DateFormatter.cpp | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/include/core/Date.h b/include/core/Date.h
index 50a28a8..2b95235 100644
--- a/include/core/Date.h
+++ b/include/core/Date.h
@@ -472,8 +472,18 @@ namespace jm
          */
          explicit DateFormatter(const String& pattern);
 
+         /*!
+          \brief Copy constructor
+          */
+         DateFormatter(const DateFormatter& other);
+
          ~DateFormatter();
 
+         /*!
+          \brief Assignment operator
+          */
+         DateFormatter& operator=(const DateFormatter& other);
+
          String format(const Date& date)const;
 
          static String format(const String& format, const Date& date);
@@ -523,6 +533,9 @@ namespace jm
             void appendPattern(String& value, const Date& date) const;
          };
 
+         //! Copies the list of patterns. The own list must be unset.
+         void copyPatterns(const DateFormatter& other);
+
          Pattern* mPatterns;
          Pattern* mLast;
 
diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 86b1041..82cca8f 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -104,6 +104,41 @@ DateFormatter::DateFormatter(const String& pattern): Object()
    }
 }
 
+DateFormatter::DateFormatter(const DateFormatter& other): Object(other)
+{
+   copyPatterns(other);
+}
+
+DateFormatter& DateFormatter::operator=(const DateFormatter& other)
+{
+   if(this != &other)
+   {
+      Pattern* p = mPatterns;
+      while(p != nullptr)
+      {
+         Pattern* tmp = p;
+         p = p->next;
+         delete tmp;
+      }
+
+      copyPatterns(other);
+   }
+
+   return *this;
+}
+
+void DateFormatter::copyPatterns(const DateFormatter& other)
+{
+   mPatterns = new Pattern(*other.mPatterns);
+   mLast = mPatterns;
+
+   while(mLast->next != nullptr)
+   {
+      mLast->next = new Pattern(*mLast->next);
+      mLast = mLast->next;
+   }
+}
+
 DateFormatter::~DateFormatter()
 {
    Pattern* p = mPatterns;
-- 
2.43.0


From 6579e285f959899ceae18e845d28a9357d24672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:20 +0000
Subject: [PATCH 158/163] fix: the changes of an open transaction are kept when
 the undo manager goes

---
 src/core/UndoManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index a9dd334..2617195 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -58,6 +58,7 @@ UndoManager::~UndoManager()
 {
    clearStacks();
    delete mCurrent;
+   delete mTransaction;
 }
 
 void UndoManager::setDocument(Document* document)
-- 
2.43.0


From b73cac425bd0b9c2c30cec202ddb407e7e274509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:57 +0000
Subject: [PATCH 159/163] fix: numbers beyond 64 bits are read as other numbers

---
 src/core/String.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 534386a..87265ff 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1142,24 +1142,29 @@ double String::toDouble() const
 
 int64 String::toInt() const
 {
+   // The negative numbers reach further than the positive ones.
+   const int64 lowest = std::numeric_limits<int64>::min();
    int64 val = 0;
    bool neg = false;
+   bool valid = true;
 
-   for(int64 a = 0; a < size(); a++)
+   for(int64 a = 0; valid && a < size(); a++)
    {
       jm::Char c = charAt(a);
 
       if(c.isDigit())
       {
-         val *= 10;
-         val += c.digitValue();
+         valid = val >= (lowest + c.digitValue()) / 10;
+         if(valid)val = val * 10 - c.digitValue();
       }
       else if(c == '-' && a == 0)neg = true;
-      else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
+      else valid = false;
    }
 
-   if(neg)val *= -1;
-   return val;
+   if(!valid || (!neg && val == lowest))
+      throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
+
+   return neg ? val : -val;
 }
 
 bool String::isEmpty() const
-- 
2.43.0


From 4111addf67b0922662a0e7dc611d732a3315e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:46 +0000
Subject: [PATCH 160/163] fix: the natural order of texts wraps numbers beyond
 32 bits

---
 src/core/String.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 87265ff..1693654 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -690,9 +690,9 @@ int32 String::compareTo(const String& another) const
 
 int32 String::compareFancyTo(const String& another) const
 {
-   //Wandle String in 32bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
-   uint32 str1[256];
-   uint32 str2[256];
+   //Wandle String in 64bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
+   uint64 str1[256];
+   uint64 str2[256];
 
    int64 strl1 = std::min(mStrLength, (int64)256);
    int64 strl2 = std::min(another.mStrLength, (int64)256);
@@ -706,7 +706,7 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(mValue[cntin].isDigit())
       {
-         uint32 number = mValue[cntin].digitValue();
+         uint64 number = mValue[cntin].digitValue();
          while(cntin + 1 < strl1 && mValue[cntin + 1].isDigit())
          {
             cntin++;
@@ -729,7 +729,7 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(another.mValue[cntin].isDigit())
       {
-         uint32 number = another.mValue[cntin].digitValue();
+         uint64 number = another.mValue[cntin].digitValue();
          while(cntin + 1 < strl2 && another.mValue[cntin + 1].isDigit())
          {
             cntin++;
@@ -751,8 +751,8 @@ int32 String::compareFancyTo(const String& another) const
    uint32 cnt = 0;
    while(cnt < smallest)
    {
-      uint32 c1 = str1[cnt];
-      uint32 c2 = str2[cnt];
+      uint64 c1 = str1[cnt];
+      uint64 c2 = str2[cnt];
       if(c1 < c2)return -1;
       if(c1 > c2)return 1;
       cnt++;
-- 
2.43.0


From c97cdbe615179f6b47545ba6645593ff58a873b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:57 +0000
Subject: [PATCH 161/163] fix: undo and redo change the data of an open
 transaction, which cannot be rolled back then

---
 src/core/UndoManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2617195..2c0fe02 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -83,7 +83,7 @@ bool UndoManager::hasOpenUndoStep() const
 
 bool UndoManager::undo()
 {
-   if(mOpen)return false;
+   if(mOpen || mTransactionLevel > 0)return false;
    if(mUndoStack == nullptr)return false;
    mUndoing = true;
 
@@ -115,7 +115,7 @@ bool UndoManager::undo()
 
 bool UndoManager::redo()
 {
-   if(mOpen) return false;
+   if(mOpen || mTransactionLevel > 0)return false;
    if(mRedoStack == nullptr)return false;
    mUndoing = true;
 
-- 
2.43.0


From b98700ff104f050e0fc76f1a358321293ef48874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:57 +0000
Subject: [PATCH 162/163] fix: committing a transaction loses its changes if
 the undo manager is inactive by then

---
 src/core/UndoManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2c0fe02..8b357a9 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -376,7 +376,9 @@ void UndoManager::commit()
          change = change->mNext;
          trans->mPrev = nullptr;
          trans->mNext = nullptr;
-         registerChange(trans);
+         mCurrent->add(trans); // Recorded already, even if the manager is inactive by now
+         clearRedoStack();
+         mOpen = true;
       }
 
       // Set all to null, to prevent deletion in next step.
-- 
2.43.0


From cb0d3323ea6b7f9179a8a376fff0eea830be2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:32 +0000
Subject: [PATCH 163/163] fix: an interrupted thread sleeps for its full time
 if it was interrupted just before

---
 include/core/Thread.h | 1 +
 src/core/Thread.cpp   | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index 3dd182b..78ca565 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -73,6 +73,7 @@ namespace jm
          pthread_mutex_t criticalSection;
          pthread_mutexattr_t attra;
          String mName; // set before the start
+         bool mInterrupted; // interrupt() waits for the end of the thread
 
          #elif defined _WIN32
 
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index b5c01b0..0413f8a 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -71,6 +71,7 @@ Thread::Thread(): jm::Object()
    #if defined __APPLE__ || defined __linux__
    thread = 0;
    alive = false;
+   mInterrupted = false;
    pthread_condattr_init(&attrc);
    pthread_cond_init(&cond, &attrc);
 
@@ -137,7 +138,8 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   // If interrupt() was called already, nobody will send a signal any more.
+   if(!mInterrupted)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -190,12 +192,17 @@ void Thread::interrupt()
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
    alive = false;
+   mInterrupted = thread != 0;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
    if(thread != 0)
    {
       pthread_join(thread, nullptr);
       thread = 0;
+
+      pthread_mutex_lock(&criticalSection);
+      mInterrupted = false;
+      pthread_mutex_unlock(&criticalSection);
    }
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
-- 
2.43.0

