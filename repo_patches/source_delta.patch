From 55629448c8f210ccb012a9c8c8e01ced5545c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 01/32] fix: Int -= accessed one digit past the end when both
 operands have the same length

---
 sources/int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..5091a23 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -405,7 +405,10 @@ public:
         {
             auto tmp = a[i] - b[i];
             a[i] = cycle_mod(tmp, BASE);
-            a[i + 1] += floor_div(tmp, BASE);
+            if (i + 1 < a.size()) // nothing to borrow from, and no need to, at the most significant digit
+            {
+                a[i + 1] += floor_div(tmp, BASE);
+            }
         }
         for (int i = b.size(); i < a.size() && a[i] < 0; ++i) // carry
         {
-- 
2.43.0


From 17c97b7abe33d39dbb2c16b4c579273b130b7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 02/32] fix: Int a += a wrote past the end of its digits

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 5091a23..be20c70 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -352,6 +352,12 @@ public:
 
         // now, the sign of two integers is the same and not zero
 
+        // the digits of rhs must not change during the calculation
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // normalize
         auto& a = chunks_;
         const auto& b = rhs.chunks_;
-- 
2.43.0


From 5ad69d852ca1ffb7214be574c7286e785f45b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 03/32] fix: Int(INT_MIN) had no digits

---
 sources/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index be20c70..2648b28 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,11 +161,11 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        unsigned int rest = integer < 0 ? 0u - integer : integer; // the absolute value of INT_MIN is not an int
+        while (rest > 0)
         {
-            chunks_.push_back(integer % BASE);
-            integer /= BASE;
+            chunks_.push_back(rest % BASE);
+            rest /= BASE;
         }
     }
 
-- 
2.43.0


From 97427112f44dc50285ddb218c3d097b7fc786ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 04/32] fix: Int % lost the sign of the dividend unless it had
 fewer digits than the divisor

---
 sources/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 2648b28..2a6e982 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -521,6 +521,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
+        const signed char sign = sign_; // the remainder has the sign of the dividend
         sign_ = 1;
 
         Int tmp;       // intermediate variable for rhs * 10^i
@@ -544,6 +545,7 @@ public:
             }
         }
 
+        sign_ = sign;
         return trim();
     }
 
-- 
2.43.0


From fcd71b3a100ec2cfca1870b9129702e32b5a84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 05/32] fix: Int::sqrt did not terminate for integers one below
 a perfect square

---
 sources/int.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 2a6e982..a54e817 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -722,15 +722,15 @@ public:
         // using Newton's method
 
         // as far as possible to reduce the number of iterations
-        // cur_sqrt is about 10^(digits/2) in O(1)
-        Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
+        // cur_sqrt is about 10^(digits/2) in O(1), and not less than the root, so that it decreases until it is the root
+        Int cur_sqrt{1, std::vector<int>((integer.chunks_.size() + 1) / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
-        Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        Int next_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
+        while (next_sqrt < cur_sqrt)
         {
-            pre_sqrt = cur_sqrt;
-            cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
+            cur_sqrt = next_sqrt;
+            next_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
         }
 
         return cur_sqrt;
-- 
2.43.0


From f4ccb172563af9cefbec3feb373f4ff0c1f5dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 06/32] fix: Int::pow was not reduced when mod is 1 or -1

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index a54e817..cbe5513 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -743,7 +743,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            const Int unit = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? unit : unit % mod;
         }
 
         // then, check if exp is negative
@@ -761,7 +762,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From 8b38b60f2ede6e15482747bfd63a2ef4193aa41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 07/32] fix: Int::to_integer overflowed for the minimum of the
 target type

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index cbe5513..3c3cbaf 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -693,9 +693,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_; // with the sign, so that the minimum of T does not overflow
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From dd54d7b0359f669a27866eeddf81ea7cd7a586d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 08/32] fix: Str::lower and Str::upper changed characters that
 are not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..74b7d83 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -518,7 +518,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c |= (c >= 'A' && c <= 'Z') ? 0b0010'0000 : 0; });
 
         return buffer;
     }
@@ -528,7 +528,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c &= (c >= 'a' && c <= 'z') ? 0b1101'1111 : ~0; });
 
         return buffer;
     }
-- 
2.43.0


From 24bbc3107eaab2c25d2c67a23e4d82f6c41a4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 09/32] fix: Str::strip removed characters above 0x7f as if
 they were blank

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 74b7d83..c342d8f 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -578,14 +578,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? (unsigned char)buffer[i] <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? (unsigned char)buffer[i] <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From 90e59330ee9b2c761ef282697b91e4040411d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 10/32] fix: Str::erase accepted a range that ends before it
 starts

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index c342d8f..4d25967 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -537,7 +537,7 @@ public:
     Str erase(int start, int stop) const
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From cbebf482afde1da272d8c8acfc326dd21fc69341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 11/32] fix: Str::find read outside the string when start is
 negative or after stop

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 4d25967..254de91 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,7 +224,7 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        if (start < 0 || start > size() || start > stop)
         {
             return -1;
         }
-- 
2.43.0


From 949e1413ca723bd68f7564ebe75efcfc0bf4f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 12/32] fix: Str >> INT_MIN overflowed

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 254de91..2ab1c93 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -477,7 +477,7 @@ public:
 
         if (n < 0)
         {
-            return *this << -n;
+            return *this << -(n % size());
         }
 
         return *this << size() - n;
-- 
2.43.0


From 915006441ec8eb37d6a654eed293465088b12423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 13/32] fix: Str::slice overflowed its position when the step
 is huge

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 2ab1c93..684e6bf 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -612,7 +612,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From b7844a19099419f72dc00637adb373ffa223f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 14/32] fix: Str * times overflowed the length

---
 sources/str.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/str.hpp b/sources/str.hpp
index 684e6bf..d5db04b 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -640,6 +640,11 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        if (times > 0 && size() > INT_MAX / times)
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
-- 
2.43.0


From 9b991d5ee949eeae10f6038c18cdc73615944cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 15/32] fix: Str::replace of the empty string cut the new
 string at a null character

---
 sources/str.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index d5db04b..23e8c96 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -556,9 +556,10 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            std::for_each(str_.begin(), str_.end(), [&](const char& c)
+                          { buffer += c + new_str.str_; });
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From e62aa2790de437b6249b18d6075dee35fc6fcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 16/32] fix: Str::to_decimal overflowed on long exponents and
 gave NaN for numbers like 0e400

---
 sources/str.hpp     | 14 +-------------
 sources/utility.hpp |  1 +
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 23e8c96..77842ce 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -304,12 +304,6 @@ public:
 
         // not infinity or nan
 
-        double sign = 1; // default '+'
-        double decimal_part = 0;
-        int decimal_cnt = 0;
-        double exp_sign = 1; // default '+'
-        int exp_part = 0;
-
         // FSM
         state st = S_START;
         for (int i = 0; i < size(); ++i)
@@ -322,7 +316,6 @@ public:
                     break;
 
                 case int(S_START) | int(E_SIGN):
-                    sign = (str_[i] == '+') ? 1 : -1;
                     st = S_SIGN;
                     break;
 
@@ -334,7 +327,6 @@ public:
                 case int(S_START) | int(E_DIGIT):
                 case int(S_SIGN) | int(E_DIGIT):
                 case int(S_INT) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
                     st = S_INT;
                     break;
 
@@ -344,8 +336,6 @@ public:
 
                 case int(S_POINT) | int(E_DIGIT):
                 case int(S_DEC) | int(E_DIGIT):
-                    decimal_part = decimal_part * 10 + char_to_integer(str_[i], 10);
-                    decimal_cnt++;
                     st = S_DEC;
                     break;
 
@@ -355,14 +345,12 @@ public:
                     break;
 
                 case int(S_EXP) | int(E_SIGN):
-                    exp_sign = (str_[i] == '+') ? 1 : -1;
                     st = S_EXP_SIGN;
                     break;
 
                 case int(S_EXP) | int(E_DIGIT):
                 case int(S_EXP_SIGN) | int(E_DIGIT):
                 case int(S_EXP_NUM) | int(E_DIGIT):
-                    exp_part = exp_part * 10 + char_to_integer(str_[i], 10);
                     st = S_EXP_NUM;
                     break;
 
@@ -384,7 +372,7 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
-        return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
+        return std::strtod(str_.c_str(), nullptr); // the literal is valid, and a decimal number for strtod too
     }
 
     /// Convert the string to an `Int` based on 2-36 `base`.
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 7dce01e..37da731 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -9,6 +9,7 @@
 #include <algorithm>   // std::copy std::find std::rotate ...
 #include <climits>     // INT_MAX
 #include <cmath>       // std::abs std::pow std::sqrt std::atan2 std::hypot INFINITY NAN
+#include <cstdlib>     // std::strtod
 #include <cstring>     // std::strlen
 #include <iomanip>     // std::setw std::setfill
 #include <istream>     // std::istream
-- 
2.43.0


From 85051ce2aef1ec23a4ad372f2fed5a3c7e4f0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 17/32] fix: List::erase accepted a range that ends before it
 starts

---
 sources/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..ddf86ed 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -292,7 +292,7 @@ public:
     List& erase(int start, int stop)
     {
         internal::check_bounds(start, 0, size() + 1);
-        internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(stop, start, size() + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
-- 
2.43.0


From 7b2826ffc02ffe22622d5515bea891da08c16632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 18/32] fix: List::index read outside the list when start is
 negative, after stop or after the end

---
 sources/list.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index ddf86ed..4b45a77 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -126,6 +126,11 @@ public:
     /// Return the index of the first occurrence of the specified `element`, or -1 if the list does not contain the element in the specified range [`start`, `stop`].
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
+        if (start < 0 || start > size() || start > stop)
+        {
+            return -1;
+        }
+
         stop = stop > size() ? size() : stop;
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
-- 
2.43.0


From f64ab4335ddb7e76d6d2a47734d20d5a9b2afdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 19/32] fix: List and Deque >>= INT_MIN overflowed

---
 sources/deque.hpp | 2 +-
 sources/list.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..f77127a 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -211,7 +211,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
diff --git a/sources/list.hpp b/sources/list.hpp
index 4b45a77..895eb39 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -232,7 +232,7 @@ public:
 
         if (n < 0)
         {
-            return *this <<= -n;
+            return *this <<= -(n % size());
         }
 
         return *this <<= size() - n;
-- 
2.43.0


From 9d23e37a0acd171cadef5e4fa17ceecdf83fb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 20/32] fix: List::slice overflowed its position when the step
 is huge

---
 sources/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 895eb39..009ddc2 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -358,7 +358,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
-- 
2.43.0


From 89b8464359bc16174d392c318745eb876a4b0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 21/32] fix: List * times overflowed the length

---
 sources/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 009ddc2..875a592 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -392,7 +392,10 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        if (times > 0 && size() > INT_MAX / times)
+        {
+            throw std::runtime_error("Error: The container has reached the maximum size.");
+        }
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
-- 
2.43.0


From 64c2a33427bcf1918bde85e1e49547595675ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 22/32] fix: List /= removed the wrong elements when the
 element is one of the list

---
 sources/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 875a592..ce9a465 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -217,7 +217,7 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        auto it = std::remove(vector_.begin(), vector_.end(), T(element)); // the element may be one of the list
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From cb78c5cee43700855832a7384b4a5eb60f7f60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 23/32] fix: Dict::min and max of an empty dictionary read
 outside it

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From 3a23be4d0726bb86bc83bb00a08d5f8141353022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 24/32] fix: Fraction comparison overflowed, and == compared
 rounded values

---
 sources/fraction.hpp | 14 ++++++++++----
 sources/utility.hpp  |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..92b9e61 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -63,16 +63,22 @@ public:
      * Comparison
      */
 
+    /// Determine whether this fraction is equal to another fraction.
+    bool operator==(const std::same_as<Fraction> auto& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
     /// Compare the fraction with another fraction.
     auto operator<=>(const Fraction& that) const
     {
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_;
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 37da731..6e85400 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>   // std::copy std::find std::rotate ...
 #include <climits>     // INT_MAX
+#include <concepts>    // std::same_as
 #include <cmath>       // std::abs std::pow std::sqrt std::atan2 std::hypot INFINITY NAN
 #include <cstdlib>     // std::strtod
 #include <cstring>     // std::strlen
-- 
2.43.0


From 7aaf8cff9ed0e10cb393553a5c80251fdffa6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 25/32] fix: Fraction arithmetic overflowed int in its
 intermediate products

---
 sources/fraction.hpp | 47 +++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 92b9e61..84a9b76 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -21,6 +21,27 @@ private:
     // Denominator.
     int denominator_;
 
+    // Create the fraction `numerator/denominator` from numbers that may be too big before they are simplified.
+    static Fraction simplify(long long numerator, long long denominator)
+    {
+        // make sure the denominator is not zero
+        internal::check_zero(denominator);
+
+        // simplify, and make sure the denominator is a positive number
+        const long long gcd = std::gcd(numerator, denominator) * (denominator < 0 ? -1 : 1);
+        numerator /= gcd;
+        denominator /= gcd;
+        if (numerator < INT_MIN || numerator > INT_MAX || denominator > INT_MAX)
+        {
+            throw std::runtime_error("Error: The fraction is out of range.");
+        }
+
+        Fraction fraction;
+        fraction.numerator_ = numerator;
+        fraction.denominator_ = denominator;
+        return fraction;
+    }
+
 public:
     /*
      * Constructor
@@ -31,20 +52,10 @@ public:
         : numerator_(numerator)
         , denominator_(denominator)
     {
-        // make sure the denominator is not zero
-        internal::check_zero(denominator_);
-
-        // make sure the denominator is a positive number
-        if (denominator_ < 0)
+        if (denominator_ != 1)
         {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
+            *this = simplify(numerator, denominator);
         }
-
-        // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
     }
 
     /// Copy constructor.
@@ -183,7 +194,7 @@ public:
     /// Return the opposite value of this.
     Fraction operator-() const
     {
-        return Fraction(-numerator_, denominator_);
+        return simplify(-(long long)numerator_, denominator_);
     }
 
     /// Return the absolute value of this.
@@ -195,25 +206,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.denominator_ + (long long)denominator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.denominator_ - (long long)denominator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return simplify((long long)numerator_ * rhs.numerator_, (long long)denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return simplify((long long)numerator_ * rhs.denominator_, (long long)denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -221,7 +232,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return simplify(((long long)numerator_ * rhs.denominator_) % ((long long)rhs.numerator_ * denominator_), (long long)denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From ef760cc904f26b08f45f8bd6772884a7576aac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 26/32] fix: reading a Fraction or a Complex from an exhausted
 stream did not terminate

---
 sources/complex.hpp  | 4 ++--
 sources/fraction.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..e7c2a05 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
@@ -252,7 +252,7 @@ public:
         }
 
         double imag;
-        char c;
+        char c = 0;
         is >> imag >> c;
         if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 84a9b76..0e56dc2 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -280,7 +280,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
-- 
2.43.0


From effbedeea7068c594f634cfdf7372f33a71243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 27/32] fix: Complex with an infinite part was not equal to
 itself

---
 sources/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e7c2a05..86381d8 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -53,7 +53,7 @@ public:
     bool operator==(const Complex& that) const
     {
         constexpr double epsilon = std::numeric_limits<double>::epsilon();
-        return std::abs(real_ - that.real_) < epsilon && std::abs(imag_ - that.imag_) < epsilon;
+        return (real_ == that.real_ || std::abs(real_ - that.real_) < epsilon) && (imag_ == that.imag_ || std::abs(imag_ - that.imag_) < epsilon);
     }
 
     /*
-- 
2.43.0


From 6a00b9e0e86e26a8245998361088e01df19c4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 28/32] fix: printing an Int changed the fill character of the
 stream

---
 sources/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 3c3cbaf..dac3f22 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -875,11 +875,13 @@ public:
             os << '-';
         }
 
+        const char fill = os.fill();
         os << *integer.chunks_.rbegin();
         if (integer.chunks_.size() > 1)
         {
             std::for_each(integer.chunks_.rbegin() + 1, integer.chunks_.rend(), [&](const auto& c)
                           { os << std::setw(Int::DIGITS_PER_CHUNK) << std::setfill('0') << std::to_string(c); });
+            os.fill(fill);
         }
 
         return os;
-- 
2.43.0


From 811ce68ef0febc6cc7d49d0b92be4976ec88bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 29/32] fix: List += itself left moved-from elements in the
 second half

Inserting the range of a vector into the vector itself is undefined; with
elements that are moved when the vector grows, the copies were empty.
---
 sources/list.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/list.hpp b/sources/list.hpp
index ce9a465..b34ec7e 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -192,6 +192,11 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
+        if (this == &list)
+        {
+            return *this += List(list);
+        }
+
         vector_.insert(end(), list.begin(), list.end());
 
         return *this;
-- 
2.43.0


From 3cb732f08bcc3befa87bbf139bde1953b514eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 30/32] fix: reading the last Fraction or real Complex of a
 stream reported failure

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 86381d8..7ab8b2a 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -235,7 +235,7 @@ public:
 
         double real;
         is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space, ok
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 0e56dc2..bcafddd 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -291,7 +291,7 @@ public:
 
         int num;
         is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space, ok
         {
             fraction = num;
             return is;
@@ -305,7 +305,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From a07e32d1299121bccf762c9fce3461eb0af14676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 31/32] fix: Complex accepted malformed literals such as 1.2.3j
 and 1+2 j

---
 sources/complex.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 7ab8b2a..0f056b6 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -251,10 +251,14 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
+        if (is.peek() != '+' && is.peek() != '-') // handle "1.2.3j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
+
         double imag;
-        char c = 0;
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        is >> imag;
+        if (is.get() != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From e221bfffd7017225eb14cf4616ae6185c4155838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:07 +0000
Subject: [PATCH 32/32] fix: Fraction::lcm refused fractions whose product is
 out of range

lcm(50000, 50000) threw although the result is 50000: the product of the
operands was computed as a fraction first.
---
 sources/fraction.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index bcafddd..33a96df 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -249,7 +249,8 @@ public:
             return 0;
         }
 
-        return (a * b).abs() / gcd(a, b); // LCM = |a * b| / GCD
+        // LCM of a/b and c/d in lowest terms = LCM(a, c) / GCD(b, d), |a * b| may be too big for a fraction
+        return simplify(std::lcm<long long, long long>(a.numerator_, b.numerator_), std::gcd(a.denominator_, b.denominator_));
     }
 
     /*
-- 
2.43.0

