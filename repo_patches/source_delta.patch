From 7920793ef2e86236f62fa2fe0588c625dd3c7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 01/61] fix: reject non-ASCII text in timezone and g* parsing
 instead of panicking

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 xsd-types/src/types/utils.rs     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..e7e050a 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if !s.is_ascii() || s.len() != 5 || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..eb714e8 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if !s.is_ascii() || s.len() != 4 || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..2dfe516 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if !s.is_ascii() || s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..043e54b 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,7 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let tokens: Vec<&str> = s.get(1..).ok_or("bad timezone format")?.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From ee5dce08a7a662d4be57098f318ed203ad8f0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 02/61] fix: handle the extreme and zero-padded years of gYear
 and gYearMonth

---
 xsd-types/src/types/gyear.rs      | 7 +++++--
 xsd-types/src/types/gyearmonth.rs | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..44d20f4 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -47,6 +47,9 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         if !s.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad gYear format".to_string());
         }
+        if s.len() > 4 && s.starts_with('0') {
+            return Err("bad gYear format: leading zeros".to_string());
+        }
         s.parse::<i32>().map_err(|e| e.to_string())
     }
 
@@ -88,8 +91,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..1624e37 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -69,6 +69,9 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         if !year_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad year format within gYearMonth".to_string());
         }
+        if year_token.len() > 4 && year_token.starts_with('0') {
+            return Err("bad year format within gYearMonth: leading zeros".to_string());
+        }
         let year = year_token.parse::<i32>().map_err(|e| e.to_string())?;
 
         if !month_token.chars().all(|c| c.is_ascii_digit()) {
@@ -117,8 +120,10 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => {
+                    write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz)
+                }
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From 0d80455a4fe77ac758cb00075974000a30f31371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 03/61] fix: report negative and too large durations in
 to_std_duration

---
 xsd-types/src/types/duration.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..74a9b52 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -23,7 +23,19 @@ impl Duration {
             let secs = self.seconds as u64;
 
             let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
+            let secs = self
+                .days
+                .checked_mul(24)
+                .and_then(|hours| hours.checked_add(self.hours))
+                .and_then(|hours| hours.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes))
+                .and_then(|minutes| minutes.checked_mul(60))
+                .and_then(|seconds| seconds.checked_add(secs))
+                .ok_or("Duration is too large to be converted")?;
+
+            if self.is_negative && (secs > 0 || nanos > 0) {
+                return Err("Negative duration can not be converted".into());
+            }
 
             Ok(std::time::Duration::new(secs, nanos))
         }
-- 
2.43.0


From 6d7f50fa39740d9753ded9d43a447ac27d29496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 04/61] fix: do not overflow on long numbers when parsing a
 duration

---
 xsd-types/src/types/duration.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 74a9b52..37142cc 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -187,15 +187,19 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
+                    let digit = digit.to_digit(10).expect("error converting a digit") as u64;
                     if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
+                        // Digits that do not fit are beyond the precision of the result.
+                        if let Some(denom) = context.denom.checked_mul(10) {
+                            context.numer = context.numer * 10 + digit;
+                            context.denom = denom;
+                        }
                     } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
+                        context.number = context
+                            .number
+                            .checked_mul(10)
+                            .and_then(|number| number.checked_add(digit))
+                            .ok_or("Number is too large")?;
                         context.is_number_empty = false;
                     }
                 }
-- 
2.43.0


From 16bffd0c7b7b973be21323a54f8256d33eb3d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:24 +0000
Subject: [PATCH 05/61] fix: reject a zero number without a designator in a
 duration

---
 xsd-types/src/types/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 37142cc..0ffaa1b 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -135,7 +135,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -206,7 +206,7 @@ impl FromStr for Duration {
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
-- 
2.43.0


From 9e2337a9b9b7040809394b06675d9f3ed5c85b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 06/61] fix: reject digits after the fractional seconds of a
 duration

---
 xsd-types/src/types/duration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 0ffaa1b..ab42348 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -103,6 +103,7 @@ impl FromStr for Duration {
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
+            context.is_dot_found = false;
 
             Ok(())
         }
-- 
2.43.0


From 2d67b1bee1695e5ef1927e20a3cd84ac6ffb9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 07/61] fix: never print a decimal in the scientific notation

---
 xsd-types/src/types/decimal.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..e86833d 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use bigdecimal::{num_bigint::Sign, BigDecimal, ParseBigDecimalError};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -26,7 +26,20 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // `BigDecimal` switches to the scientific notation, which is not allowed in xs:decimal.
+        let (digits, scale) = self.0.as_bigint_and_exponent();
+        let sign = if digits.sign() == Sign::Minus { "-" } else { "" };
+        let digits = digits.magnitude().to_str_radix(10);
+
+        if scale <= 0 {
+            let zeros = if digits == "0" { 0 } else { scale.unsigned_abs() as usize };
+            write!(f, "{}{}{}", sign, digits, "0".repeat(zeros))
+        } else {
+            let scale = scale as usize;
+            let digits = format!("{:0>width$}", digits, width = scale + 1);
+            let (integer, fraction) = digits.split_at(digits.len() - scale);
+            write!(f, "{}{}.{}", sign, integer, fraction)
+        }
     }
 }
 
-- 
2.43.0


From 3161c906c7b40cde346a9376fd23411815230612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 08/61] fix: accept only the xs:decimal lexical space in
 Decimal

---
 xsd-types/src/types/decimal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index e86833d..2f1a4e7 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,12 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // `BigDecimal` also accepts exponents, digit separators and a sign after the dot.
+        let unsigned = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
+        if !unsigned.chars().all(|c| c.is_ascii_digit() || c == '.') {
+            return Err(ParseBigDecimalError::Other("bad decimal format".to_string()));
+        }
+
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From 3e06cda33274229ee26456259bd71247b7ce196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:32 +0000
Subject: [PATCH 09/61] fix: reject digit separators in integer types

---
 xsd-types/src/types/integer.rs              |  4 +++-
 xsd-types/src/types/negative_integer.rs     |  4 +++-
 xsd-types/src/types/non_negative_integer.rs |  4 +++-
 xsd-types/src/types/non_positive_integer.rs |  4 +++-
 xsd-types/src/types/positive_integer.rs     |  4 +++-
 xsd-types/src/types/utils.rs                | 10 ++++++++++
 6 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..fd04e00 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ParseBigIntError, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::no_digit_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#integer
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct Integer(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Integer(BigInt::from_str(s)?))
+        Ok(Integer(BigInt::from_str(no_digit_separators(s))?))
     }
 }
 
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..a7b9e67 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::no_digit_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..fc92423 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::no_digit_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonNegativeInteger(pub BigUint);
@@ -23,7 +25,7 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigUint::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
         if value < 0.to_biguint().unwrap() {
             Err("Bad value for NonNegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..28ad0c4 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::no_digit_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonPositiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonPositiveInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..267a93d 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::no_digit_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
@@ -23,7 +25,7 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigUint::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index 043e54b..6b0b276 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -29,6 +29,16 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
     }
 }
 
+// `BigInt` and `BigUint` accept '_' between digits, which is not allowed in XSD integers.
+// Such literals are replaced with one that is never a number.
+pub(crate) fn no_digit_separators(s: &str) -> &str {
+    if s.contains('_') {
+        "_"
+    } else {
+        s
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 737a63704603fd3494fc738d6bcac5c3101308f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 10/61] fix: accept the negative zero in NonNegativeInteger

---
 xsd-types/src/types/non_negative_integer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index fc92423..c55a2b9 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use num_bigint::{BigUint, ToBigUint};
+use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 use crate::types::utils::no_digit_separators;
@@ -25,11 +25,11 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
-        if value < 0.to_biguint().unwrap() {
-            Err("Bad value for NonNegativeInteger".to_string())
-        } else {
-            Ok(NonNegativeInteger(value))
+        // "-0" is the only literal with a minus sign in the value space.
+        let value = BigInt::from_str(no_digit_separators(s)).map_err(|e| e.to_string())?;
+        match value.to_biguint() {
+            Some(value) => Ok(NonNegativeInteger(value)),
+            None => Err("Bad value for NonNegativeInteger".to_string()),
         }
     }
 }
-- 
2.43.0


From 1df96248d868528424de2911498521ea67af1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 11/61] fix: accept exactly the xs:date lexical space,
 including years beyond four digits

---
 xsd-types/src/types/date.rs | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..cd08333 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use chrono::{format::strftime::StrftimeItems, FixedOffset, NaiveDate};
+use chrono::{format::strftime::StrftimeItems, Datelike, FixedOffset, NaiveDate};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 use crate::types::utils::parse_timezone;
@@ -31,10 +31,6 @@ impl FromStr for Date {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
-            NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
-        }
-
         if let Some(s) = s.strip_suffix('Z') {
             return Ok(Date {
                 value: parse_naive_date(s)?,
@@ -56,8 +52,10 @@ impl FromStr for Date {
             });
         }
 
-        if s.matches('-').count() == 3 {
-            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2].0;
+        // The minus sign of a negative year is not a separator.
+        let year_sign_len = if s.starts_with('-') { 1 } else { 0 };
+        if s[year_sign_len..].matches('-').count() == 3 {
+            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2 + year_sign_len].0;
             let date_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Date {
@@ -70,9 +68,37 @@ impl FromStr for Date {
     }
 }
 
+// Parses "'-'? yyyy '-' mm '-' dd", where the year consists of at least four digits.
+pub(crate) fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
+    let unsigned = s.strip_prefix('-').unwrap_or(s);
+    let tokens: Vec<&str> = unsigned.split('-').collect();
+    if tokens.len() != 3 || tokens[0].len() < 4 || tokens[1].len() != 2 || tokens[2].len() != 2 {
+        return Err("bad date format".to_string());
+    }
+    if !tokens.iter().all(|t| t.chars().all(|c| c.is_ascii_digit())) {
+        return Err("bad date format".to_string());
+    }
+    if tokens[0].len() > 4 && tokens[0].starts_with('0') {
+        return Err("bad date format: leading zeros".to_string());
+    }
+
+    let year = tokens[0].parse::<i32>().map_err(|e| e.to_string())?;
+    let month = tokens[1].parse::<u32>().map_err(|e| e.to_string())?;
+    let day = tokens[2].parse::<u32>().map_err(|e| e.to_string())?;
+
+    let year = if s.starts_with('-') { -year } else { year };
+    NaiveDate::from_ymd_opt(year, month, day).ok_or_else(|| "date is out of range".to_string())
+}
+
 impl fmt::Display for Date {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%Y-%m-%d");
+        // The year of more than four digits must not have the plus sign, unlike in ISO 8601.
+        let fmt = if self.value.year() > 9999 {
+            write!(f, "{}", self.value.year())?;
+            StrftimeItems::new("-%m-%d")
+        } else {
+            StrftimeItems::new("%Y-%m-%d")
+        };
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From 12a2d7f6db93db391ab4f4381ebc5a2fff2582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 12/61] fix: accept exactly the xs:time lexical space and keep
 fractional seconds

---
 xsd-types/src/types/time.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..cddf002 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -31,13 +31,9 @@ impl FromStr for Time {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
-        }
-
         if let Some(s) = s.strip_suffix('Z') {
             return Ok(Time {
-                value: parse_naive_time(s)?,
+                value: parse_naive_time(s)?.0,
                 timezone: Some(FixedOffset::east_opt(0).unwrap()),
             });
         }
@@ -51,7 +47,7 @@ impl FromStr for Time {
             let time_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Time {
-                value: parse_naive_time(time_token)?,
+                value: parse_naive_time(time_token)?.0,
                 timezone: Some(parse_timezone(tz_token)?),
             });
         }
@@ -65,18 +61,41 @@ impl FromStr for Time {
             let time_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Time {
-                value: parse_naive_time(time_token)?,
+                value: parse_naive_time(time_token)?.0,
                 timezone: Some(parse_timezone(tz_token)?),
             });
         }
 
-        Ok(Time { value: parse_naive_time(s)?, timezone: None })
+        Ok(Time { value: parse_naive_time(s)?.0, timezone: None })
+    }
+}
+
+// Parses "hh ':' mm ':' ss ('.' s+)?".
+// The flag is set for the end of the day (24:00:00), which is the same time as 00:00:00.
+pub(crate) fn parse_naive_time(s: &str) -> Result<(NaiveTime, bool), String> {
+    let (hms, fraction) = match s.find('.') {
+        Some(idx) => (&s[..idx], Some(&s[idx + 1..])),
+        None => (s, None),
+    };
+
+    let tokens: Vec<&str> = hms.split(':').collect();
+    if tokens.len() != 3 || tokens.iter().any(|t| t.len() != 2) || fraction == Some("") {
+        return Err("bad time format".to_string());
     }
+    if !tokens.iter().chain(&fraction).all(|t| t.chars().all(|c| c.is_ascii_digit())) {
+        return Err("bad time format".to_string());
+    }
+
+    if hms == "24:00:00" && fraction.unwrap_or("").chars().all(|c| c == '0') {
+        return Ok((NaiveTime::default(), true));
+    }
+
+    NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map(|time| (time, false)).map_err(|e| e.to_string())
 }
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From efa8b1c7e5bf2cbc5f8bd6ec41622eea5deb3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 13/61] fix: accept exactly the xs:dateTime lexical space in
 DateTime and DateTimeStamp

---
 xsd-types/src/types/datetime.rs      | 43 ++++++++++++++++++++--------
 xsd-types/src/types/datetimestamp.rs | 10 ++++---
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/xsd-types/src/types/datetime.rs b/xsd-types/src/types/datetime.rs
index 5bbddbb..e0b38aa 100644
--- a/xsd-types/src/types/datetime.rs
+++ b/xsd-types/src/types/datetime.rs
@@ -1,8 +1,10 @@
 use std::{fmt, str::FromStr};
 
-use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
+use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset, TimeZone};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::{date::parse_naive_date, time::parse_naive_time, utils::parse_timezone};
+
 #[derive(PartialEq, PartialOrd, Debug, Clone, UtilsDefaultSerde)]
 pub struct DateTime {
     pub value: CDateTime<FixedOffset>,
@@ -28,23 +30,40 @@ impl FromStr for DateTime {
     type Err = ParseError;
 
     // Note:
-    // `parse_from_rfc3339` parses an RFC 3339 and ISO 8601 date and time string.
-    // XSD follows ISO 8601, which allows no time zone at the end of literal.
-    // Since RFC 3339 does not allow such behavior, the function tries to add
-    // 'Z' (which equals "+00:00") in case there is no timezone provided.
+    // A literal with no timezone at the end is allowed and is read as if it was in UTC.
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let tz_provided = s.ends_with('Z') || s.contains('+') || s.matches('-').count() == 3;
-        let s_with_timezone = if tz_provided { s.to_string() } else { format!("{}Z", s) };
-        match CDateTime::parse_from_rfc3339(&s_with_timezone) {
-            Ok(cdt) => Ok(DateTime { value: cdt }),
-            Err(err) => Err(err),
-        }
+        let (cdt, _) = parse_datetime(s)?;
+        Ok(DateTime { value: cdt })
     }
 }
 
+// Returns the value and whether the timezone was provided.
+pub(crate) fn parse_datetime(s: &str) -> Result<(CDateTime<FixedOffset>, bool), ParseError> {
+    fn parse(s: &str) -> Option<(CDateTime<FixedOffset>, bool)> {
+        let idx = s.find('T')?;
+        let (date_token, time_token) = (&s[..idx], &s[idx + 1..]);
+        let (time_token, tz_token) = match time_token.find(|c| c == 'Z' || c == '+' || c == '-') {
+            Some(idx) => (&time_token[..idx], Some(&time_token[idx..])),
+            None => (time_token, None),
+        };
+
+        let (time, is_end_of_day) = parse_naive_time(time_token).ok()?;
+        let date = parse_naive_date(date_token).ok()?;
+        let date = if is_end_of_day { date.succ_opt()? } else { date };
+        let timezone = parse_timezone(tz_token.unwrap_or("Z")).ok()?;
+
+        let value = timezone.from_local_datetime(&date.and_time(time)).single()?;
+        Some((value, tz_token.is_some()))
+    }
+
+    // `ParseError` can not be created directly.
+    parse(s).ok_or_else(|| CDateTime::parse_from_rfc3339("bad dateTime format").unwrap_err())
+}
+
 impl fmt::Display for DateTime {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.value.to_rfc3339())
+        // The year of more than four digits must not have the plus sign, unlike in ISO 8601.
+        write!(f, "{}", self.value.to_rfc3339().trim_start_matches('+'))
     }
 }
 
diff --git a/xsd-types/src/types/datetimestamp.rs b/xsd-types/src/types/datetimestamp.rs
index a4bc81f..e43d9a5 100644
--- a/xsd-types/src/types/datetimestamp.rs
+++ b/xsd-types/src/types/datetimestamp.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::datetime::DateTime;
+use crate::types::datetime::{parse_datetime, DateTime};
 
 // The only difference from DateTime is that the time zone expression is required at the end of the value.
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -25,9 +25,11 @@ impl FromStr for DateTimeStamp {
     type Err = ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match CDateTime::parse_from_rfc3339(s) {
-            Ok(cdt) => Ok(DateTimeStamp::from_chrono_datetime(cdt)),
-            Err(err) => Err(err),
+        match parse_datetime(s)? {
+            (cdt, true) => Ok(DateTimeStamp::from_chrono_datetime(cdt)),
+            // The error for a missing timezone.
+            (_, false) => CDateTime::parse_from_rfc3339("0001-01-01T00:00:00")
+                .map(DateTimeStamp::from_chrono_datetime),
         }
     }
 }
-- 
2.43.0


From cb5e29b58796d2264f26456130e6ceeb02fc097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 14/61] fix: reject a list with an invalid item instead of
 dropping the item

---
 xsd-macro-utils/src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..ff0a803 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -28,8 +28,8 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
                 s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
+                    .collect::<::std::result::Result<_, _>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From de34456ae0b7e1bfba43c3e73b8db7f8bc66756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 15/61] fix: keep the alias of a documented element commented
 out

---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..8ef89f9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From ae96631fb5a07aa33f3a4f8533cc7817c0428e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 16/61] fix: make an element with minOccurs=0 and maxOccurs=1
 optional

---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From 45ffb9a65573ccbeb62afa4d326063d883fb7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 17/61] fix: treat only the type itself as recursive, not any
 type with the same suffix

---
 xsd-parser/src/parser/all.rs      | 2 +-
 xsd-parser/src/parser/sequence.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..4f4375f 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..bdbec4b 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
-- 
2.43.0


From 24d1d226fcca7537afb8d601001c16835136b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 18/61] fix: do not change the parsed schema while generating
 code from it

---
 xsd-parser/src/generator/struct.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..e34fb95 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -21,15 +21,14 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
+        let mut fields = entity.fields.borrow().clone();
+        fields.iter_mut().for_each(|f| {
             if !f.subtypes.is_empty() {
                 f.type_name = format!("{}::{}", mod_name, f.type_name)
             }
         });
 
-        let fields = entity
-            .fields
-            .borrow()
+        let fields = fields
             .iter()
             .map(|f| gen.struct_field_gen().generate(f, gen))
             .filter(|s| !s.is_empty())
-- 
2.43.0


From 48ae70c080068e0043ccf002cf84eca244c9e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 19/61] fix: return an error from parse when the document is
 not well-formed XML

---
 xsd-parser/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..d45660e 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -33,7 +33,7 @@ use crate::parser::{
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
 pub fn parse(text: &str) -> Result<RsFile, ()> {
-    let doc = roxmltree::Document::parse(text).expect("Parse document error");
+    let doc = roxmltree::Document::parse(text).map_err(|_| ())?;
     let root = doc.root();
 
     let mut map = HashMap::new();
-- 
2.43.0


From 0a2078c35488165a78f65915b61ed72b8d7973c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 20/61] fix: inherit from all bases regardless of the order of
 declaration

---
 xsd-parser/src/parser/types.rs | 53 ++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..f6bedce 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,31 +36,48 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
+        self.extend_own_base(types);
 
-        let mut fields = self
+        self.fields.borrow().iter().for_each(|f| f.extend_base(types));
+
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(s) = subtype {
+                s.extend_base(types);
+            }
+        }
+    }
+
+    fn extend_own_base(&self, types: &HashMap<&String, &Self>) {
+        let base_types = self
             .fields
             .borrow()
             .iter()
             .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
-                //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
+            .map(|f| f.type_name.split(':').last().unwrap().to_string())
+            .collect::<Vec<String>>();
 
-        self.fields.borrow_mut().append(&mut fields);
+        if base_types.is_empty() {
+            return;
+        }
 
         self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
 
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
-            }
+        for base in base_types.iter().filter_map(|key| types.get(key)) {
+            // The base may be derived from a type too and be declared after this one.
+            base.extend_own_base(types);
+
+            let mut fields = base
+                .fields
+                .borrow()
+                .iter()
+                .filter(|f| {
+                    //TODO: remove this workaround for fields names clash
+                    !self.fields.borrow().iter().any(|field| field.name == f.name)
+                })
+                .cloned()
+                .collect::<Vec<StructField>>();
+
+            self.fields.borrow_mut().append(&mut fields);
         }
     }
 
@@ -90,8 +107,8 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
+    pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
             if let RsEntity::Struct(st) = subtype {
                 st.extend_base(types);
             }
-- 
2.43.0


From 1ad28f52415b503fe4cc000e7a47a4a730ea656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 21/61] fix: add the attributes of referenced attribute groups
 whatever the content of the type is

---
 xsd-parser/src/parser/attribute_group.rs |  3 +-
 xsd-parser/src/parser/complex_type.rs    |  1 +
 xsd-parser/src/parser/extension.rs       | 11 ++----
 xsd-parser/src/parser/mod.rs             | 11 ++++--
 xsd-parser/src/parser/restriction.rs     | 20 ++++-------
 xsd-parser/src/parser/types.rs           | 43 ++++++++++++++++++------
 6 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..0b78aaa 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,10 +10,8 @@ use crate::parser::{
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
     ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
     ElementType::Choice,
     ElementType::Group, // Not presented in ONVIF
     ElementType::Sequence,
@@ -64,17 +62,14 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index d45660e..d6d548d 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -47,15 +47,22 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
             map.extend(st.get_types_map());
         }
     }
+    // Attribute groups and types have separate symbol spaces.
+    let mut attribute_groups_map = HashMap::new();
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            attribute_groups_map.extend(st.get_types_map());
+        }
+    }
+    // Attribute groups are a part of the base, so they go first.
+    for ty in &schema_rs.types {
+        if let RsEntity::Struct(st) = ty {
+            st.extend_attribute_group(&attribute_groups_map);
         }
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
             st.extend_base(&map);
-            st.extend_attribute_group(&map);
         }
     }
 
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..9ca8e61 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -16,14 +16,11 @@ use crate::parser::{
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,      // Not presented in ONVIF
+    ElementType::Choice,   // Not presented in ONVIF
+    ElementType::Group,    // Not presented in ONVIF
+    ElementType::Sequence, // Not presented in ONVIF
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -76,11 +73,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
@@ -88,6 +81,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index f6bedce..ba2f60b 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -82,17 +82,32 @@ impl Struct {
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
-        let mut fields = self
-            .attribute_groups
-            .borrow()
-            .iter()
-            .flat_map(|f| {
-                let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .collect::<Vec<StructField>>();
+        // The references are taken out, so that they are resolved only once.
+        for group in self.attribute_groups.take() {
+            let key = group.original.split(':').last().unwrap().to_string();
+            if let Some(group) = types.get(&key) {
+                // The group may refer to other groups.
+                group.extend_attribute_group(types);
+
+                let mut fields = group
+                    .fields
+                    .borrow()
+                    .iter()
+                    .filter(|f| !self.fields.borrow().iter().any(|field| field.name == f.name))
+                    .cloned()
+                    .collect::<Vec<StructField>>();
 
-        self.fields.borrow_mut().append(&mut fields);
+                self.fields.borrow_mut().append(&mut fields);
+            }
+        }
+
+        self.fields.borrow().iter().for_each(|f| f.extend_attribute_group(types));
+
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(s) = subtype {
+                s.extend_attribute_group(types);
+            }
+        }
     }
 }
 
@@ -114,6 +129,14 @@ impl StructField {
             }
         }
     }
+
+    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
+        for subtype in &self.subtypes {
+            if let RsEntity::Struct(st) = subtype {
+                st.extend_attribute_group(types);
+            }
+        }
+    }
 }
 
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From c99ec7e80fc162407b43c9989372a607aea559cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 22/61] fix: resolve the base and attribute groups of types
 with a choice

---
 xsd-parser/src/parser/mod.rs   | 20 ++++++++------------
 xsd-parser/src/parser/types.rs | 21 +++++++++++++--------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index d6d548d..54d5075 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -42,10 +42,10 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
-        }
+    let structs = || schema_rs.types.iter().flat_map(|ty| ty.structs());
+
+    for st in structs() {
+        map.extend(st.get_types_map());
     }
     // Attribute groups and types have separate symbol spaces.
     let mut attribute_groups_map = HashMap::new();
@@ -55,15 +55,11 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
         }
     }
     // Attribute groups are a part of the base, so they go first.
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_attribute_group(&attribute_groups_map);
-        }
+    for st in structs() {
+        st.extend_attribute_group(&attribute_groups_map);
     }
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
-        }
+    for st in structs() {
+        st.extend_base(&map);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index ba2f60b..c97f7d5 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -123,18 +123,14 @@ pub struct StructField {
 
 impl StructField {
     pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_base(types);
-            }
+        for st in self.subtypes.iter().flat_map(|ty| ty.structs()) {
+            st.extend_base(types);
         }
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_attribute_group(types);
-            }
+        for st in self.subtypes.iter().flat_map(|ty| ty.structs()) {
+            st.extend_attribute_group(types);
         }
     }
 }
@@ -245,6 +241,15 @@ impl RsEntity {
         }
     }
 
+    // The struct of a complex type. It is a subtype of the enum if the content is a choice.
+    pub fn structs(&self) -> Vec<&Struct> {
+        match self {
+            RsEntity::Struct(s) => vec![s],
+            RsEntity::Enum(e) => e.subtypes.iter().flat_map(|ty| ty.structs()).collect(),
+            _ => vec![],
+        }
+    }
+
     pub fn set_name(&mut self, name: &str) {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 4c05133c4cf9c8eca8d185eaaf76de3e93ff739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 23/61] fix: resolve the base and attribute groups of schemas
 embedded in WSDL

---
 xsd-parser/src/parser/mod.rs    | 32 ++------------------------------
 xsd-parser/src/parser/schema.rs | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 54d5075..de031b1 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -23,12 +23,7 @@ mod union;
 mod utils;
 pub mod xsd_elements;
 
-use std::collections::HashMap;
-
-use crate::parser::{
-    schema::parse_schema,
-    types::{RsEntity, RsFile},
-};
+use crate::parser::{schema::parse_schema, types::RsFile};
 
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
@@ -36,31 +31,8 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).map_err(|_| ())?;
     let root = doc.root();
 
-    let mut map = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
-    let structs = || schema_rs.types.iter().flat_map(|ty| ty.structs());
-
-    for st in structs() {
-        map.extend(st.get_types_map());
-    }
-    // Attribute groups and types have separate symbol spaces.
-    let mut attribute_groups_map = HashMap::new();
-    for ag in &schema_rs.attribute_groups {
-        if let RsEntity::Struct(st) = ag {
-            attribute_groups_map.extend(st.get_types_map());
-        }
-    }
-    // Attribute groups are a part of the base, so they go first.
-    for st in structs() {
-        st.extend_attribute_group(&attribute_groups_map);
-    }
-    for st in structs() {
-        st.extend_base(&map);
-    }
-
-    Ok(schema_rs)
+    Ok(parse_schema(&schema))
 }
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 36be5ef..36f4d68 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -1,8 +1,10 @@
+use std::collections::HashMap;
+
 use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::RsFile,
+    types::{RsEntity, RsFile},
     utils::target_namespace,
     xsd_elements::{ElementType, XsdNode},
 };
@@ -12,7 +14,7 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
         .namespaces()
         .filter(|namespace| namespace.uri() == "http://www.w3.org/2001/XMLSchema");
 
-    RsFile {
+    let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
@@ -35,6 +37,33 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
             .map(|node| parse_node(&node, schema))
             .collect(),
+    };
+
+    resolve_references(&schema_rs);
+
+    schema_rs
+}
+
+fn resolve_references(schema_rs: &RsFile) {
+    let structs = || schema_rs.types.iter().flat_map(|ty| ty.structs());
+
+    let mut map = HashMap::new();
+    for st in structs() {
+        map.extend(st.get_types_map());
+    }
+    // Attribute groups and types have separate symbol spaces.
+    let mut attribute_groups_map = HashMap::new();
+    for ag in &schema_rs.attribute_groups {
+        if let RsEntity::Struct(st) = ag {
+            attribute_groups_map.extend(st.get_types_map());
+        }
+    }
+    // Attribute groups are a part of the base, so they go first.
+    for st in structs() {
+        st.extend_attribute_group(&attribute_groups_map);
+    }
+    for st in structs() {
+        st.extend_base(&map);
     }
 }
 
-- 
2.43.0


From 7b4f0112d94dc598bcc3686346be70c4c0bcc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 24/61] fix: generate the functions of port types in the order
 of the declaration

---
 wsdl-parser/src/generator/mod.rs    | 6 +++++-
 wsdl-parser/src/parser/port_type.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..76435e3 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,11 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    // The order of the declaration
+    let mut port_types = definitions.port_types().values().collect::<Vec<_>>();
+    port_types.sort_by_key(|port_type| port_type.node().id().get());
+
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index dd17c0f..a2a8ff3 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -36,6 +36,10 @@ impl<'a> PortType<'a> {
         }
     }
 
+    pub fn node(&self) -> &Node<'a, 'a> {
+        &self.node
+    }
+
     pub fn name(&self) -> &'a str {
         self.node.attribute(attribute::NAME).expect("Name required for wsdl:portType")
     }
-- 
2.43.0


From 87304e1f21e47ccc23e4462c1afeced3522780a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 25/61] fix: generate valid functions for operations without a
 response and for parts with a type

---
 wsdl-parser/src/generator/function.rs | 18 ++++++++----------
 wsdl-parser/src/generator/mod.rs      |  2 +-
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..f83c6ee 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -14,7 +14,7 @@ const ARGUMENT_TRANSPORT: Param<'static> = Param { name: "transport", typename:
 pub struct Function<'a> {
     pub generic_params: Vec<Param<'a>>,
     pub arguments: Vec<Param<'a>>,
-    pub return_type: &'a str,
+    pub return_type: Option<&'a str>,
     pub documentation: Option<&'a str>,
     pub name: &'a str,
 }
@@ -27,16 +27,14 @@ pub struct Param<'a> {
 
 impl<'a> Param<'a> {
     pub fn new(part: &'a Part<'_>) -> Self {
-        Param {
-            name: part.name(),
-            typename: part
-                .element()
-                .or_else(|| part.type_())
-                .expect("Element or type must be presented in wsdl:part"),
-        }
+        Param { name: part.name(), typename: part_type(part) }
     }
 }
 
+fn part_type<'a>(part: &'a Part<'_>) -> &'a str {
+    part.element().or_else(|| part.type_()).expect("Element or type must be presented in wsdl:part")
+}
+
 impl<'a> Function<'a> {
     pub fn new(operation: &'a Operation<'_>, definitions: &'a Definitions<'_>) -> Self {
         let input_message;
@@ -55,7 +53,7 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message.and_then(|m| m.parts().first()).map(part_type),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,7 +69,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", typename: part_type(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 76435e3..32c861c 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -49,7 +49,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type = func.return_type.map_or("()".into(), ftype),
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 6cdbaa17665a61cbe579bfd6d0ac5c6b05a613e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 26/61] fix: flatten a choice which is a part of a sequence

---
 xsd-parser/src/parser/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..25ee1fd 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -5,7 +5,7 @@ use roxmltree::{Namespace, Node};
 use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
-    types::{Alias, Enum, RsEntity, StructField, StructFieldSource},
+    types::{Alias, Enum, EnumSource, RsEntity, StructField, StructFieldSource},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -72,8 +72,12 @@ pub fn enum_to_field(en: Enum) -> StructField {
     StructField {
         name: en.name.clone(),
         type_name: en.name.clone(),
+        // The elements of a choice belong to the parent element.
+        source: match en.source {
+            EnumSource::Choice => StructFieldSource::Choice,
+            _ => StructFieldSource::Element,
+        },
         subtypes: vec![RsEntity::Enum(en)],
-        source: StructFieldSource::Element,
         ..Default::default()
     }
 }
-- 
2.43.0


From a4eeeef6fe8b926ff1dfcea1d720fe215a71f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 27/61] fix: serialize the elements of a choice in the target
 namespace

---
 xsd-parser/src/generator/enum_case.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..e1cf31b 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -1,5 +1,9 @@
 use crate::{
-    generator::{default::default_format_type, utils::split_name, Generator},
+    generator::{
+        default::{default_format_type, yaserde_for_element},
+        utils::split_name,
+        Generator,
+    },
     parser::types::{EnumCase, EnumSource},
 };
 
@@ -42,6 +46,15 @@ pub trait EnumCaseGenerator {
             return "".into();
         }
 
+        if entity.source == EnumSource::Choice {
+            // It is an element, so it has the same namespace as other elements.
+            return yaserde_for_element(
+                entity.name.as_str(),
+                gen.target_ns.borrow().as_ref(),
+                gen.base().indent().as_str(),
+            );
+        }
+
         let (prefix, field_name) = split_name(entity.name.as_str());
         match prefix {
             Some(p) => format!(
-- 
2.43.0


From d70c9e2094e1499a119c76c2f69cf4427dbc9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 28/61] fix: keep the choice of a complex type derived from
 another one

---
 xsd-parser/src/parser/extension.rs   | 22 ++++++++++++++++------
 xsd-parser/src/parser/restriction.rs | 21 ++++++++++++++-------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 0b78aaa..8616e21 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,7 +6,10 @@ use crate::parser::{
     constants::{attribute, tag},
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -67,11 +70,18 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
-        if let RsEntity::Struct(s) = &mut res {
-            s.fields.borrow_mut().append(&mut fields);
-            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
-            s.comment = get_documentation(node);
-            return res;
+        match res {
+            RsEntity::Struct(ref mut s) => {
+                s.fields.borrow_mut().append(&mut fields);
+                s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
+                s.comment = get_documentation(node);
+                return res;
+            }
+            RsEntity::Enum(mut en) => {
+                en.name = format!("{}Choice", get_parent_name(node));
+                fields.insert(0, enum_to_field(en));
+            }
+            _ => (),
         }
     }
 
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 9ca8e61..d2c304e 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -10,8 +10,8 @@ use crate::parser::{
         TupleStruct,
     },
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-        get_parent_name,
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
@@ -78,11 +78,18 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
-        if let RsEntity::Struct(s) = &mut res {
-            s.comment = get_documentation(node);
-            s.fields.borrow_mut().append(&mut fields);
-            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
-            return res;
+        match res {
+            RsEntity::Struct(ref mut s) => {
+                s.comment = get_documentation(node);
+                s.fields.borrow_mut().append(&mut fields);
+                s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
+                return res;
+            }
+            RsEntity::Enum(mut en) => {
+                en.name = format!("{}Choice", get_parent_name(node));
+                fields.insert(0, enum_to_field(en));
+            }
+            _ => (),
         }
     }
 
-- 
2.43.0


From bf7984337c199bbc000f945bd8cc900ba75048de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 29/61] fix: name anonymous types with a choice consistently

---
 xsd-parser/src/parser/element.rs | 5 +++--
 xsd-parser/src/parser/types.rs   | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 6118d7d..0281d23 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -98,11 +98,12 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
 
     let mut field_type = parse_node(&content_node, node);
 
-    field_type.set_name(format!("{}Type", name).as_str());
+    let type_name = format!("{}Type", name);
+    field_type.set_name(type_name.as_str());
 
     RsEntity::StructField(StructField {
         name,
-        type_name: field_type.name().to_string(),
+        type_name,
         comment: get_documentation(node),
         subtypes: vec![field_type],
         source: StructFieldSource::Element,
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index c97f7d5..e055c8e 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -255,7 +255,14 @@ impl RsEntity {
         match self {
             Struct(s) => s.name = name.to_string(),
             TupleStruct(tp) => tp.name = name.to_string(),
-            Enum(e) => e.name = name.to_string(),
+            Enum(e) => {
+                // The name of a complex type with a choice is the name of the struct.
+                let mut structs = e.subtypes.iter_mut().filter(|ty| matches!(ty, Struct(_)));
+                match structs.next() {
+                    Some(st) if e.source == EnumSource::Choice => st.set_name(name),
+                    _ => e.name = name.to_string(),
+                }
+            }
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
             StructField(sf) => sf.name = name.to_string(),
-- 
2.43.0


From 3e4380341e5bd415985f167577976ca1e78fe55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 30/61] fix: do not use the keyword try as a name

---
 xsd-parser/src/generator/utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 672868abad906dc5a9b9575a2b1842bbbe60c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 31/61] fix: never generate an empty name

---
 xsd-parser/src/generator/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index 308444c..acf6995 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -97,7 +97,8 @@ pub fn match_built_in_type(type_name: &str, xsd_ns: &Option<Namespace>) -> Optio
 
 pub fn sanitize(s: String) -> String {
     if s.is_empty() {
-        s
+        // The name has no symbols which are valid in an identifier.
+        "__".into()
     } else if s.chars().next().unwrap().is_numeric() || RS_KEYWORDS.contains(&s.as_str()) {
         format!("_{}", s)
     } else {
-- 
2.43.0


From bac46c1ce3c43df1ed2e3ebe097f470f6ffd0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 32/61] fix: detect a recursive type by the component it is a
 part of

---
 xsd-parser/src/parser/all.rs      |  4 ++--
 xsd-parser/src/parser/sequence.rs |  4 ++--
 xsd-parser/src/parser/utils.rs    | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 4f4375f..ea7c264 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_recursive},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.split(':').last() == Some(parent_name) {
+                if is_recursive(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index bdbec4b..a038498 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_recursive},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.split(':').last() == Some(parent_name) {
+                if is_recursive(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 25ee1fd..29c7e3e 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -42,6 +42,18 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     }
 }
 
+// Whether the type is the one the node is a part of, so that it contains itself.
+pub fn is_recursive(node: &Node, type_name: &str) -> bool {
+    let name = node
+        .ancestors()
+        .find(|n| {
+            n.parent_element().map_or(false, |parent| parent.xsd_type() == ElementType::Schema)
+        })
+        .and_then(|component| component.attribute(attribute::NAME))
+        .unwrap_or_else(|| get_parent_name(node));
+    type_name.split(':').last() == Some(name)
+}
+
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
-- 
2.43.0


From 2aa2bcffcc6ef4c88500bbe4536625f4ae665520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 33/61] fix: do not take a type of another namespace or an
 anonymous one for the type itself

---
 xsd-parser/src/parser/all.rs      |  2 +-
 xsd-parser/src/parser/sequence.rs |  2 +-
 xsd-parser/src/parser/utils.rs    | 11 ++++++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index ea7c264..75dc16b 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if is_recursive(&n, &sf.type_name) {
+                if sf.subtypes.is_empty() && is_recursive(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index a038498..e2ccdd5 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if is_recursive(&n, &sf.type_name) {
+                if sf.subtypes.is_empty() && is_recursive(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 29c7e3e..bc2aeb8 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -51,7 +51,16 @@ pub fn is_recursive(node: &Node, type_name: &str) -> bool {
         })
         .and_then(|component| component.attribute(attribute::NAME))
         .unwrap_or_else(|| get_parent_name(node));
-    type_name.split(':').last() == Some(name)
+    let (prefix, local_name) = match type_name.find(':') {
+        Some(index) => (Some(&type_name[0..index]), &type_name[index + 1..]),
+        None => (None, type_name),
+    };
+    let tns = node
+        .ancestors()
+        .find(|n| n.xsd_type() == ElementType::Schema)
+        .and_then(|schema| schema.attribute(attribute::TARGET_NAMESPACE));
+    let uri = node.lookup_namespace_uri(prefix);
+    local_name == name && (uri.is_none() || uri == tns)
 }
 
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
-- 
2.43.0


From ddd4d42998472353d3dff80ab0b8fd1a3042f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 34/61] fix: do not take the module of an anonymous type for
 the target namespace

---
 xsd-parser/src/generator/default.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..32e3e36 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -31,7 +31,8 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-            if ns == tns {
+            // `a::B` is a path and `a` isn't a namespace prefix
+            if ns == tns && !name.starts_with(':') {
                 pascalized_name
             } else {
                 qname(ns)
-- 
2.43.0


From 72b75c6d703faa381e6d32c30645e68c451da067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 35/61] fix: do not take a declaration for the built-in type of
 the same name

---
 xsd-parser/src/generator/alias.rs        |  2 +-
 xsd-parser/src/generator/enum.rs         |  2 +-
 xsd-parser/src/generator/mod.rs          | 17 ++++++++++++++++-
 xsd-parser/src/generator/struct.rs       |  2 +-
 xsd-parser/src/generator/tuple_struct.rs |  2 +-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 8ef89f9..079177f 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -15,7 +15,7 @@ pub trait AliasGenerator {
     }
 
     fn format_name(&self, name: &str, gen: &Generator) -> String {
-        gen.base().format_type_name(name, gen).into()
+        gen.base().format_type_name(&gen.declared_name(name), gen).into()
     }
 
     fn format_original_type(&self, name: &str, gen: &Generator) -> String {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..15d2300 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -57,7 +57,7 @@ pub trait EnumGenerator {
     }
 
     fn get_name(&self, entity: &Enum, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_type_name(&gen.declared_name(&entity.name), gen).into()
     }
 
     fn macros(&self, entity: &Enum, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/mod.rs b/xsd-parser/src/generator/mod.rs
index c9863c1..be446df 100644
--- a/xsd-parser/src/generator/mod.rs
+++ b/xsd-parser/src/generator/mod.rs
@@ -11,7 +11,10 @@ pub mod tuple_struct;
 mod utils;
 pub mod validator;
 
-use std::{borrow::Borrow, cell::RefCell};
+use std::{
+    borrow::{Borrow, Cow},
+    cell::RefCell,
+};
 
 use roxmltree::Namespace;
 
@@ -20,6 +23,7 @@ use crate::{
         alias::AliasGenerator, base::BaseGenerator, enum_case::EnumCaseGenerator,
         import::ImportGenerator, r#enum::EnumGenerator, r#struct::StructGenerator,
         struct_field::StructFieldGenerator, tuple_struct::TupleStructGenerator,
+        utils::match_built_in_type,
     },
     parser::types::{RsEntity, RsFile},
 };
@@ -59,6 +63,17 @@ impl<'input> Generator<'input> {
         }
     }
 
+    // If xsd is the default namespace, the name of a declaration has no prefix as well as the
+    // names of the built-in types, but it belongs to the target namespace.
+    pub fn declared_name<'a>(&self, name: &'a str) -> Cow<'a, str> {
+        match self.target_ns.borrow().as_ref().and_then(|ns| ns.name()) {
+            Some(prefix) if match_built_in_type(name, &self.xsd_ns.borrow()).is_some() => {
+                format!("{}:{}", prefix, name).into()
+            }
+            _ => name.into(),
+        }
+    }
+
     pub fn base(&self) -> &dyn BaseGenerator {
         self.base.as_ref().unwrap().borrow()
     }
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index e34fb95..0675965 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -74,7 +74,7 @@ pub trait StructGenerator {
     }
 
     fn get_type_name(&self, entity: &Struct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_type_name(&gen.declared_name(&entity.name), gen).into()
     }
 
     fn macros(&self, _entity: &Struct, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/tuple_struct.rs b/xsd-parser/src/generator/tuple_struct.rs
index c340eca..beb2620 100644
--- a/xsd-parser/src/generator/tuple_struct.rs
+++ b/xsd-parser/src/generator/tuple_struct.rs
@@ -35,7 +35,7 @@ pub trait TupleStructGenerator {
     }
 
     fn get_name(&self, entity: &TupleStruct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_type_name(&gen.declared_name(&entity.name), gen).into()
     }
 
     fn macros(&self, _entity: &TupleStruct, _gen: &Generator) -> Cow<'static, str> {
-- 
2.43.0


From e435a490a1bf678d3d248b15429ab5f5a5ed10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 36/61] fix: keep the documentation of a derived complex type

---
 xsd-parser/src/parser/complex_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..d31c620 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -56,6 +56,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
             st.fields.borrow_mut().append(&mut fields);
             st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
+            st.comment = get_documentation(node).or_else(|| st.comment.take());
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
-- 
2.43.0


From 9148771b6a988524c766df4193dc0a0cbfc26bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 37/61] fix: generate valid paths for names which start with a
 digit and for unusual prefixes

---
 xsd-parser/src/generator/default.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 32e3e36..5244c55 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -25,24 +25,26 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix: &str| {
+        // The prefix may have symbols which are not valid in the name of a module.
+        let module = prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
+        format!("{}::{}", sanitize(module), pascalized_name)
+    };
 
-    let res = match (prefix, option_tns) {
+    match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
             // `a::B` is a path and `a` isn't a namespace prefix
             if ns == tns && !name.starts_with(':') {
-                pascalized_name
+                pascalized_name.into()
             } else {
-                qname(ns)
+                qname(ns).into()
             }
         }
-        (Some(ns), None) => qname(ns),
-        _ => pascalized_name,
-    };
-
-    sanitize(res).into()
+        (Some(ns), None) => qname(ns).into(),
+        _ => pascalized_name.into(),
+    }
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From c301ce815fa3c8cf11130c7ed3c57ff60bc0b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 38/61] fix: keep inherited fields named any besides a wildcard

---
 xsd-parser/src/parser/any.rs           | 2 +-
 xsd-parser/src/parser/any_attribute.rs | 2 +-
 xsd-parser/src/parser/types.rs         | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/any.rs b/xsd-parser/src/parser/any.rs
index b73cbcb..aeace44 100644
--- a/xsd-parser/src/parser/any.rs
+++ b/xsd-parser/src/parser/any.rs
@@ -10,7 +10,7 @@ pub fn parse_any(node: &Node) -> RsEntity {
         name: "any".to_string(),
         type_name: "String".to_string(),
         comment: get_documentation(node),
-        source: StructFieldSource::Element,
+        source: StructFieldSource::NA,
         type_modifiers: vec![TypeModifier::Empty],
         ..Default::default()
     })
diff --git a/xsd-parser/src/parser/any_attribute.rs b/xsd-parser/src/parser/any_attribute.rs
index b3a89f5..ddc9eb7 100644
--- a/xsd-parser/src/parser/any_attribute.rs
+++ b/xsd-parser/src/parser/any_attribute.rs
@@ -10,7 +10,7 @@ pub fn parse_any_attribute(node: &Node) -> RsEntity {
         name: "any_attribute".to_string(),
         type_name: "String".to_string(),
         comment: get_documentation(node),
-        source: StructFieldSource::Attribute,
+        source: StructFieldSource::NA,
         type_modifiers: vec![TypeModifier::Empty],
         ..Default::default()
     })
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index e055c8e..a1d12da 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -72,7 +72,7 @@ impl Struct {
                 .iter()
                 .filter(|f| {
                     //TODO: remove this workaround for fields names clash
-                    !self.fields.borrow().iter().any(|field| field.name == f.name)
+                    !self.fields.borrow().iter().any(|field| field.declares(&f.name))
                 })
                 .cloned()
                 .collect::<Vec<StructField>>();
@@ -93,7 +93,7 @@ impl Struct {
                     .fields
                     .borrow()
                     .iter()
-                    .filter(|f| !self.fields.borrow().iter().any(|field| field.name == f.name))
+                    .filter(|f| !self.fields.borrow().iter().any(|field| field.declares(&f.name)))
                     .cloned()
                     .collect::<Vec<StructField>>();
 
@@ -122,6 +122,11 @@ pub struct StructField {
 }
 
 impl StructField {
+    // A wildcard has no source and declares no name.
+    fn declares(&self, name: &str) -> bool {
+        !matches!(self.source, StructFieldSource::NA) && self.name == name
+    }
+
     pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
         for st in self.subtypes.iter().flat_map(|ty| ty.structs()) {
             st.extend_base(types);
-- 
2.43.0


From 2f04a65c00db0532e746240e331f8af6ad33c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 39/61] fix: separate the items of a list only at the white
 space of XML

---
 xsd-macro-utils/src/tuple.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index ff0a803..0c0d392 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -27,7 +27,9 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                s.split_whitespace()
+                // Only the white space of XML separates items.
+                s.split(|c| ::std::matches!(c, ' ' | '\t' | '\n' | '\r'))
+                    .filter(|s| !s.is_empty())
                     .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
                     .collect::<::std::result::Result<_, _>>()?
             },
-- 
2.43.0


From 0a12ac9a108ff60bf42b0dfcbcb064a7f5596d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:07 +0000
Subject: [PATCH 40/61] fix: read the documents of a target namespace which is
 the default one

---
 xsd-parser/src/generator/default.rs | 3 ++-
 xsd-parser/src/generator/enum.rs    | 2 +-
 xsd-parser/src/generator/struct.rs  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 5244c55..abbf61c 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -88,7 +88,8 @@ pub fn yaserde_for_element(
     let (prefix, field_name) = if let Some(index) = name.find(':') {
         (Some(&name[0..index]), &name[index + 1..])
     } else {
-        (target_namespace.and_then(|ns| ns.name()), name)
+        // The empty prefix stands for a target namespace which is the default one.
+        (target_namespace.map(|ns| ns.name().unwrap_or("")), name)
     };
 
     match prefix {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 15d2300..08d729b 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -76,7 +76,7 @@ pub trait EnumGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index 0675965..eb55886 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -89,7 +89,7 @@ pub trait StructGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
-- 
2.43.0


From 0bb07a4831a4da18c0e65d49d7f2adcceae4c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:43 +0000
Subject: [PATCH 41/61] fix: ignore the white space around the value of a facet

---
 xsd-parser/src/generator/validator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3186aad..44c3764 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -2,6 +2,11 @@ use std::borrow::Cow;
 
 use crate::parser::xsd_elements::FacetType;
 
+/// The white space of XML, which may surround the value of a facet.
+fn collapse(value: &str) -> &str {
+    value.trim_matches(&[' ', '\t', '\n', '\r'][..])
+}
+
 pub trait Validate {
     fn validate(&self) -> Result<(), String> {
         Ok(())
@@ -31,21 +36,21 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
     match facet {
         FacetType::Enumeration(_) => "".into(),
         FacetType::FractionDigits(_) => "".into(),
-        FacetType::Length(value) => gen_length_validation(value.as_str(), name).into(),
+        FacetType::Length(value) => gen_length_validation(collapse(value), name).into(),
         FacetType::MaxExclusive(value) => {
-            gen_max_exclusive_validation(value.as_str(), name, typename).into()
+            gen_max_exclusive_validation(collapse(value), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
-            gen_max_inclusive_validation(value.as_str(), name, typename).into()
+            gen_max_inclusive_validation(collapse(value), name, typename).into()
         }
-        FacetType::MaxLength(value) => gen_max_length_validation(value.as_str(), name).into(),
+        FacetType::MaxLength(value) => gen_max_length_validation(collapse(value), name).into(),
         FacetType::MinExclusive(value) => {
-            gen_min_exclusive_validation(value.as_str(), name, typename).into()
+            gen_min_exclusive_validation(collapse(value), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
-            gen_min_inclusive_validation(value.as_str(), name, typename).into()
+            gen_min_inclusive_validation(collapse(value), name, typename).into()
         }
-        FacetType::MinLength(value) => gen_min_length_validation(value.as_str(), name).into(),
+        FacetType::MinLength(value) => gen_min_length_validation(collapse(value), name).into(),
         _ => "".into(), // TODO: All Facet Types
     }
 }
-- 
2.43.0


From 06b2ff6d0b21de201344701c3866b927c649e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 42/61] fix: generate length facets beyond 32 bits

---
 xsd-parser/src/generator/validator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 44c3764..a925f14 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -80,7 +80,7 @@ fn gen_max_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: u64 = value.parse().unwrap();
     format!(
         r#"
         if self.{name}.len() != {value} {{
@@ -92,7 +92,7 @@ fn gen_length_validation(value: &str, name: &str) -> String {
 }
 
 fn gen_max_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: u64 = value.parse().unwrap();
     format!(
         r#"
         if self.{name}.len() > {value} {{
@@ -128,7 +128,7 @@ fn gen_min_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_min_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: u64 = value.parse().unwrap();
     if value == 0 {
         return "".into();
     }
-- 
2.43.0


From d54608d6318f87c6a30189a3249d6c4dc597966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 43/61] fix: give the values of an enumeration and the members
 of a union different names

---
 xsd-parser/src/generator/enum.rs      | 18 ++++++++++++++++--
 xsd-parser/src/generator/enum_case.rs |  4 +++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 08d729b..fcf55b8 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -1,4 +1,4 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use crate::{
     generator::{validator::gen_validate_impl, Generator},
@@ -40,10 +40,24 @@ pub trait EnumGenerator {
     }
 
     fn cases(&self, entity: &Enum, gen: &Generator) -> String {
+        let mut names = HashSet::new();
         entity
             .cases
             .iter()
-            .map(|case| gen.enum_case_gen().generate(case, gen))
+            .map(|case| {
+                let mut case = Cow::Borrowed(case);
+                // The name of the case of a choice is the one of its element.
+                if case.source != EnumSource::Choice {
+                    let name = case.name.clone();
+                    for count in 2..=entity.cases.len() + 1 {
+                        if names.insert(gen.enum_case_gen().get_name(&case, gen)) {
+                            break;
+                        }
+                        case.to_mut().name = format!("{}-{}", name, count);
+                    }
+                }
+                gen.enum_case_gen().generate(&case, gen)
+            })
             .collect::<Vec<String>>()
             .join("\n")
     }
diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index e1cf31b..cb16f90 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -55,7 +55,9 @@ pub trait EnumCaseGenerator {
             );
         }
 
-        let (prefix, field_name) = split_name(entity.name.as_str());
+        // The name may differ from the value to be unique.
+        let value = if entity.value.is_empty() { &entity.name } else { &entity.value };
+        let (prefix, field_name) = split_name(value.as_str());
         match prefix {
             Some(p) => format!(
                 "{indent}#[yaserde(prefix = \"{prefix}\", rename = \"{rename}\")]\n",
-- 
2.43.0


From 0c3e35794b78b761b35b9b6273b5fc29e798f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 44/61] fix: generate valid names of functions and message
 types from unusual WSDL names

---
 wsdl-parser/src/generator/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 32c861c..306e169 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -85,9 +85,13 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix: &str| {
+        // The prefix may have symbols which are not valid in the name of a module.
+        let module = prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
+        format!("{}::{}", sanitize(module), pascalized_name)
+    };
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
@@ -101,7 +105,7 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
 }
 
 pub fn default_format_name(name: &str) -> String {
@@ -125,7 +129,8 @@ fn filter_type_name(name: &str) -> String {
 
 fn sanitize(s: String) -> String {
     if s.is_empty() {
-        s
+        // The name has no symbols which are valid in an identifier.
+        "__".into()
     } else if s.chars().next().unwrap().is_numeric() || RS_KEYWORDS.contains(&s.as_str()) {
         format!("_{}", s)
     } else {
@@ -182,6 +187,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 07b90676cc86ae9702faa3ef1d70c3f4dbd6ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 45/61] fix: do not take the directory of the output for an
 input

---
 wsdl-parser-cli/src/main.rs | 12 +++++++++---
 xsd-parser-cli/src/main.rs  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/wsdl-parser-cli/src/main.rs b/wsdl-parser-cli/src/main.rs
index 1843bed..1ff7b04 100644
--- a/wsdl-parser-cli/src/main.rs
+++ b/wsdl-parser-cli/src/main.rs
@@ -31,7 +31,9 @@ fn main() -> anyhow::Result<()> {
     let md = fs::metadata(&input_path).unwrap();
     if md.is_dir() {
         let output_path = opt.output.unwrap_or_else(|| PathBuf::from("output/wsdl-rs"));
-        process_dir(&input_path, &output_path)?;
+        fs::create_dir_all(&output_path)?;
+        let output_root = output_path.canonicalize()?;
+        process_dir(&input_path, &output_path, &output_root)?;
     } else {
         process_single_file(&input_path, opt.output.as_deref())?;
     }
@@ -40,14 +42,18 @@ fn main() -> anyhow::Result<()> {
 }
 
 //TODO: Add a common mechanism for working with files
-fn process_dir(input_path: &Path, output_path: &Path) -> anyhow::Result<()> {
+fn process_dir(input_path: &Path, output_path: &Path, output_root: &Path) -> anyhow::Result<()> {
     if !output_path.exists() {
         fs::create_dir_all(output_path)?;
     }
     for entry in fs::read_dir(input_path)? {
         let path = entry?.path();
         if path.is_dir() {
-            process_dir(&path, &output_path.join(path.file_name().unwrap()))?;
+            // The directory of the output may be inside the one of the input.
+            if path.canonicalize()? == output_root {
+                continue;
+            }
+            process_dir(&path, &output_path.join(path.file_name().unwrap()), output_root)?;
         } else {
             let output_file_path = PathBuf::from(path.file_name().unwrap()).with_extension("rs");
             let output_file_path = output_path.join(output_file_path);
diff --git a/xsd-parser-cli/src/main.rs b/xsd-parser-cli/src/main.rs
index 51577ae..14a3c08 100644
--- a/xsd-parser-cli/src/main.rs
+++ b/xsd-parser-cli/src/main.rs
@@ -30,7 +30,9 @@ fn main() -> anyhow::Result<()> {
     let md = fs::metadata(&input_path).unwrap();
     if md.is_dir() {
         let output_path = opt.output.unwrap_or_else(|| PathBuf::from("output/rs"));
-        process_dir(&input_path, &output_path)?;
+        fs::create_dir_all(&output_path)?;
+        let output_root = output_path.canonicalize()?;
+        process_dir(&input_path, &output_path, &output_root)?;
     } else {
         process_single_file(&input_path, opt.output.as_deref())?;
     }
@@ -38,14 +40,18 @@ fn main() -> anyhow::Result<()> {
     Ok(())
 }
 
-fn process_dir(input_path: &Path, output_path: &Path) -> anyhow::Result<()> {
+fn process_dir(input_path: &Path, output_path: &Path, output_root: &Path) -> anyhow::Result<()> {
     if !output_path.exists() {
         fs::create_dir_all(output_path)?;
     }
     for entry in fs::read_dir(input_path)? {
         let path = entry?.path();
         if path.is_dir() {
-            process_dir(&path, &output_path.join(path.file_name().unwrap()))?;
+            // The directory of the output may be inside the one of the input.
+            if path.canonicalize()? == output_root {
+                continue;
+            }
+            process_dir(&path, &output_path.join(path.file_name().unwrap()), output_root)?;
         } else {
             let output_file_path = PathBuf::from(path.file_name().unwrap()).with_extension("rs");
             let output_file_path = output_path.join(output_file_path);
-- 
2.43.0


From 84a64bd3b33fb1cbb1aef019b25cadd7eec1cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 46/61] fix: generate valid names of the arguments of functions
 with several parts

---
 wsdl-parser/src/generator/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 306e169..f9d06f9 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -46,7 +46,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
         arguments = func
             .arguments
             .iter()
-            .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
+            .map(|p| format!("{}: &{}", default_format_name(p.name), ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
         return_type = func.return_type.map_or("()".into(), ftype),
-- 
2.43.0


From e6d28c7631da8d288ccd3436016103bf620e6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 47/61] fix: keep the whole documentation, with markup and in
 several parts

---
 wsdl-parser/src/generator/function.rs |  2 +-
 wsdl-parser/src/generator/mod.rs      |  2 +-
 wsdl-parser/src/parser/port_type.rs   | 24 ++++++++++++++++--------
 xsd-parser/src/parser/utils.rs        | 25 ++++++++++++++++++++++---
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index f83c6ee..6e62177 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -15,7 +15,7 @@ pub struct Function<'a> {
     pub generic_params: Vec<Param<'a>>,
     pub arguments: Vec<Param<'a>>,
     pub return_type: Option<&'a str>,
-    pub documentation: Option<&'a str>,
+    pub documentation: Option<String>,
     pub name: &'a str,
 }
 
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index f9d06f9..da2076b 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -35,7 +35,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
     {body}
 }}
 "#,
-        comment = default_format_comment(func.documentation, 80, 0),
+        comment = default_format_comment(func.documentation.as_deref(), 80, 0),
         name = default_format_name(func.name),
         generics = func
             .generic_params
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index a2a8ff3..ebe0bd8 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -100,17 +100,25 @@ impl<'a> Operation<'a> {
         &self.ty
     }
 
-    pub fn documentation(&self) -> Option<&'a str> {
-        self.node.children().find_map(|n| {
-            if n.wsdl_type() == ElementType::Documentation {
-                n.text()
-            } else {
-                None
-            }
-        })
+    pub fn documentation(&self) -> Option<String> {
+        self.node
+            .children()
+            .find(|n| n.wsdl_type() == ElementType::Documentation)
+            .map(|n| get_text(&n))
     }
 }
 
+// The whole text, there may be markup (e.g. <br/>) or comments in between.
+fn get_text(node: &Node<'_, '_>) -> String {
+    node.children()
+        .map(|n| match n.is_element() {
+            true => format!(" {} ", get_text(&n)),
+            false if n.is_text() => n.text().unwrap_or("").to_string(),
+            false => String::new(),
+        })
+        .collect()
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub enum OperationType<'a> {
     RequestResponse { input: Param<'a>, output: Param<'a>, faults: Vec<Fault<'a>> },
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index bc2aeb8..6775659 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -20,10 +20,29 @@ pub fn find_child<'a, 'input>(node: &Node<'a, 'input>, tag_name: &str) -> Option
     node.children().find(|e| e.is_element() && e.tag_name().name() == tag_name)
 }
 
+// The whole text, there may be markup (e.g. <br/>) or comments in between.
+fn get_text(node: &Node<'_, '_>) -> String {
+    node.children()
+        .map(|n| match n.is_element() {
+            true => format!(" {} ", get_text(&n)),
+            false if n.is_text() => n.text().unwrap_or("").to_string(),
+            false => String::new(),
+        })
+        .collect()
+}
+
 pub fn get_documentation(node: &Node<'_, '_>) -> Option<String> {
-    find_child(node, "annotation")
-        .and_then(|node| find_child(&node, "documentation"))
-        .and_then(|node| node.text().map(|s| s.to_string()))
+    let documentation = find_child(node, "annotation")?
+        .children()
+        .filter(|n| n.is_element() && n.xsd_type() == ElementType::Documentation)
+        .map(|n| get_text(&n))
+        .collect::<Vec<String>>();
+
+    if documentation.is_empty() {
+        None
+    } else {
+        Some(documentation.join("\n"))
+    }
 }
 
 pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
-- 
2.43.0


From d2374e1d3f963ddbaffa3c94e8dd49d11ef9a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:02 +0000
Subject: [PATCH 48/61] fix: keep lines of a single character in documentation

---
 wsdl-parser/src/generator/mod.rs    | 2 +-
 xsd-parser/src/generator/default.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index da2076b..35d1bda 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -76,7 +76,7 @@ fn default_format_comment(doc: Option<&str>, max_len: usize, indent: usize) -> S
     doc.unwrap_or("")
         .lines()
         .map(|s| s.trim())
-        .filter(|s| s.len() > 1)
+        .filter(|s| !s.is_empty())
         .map(|s| split_comment_line(s, max_len, indent))
         .fold(String::new(), |x, y| (x + &y))
 }
diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index abbf61c..bdd55c7 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -12,7 +12,7 @@ pub fn default_format_comment(doc: Option<&str>, max_len: usize, indent: usize)
     doc.unwrap_or("")
         .lines()
         .map(|s| s.trim())
-        .filter(|s| s.len() > 1)
+        .filter(|s| !s.is_empty())
         .map(|s| split_comment_line(s, max_len, indent))
         .fold(String::new(), |x, y| (x + &y))
 }
-- 
2.43.0


From 0d67ee0f275e467d7fbe48f8ce1eacbd098fbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 49/61] fix: keep the documentation of global elements and
 attributes with anonymous types

---
 xsd-parser/src/parser/attribute.rs |  7 ++++++-
 xsd-parser/src/parser/element.rs   |  1 +
 xsd-parser/src/parser/types.rs     | 26 ++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..dfea7b6 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -62,10 +62,15 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     {
         let mut entity = parse_node(&content, node);
         entity.set_name(name);
+        entity.prepend_comment(get_documentation(node));
         return entity;
     }
 
-    RsEntity::Struct(Struct { name: name.to_string(), ..Default::default() })
+    RsEntity::Struct(Struct {
+        name: name.to_string(),
+        comment: get_documentation(node),
+        ..Default::default()
+    })
 }
 
 #[cfg(test)]
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 0281d23..e11f919 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -129,6 +129,7 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
         content_entity.set_name(name);
+        content_entity.prepend_comment(get_documentation(node));
         return content_entity;
     }
 
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index a1d12da..6d10f7c 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -287,4 +287,30 @@ impl RsEntity {
             Import(im) => im.comment = comment,
         }
     }
+
+    // Adds the documentation of the declaration which contains this type and gives it its name.
+    pub fn prepend_comment(&mut self, comment: Option<String>) {
+        use RsEntity::*;
+        let own_comment = match self {
+            Struct(s) => &mut s.comment,
+            TupleStruct(tp) => &mut tp.comment,
+            Enum(e) => {
+                let mut structs = e.subtypes.iter_mut().filter(|ty| matches!(ty, Struct(_)));
+                match structs.next() {
+                    Some(st) if e.source == EnumSource::Choice => {
+                        return st.prepend_comment(comment);
+                    }
+                    _ => &mut e.comment,
+                }
+            }
+            EnumCase(ec) => &mut ec.comment,
+            Alias(al) => &mut al.comment,
+            StructField(sf) => &mut sf.comment,
+            Import(im) => &mut im.comment,
+        };
+        let comments = comment.into_iter().chain(own_comment.take()).collect::<Vec<String>>();
+        if !comments.is_empty() {
+            *own_comment = Some(comments.join("\n"));
+        }
+    }
 }
-- 
2.43.0


From e45f21cd43b061b7dd28b55ddb43e015f210511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:16 +0000
Subject: [PATCH 50/61] fix: compare durations by their length instead of field
 by field

---
 xsd-types/src/types/duration.rs | 57 +++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index ab42348..2419deb 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -1,8 +1,8 @@
-use std::{fmt, fmt::Write, str::FromStr};
+use std::{cmp::Ordering, fmt, fmt::Write, str::FromStr};
 
 use xsd_macro_utils::UtilsDefaultSerde;
 
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Default, Clone, Debug, UtilsDefaultSerde)]
 pub struct Duration {
     pub is_negative: bool,
 
@@ -41,6 +41,19 @@ impl Duration {
         }
     }
 
+    // The value consists of signed months, seconds and fraction of a second.
+    fn to_value(&self) -> (i128, i128, f64) {
+        let months = self.years as i128 * 12 + self.months as i128;
+        let minutes = (self.days as i128 * 24 + self.hours as i128) * 60 + self.minutes as i128;
+        let seconds = (minutes * 60).saturating_add(self.seconds.trunc() as i128);
+        let fraction = self.seconds.fract();
+        if self.is_negative {
+            (-months, seconds.saturating_neg(), -fraction)
+        } else {
+            (months, seconds, fraction)
+        }
+    }
+
     // TODO: Add from_std_duration
 
     // TODO: Add a version of to_std_duration that takes a moment at time to start from.
@@ -49,6 +62,46 @@ impl Duration {
     // converts months & years to days.
 }
 
+// Durations with the same number of months and seconds are equal, e.g. "P1D" and "PT24H".
+impl PartialEq for Duration {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_value() == other.to_value()
+    }
+}
+
+// https://www.w3.org/TR/xmlschema-2/#duration-order
+// The order is partial: a month is neither less nor greater than 30 days.
+impl PartialOrd for Duration {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        // 1696-09, 1697-02, 1903-03 and 1903-07 as numbers of months since 0000-03.
+        const REFERENCES: [i128; 4] = [20358, 20363, 22836, 22840];
+
+        // The number of days before a month, which is the last one of the year if it is February.
+        fn days(month: i128) -> i128 {
+            let (year, month) = (month.div_euclid(12), month.rem_euclid(12));
+            let leap_days = year.div_euclid(4) - year.div_euclid(100) + year.div_euclid(400);
+            year * 365 + leap_days + (month * 153 + 2) / 5
+        }
+
+        if self == other {
+            return Some(Ordering::Equal);
+        }
+
+        let compare = |start: &i128| {
+            let end = |(months, seconds, fraction): (i128, i128, f64)| {
+                (seconds.saturating_add(days(start + months) * 24 * 60 * 60), fraction)
+            };
+            end(self.to_value()).partial_cmp(&end(other.to_value()))
+        };
+        let ordering = compare(&REFERENCES[0]);
+        if ordering != Some(Ordering::Equal) && REFERENCES.iter().all(|r| compare(r) == ordering) {
+            ordering
+        } else {
+            None
+        }
+    }
+}
+
 impl FromStr for Duration {
     type Err = String;
 
-- 
2.43.0


From 9f89a4c8501963919e998201a41067dc246daea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 51/61] fix: apply the facets of the items of a list to the
 items

---
 xsd-parser/src/parser/list.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index a5db2c1..95ff59c 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
-    utils::find_child,
+    utils::{find_child, get_parent_name},
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
@@ -21,6 +21,15 @@ pub fn parse_list(list: &Node) -> RsEntity {
                     subtypes: vec![RsEntity::Enum(en)],
                     ..Default::default()
                 },
+                // The facets restrict an item, not the list.
+                RsEntity::TupleStruct(mut ts) if !ts.facets.is_empty() => {
+                    ts.name = format!("{}Item", get_parent_name(list));
+                    TupleStruct {
+                        type_name: ts.name.clone(),
+                        subtypes: vec![RsEntity::TupleStruct(ts)],
+                        ..Default::default()
+                    }
+                }
                 RsEntity::TupleStruct(ts) => ts,
                 _ => unreachable!(),
             }
-- 
2.43.0


From 4db4ebd4f44b5735262b306a1e28c4c5934b2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:41 +0000
Subject: [PATCH 52/61] fix: parse the least year of gYear and gYearMonth

The number was parsed without its sign, so -2147483648, which is the text of a
valid value, was out of range.
---
 xsd-types/src/types/gyear.rs      | 16 +++++++---------
 xsd-types/src/types/gyearmonth.rs | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 44d20f4..e282a48 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -30,17 +30,15 @@ impl FromStr for GYear {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Some(s) = s.strip_prefix('-') {
-            let mut gyear = parse_str_positive(s)?;
-            gyear.value *= -1;
-            return Ok(gyear);
+        match s.strip_prefix('-') {
+            Some(s) => parse_str_unsigned("-", s),
+            None => parse_str_unsigned("", s),
         }
-        parse_str_positive(s)
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYear, String> {
-    fn parse_value(s: &str) -> Result<i32, String> {
+fn parse_str_unsigned(sign: &str, s: &str) -> Result<GYear, String> {
+    let parse_value = |s: &str| -> Result<i32, String> {
         if s.len() < 4 {
             return Err("bad gYear format: to short".to_string());
         }
@@ -50,8 +48,8 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         if s.len() > 4 && s.starts_with('0') {
             return Err("bad gYear format: leading zeros".to_string());
         }
-        s.parse::<i32>().map_err(|e| e.to_string())
-    }
+        format!("{}{}", sign, s).parse::<i32>().map_err(|e| e.to_string())
+    };
 
     if let Some(s) = s.strip_suffix('Z') {
         return GYear::new(parse_value(s)?, Some(FixedOffset::east_opt(0).unwrap()));
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 1624e37..b9b9a3b 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -44,17 +44,15 @@ impl FromStr for GYearMonth {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Some(s) = s.strip_prefix('-') {
-            let mut gyearmonth = parse_str_positive(s)?;
-            gyearmonth.year *= -1;
-            return Ok(gyearmonth);
+        match s.strip_prefix('-') {
+            Some(s) => parse_str_unsigned("-", s),
+            None => parse_str_unsigned("", s),
         }
-        parse_str_positive(s)
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
-    fn parse_value(s: &str) -> Result<(i32, i32), String> {
+fn parse_str_unsigned(sign: &str, s: &str) -> Result<GYearMonth, String> {
+    let parse_value = |s: &str| -> Result<(i32, i32), String> {
         if s.matches('-').count() != 1 {
             return Err("bad gYearMonth format".to_string());
         }
@@ -72,7 +70,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         if year_token.len() > 4 && year_token.starts_with('0') {
             return Err("bad year format within gYearMonth: leading zeros".to_string());
         }
-        let year = year_token.parse::<i32>().map_err(|e| e.to_string())?;
+        let year = format!("{}{}", sign, year_token).parse::<i32>().map_err(|e| e.to_string())?;
 
         if !month_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad month format within gYearMonth".to_string());
@@ -80,7 +78,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let month = month_token.parse::<i32>().map_err(|e| e.to_string())?;
 
         Ok((year, month))
-    }
+    };
 
     if let Some(s) = s.strip_suffix('Z') {
         let (year, month) = parse_value(s)?;
-- 
2.43.0


From 3e802fb3048a68d316da787c8a42e46680d4c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:49 +0000
Subject: [PATCH 53/61] fix: refuse time zones which have no text in the
 constructors

GDay::new and the others accepted offsets with seconds or beyond 14 hours. The
text of such a value, e.g. ---01+01:00:01, can not be parsed.
---
 xsd-types/src/types/gday.rs       | 4 +++-
 xsd-types/src/types/gmonth.rs     | 4 +++-
 xsd-types/src/types/gmonthday.rs  | 8 +++++++-
 xsd-types/src/types/gyear.rs      | 4 +++-
 xsd-types/src/types/gyearmonth.rs | 8 +++++++-
 xsd-types/src/types/utils.rs      | 9 +++++++++
 6 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index e7e050a..8cdaeb8 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::FixedOffset;
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::utils::parse_timezone;
+use crate::types::utils::{check_timezone, parse_timezone};
 
 #[derive(PartialEq, Debug, Clone, UtilsDefaultSerde)]
 pub struct GDay {
@@ -16,6 +16,8 @@ impl GDay {
         if !(1..=31).contains(&day) {
             return Err("gDay value should lie between 1 and 31".to_string());
         }
+        check_timezone(&timezone)?;
+
         Ok(GDay { value: day, timezone })
     }
 }
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index eb714e8..1ed7c6e 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::FixedOffset;
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::utils::parse_timezone;
+use crate::types::utils::{check_timezone, parse_timezone};
 
 #[derive(PartialEq, Debug, Clone, UtilsDefaultSerde)]
 pub struct GMonth {
@@ -16,6 +16,8 @@ impl GMonth {
         if !(1..=12).contains(&month) {
             return Err("GMonth value should lie between 1 and 12".to_string());
         }
+        check_timezone(&timezone)?;
+
         Ok(GMonth { value: month, timezone })
     }
 }
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 2dfe516..6e13e3d 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -3,7 +3,11 @@ use std::{fmt, str::FromStr};
 use chrono::FixedOffset;
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::{gday::GDay, gmonth::GMonth, utils::parse_timezone};
+use crate::types::{
+    gday::GDay,
+    gmonth::GMonth,
+    utils::{check_timezone, parse_timezone},
+};
 
 #[derive(PartialEq, Debug, Clone, UtilsDefaultSerde)]
 pub struct GMonthDay {
@@ -27,6 +31,8 @@ impl GMonthDay {
             return Err("Day value within GMonthDay is to big for specified month".to_string());
         }
 
+        check_timezone(&timezone)?;
+
         Ok(GMonthDay { month, day, timezone })
     }
 
diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index e282a48..973bf03 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::FixedOffset;
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::utils::parse_timezone;
+use crate::types::utils::{check_timezone, parse_timezone};
 
 #[derive(PartialEq, Debug, Clone, UtilsDefaultSerde)]
 pub struct GYear {
@@ -16,6 +16,8 @@ impl GYear {
         if year == 0 {
             return Err("bad gYear format: year 0 occurred".to_string());
         }
+        check_timezone(&timezone)?;
+
         Ok(GYear { value: year, timezone })
     }
 }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index b9b9a3b..1701a25 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -3,7 +3,11 @@ use std::{fmt, str::FromStr};
 use chrono::FixedOffset;
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::{gmonth::GMonth, gyear::GYear, utils::parse_timezone};
+use crate::types::{
+    gmonth::GMonth,
+    gyear::GYear,
+    utils::{check_timezone, parse_timezone},
+};
 
 #[derive(PartialEq, Debug, Clone, UtilsDefaultSerde)]
 pub struct GYearMonth {
@@ -22,6 +26,8 @@ impl GYearMonth {
             return Err("Month value within GYearMonth should lie between 1 and 12".to_string());
         }
 
+        check_timezone(&timezone)?;
+
         Ok(GYearMonth { year, month, timezone })
     }
 
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index 6b0b276..0f1fda9 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -29,6 +29,15 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
     }
 }
 
+// A timezone in XSD consists of hours and minutes, and is at most 14 hours.
+pub(crate) fn check_timezone(timezone: &Option<FixedOffset>) -> Result<(), String> {
+    let offset_secs = timezone.map_or(0, |tz| tz.local_minus_utc());
+    if offset_secs % 60 != 0 || offset_secs.abs() > 14 * 60 * 60 {
+        return Err("bad timezone: out of range".to_string());
+    }
+    Ok(())
+}
+
 // `BigInt` and `BigUint` accept '_' between digits, which is not allowed in XSD integers.
 // Such literals are replaced with one that is never a number.
 pub(crate) fn no_digit_separators(s: &str) -> &str {
-- 
2.43.0


From 9d078d00d1359177d8b8f33156b1ff1ffa5c08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:39 +0000
Subject: [PATCH 54/61] fix: escape the target namespace in the generated
 attributes

A quote or a backslash in the namespace ended the string literal or made it
invalid.
---
 xsd-parser/src/generator/enum.rs   | 6 +++---
 xsd-parser/src/generator/struct.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index fcf55b8..622a7a4 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -84,13 +84,13 @@ pub trait EnumGenerator {
         match tns.as_ref() {
             Some(tn) => match tn.name() {
                 Some(name) => format!(
-                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = {namespace:?})]\n",
                     derives = derives,
                     prefix = name,
-                    uri = tn.uri()
+                    namespace = format!("{}: {}", name, tn.uri())
                 ),
                 None => format!(
-                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = {uri:?})]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index eb55886..1dbc02d 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -83,13 +83,13 @@ pub trait StructGenerator {
         match tns.as_ref() {
             Some(tn) => match tn.name() {
                 Some(name) => format!(
-                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = {namespace:?})]\n",
                     derives = derives,
                     prefix = name,
-                    uri = tn.uri()
+                    namespace = format!("{}: {}", name, tn.uri())
                 ),
                 None => format!(
-                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = {uri:?})]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
-- 
2.43.0


From 85a38cab3fb72cec414bc4fefabdbf3d8799bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:42 +0000
Subject: [PATCH 55/61] fix: keep the comment of an import in one line

A line break in the namespace or location of an import or include (as a
character reference) ended the comment, what followed was generated as code.
---
 xsd-parser/src/generator/import.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/import.rs b/xsd-parser/src/generator/import.rs
index 09c377c..eabedaa 100644
--- a/xsd-parser/src/generator/import.rs
+++ b/xsd-parser/src/generator/import.rs
@@ -2,7 +2,9 @@ use crate::{generator::Generator, parser::types::Import};
 
 pub trait ImportGenerator {
     fn generate(&self, entity: &Import, _gen: &Generator) -> String {
-        format!("//use {}  {};\n", entity.location, entity.name)
+        // The comment must not end before the end of the line.
+        let line = |s: &str| s.split_whitespace().collect::<Vec<&str>>().join(" ");
+        format!("//use {}  {};\n", line(&entity.location), line(&entity.name))
     }
 }
 
-- 
2.43.0


From b2d8f3d2515f8932b576397649e4958e3b55aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 56/61] fix: ignore the white space around the values of
 attributes

---
 xsd-parser/src/parser/extension.rs    |  4 ++--
 xsd-parser/src/parser/list.rs         |  3 ++-
 xsd-parser/src/parser/utils.rs        | 12 ++++++------
 xsd-parser/src/parser/xsd_elements.rs | 17 +++++++++++------
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 8616e21..462323d 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,7 +10,7 @@ use crate::parser::{
         attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
         get_documentation, get_parent_name,
     },
-    xsd_elements::{ElementType, ExtensionType, XsdNode},
+    xsd_elements::{get_attribute, ElementType, ExtensionType, XsdNode},
 };
 
 const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
@@ -51,7 +51,7 @@ fn simple_content_extension(node: &Node) -> RsEntity {
 }
 
 fn complex_content_extension(node: &Node) -> RsEntity {
-    let base = node.attribute(attribute::BASE).expect("The base value is required");
+    let base = get_attribute(node, attribute::BASE).expect("The base value is required");
 
     let mut fields = attributes_to_fields(node);
 
diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index 95ff59c..bd803bc 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -5,10 +5,11 @@ use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
     utils::{find_child, get_parent_name},
+    xsd_elements::get_attribute,
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
-    let mut result = match list.attribute(attribute::ITEM_TYPE) {
+    let mut result = match get_attribute(list, attribute::ITEM_TYPE) {
         Some(item_type) => TupleStruct { type_name: item_type.to_string(), ..Default::default() },
         None => {
             let nested_simple_type = find_child(list, "simpleType").expect(
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 6775659..27786db 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -6,11 +6,11 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{Alias, Enum, EnumSource, RsEntity, StructField, StructFieldSource},
-    xsd_elements::{ElementType, XsdNode},
+    xsd_elements::{get_attribute, ElementType, XsdNode},
 };
 
 pub fn target_namespace<'a, 'input>(node: &Node<'a, 'input>) -> Option<&'a Namespace<'input>> {
-    match node.attribute(attribute::TARGET_NAMESPACE) {
+    match get_attribute(node, attribute::TARGET_NAMESPACE) {
         Some(tn) => node.namespaces().find(|a| a.uri() == tn),
         None => None,
     }
@@ -52,7 +52,7 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
                 return "SchemaElement";
             }
 
-            match parent.attribute(attribute::NAME) {
+            match get_attribute(&parent, attribute::NAME) {
                 Some(s) => s,
                 None => get_parent_name(&parent),
             }
@@ -68,7 +68,7 @@ pub fn is_recursive(node: &Node, type_name: &str) -> bool {
         .find(|n| {
             n.parent_element().map_or(false, |parent| parent.xsd_type() == ElementType::Schema)
         })
-        .and_then(|component| component.attribute(attribute::NAME))
+        .and_then(|component| get_attribute(&component, attribute::NAME))
         .unwrap_or_else(|| get_parent_name(node));
     let (prefix, local_name) = match type_name.find(':') {
         Some(index) => (Some(&type_name[0..index]), &type_name[index + 1..]),
@@ -77,13 +77,13 @@ pub fn is_recursive(node: &Node, type_name: &str) -> bool {
     let tns = node
         .ancestors()
         .find(|n| n.xsd_type() == ElementType::Schema)
-        .and_then(|schema| schema.attribute(attribute::TARGET_NAMESPACE));
+        .and_then(|schema| get_attribute(&schema, attribute::TARGET_NAMESPACE));
     let uri = node.lookup_namespace_uri(prefix);
     local_name == name && (uri.is_none() || uri == tns)
 }
 
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
-    node.attribute(attribute::BASE).expect("The base value is required")
+    get_attribute(node, attribute::BASE).expect("The base value is required")
 }
 
 pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
diff --git a/xsd-parser/src/parser/xsd_elements.rs b/xsd-parser/src/parser/xsd_elements.rs
index bbeda21..55243bf 100644
--- a/xsd-parser/src/parser/xsd_elements.rs
+++ b/xsd-parser/src/parser/xsd_elements.rs
@@ -73,6 +73,11 @@ pub enum RestrictionType {
     SimpleType,
 }
 
+// The white space around the value of an attribute isn't a part of a name, number, URI etc.
+pub fn get_attribute<'a>(node: &roxmltree::Node<'a, '_>, name: &str) -> Option<&'a str> {
+    node.attribute(name).map(|value| value.trim_matches(&[' ', '\t', '\n', '\r'][..]))
+}
+
 pub trait XsdNode {
     fn xsd_type(&self) -> ElementType;
     fn attr_name(&self) -> Option<&str>;
@@ -164,19 +169,19 @@ impl<'a> XsdNode for roxmltree::Node<'a, '_> {
     }
 
     fn attr_name(&self) -> Option<&str> {
-        self.attribute(attribute::NAME)
+        get_attribute(self, attribute::NAME)
     }
 
     fn attr_type(&self) -> Option<&str> {
-        self.attribute(attribute::TYPE)
+        get_attribute(self, attribute::TYPE)
     }
 
     fn attr_ref(&self) -> Option<&str> {
-        self.attribute(attribute::REF)
+        get_attribute(self, attribute::REF)
     }
 
     fn attr_use(&self) -> UseType {
-        match self.attribute(attribute::USE).unwrap_or("optional") {
+        match get_attribute(self, attribute::USE).unwrap_or("optional") {
             "optional" => UseType::Optional,
             "prohibited" => UseType::Prohibited,
             "required" => UseType::Required,
@@ -211,11 +216,11 @@ pub enum MaxOccurs {
 }
 
 pub fn min_occurs(node: &roxmltree::Node) -> MinOccurs {
-    node.attribute(attribute::MIN_OCCURS).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1)
+    get_attribute(node, attribute::MIN_OCCURS).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1)
 }
 
 pub fn max_occurs(node: &roxmltree::Node) -> MaxOccurs {
-    match node.attribute(attribute::MAX_OCCURS) {
+    match get_attribute(node, attribute::MAX_OCCURS) {
         Some(s) => match s {
             "unbounded" => MaxOccurs::Unbounded,
             s => s.parse::<usize>().ok().map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
-- 
2.43.0


From 4f8231871fcb48cf3b29109a6544aecb23912277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:54 +0000
Subject: [PATCH 57/61] fix: ignore the white space around the values of
 attributes in WSDL

---
 wsdl-parser/src/parser/binding.rs     | 10 +++++-----
 wsdl-parser/src/parser/definitions.rs |  9 +++++----
 wsdl-parser/src/parser/message.rs     | 10 +++++-----
 wsdl-parser/src/parser/mod.rs         |  5 +++++
 wsdl-parser/src/parser/port_type.rs   | 17 ++++++++---------
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/wsdl-parser/src/parser/binding.rs b/wsdl-parser/src/parser/binding.rs
index fdab74e..a1a3f66 100644
--- a/wsdl-parser/src/parser/binding.rs
+++ b/wsdl-parser/src/parser/binding.rs
@@ -1,6 +1,6 @@
 use roxmltree::Node;
 
-use crate::parser::{constants::attribute, ElementType, WsdlElement};
+use crate::parser::{constants::attribute, get_attribute, ElementType, WsdlElement};
 
 #[derive(Clone, Debug)]
 pub struct Binding<'a> {
@@ -10,11 +10,11 @@ pub struct Binding<'a> {
 
 impl<'a> Binding<'a> {
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Namespace required for wsdl:binding")
+        get_attribute(&self.node, attribute::NAME).expect("Namespace required for wsdl:binding")
     }
 
     pub fn type_(&self) -> &'a str {
-        self.node.attribute(attribute::TYPE).expect("Location required for wsdl:binding")
+        get_attribute(&self.node, attribute::TYPE).expect("Location required for wsdl:binding")
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
@@ -44,7 +44,7 @@ pub struct Operation<'a> {
 
 impl<'a> Operation<'a> {
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Namespace required for wsdl:binding")
+        get_attribute(&self.node, attribute::NAME).expect("Namespace required for wsdl:binding")
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
@@ -74,6 +74,6 @@ impl<'a> Param<'a> {
     }
 
     pub fn name(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::NAME)
+        get_attribute(&self.node, attribute::NAME)
     }
 }
diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index df04a62..ee585a2 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -5,6 +5,7 @@ use roxmltree::{Namespace, Node};
 use crate::parser::{
     binding::Binding,
     constants::attribute,
+    get_attribute,
     message::Message,
     port_type::{Param, PortType},
     types::Types,
@@ -47,7 +48,7 @@ pub struct Definitions<'a> {
 
 impl<'a> Definitions<'a> {
     pub fn target_namespace(&self) -> Option<&'a Namespace<'_>> {
-        match self.node().attribute(attribute::TARGET_NAMESPACE) {
+        match get_attribute(&self.node, attribute::TARGET_NAMESPACE) {
             Some(tn) => self.node().namespaces().find(|a| a.uri() == tn),
             None => None,
         }
@@ -58,7 +59,7 @@ impl<'a> Definitions<'a> {
     }
 
     pub fn name(&self) -> Option<&str> {
-        self.node().attribute(attribute::NAME)
+        get_attribute(&self.node, attribute::NAME)
     }
 
     pub fn imports(&self) -> &HashMap<&'a str, Import<'a>> {
@@ -160,11 +161,11 @@ pub struct Import<'a> {
 
 impl<'a> Import<'a> {
     pub fn namespace(&self) -> &'a str {
-        self.node.attribute(attribute::NAMESPACE).expect("Namespace required for wsdl:Import")
+        get_attribute(&self.node, attribute::NAMESPACE).expect("Namespace required for wsdl:Import")
     }
 
     pub fn location(&self) -> &'a str {
-        self.node.attribute(attribute::LOCATION).expect("Location required for wsdl:Import")
+        get_attribute(&self.node, attribute::LOCATION).expect("Location required for wsdl:Import")
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
diff --git a/wsdl-parser/src/parser/message.rs b/wsdl-parser/src/parser/message.rs
index 1ca04dd..6be55e0 100644
--- a/wsdl-parser/src/parser/message.rs
+++ b/wsdl-parser/src/parser/message.rs
@@ -1,6 +1,6 @@
 use roxmltree::Node;
 
-use crate::parser::{constants::attribute, ElementType, WsdlElement};
+use crate::parser::{constants::attribute, get_attribute, ElementType, WsdlElement};
 
 // Element information:
 // Namespace: http://schemas.xmlsoap.org/wsdl/
@@ -47,7 +47,7 @@ impl<'a> Message<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:message")
+        get_attribute(&self.node, attribute::NAME).expect("Name required for wsdl:message")
     }
 
     pub fn parts(&self) -> &[Part<'a>] {
@@ -79,15 +79,15 @@ pub struct Part<'a> {
 
 impl<'a> Part<'a> {
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:part")
+        get_attribute(&self.node, attribute::NAME).expect("Name required for wsdl:part")
     }
 
     pub fn element(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::ELEMENT)
+        get_attribute(&self.node, attribute::ELEMENT)
     }
 
     pub fn type_(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::TYPE)
+        get_attribute(&self.node, attribute::TYPE)
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
diff --git a/wsdl-parser/src/parser/mod.rs b/wsdl-parser/src/parser/mod.rs
index 8826913..af7b982 100644
--- a/wsdl-parser/src/parser/mod.rs
+++ b/wsdl-parser/src/parser/mod.rs
@@ -31,6 +31,11 @@ pub enum ElementType {
     UnknownElement(String),
 }
 
+// The white space around the value of an attribute isn't a part of a name, URI etc.
+fn get_attribute<'a>(node: &roxmltree::Node<'a, '_>, name: &str) -> Option<&'a str> {
+    node.attribute(name).map(|value| value.trim_matches(&[' ', '\t', '\n', '\r'][..]))
+}
+
 impl<'a> WsdlElement for roxmltree::Node<'a, '_> {
     fn wsdl_type(&self) -> ElementType {
         use ElementType::*;
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index ebe0bd8..8017845 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -1,6 +1,6 @@
 use roxmltree::Node;
 
-use crate::parser::{constants::attribute, ElementType, WsdlElement};
+use crate::parser::{constants::attribute, get_attribute, ElementType, WsdlElement};
 
 // Content: Sequence [1..1]
 // wsdl:documentation   [0..1] from type wsdl:tDocumented
@@ -41,7 +41,7 @@ impl<'a> PortType<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:portType")
+        get_attribute(&self.node, attribute::NAME).expect("Name required for wsdl:portType")
     }
 
     pub fn operations(&self) -> &[Operation] {
@@ -89,11 +89,11 @@ impl<'a> Operation<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:operation")
+        get_attribute(&self.node, attribute::NAME).expect("Name required for wsdl:operation")
     }
 
     pub fn parameter_order(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::PARAMETER_ORDER)
+        get_attribute(&self.node, attribute::PARAMETER_ORDER)
     }
 
     pub fn operation_type(&self) -> &OperationType {
@@ -195,12 +195,11 @@ impl<'a> Param<'a> {
     }
 
     pub fn name(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::NAME)
+        get_attribute(&self.node, attribute::NAME)
     }
 
     pub fn message(&self) -> &'a str {
-        self.node
-            .attribute(attribute::MESSAGE)
+        get_attribute(&self.node, attribute::MESSAGE)
             .expect("Message required for wsdl:input and wsdl:output")
     }
 }
@@ -216,10 +215,10 @@ impl<'a> Fault<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:fault")
+        get_attribute(&self.node, attribute::NAME).expect("Name required for wsdl:fault")
     }
 
     pub fn message(&self) -> &'a str {
-        self.node.attribute(attribute::MESSAGE).expect("Message required for wsdl:fault")
+        get_attribute(&self.node, attribute::MESSAGE).expect("Message required for wsdl:fault")
     }
 }
-- 
2.43.0


From fbe2720c000dce4c38c50487692c76ccdda97ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 58/61] fix: split the member types of a union at any white
 space

---
 xsd-parser/src/parser/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/union.rs b/xsd-parser/src/parser/union.rs
index 4c47ff6..51590cd 100644
--- a/xsd-parser/src/parser/union.rs
+++ b/xsd-parser/src/parser/union.rs
@@ -56,7 +56,7 @@ pub fn parse_union(union: &Node) -> RsEntity {
 
 fn create_enum_cases(member_types: &str) -> Vec<EnumCase> {
     member_types
-        .split(' ')
+        .split(&[' ', '\t', '\n', '\r'][..])
         .filter(|s| !s.is_empty())
         .map(|mt| EnumCase {
             name: mt.to_string(),
-- 
2.43.0


From b6c1b7ec52253c90338671a127fa964bfc20a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:00 +0000
Subject: [PATCH 59/61] fix: do not call a generated module xs

---
 xsd-parser/src/generator/base.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsd-parser/src/generator/base.rs b/xsd-parser/src/generator/base.rs
index d66ab5d..65fbea4 100644
--- a/xsd-parser/src/generator/base.rs
+++ b/xsd-parser/src/generator/base.rs
@@ -40,6 +40,10 @@ pub trait BaseGenerator {
     }
 
     fn mod_name(&self, name: &str) -> String {
+        // `xs` is what the generated code calls the built-in types
+        if default_format_name(name) == "xs" {
+            return "_xs".to_string();
+        }
         default_format_name(name)
     }
 
-- 
2.43.0


From 6a027c8dc0dc975350947c8b25e709ddf08d4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:50 +0000
Subject: [PATCH 60/61] fix: make the defaults of positiveInteger and
 negativeInteger values of the types

---
 xsd-types/src/types/negative_integer.rs | 9 ++++++++-
 xsd-types/src/types/positive_integer.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index a7b9e67..1433d17 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::no_digit_separators;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -15,6 +15,13 @@ impl NegativeInteger {
     }
 }
 
+// Zero is no value of the type.
+impl Default for NegativeInteger {
+    fn default() -> Self {
+        NegativeInteger((-1).to_bigint().unwrap())
+    }
+}
+
 impl ToBigInt for NegativeInteger {
     fn to_bigint(&self) -> Option<BigInt> {
         Some(self.0.clone())
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index 267a93d..0ca8bbd 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::no_digit_separators;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -15,6 +15,13 @@ impl PositiveInteger {
     }
 }
 
+// Zero is no value of the type.
+impl Default for PositiveInteger {
+    fn default() -> Self {
+        PositiveInteger(1.to_biguint().unwrap())
+    }
+}
+
 impl ToBigUint for PositiveInteger {
     fn to_biguint(&self) -> Option<BigUint> {
         Some(self.0.clone())
-- 
2.43.0


From 916becb97e2afc85f5a5c09ae6fabc2d2ffc49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:30 +0000
Subject: [PATCH 61/61] fix: do not take a type or attribute group of another
 namespace for one of the target namespace

---
 xsd-parser/src/parser/extension.rs   | 34 ++++++++++++++++------------
 xsd-parser/src/parser/restriction.rs | 18 ++++++++-------
 xsd-parser/src/parser/utils.rs       | 13 +++++++----
 3 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 462323d..826dc96 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -8,7 +8,7 @@ use crate::parser::{
     types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{
         attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
-        get_documentation, get_parent_name,
+        get_documentation, get_parent_name, is_of_target_namespace,
     },
     xsd_elements::{get_attribute, ElementType, ExtensionType, XsdNode},
 };
@@ -33,13 +33,15 @@ fn simple_content_extension(node: &Node) -> RsEntity {
     let base = get_base(node);
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    if is_of_target_namespace(node, base) {
+        fields.push(StructField {
+            name: tag::BASE.to_string(),
+            type_name: base.to_string(),
+            comment: get_documentation(node),
+            source: StructFieldSource::Base,
+            ..Default::default()
+        });
+    }
 
     RsEntity::Struct(Struct {
         name: String::default(),
@@ -55,13 +57,15 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    if is_of_target_namespace(node, base) {
+        fields.push(StructField {
+            name: tag::BASE.to_string(),
+            type_name: base.to_string(),
+            comment: get_documentation(node),
+            source: StructFieldSource::Base,
+            ..Default::default()
+        });
+    }
 
     let content = node
         .children()
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index d2c304e..c468aee 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -11,7 +11,7 @@ use crate::parser::{
     },
     utils::{
         attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
-        get_documentation, get_parent_name,
+        get_documentation, get_parent_name, is_of_target_namespace,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
@@ -63,13 +63,15 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
     let base = get_base(node);
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    if is_of_target_namespace(node, base) {
+        fields.push(StructField {
+            name: tag::BASE.to_string(),
+            type_name: base.to_string(),
+            comment: get_documentation(node),
+            source: StructFieldSource::Base,
+            ..Default::default()
+        });
+    }
 
     let content = node
         .children()
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 27786db..5cb5b6f 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -70,16 +70,18 @@ pub fn is_recursive(node: &Node, type_name: &str) -> bool {
         })
         .and_then(|component| get_attribute(&component, attribute::NAME))
         .unwrap_or_else(|| get_parent_name(node));
-    let (prefix, local_name) = match type_name.find(':') {
-        Some(index) => (Some(&type_name[0..index]), &type_name[index + 1..]),
-        None => (None, type_name),
-    };
+    type_name.split(':').last() == Some(name) && is_of_target_namespace(node, type_name)
+}
+
+// Whether the qualified name is one of the target namespace of the schema.
+pub fn is_of_target_namespace(node: &Node, name: &str) -> bool {
+    let prefix = name.find(':').map(|index| &name[0..index]);
     let tns = node
         .ancestors()
         .find(|n| n.xsd_type() == ElementType::Schema)
         .and_then(|schema| get_attribute(&schema, attribute::TARGET_NAMESPACE));
     let uri = node.lookup_namespace_uri(prefix);
-    local_name == name && (uri.is_none() || uri == tns)
+    uri.is_none() || uri == tns
 }
 
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
@@ -101,6 +103,7 @@ pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
 pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
     node.children()
         .filter(|n| n.xsd_type() == ElementType::AttributeGroup)
+        .filter(|n| n.attr_ref().map_or(true, |name| is_of_target_namespace(n, name)))
         .map(|n| match parse_node(&n, node) {
             RsEntity::Alias(a) => a,
             _ => unreachable!("Invalid attribute group parsing: {:?}", n),
-- 
2.43.0

