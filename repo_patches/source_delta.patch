From d1bb23334dfc8ed1cabf83a46de82492f70b05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 01/15] fix: echo the request id when a parser query fails

parser.plugins, parser.directives and parser.options answered with a null id
when the ledger has parse errors, so clients could not match the response.
---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From 6ebf237b68557c709318d7192dd659031e179d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 02/15] fix: echo 64-bit and escaped request ids unchanged

Integer ids beyond 32 bits came back as floating point numbers and string ids
containing JSON escapes were rejected as parse errors with a null id.
---
 rust/src/api/json_rpc.rs | 7 ++++---
 rust/src/api/server.rs   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..66f3788 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,11 +145,12 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
+    #[serde(borrow)]
+    String(Cow<'a, str>),
+    Int(i64),
     Float(f64),
 }
 
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From 1e3a863a0300556dd0b72240fd3b1fec7dd19bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 03/15] fix: report a pad whose source account is not open

Using such a pad panicked and took the server down.
---
 rust/src/api/booking/accumulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..d9d101d 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -661,6 +661,8 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.acc, element)?;
+        self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From df773cb88c3cc2e64cafbaf93d4f2056d5c58c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 04/15] fix: report unused pads in ledger order

They were reported in the iteration order of a hash map, which changes from
run to run.
---
 rust/src/api/booking/accumulator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index d9d101d..cdbcddc 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -59,10 +59,14 @@ impl<'a, 't> Accumulator<'a, 't> {
         } = self;
 
         // check for unused pad directives
-        for account in accounts.values() {
-            if let Some((_, pad)) = &account.pad {
-                errors.push(pad.report("unused, no balance directive"))
-            }
+        let mut unused_pads = accounts
+            .values()
+            .filter_map(|account| account.pad.map(|(_, pad)| pad))
+            .collect::<Vec<_>>();
+        // in ledger order, not that of the hash map
+        unused_pads.sort_by_key(|pad| pad.directive);
+        for pad in unused_pads {
+            errors.push(pad.report("unused, no balance directive"))
         }
 
         if errors.is_empty() {
-- 
2.43.0


From c2ce7f57ebfedc90f89961c01412339125c42037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 05/15] fix: a rejected reopen leaves the account closed

The account was marked open before the check, so that later postings to it
were accepted.
---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index cdbcddc..bec91b2 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -580,12 +580,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From f7123fbf3ee51ad280374c91ccb43d9fd5bd8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 06/15] fix: balance errors account for postings in the
 asserted currency only

Postings in other currencies were listed and added to the accumulated total.
---
 rust/src/api/booking/accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index bec91b2..1074e54 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -516,7 +516,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
-- 
2.43.0


From 263974582620837903717daf3d4149919b37f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 07/15] fix: report a second close as such, related to the
 first

The check for an already closed account was never reached, because closing
removes the account from the open ones.
---
 rust/src/api/booking/accumulator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 1074e54..e68cf86 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -645,6 +645,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                 }
             }
             Vacant(_) => {
+                // cannot reclose a closed account
+                if let Some(closed) = self.closed_accounts.get(close.acc) {
+                    return Err(element
+                        .report("account was already closed")
+                        .related_to(*closed));
+                }
                 return Err(element.report("account not open"));
             }
         }
-- 
2.43.0


From 2112af2939c7e32a04ba4b732b1e9d386420181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 08/15] fix: a second pad replaces the unused first one

Only the first is at fault, but both were discarded, so that the following
balance assertion failed as well.
---
 rust/src/api/booking/accumulator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index e68cf86..191208d 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -25,6 +25,8 @@ pub(crate) struct Accumulator<'a, 't> {
     default_booking: Booking,
     tolerance: &'t LimaTolerance<'a>,
     warnings: Vec<IndexedReport>,
+    // errors in pads found while processing a later directive
+    pad_errors: Vec<IndexedReport>,
 }
 
 pub(crate) struct BookingSuccess<'a> {
@@ -45,6 +47,7 @@ impl<'a, 't> Accumulator<'a, 't> {
             default_booking,
             tolerance,
             warnings: Vec::default(),
+            pad_errors: Vec::default(),
         }
     }
 
@@ -88,7 +91,9 @@ impl<'a, 't> Accumulator<'a, 't> {
 
         for (idx, raw) in directives.into_iter().enumerate() {
             let raw_element_idx = idx.into();
-            match self.directive(raw, raw_element_idx, &mut booked_directives) {
+            let booked = self.directive(raw, raw_element_idx, &mut booked_directives);
+            errors.append(&mut self.pad_errors);
+            match booked {
                 Ok((booked_variant, pad_txn)) => {
                     if let booked::DirectiveVariant::Balance(booked::Balance {
                         raw,
@@ -675,18 +680,18 @@ impl<'a, 't> Accumulator<'a, 't> {
         self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
-        let unused_pad = account.pad.take();
+        let unused_pad = account.pad.replace((idx, element));
 
         // unused pad directives are errors
         // https://beancount.github.io/docs/beancount_language_syntax.html#unused-pad-directives
         if let Some((_, unused_pad)) = unused_pad {
-            return Err(unused_pad
-                .report("unused, second pad encountered")
-                .related_to(element));
+            self.pad_errors.push(
+                unused_pad
+                    .report("unused, second pad encountered")
+                    .related_to(element),
+            );
         }
 
-        account.pad = Some((idx, element));
-
         Ok((
             booked::DirectiveVariant::Pad(pad.clone()),
             Some(booked::DirectiveVariant::Transaction(booked::Transaction {
-- 
2.43.0


From 03d43f0a618cd1b809c7fd92285ae5b552f5e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 09/15] fix: report a pad in a currency its source account does
 not permit

The padding transaction was booked into the source account regardless of the
currencies permitted by its open directive.
---
 rust/src/api/booking/accumulator.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 191208d..2c1bb10 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -426,7 +426,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         account.balance_window = Some(new_window);
 
         // pad can't last beyond balance
-        let pad = account.pad.take();
+        let mut pad = account.pad.take();
 
         if margin.is_none() {
             // if there was a pad directive, we ought to have used it, so:
@@ -439,6 +439,18 @@ impl<'a, 't> Accumulator<'a, 't> {
         }
         let margin = margin.unwrap();
 
+        // pad can't be used if its source account doesn't permit the currency
+        if let Some((booked_pad_idx, pad_element)) = pad
+            && let booked::DirectiveVariant::Pad(raw_pad) =
+                &booked_directives[booked_pad_idx].variant
+            && let Some(source) = self.accounts.get(raw_pad.source)
+            && let Err(e) = source.validate_currency(balance.cur, pad_element)
+        {
+            self.pad_errors.push(e);
+            pad = None;
+        }
+        let account = self.get_mut_valid_account(balance.acc, element)?;
+
         if pad.is_none() {
             // even though we have a balance error, we adjust the account to match, in order to localise balance failures
             adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
-- 
2.43.0


From 19dcbd03d0b85439d2b2397a6e7b364d61b7a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 10/15] fix: list currencies of an ambiguous auto-posting in a
 fixed order

They were listed in the iteration order of a hash map, which changes from run
to run.
---
 rust/src/api/booking/accumulator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 2c1bb10..42ec17e 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -1,7 +1,7 @@
 use beancount_parser_lima::{self as parser};
 use limabean_booking::{
     Booking, Bookings, Interpolated, LimaParserBookingTypes, LimaTolerance, Tolerance,
-    is_supported_method,
+    TransactionBookingError, is_supported_method,
 };
 
 use rust_decimal::Decimal;
@@ -308,6 +308,13 @@ impl<'a, 't> Accumulator<'a, 't> {
                 use limabean_booking::BookingError::*;
 
                 match &e {
+                    Transaction(TransactionBookingError::AutoPostMultipleBuckets(buckets)) => {
+                        // in a fixed order, as opposed to that of the hash map they came from
+                        let mut buckets = buckets.clone();
+                        buckets.sort();
+                        let e = TransactionBookingError::AutoPostMultipleBuckets(buckets);
+                        Err(element.report(e.to_string()))
+                    }
                     Transaction(e) => Err(element.report(e.to_string())),
                     Posting(idx, e) => {
                         // TODO attach posting error to actual posting
-- 
2.43.0


From 055e127bad4ea41a44db0508dfb4bbdb678bdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 11/15] fix: health reports a clojure that fails to run

The exit status of `clojure --version` was ignored, unlike that of java.
---
 rust/src/bin/limabean/health.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index a8fc172..e994606 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -36,12 +36,20 @@ fn check_clojure(verbose: bool) {
 }
 
 fn clojure_health() -> Health {
-    match Command::new("clojure")
-        .arg("--version")
-        .output()
-        .map(|op| String::from_utf8_lossy(op.stdout.as_slice()).replace("\n", "; "))
-    {
-        Ok(description) => Health::Good(format!("clojure: {}", description)),
+    match Command::new("clojure").arg("--version").output() {
+        Ok(output) => {
+            if output.status.success() {
+                Health::Good(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\n", "; ")
+                ))
+            } else {
+                Health::Bad(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\n", "; ")
+                ))
+            }
+        }
         Err(e) => Health::Bad(format!("can't find clojure: {}", &e)),
     }
 }
-- 
2.43.0


From 27c4435affe91117007ed661d98e29b663e7de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 12/15] fix: sum the balances of sub-accounts in a fixed order

---
 rust/src/api/booking/accumulator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 42ec17e..49068d4 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -7,7 +7,7 @@ use limabean_booking::{
 use rust_decimal::Decimal;
 use std::{
     borrow::Cow,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashSet},
     fmt::Debug,
     ops::Range,
 };
@@ -21,7 +21,8 @@ pub(crate) struct Accumulator<'a, 't> {
     // hashbrown HashMaps are used here for their Entry API, which is still unstable in std::collections::HashMap
     open_accounts: hashbrown::HashMap<&'a str, ElementIdx>,
     closed_accounts: hashbrown::HashMap<&'a str, ElementIdx>,
-    accounts: HashMap<&'a str, AccountBuilder<'a>>,
+    // ordered, since the scale of a sum may depend on the order of summation
+    accounts: BTreeMap<&'a str, AccountBuilder<'a>>,
     default_booking: Booking,
     tolerance: &'t LimaTolerance<'a>,
     warnings: Vec<IndexedReport>,
@@ -43,7 +44,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         Self {
             open_accounts: hashbrown::HashMap::default(),
             closed_accounts: hashbrown::HashMap::default(),
-            accounts: HashMap::default(),
+            accounts: BTreeMap::default(),
             default_booking,
             tolerance,
             warnings: Vec::default(),
-- 
2.43.0


From 407fc31b1a4c296fe1c1eb1589f873d70ce7708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 13/15] fix: pass arguments on which are not valid Unicode

---
 rust/src/bin/limabean/main.rs | 5 +++--
 rust/src/bin/limabean/run.rs  | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/bin/limabean/main.rs b/rust/src/bin/limabean/main.rs
index 121fbd8..2d39ff7 100644
--- a/rust/src/bin/limabean/main.rs
+++ b/rust/src/bin/limabean/main.rs
@@ -7,9 +7,10 @@ fn main() {
     tracing::subscriber::set_global_default(subscriber).unwrap();
 
     let runtime = Runtime::from_env();
-    let args = std::env::args().collect::<Vec<_>>();
+    // arguments need not be valid Unicode
+    let args = std::env::args_os().collect::<Vec<_>>();
 
-    if let Some("health") = args.get(1).map(String::as_str) {
+    if args.get(1).is_some_and(|arg| arg == "health") {
         health::check(&runtime, true);
     } else {
         run::run(&runtime, &args[1..]);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f520c2d 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -1,4 +1,7 @@
-use std::{ffi::OsStr, process::Command};
+use std::{
+    ffi::{OsStr, OsString},
+    process::Command,
+};
 
 pub(crate) enum Runtime {
     Java(String),
@@ -65,7 +68,7 @@ impl Runtime {
 
     fn command<S>(&self, args: &[S]) -> Command
     where
-        S: AsRef<str>,
+        S: AsRef<OsStr>,
     {
         use Runtime::*;
 
@@ -112,7 +115,7 @@ fn run_or_fail(mut cmd: Command) {
     std::process::exit(1);
 }
 
-pub(crate) fn run(runtime: &Runtime, args: &[String]) {
+pub(crate) fn run(runtime: &Runtime, args: &[OsString]) {
     let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");
     let version = args.iter().any(|arg| arg == "--version");
 
-- 
2.43.0


From 0d0f63dad77f3fa87e8efe067ebedacc095b68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 14/15] fix: echo numeric request ids unchanged whatever their
 size

---
 rust/src/api/json_rpc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 66f3788..e33600a 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -150,8 +150,8 @@ where
 pub(crate) enum Id<'a> {
     #[serde(borrow)]
     String(Cow<'a, str>),
-    Int(i64),
-    Float(f64),
+    // not altered, whatever its size
+    Number(serde_json::Number),
 }
 
 pub(crate) const JSONRPC_VERSION: &str = "2.0";
-- 
2.43.0


From 7a3544a6f1988d1868384941b08157307f10f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 15/15] fix: launcher ignored settings which are not valid
 Unicode

LIMABEAN_CLJ_LOCAL_ROOT, LIMABEAN_UBERJAR and LIMABEAN_CLJ_DEPS with a
value which is not valid Unicode were taken as not set, so that another
runtime than the one asked for was run without notice.
---
 rust/src/bin/limabean/health.rs |  9 ++++--
 rust/src/bin/limabean/run.rs    | 54 ++++++++++++++++++---------------
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index e994606..4c03b3a 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -1,4 +1,4 @@
-use std::{path::Path, process::Command};
+use std::{ffi::OsStr, path::Path, process::Command};
 
 use super::run::Runtime;
 
@@ -54,14 +54,17 @@ fn clojure_health() -> Health {
     }
 }
 
-fn check_java(uberjar: &str, verbose: bool) {
+fn check_java(uberjar: &OsStr, verbose: bool) {
     match java_health() {
         Health::Good(description) => {
             if verbose {
                 eprintln!("{}", description);
             }
 
-            match Path::new(uberjar).try_exists() {
+            let uberjar = Path::new(uberjar);
+            let exists = uberjar.try_exists();
+            let uberjar = uberjar.display();
+            match exists {
                 Ok(false) => {
                     eprintln!("uberjar {} not found", uberjar);
                     std::process::exit(1);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index f520c2d..505728b 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 pub(crate) enum Runtime {
-    Java(String),
-    Clojure(String),
+    Java(OsString),
+    Clojure(OsString),
 }
 
 const LIMABEAN_CLJ_LOCAL_ROOT: &str = "LIMABEAN_CLJ_LOCAL_ROOT";
@@ -27,42 +27,46 @@ fn warn_uberjar_extra_deps_ignored() {
 }
 
 impl Runtime {
-    fn clojure(limabean_coord: String) -> Self {
-        Runtime::Clojure(format!(
-            r###"{{:deps {{io.github.tesujimath/limabean {}}}}}"###,
-            limabean_coord
-        ))
+    fn clojure(limabean_coord: OsString, extra_deps: Option<OsString>) -> Self {
+        let mut deps = OsString::from("{:deps {io.github.tesujimath/limabean ");
+        deps.push(limabean_coord);
+        if let Some(extra_deps) = extra_deps {
+            deps.push(" ");
+            deps.push(extra_deps);
+        }
+        deps.push("}}");
+
+        Runtime::Clojure(deps)
     }
 
-    fn java(uberjar: String) -> Self {
+    fn java(uberjar: OsString) -> Self {
         Runtime::Java(uberjar)
     }
 
     pub(crate) fn from_env() -> Self {
-        let extra_deps = std::env::var(LIMABEAN_CLJ_DEPS).map(|s| format!(" {}", s));
-
-        if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
-            Runtime::clojure(format!(
-                r###"{{:local/root "{}"}}{}"###,
-                &local_root,
-                extra_deps.unwrap_or("".to_string())
-            ))
-        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-            if extra_deps.is_ok() {
+        // values need not be valid Unicode
+        let extra_deps = std::env::var_os(LIMABEAN_CLJ_DEPS);
+
+        if let Some(local_root) = std::env::var_os(LIMABEAN_CLJ_LOCAL_ROOT) {
+            let mut coord = OsString::from("{:local/root \"");
+            coord.push(local_root);
+            coord.push("\"}");
+            Runtime::clojure(coord, extra_deps)
+        } else if let Some(uberjar) = std::env::var_os(LIMABEAN_UBERJAR) {
+            if extra_deps.is_some() {
                 warn_uberjar_extra_deps_ignored();
             }
             Runtime::java(uberjar)
         } else if let Some(uberjar) = LIMABEAN_UBERJAR_BUILDTIME {
-            if extra_deps.is_ok() {
+            if extra_deps.is_some() {
                 warn_uberjar_extra_deps_ignored();
             }
-            Runtime::java(uberjar.to_string())
+            Runtime::java(uberjar.into())
         } else {
-            Runtime::clojure(format!(
-                r###"{{:mvn/version "{}"}}{}"###,
-                VERSION,
-                extra_deps.unwrap_or("".to_string())
-            ))
+            Runtime::clojure(
+                format!(r###"{{:mvn/version "{}"}}"###, VERSION).into(),
+                extra_deps,
+            )
         }
     }
 
-- 
2.43.0

