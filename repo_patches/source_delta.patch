From 017b46f4c18af131a726b68fbc541dd41a4607fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 01/16] fix: do not break the line after every fragment when
 colors are disabled

---
 src/console.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From d9fe876f9c98acd9eb306729ca98242899d3bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 02/16] fix: end the "no hosts/net" line

---
 src/cmds/show_net.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..3f44c24 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -120,6 +120,7 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
+            println!();
         }
     }
 }
-- 
2.43.0


From fcd45d20eb667a05535cbe7f4a4bd039585240bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 03/16] fix: borrow from the top half whenever the bottom half
 of an IPv6 subtraction underflows

---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..e46b4f2 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From eb725821178471d9c890f2e7a77ff7ed39ef508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 04/16] fix: handle the smallest possible offset in IPv6
 address arithmetic

---
 src/addr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index e46b4f2..a1118d8 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -356,7 +356,10 @@ impl IpAddress for Ipv6Address {
 
     fn add_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::subtract_offset(&self, -offset)
+            Ipv6Address::sub_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::add_internal(
                 self.top_half, self.bottom_half,
@@ -374,7 +377,10 @@ impl IpAddress for Ipv6Address {
 
     fn subtract_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::add_offset(&self, -offset)
+            Ipv6Address::add_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::sub_internal(
                 self.top_half, self.bottom_half,
-- 
2.43.0


From 23cf15bd00f3dab4fc09cc257462c64fe9d8ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 05/16] fix: output all chunks in the full representation of an
 IPv6 address

---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index a1118d8..7ae6e2a 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From 6bd06999edcb5cecd5b41c68a67b25ae0d642681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 06/16] fix: accept :: in place of a single group at either end
 of an IPv6 address, reject dangling colons

---
 src/addr.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 7ae6e2a..0e9d86b 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -394,19 +394,31 @@ impl FromStr for Ipv6Address {
     type Err = IpAddressParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut addr_str = String::from(s);
-        if addr_str.starts_with(':') {
-            addr_str.insert(0, '0');
+        let mut chunks: Vec<&str> = s.split(":").collect();
+        if s.starts_with("::") {
+            // only one of the two empty chunks stands for the zeroes
+            chunks.remove(0);
         }
-        if addr_str.ends_with(':') {
-            addr_str.push('0');
+        if s.ends_with("::") {
+            chunks.pop();
         }
-
-        let chunks: Vec<&str> = addr_str.split(":").collect();
         if chunks.len() > 8 {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
 
+        // a single colon at either end separates nothing
+        let dangling_start = s.starts_with(':') && !s.starts_with("::");
+        let dangling_end = s.ends_with(':') && !s.ends_with("::");
+        if dangling_start || dangling_end {
+            return Err(if chunks.len() != 8 {
+                IpAddressParseError::IncorrectChunkCount(chunks.len(), 8)
+            } else if dangling_start {
+                IpAddressParseError::EmptyChunk(0)
+            } else {
+                IpAddressParseError::EmptyChunk(7)
+            });
+        }
+
         // how many shortening elements do we have?
         let shortening_count = chunks.iter()
             .filter(|x| x.len() == 0)
-- 
2.43.0


From 0f8bae1943698575731e85e8cece81085780e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 07/16] fix: reject signs within addresses

---
 src/addr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0e9d86b..10f3282 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -46,6 +46,12 @@ pub trait IpAddress: BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Outpu
     fn subtract_offset(&self, offset: i32) -> Option<Self>;
 }
 
+/// Returns the address chunk unchanged or, if it starts with a sign (which Rust's integer parsers
+/// would accept), only the sign, which no integer parser accepts.
+fn without_sign(chunk: &str) -> &str {
+    if chunk.starts_with('+') { "+" } else { chunk }
+}
+
 /// An IPv4 address.
 #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub struct Ipv4Address {
@@ -147,7 +153,7 @@ impl FromStr for Ipv4Address {
                 return Err(IpAddressParseError::EmptyChunk(i));
             }
 
-            let chunk_val: u32 = chunks[i].parse()
+            let chunk_val: u32 = without_sign(chunks[i]).parse()
                 .map_err(|e| IpAddressParseError::ChunkParseError(i, String::from(chunks[i]), e))?;
             if chunk_val > 255 {
                 return Err(IpAddressParseError::ChunkOutOfRange(i, chunk_val, 0, 255));
@@ -472,7 +478,7 @@ impl FromStr for Ipv6Address {
             let shift_count_within_half = shift_count % 64;
             let into_top_half = i < 4;
 
-            let chunk_value = match u16::from_str_radix(&actual_chunks[i], 16) {
+            let chunk_value = match u16::from_str_radix(without_sign(&actual_chunks[i]), 16) {
                 Ok(v) => v,
                 Err(e)
                     => return Err(IpAddressParseError::ChunkParseError(i, actual_chunks[i].clone(), e)),
-- 
2.43.0


From dc36b9335bf174d961d08e9779e3bb09580c10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 08/16] fix: accept uppercase hexadecimal digits in IPv6
 network specifications

---
 src/cmds/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..4edb50c 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -25,10 +25,10 @@ static IPV4_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
     Regex::new("^(?P<addr>[0-9]+(?:[.][0-9]+){3})/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 static IPV6_WITH_SUBNET_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-f:]*:[0-9a-f:]*)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9A-Fa-f:]*:[0-9A-Fa-f:]*)$").unwrap()
 );
 static IPV6_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 
 
-- 
2.43.0


From 6dbc6c22d28fed75dc2f8665e0560ea353680d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 09/16] fix: derange ranges that touch the end of the address
 space

---
 src/cmds/derange.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..f3e9823 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -66,11 +66,20 @@ pub fn range_to_subnets<A: IpAddress>(
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
         // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
+        let current_prefix = current_subnet.cidr_prefix().unwrap();
+        if current_prefix == 0 {
+            // the whole address space
+            ret.push(current_subnet);
+            break;
+        }
+        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_prefix - 1);
         if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(addr) => addr,
+                None => break, // reached the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From 063af455f528538ae88f51b6b12a04038c486c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 10/16] fix: do not list unused networks after a split that
 fills the network

---
 src/cmds/split.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..17067fe 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -73,8 +73,9 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .expect("no subnets returned");
     if !subnet.contains(&max_used_address) {
         println!("Network is too small");
-    } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
+    } else if max_used_address < subnet.last_addr_of_subnet() {
         println!("Unused networks:");
+        let next_unused_address = max_used_address.add_offset(1).expect("address before last address of subnet");
         let last_address = subnet.last_addr_of_subnet();
         let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-- 
2.43.0


From a6a319dcaa121f4ff061d97e8dbff34fef73700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 11/16] fix: split networks that reach the end of the address
 space or span all of it

---
 src/cmds/split.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 17067fe..b6b9bf6 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -101,8 +101,10 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        // None: the previous network ends at the end of the address space
+        let mut current_net = IpNetwork::new_with_prefix(next_base_addr?, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
@@ -111,18 +113,14 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
+        if current_net.host_count() < host_count {
             // this won't fit
             return None;
         }
 
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From d0ca5eb8774bb3bbbd1cac83ee204fcf4a0cf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 12/16] fix: refuse a split whose networks do not fit into the
 network instead of allotting foreign addresses

---
 src/cmds/split.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index b6b9bf6..e22c1c9 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -61,6 +61,10 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
             return 1;
         },
     };
+    if split_subnets.iter().any(|sn| !subnet.is_superset_of(sn)) {
+        println!("Network is too small");
+        return 1;
+    }
     for (host_count, splitnet) in host_counts.iter().zip(&split_subnets) {
         println!("Subnet for {} hosts:", host_count);
         output_network(*splitnet, None);
@@ -71,9 +75,7 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
-        println!("Network is too small");
-    } else if max_used_address < subnet.last_addr_of_subnet() {
+    if max_used_address < subnet.last_addr_of_subnet() {
         println!("Unused networks:");
         let next_unused_address = max_used_address.add_offset(1).expect("address before last address of subnet");
         let last_address = subnet.last_addr_of_subnet();
-- 
2.43.0


From e4ad13fcfc431bf672575e68c89f38570ca8ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 13/16] fix: remove networks contained in a merged network when
 minimizing

---
 src/cmds/minimize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..57020e2 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -116,6 +116,8 @@ pub fn minimize_subnets<A: IpAddress>(
                 // replace the lower subnets with the upper subnet
                 filtered_subnets.remove(&subnets[i]);
                 filtered_subnets.remove(&subnets[j]);
+                // (and any other networks it contains)
+                filtered_subnets.retain(|net| !new_subnet.is_superset_of(net));
                 filtered_subnets.insert(new_subnet);
 
                 subnets_merged = true;
-- 
2.43.0


From 34fb8d93fc11a6a69d61d1e1c01fe6bb597ca510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 14/16] fix: answer correctly whether networks with mixed
 subnet masks intersect

---
 src/net.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..6b87bf7 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,8 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // they intersect unless they differ in a bit that is a network bit of both
+        (self.base_addr & other.subnet_mask) == (other.base_addr & self.subnet_mask)
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 225ceaa161c49c89f97cc10fb7f3bceaab748c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 15/16] fix: report arguments that are not valid Unicode
 instead of panicking

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..96c5208 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,9 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From 9dfd2dea6ba419d0659435aee7e85cf0067a3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:19 +0000
Subject: [PATCH 16/16] fix: keep marking the class bits of IPv4 networks whose
 first zero bit decides the class

---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 3f44c24..00e9b6c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -177,11 +177,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0

