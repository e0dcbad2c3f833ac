From 97e0d0855e6a87f5f1be6ab2dd76bc8c33eec376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 01/29] fix: keep escaped characters and the last label when
 splitting a name

---
 src/utils.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..de02365 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -55,24 +55,24 @@ vector<NodeLabel> LabelUtils::StringToLabels(string domain_name)
     if (domain_name.length() == 0) {
         return tokens;
     }
-    if (domain_name[domain_name.length() - 1] != '.') {
-        domain_name += ".";
-    }
     // boost::algorithm::split(labels, name, boost::is_any_of(".")); // Avoiding this for the case where . is written
     // with \. and root zone.
     string previous = "";
-    for (auto it = domain_name.begin(); it < domain_name.end(); ++it) {
-        if (*it == '.' && previous.length() > 0) {
-            if (previous.back() == '\\') {
-                previous += *it;
-            } else {
-                tokens.push_back(std::move(previous));
-                previous = "";
-            }
+    for (size_t i = 0; i < domain_name.length(); i++) {
+        if (domain_name[i] == '\\' && i + 1 < domain_name.length()) {
+            // An escaped character belongs to the label, even if it is a dot or a backslash.
+            previous += domain_name[i];
+            previous += domain_name[++i];
+        } else if (domain_name[i] == '.' && previous.length() > 0) {
+            tokens.push_back(std::move(previous));
+            previous = "";
         } else {
-            previous += *it;
+            previous += domain_name[i];
         }
     }
+    if (previous.length() > 0 && previous != ".") {
+        tokens.push_back(std::move(previous));
+    }
     std::reverse(tokens.begin(), tokens.end());
     return tokens;
 }
-- 
2.43.0


From ad1cd8be0a6bf0f1ed5a86f81be5339481f054c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 02/29] fix: accept names of exactly 254 and 255 octets

---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index de02365..3b0dd17 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -38,7 +38,8 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
         }
         length += l.get().length() + 1;
     }
-    if (length > kMaxDomainLength) {
+    // length counts one octet per label as well: 254 plus the root label is the limit of 255
+    if (length > kMaxDomainLength + 1) {
         if (level == 2) {
             Logger->warn(fmt::format(
                 "label-graph.cpp (GenerateECs) - Userinput, {}, exceedes the valid domain length",
-- 
2.43.0


From 6daf03bd3c4c25bb7ea90086cf6967820a85c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 03/29] fix: report zero TTLs only for records of the requested
 types

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..b90a55c 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -218,7 +218,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From 45c15df045b0f858ba3140de3e33068d6a4075d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 04/29] fix: compare expected response values without regard to
 letter case

---
 src/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..4ac2ca9 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -252,6 +252,7 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 215a424c000495804a31cd54748614c4d69cec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 05/29] fix: check expected values at an alias only if CNAME is
 requested

---
 src/properties.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index b90a55c..92cf824 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -93,6 +93,10 @@ void interpretation::Graph::Properties::CheckResponseValue(
     json tmp;
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & types_requested).count() > 0) {
+            if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && !types_requested[RRType::CNAME]) {
+                // The path ends here only for the CNAME type, which this property does not ask for.
+                continue;
+            }
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
                 set<string> rdatas;
-- 
2.43.0


From f9128fdb160cde1ca60accec954adc9666529edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 06/29] fix: compare only requested types, and aliases only
 with aliases, for response consistency

---
 src/properties.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 92cf824..2a4c675 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -141,6 +141,16 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
     boost::optional<vector<zone::LookUpAnswer>> response;
     bool incomplete = false;
     bool foundDiff = false;
+    // The records of an answer that are of the requested types
+    auto requested = [&typesReq](const zone::LookUpAnswer &answer) {
+        vector<ResourceRecord> records;
+        for (auto &r : std::get<2>(answer)) {
+            if (typesReq[r.get_type()]) {
+                records.push_back(r);
+            }
+        }
+        return records;
+    };
     /*
        CNAME end nodes - (1) Nodes with Rewrite tag in this vector
                          (2) Nodes with the query requesting for CNAME (covers 1 too)
@@ -154,14 +164,18 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
+                    if (graph[vd].query.rrTypes[RRType::CNAME] && typesReq[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
                     }
+                    if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // The path ends here only for the CNAME type.
+                        continue;
+                    }
                     if (!response) {
                         response = answer;
                     } else {
                         CommonSymDiff diff =
-                            RRUtils::CompareRRs(std::get<2>(answer.get()[0]), std::get<2>(response.get()[0]));
+                            RRUtils::CompareRRs(requested(answer.get()[0]), requested(response.get()[0]));
                         if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                             foundDiff = true;
                         }
@@ -186,7 +200,7 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                 // If only CNAME is requested then the answer will only have one element
                 // If CNAME and other types are requested then there might be a node with Rewrite
                 CommonSymDiff diff =
-                    RRUtils::CompareRRs(std::get<2>(graph[vd].answer.get()[0]), std::get<2>(response.get()[0]));
+                    RRUtils::CompareRRs(requested(graph[vd].answer.get()[0]), requested(response.get()[0]));
                 if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                     foundDiff = true;
                 }
-- 
2.43.0


From 5bb5faa9ef85f0c81c3f5b774e0953ba24438433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 07/29] fix: compare only name-server addresses as glue of the
 child

---
 src/properties.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index 2a4c675..5422d8a 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -389,6 +389,21 @@ void interpretation::Graph::Properties::CheckDelegationConsistency(
                     }
                 }
 
+                // The child's answer may hold addresses that are not of its name servers (the query asks for addresses
+                // too), and those of a name server that is the domain itself occur twice.
+                vector<ResourceRecord> child_glue_records;
+                for (auto &r : std::get<1>(child_records)) {
+                    bool is_nameserver = std::any_of(
+                        std::get<0>(child_records).begin(), std::get<0>(child_records).end(), [&r](const ResourceRecord &ns) {
+                            return LabelUtils::StringToLabels(ns.get_rdata()) == r.get_name();
+                        });
+                    if (is_nameserver &&
+                        std::find(child_glue_records.begin(), child_glue_records.end(), r) == child_glue_records.end()) {
+                        child_glue_records.push_back(r);
+                    }
+                }
+                std::get<1>(child_records) = std::move(child_glue_records);
+
                 CommonSymDiff ns_diff = RRUtils::CompareRRs(std::get<0>(parent_records), std::get<0>(child_records));
                 CommonSymDiff glue_diff = RRUtils::CompareRRs(std::get<1>(parent_records), std::get<1>(child_records));
                 if (std::get<1>(ns_diff).size() || std::get<2>(ns_diff).size()) {
-- 
2.43.0


From 3ba602247de2d1168af6070e9dcaf2d47d33e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 08/29] fix: generate classes for names of the greatest lengths

---
 src/label-graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..7d82502 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -465,7 +465,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len > kMaxDomainLength + 1 || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -487,7 +487,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength + 1) {
         return;
     }
     (*this)[start].len = static_cast<int16_t>(nodeLen);
-- 
2.43.0


From bc512230cedb9839c59e3b7a54982daaa484d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 09/29] fix: keep the mark of undefined names when applying a
 DNAME

---
 src/interpretation-graph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..06403d9 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -336,6 +336,7 @@ EC interpretation::Graph::ProcessDname(const ResourceRecord &record, const EC qu
     EC new_query;
     new_query.excluded = query.excluded;
     new_query.rrTypes = query.rrTypes;
+    new_query.nonExistent = query.nonExistent;
     new_query.name = std::move(rdata_labels);
     return new_query;
 }
-- 
2.43.0


From b4f47df492b7b28e53d6653e47235bb799118677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 10/29] fix: load DS records, which the parser accepts, instead
 of ending in an exception

---
 src/resource-record.h | 2 +-
 src/utils.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resource-record.h b/src/resource-record.h
index 97e424f..7f1092b 100644
--- a/src/resource-record.h
+++ b/src/resource-record.h
@@ -5,7 +5,7 @@
 
 enum RRClass { CLASS_IN = 1, CLASS_CH = 3 };
 
-enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, N };
+enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, DS, N };
 
 class ResourceRecord
 {
diff --git a/src/utils.cpp b/src/utils.cpp
index 3b0dd17..99797d7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -128,12 +128,14 @@ RRType TypeUtils::StringToType(const string &type)
         return NSEC;
     } else if (type == "SPF") {
         return SPF;
+    } else if (type == "DS") {
+        return DS;
     }
     return N;
 }
 
 string type_to_string[] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
-                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF"};
+                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF", "DS"};
 
 string TypeUtils::TypeToString(RRType type)
 {
-- 
2.43.0


From 597c2315d63cfe7651bd8438e1bc32ca9a9ebec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 11/29] fix: load the last record of a zone file that does not
 end in a newline

---
 src/zone-file-parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..950ac08 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -369,7 +369,12 @@ inline string ReadFromFile(char const *infile)
         exit(-1);
     }
     instream.unsetf(ios::skipws);
-    return string(std::istreambuf_iterator<char>(instream.rdbuf()), istreambuf_iterator<char>());
+    string contents{std::istreambuf_iterator<char>(instream.rdbuf()), istreambuf_iterator<char>()};
+    // The last record counts even if its line is not terminated
+    if (!boost::algorithm::ends_with(contents, "\n")) {
+        contents += "\n";
+    }
+    return contents;
 }
 
 int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string origin, bool lint)
-- 
2.43.0


From 9300cf70f7e9dce2754abddca8a4609a492e4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 12/29] fix: use the $TTL value, or else the last stated TTL,
 for records without a TTL

---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 950ac08..042e895 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -15,6 +15,7 @@ struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
     bool lint = false;
+    bool found_TTL = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
 };
@@ -112,6 +113,7 @@ struct Parser {
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
                     default_values.set_ttl(std::stoi(current_record[1]));
+                    mc.found_TTL = true;
                     current_record.clear();
                     return true;
                 }
@@ -172,7 +174,8 @@ struct Parser {
                             class_ = 1;
                         } else if (isInteger(field)) {
                             ttl = std::stoi(field);
-                            if (default_values.get_ttl() == 0)
+                            // Without a $TTL entry the last explicitly stated TTL is the default
+                            if (!mc.found_TTL)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From b7eb59b88c1862ab7d960c37db3ad1c64b2f1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 13/29] fix: diagnose directives without a valid argument and
 TTLs out of range

---
 src/zone-file-parser.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 042e895..e5fc7e6 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -98,6 +98,12 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
+                    if (current_record.size() < 2) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $ORIGIN entry without a name at line - {} in file - {}",
+                            l, mc.file_name));
+                        return false;
+                    }
                     relative_domain_suffix = current_record[1];
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
@@ -112,7 +118,14 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
+                    try {
+                        default_values.set_ttl(std::stoi(current_record.at(1)));
+                    } catch (std::logic_error &) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $TTL entry without a valid value at line - {} in file - {}",
+                            l, mc.file_name));
+                        return false;
+                    }
                     mc.found_TTL = true;
                     current_record.clear();
                     return true;
@@ -358,8 +371,8 @@ struct Parser {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
             return false;
         char *p;
-        strtol(s.c_str(), &p, 10);
-        return (*p == 0);
+        long value = strtol(s.c_str(), &p, 10);
+        return (*p == 0) && value >= 0 && value <= INT32_MAX;
     }
 };
 
-- 
2.43.0


From 4d922fdd779c8334734611d6fed60d1ebcfaafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 14/29] fix: never take the owner name of a record for its type

---
 src/zone-file-parser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e5fc7e6..ca96580 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -352,16 +352,15 @@ struct Parser {
                                   "AAAA", "SRV", "DNAME", "RRSIG", "NSEC", "DS",  "SPF"};
 
         int index = -1;
-        int i = 0;
-        for (auto &field : current_record) {
-            string f(field);
+        // The first field is the owner name (empty if it is omitted), even if it reads like a type
+        for (int i = 1; i < current_record.size(); i++) {
+            string f(current_record[i]);
             if (f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
                 }
             }
-            i++;
         }
         return index;
     }
-- 
2.43.0


From 859638cd3ca97bf284da4e9b0692c88e4708a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 15/29] fix: complete relative owners, targets and origins as
 RFC 1035 prescribes

---
 src/zone-file-parser.cpp | 51 +++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index ca96580..080c8a3 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -104,7 +104,7 @@ struct Parser {
                             l, mc.file_name));
                         return false;
                     }
-                    relative_domain_suffix = current_record[1];
+                    relative_domain_suffix = CompleteName(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
@@ -146,6 +146,11 @@ struct Parser {
                     }
                 }
 
+                // The owner of the records that follow without one, whether or not this record is handled
+                if (current_record[0].size() > 0) {
+                    default_values.set_name(CompleteName(current_record[0], relative_domain_suffix));
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -175,8 +180,7 @@ struct Parser {
                     if (i < typeIndex) {
                         if (i == 0) {
                             if (field.size() > 0) {
-                                name = field;
-                                default_values.set_name(field);
+                                name = CompleteName(field, relative_domain_suffix);
                             }
                         } else if (boost::iequals(field, "CH")) {
                             Logger->warn(fmt::format(
@@ -210,28 +214,12 @@ struct Parser {
                         relative_domain_suffix = name;
                     }
                 }
-                if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
-                    default_values.set_name(name);
-                }
                 // compare returns zero when equal
-                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
-                        rdata = rdata + "." + relative_domain_suffix;
-                    }
+                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX") ||
+                    !type.compare("PTR") || !type.compare("SRV")) {
+                    // The target is the last field of the data
+                    size_t target = rdata.rfind(' ') + 1;
+                    rdata = rdata.substr(0, target) + CompleteName(rdata.substr(target), relative_domain_suffix);
                 }
                 boost::to_lower(rdata);
                 boost::to_lower(name);
@@ -365,6 +353,18 @@ struct Parser {
         return index;
     }
 
+    // The absolute name that a possibly relative name in a zone file stands for
+    string CompleteName(const string &name, const string &origin) const
+    {
+        if (name == "@") {
+            return origin;
+        }
+        if (boost::algorithm::ends_with(name, ".")) {
+            return name;
+        }
+        return name + "." + (origin == "." ? "" : origin);
+    }
+
     inline bool isInteger(const std::string &s) const
     {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
@@ -414,6 +414,9 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
     size_t l = 0;
     int parenCount = 0;
     string relative_domain = origin;
+    if (origin.length() > 0 && !boost::algorithm::ends_with(origin, ".")) {
+        relative_domain += ".";
+    }
     ResourceRecord defaultValues("", "", 0, 0, "");
     vector<string> currentRecord;
 
-- 
2.43.0


From 38689cf1e59cfaac41626b713a811c34061aa56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 16/29] fix: accept zones whose origin is the root

---
 src/zone-graph.cpp | 5 +++--
 src/zone-graph.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..7a6e342 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -127,6 +127,7 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
     (*this)[node].rrs.push_back(record);
     if (record.get_type() == RRType::SOA) {
         origin_ = record.get_name();
+        found_SOA_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !found_SOA_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!found_SOA_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..d656761 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -47,6 +47,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     int id_;
     vector<NodeLabel> origin_;
+    bool found_SOA_ = false; // the origin is known, though it may be the root
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
 
-- 
2.43.0


From 6da59b4f83c976182c6babc1f153817b79a8efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 17/29] fix: exit with a failure status when an exception ends
 the program

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1bf49352bf3fe2b46afc200be653fee91f5cc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 18/29] fix: forget the structural delegation check of an
 earlier job

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 4ac2ca9..173d448 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -221,6 +221,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     for (auto &property : user_job["Properties"]) {
         string name = property["PropertyName"];
@@ -385,6 +386,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     current_job_.types_req.set(RRType::NS);
 
-- 
2.43.0


From c8a538469ce59a2aca11b89677c7f01ea1ca8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 19/29] fix: recognise a SOA record whose owner name is omitted

---
 src/zone-file-parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 080c8a3..36d9c7b 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -208,7 +208,8 @@ struct Parser {
                 rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
-                } else if (type == "SOA") {
+                }
+                if (type == "SOA") {
                     mc.found_SOA = true;
                     if (relative_domain_suffix.size() == 0) {
                         relative_domain_suffix = name;
@@ -417,7 +418,8 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
     if (origin.length() > 0 && !boost::algorithm::ends_with(origin, ".")) {
         relative_domain += ".";
     }
-    ResourceRecord defaultValues("", "", 0, 0, "");
+    // The first record's owner, if it is omitted, is the origin
+    ResourceRecord defaultValues(relative_domain, "", 0, 0, "");
     vector<string> currentRecord;
 
     zone_file_tokens<lex::lexertl::lexer<>> zone_functor;
-- 
2.43.0


From 942088fb6b2072d052148dc6230e4a0a58007acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 20/29] fix: compare a delegation with its closest parent also
 if the root zone has records for it

---
 src/label-graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 7d82502..505860f 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
-- 
2.43.0


From 2c2ee24309934bea3bfae0212cbd4c28c02e3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 21/29] fix: do not let class generation threads disturb each
 other's loop marks

---
 src/label-graph.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 505860f..aa6d409 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -583,22 +583,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 vector<NodeLabel> parent_domain_name = labels;
                 if (parent_domain_name.size())
                     parent_domain_name.pop_back();
-                vector<std::thread> ECproducers;
                 if (current_job.ec_queue.size_approx() != 0) {
                     Logger->warn(fmt::format(
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
-                // EC producer threads
+                // One encloser after the other, as the traversals mark the nodes of the graph they share
                 for (auto &encloser : closest_enclosers) {
-                    ECproducers.push_back(thread([&]() {
-                        SubDomainECGeneration(
-                            encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
-                    }));
-                }
-                for (auto &t : ECproducers) {
-                    t.join();
+                    SubDomainECGeneration(
+                        encloser.first, parent_domain_name, false, current_job, context,
+                        current_job.check_structural_delegations);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From eb13b270d1e4658197f07c6cc45b8b3100cfeea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 22/29] fix: do not take delegations reached through a DNAME
 for delegations of the domain

---
 src/label-graph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index aa6d409..855f9c0 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -588,11 +588,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
+                // Delegations below an encloser that is reached through a DNAME are not delegations of this domain
+                int index = 0;
+                vector<VertexDescriptor> vertices_to_create_maps{};
+                VertexDescriptor domain_node = GetAncestor(root_, labels, vertices_to_create_maps, index);
                 // One encloser after the other, as the traversals mark the nodes of the graph they share
                 for (auto &encloser : closest_enclosers) {
                     SubDomainECGeneration(
                         encloser.first, parent_domain_name, false, current_job, context,
-                        current_job.check_structural_delegations);
+                        current_job.check_structural_delegations && index == labels.size() &&
+                            encloser.first == domain_node);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From 0eb8fb22d819b8f04692d9039790f056575e3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 23/29] fix: write reports on names with bytes that are not
 UTF-8

---
 src/driver.cpp | 3 ++-
 src/utils.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 173d448..e2eb746 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -459,7 +459,8 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        // Names may hold bytes that are not valid UTF-8, which JSON cannot represent
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index 99797d7..01740ed 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -208,7 +208,8 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        // Records may hold bytes that are not valid UTF-8, which JSON cannot represent
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From ded7fca17a6541207c4e8f3dbea7fec1a3dd5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 24/29] fix: name the checked query in response consistency and
 zero TTL reports

---
 src/properties.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 5422d8a..7d7c0fc 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -211,7 +211,8 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
     if (foundDiff) {
         json tmp;
         tmp["Property"] = "Response Consistency";
-        tmp["Query"] = graph[end_nodes[0]].query.ToString();
+        // The end nodes may be for different names, in an arbitrary order
+        tmp["Query"] = graph[graph.root_].query.ToString();
         json_queue.enqueue(tmp);
     }
 }
@@ -239,7 +240,8 @@ void interpretation::Graph::Properties::ZeroTTL(
                         if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
-                            tmp["Query"] = graph[end_nodes[0]].query.ToString();
+                            // The end nodes may be for different names, in an arbitrary order
+        tmp["Query"] = graph[graph.root_].query.ToString();
                             tmp["Violation"]["Nameserver"] = graph[vd].ns;
                             tmp["Violation"]["Record"] = r.toString();
                             json_queue.enqueue(tmp);
-- 
2.43.0


From 9922a4184d15b3a65b5dfbb9f5bd231509b0faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 25/29] fix: do not take a zone without NS records for a name
 for its parent

---
 src/label-graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 855f9c0..14ebe47 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -199,7 +199,8 @@ void label::Graph::CheckStructuralDelegationConsistency(
                             std::get<0>(zoneId_vertexId_pair), boost::optional<vector<ResourceRecord>>{},
                             std::move(ns_records)));
                     }
-                } else {
+                } else if (ns_records.size()) {
+                    // A zone without NS records for the domain does not delegate it.
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-- 
2.43.0


From ef4654b1b687cdd491aa5d6a52e06813f4dddba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 26/29] fix: keep escaped characters in the word or quoted
 string they stand in

---
 src/zone-file-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 36d9c7b..749a10d 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -34,8 +34,8 @@ enum TokenIds {
 template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
-        this->self.add("\\\"[^\\\"]*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
-            "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
+        this->self.add("\\\"([^\\\"\\\\]|\\\\(.|\n))*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
+            "([^ ;\t\r\n\\(\\)\\\"\\\\]|\\\\[^\r\n])+",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
 };
-- 
2.43.0


From 565952b0c11a48029c8cb46f7ef1937bd4a8c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 27/29] fix: count the lines inside quoted strings

---
 src/zone-file-parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 749a10d..9def226 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -70,6 +70,7 @@ struct Parser {
             break;
         case ID_TEXT_WORD: {
             std::string tokenvalue(t.value().begin(), t.value().end());
+            l += std::count(tokenvalue.begin(), tokenvalue.end(), '\n');
             current_record.push_back(std::move(tokenvalue));
             break;
         }
-- 
2.43.0


From 8339e9a0504da7a3bbebc1b1a67a75a686410024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 28/29] fix: count an escape sequence in a name as one octet

---
 src/label-graph.cpp |  4 ++--
 src/utils.cpp       | 17 +++++++++++++++--
 src/utils.h         |  1 +
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 14ebe47..79666bb 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -464,7 +464,7 @@ void label::Graph::SubDomainECGeneration(
 {
     size_t len = 0;
     for (NodeLabel &l : parent_domain_name) {
-        len += l.get().length() + 1;
+        len += LabelUtils::OctetLength(l.get()) + 1;
     }
     if (len > kMaxDomainLength + 1 || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
@@ -486,7 +486,7 @@ void label::Graph::SubDomainECGeneration(
     int16_t beforeLen = (*this)[start].len;
     size_t nodeLen = 0;
     for (NodeLabel &l : name) {
-        nodeLen += l.get().length() + 1;
+        nodeLen += LabelUtils::OctetLength(l.get()) + 1;
     }
     if (nodeLen > kMaxDomainLength + 1) {
         return;
diff --git a/src/utils.cpp b/src/utils.cpp
index 01740ed..3a63052 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -24,11 +24,24 @@ string LabelUtils::LabelsToString(vector<vector<NodeLabel>> domains)
     return result + "]";
 }
 
+size_t LabelUtils::OctetLength(const string &label)
+{
+    // An escape sequence (a backslash and three digits, or a backslash and another character) stands for one octet.
+    size_t octets = 0;
+    for (size_t i = 0; i < label.length(); i++, octets++) {
+        if (label[i] == '\\') {
+            i += i + 3 < label.length() && isdigit(label[i + 1]) && isdigit(label[i + 2]) && isdigit(label[i + 3]) ? 3 : 1;
+        }
+    }
+    return octets;
+}
+
 tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int level)
 {
     int length = 0;
     for (NodeLabel &l : domain_labels) {
-        if (l.get().length() > kMaxLabelLength) {
+        size_t octets = OctetLength(l.get());
+        if (octets > kMaxLabelLength) {
             if (level == 2) {
                 Logger->warn(fmt::format(
                     "label-graph.cpp (GenerateECs) - Userinput, {}, has a label, {}, exceedeing the valid label length",
@@ -36,7 +49,7 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
             }
             return {false, l.get()};
         }
-        length += l.get().length() + 1;
+        length += octets + 1;
     }
     // length counts one octet per label as well: 254 plus the root label is the limit of 255
     if (length > kMaxDomainLength + 1) {
diff --git a/src/utils.h b/src/utils.h
index 25b7ff2..4a99594 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -10,6 +10,7 @@ class LabelUtils
   public:
     static string LabelsToString(vector<NodeLabel>);
     static string LabelsToString(vector<vector<NodeLabel>>);
+    static size_t OctetLength(const string &);
     static tuple<bool, string> LengthCheck(vector<NodeLabel>, int);
     static vector<NodeLabel> StringToLabels(string);
     static bool SubDomainCheck(const vector<NodeLabel> &, const vector<NodeLabel> &);
-- 
2.43.0


From c32d9c81811aefa80e56a9e29f217000452a7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 29/29] fix: complete relative names that end in an escaped dot

---
 src/zone-file-parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 9def226..fcab1f8 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -362,7 +362,14 @@ struct Parser {
             return origin;
         }
         if (boost::algorithm::ends_with(name, ".")) {
-            return name;
+            // An escaped dot is part of the last label
+            size_t slashes = 0;
+            while (slashes + 1 < name.length() && name[name.length() - 2 - slashes] == '\\') {
+                slashes++;
+            }
+            if (slashes % 2 == 0) {
+                return name;
+            }
         }
         return name + "." + (origin == "." ? "" : origin);
     }
-- 
2.43.0

