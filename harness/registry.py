"""The checks: harness, compile-time switches, bounds of the quick tier, what the thorough tier adds, scenarios that must occur."""
PROPS = {}


def p(id, harness, bounds, thorough, reach=(), **kw):
    PROPS[id] = dict(harness=harness, bounds=bounds, bounds_thorough=thorough, reach=list(reach), **kw)


p("C01", "c01_load.cpp",
  "files of a SOA record and 1 further record in every form, or 1 other entry (11 kinds) and 1 record, loaded after a file of another zone that leaves things open; 4 heads (no origin, origin given with and without final dot, "
  "$TTL, blank-owner SOA); 18 kinds of record, three with an escaped character (one of ; ( ) quote blank backslash @ . 0) in a word or quoted string; owners relative, '@', blank, absolute, two-label, ending in an escaped character, of symbolic characters among aBx*9-_ (alone and as the type 'A' would read); "
  "5 TTL/class orders; TTLs of 2 symbolic digits, alone or as the last of 10; 5 layouts (tabs and comment, parentheses over lines, CR LF); with and without final newline",
  "2 further records after the entry, 9 kinds there, 6 heads", ["loaded"])
p("C02", "c02_reject.cpp",
  "3 records after the SOA of a two-label zone, of 5 types, at the origin or at 2 names below, blank owners, 2 data and 2 TTL values; one of them out of zone, or with labels of 63/64 octets "
  "or names of 253-256 octets as owner or target", "4 records", ["unacceptable name", "conflict", "duplicate"])
p("C03", "c03_bytes.cpp",
  "files of 3 arbitrary bytes, 3 arbitrary bytes between good records, 5 directives followed by 3 bytes, 8 line forms with symbolic number-like fields of 3-14 characters, "
  "and a 70-byte file cut at any point or with any one byte replaced; bytes among 17 (letters, dot, space, tab, newline, CR, NUL, parentheses, quote, ';', backslash, $, @, digit, *, 0xE9); "
  "then a job with six checks on what was loaded", "4 bytes, the replacing byte any of 256",
  ["arbitrary", "between records", "directive", "fields", "mutated", "loaded", "ignored", "stopped with a failure"])
p("C04", "c04_lookup.cpp",
  "zone (of the root, without DNAME there, or of a name) with SOA and 2 further records at 0-2 labels below the origin (labels of 1 symbolic byte among a, b, *), any of the 13 other types, any query within 2 labels with any type set, exact or 'any name below'",
  "3 records, queries of 3 labels", ["referral", "rewrite", "nx", "answer"])
p("C05", "c05_order.cpp",
  "3 records of 4 types at 1-2 symbolic labels below the origin, inserted in the given and 3 other orders; 499-501 children of one node (which may substitute a name through a DNAME) with 2 TXT, NS or DNAME records of symbolic place among or below them, queries for members, non-members and names below",
  "4 records of any type in all 24 orders, 498-502 children with 3 records", ["orders", "found among many", "not found among many"])
p("C06", "c06_glue.cpp",
  "3 records: NS records of a cut (at most 2, 6 places for the server, a sibling of the cut and the zone's own name among them) and address or other records at 3 places, symbolic labels and any type; query at or below the cut",
  "4 records, also 'any name below'", ["glue required", "no glue", "several glue records"])
p("C07", "c07_classes.cpp",
  "3 owners of 1-2 symbolic labels (a, b, *), one of them perhaps a DNAME, domains of 0-2 labels, query names up to 2 labels below, any type set; names of 250-257 octets, perhaps with escape sequences, directly or through a DNAME; 503-504 records, 500-501 of them siblings, with 2 of symbolic place among them, one perhaps a wildcard, and a DNAME of the domain into itself or not",
  "4 owners, 2 DNAMEs, query names 3 labels below", ["exact", "wildcard", "undefined", "long name", "too long", "many siblings", "domain alone", "no such domain"])
p("C08", "c08_search.cpp", "3 records (1-2 DNAMEs, every cycle among them) with owners and targets of 0-2 symbolic labels, names of 2-3 labels",
  "4 records, all of which may be DNAMEs, names of 1-4 labels", ["nothing matches", "full match", "partial match", "several enclosers"])
p("C09", "c09_repeat.cpp", "2 DNAMEs and a host with labels of 49 octets, or 1 DNAME with labels of 1 octet growing to the length limit, every target; domains of 0-1 labels; the job run twice",
  "3 DNAMEs with labels of 31 octets, domains of 0-3 labels", ["growing cycle", "DNAME onto itself", "other"])
p("C10", "c10_resolution.cpp",
  "two zones on two servers, one or both of them, or a third that delegates without addresses, to start from: a delegation to a symbolic server with and without an address record of symbolic owner and type, three places for the child's server, 1 further record of any type anywhere; any query of 2-3 labels, any type set, exact or 'any name below'",
  "2 further records", ["referral", "rewrite", "refused", "address look-up"])
p("C11", "c11_zones.cpp", "3 zones with origins of 0-2 symbolic labels on 3 servers in 2 load orders, 4 lists of top servers, a delegation to two servers one of which may be unknown, queries of 2 labels",
  "4 zones with origins of 0-3 labels, queries of 0-3 labels, exact and 'any name below'", ["refused", "unknown server", "referral", "answer"])
p("C12", "c12_rewrite.cpp",
  "CNAME or DNAME with owners of 2-3 and targets of 0-3 symbolic labels in the root's or another zone, queries of 2-4 labels; and rewritten names of 245-260 octets, target served by the same server or not",
  "longer queries", ["CNAME", "DNAME", "too long"])
p("C13", "c13_termination.cpp", "two zones, or chains of 5 and 11 aliases between two servers with 5 kinds of end; 4 forms of delegation, 2 further NS, CNAME or DNAME records with symbolic owners and 4 kinds of target (names growing to the length limit included), wildcard owners, queries of 1-3 labels, exact or 'any name below'",
  "8 forms of delegation, 3 records, CNAME queries", ["revisit", "growing name", "long chain"])
p("C14", "c14_cycles.cpp", "hand-made graphs of 5 nodes with up to 4 edges anywhere and address look-ups, and resolutions of two zones with 4 forms of delegation and 2 NS, CNAME or DNAME records; chains of 5 and 11 aliases with 5 kinds of end; exact and 'any name below' classes, checked the way the program does, with other checks and without",
  "6 edges, 8 forms of delegation", ["cycle", "no cycle", "long chain"])
node = "hand-made graphs of %s nodes, every tree shape, with symbolic servers, names, outcomes and records%s; and resolutions of two zones with a delegation and %s record of any type, or of chains of 5 and 11 aliases between two servers with 5 kinds of end; exact and 'any name below' classes%s"
extra = {
    15: "limits 0-3", 16: "limits 0-3", 17: "1 allowed domain of 1-2 labels in either case", 18: "1 allowed domain of 1-2 labels in either case",
    19: "", 20: "2 canonical names of 1-2 labels in either case", 21: "", 23: "names of 245-256 octets", 24: "any set of 3 asked types, also classes no zone defines",
    25: "any set of 3 asked types", 26: "any set of 3 asked types, 1-2 values in either case", 27: "any set of 3 asked types, TTL 0 or 1", 29: "",
}
for i in extra:
    e = extra[i]
    p("C%d" % i, "c15_checks.cpp",
      node % ("2 further" if 24 <= i <= 27 else "4 further (a chain)" if i == 29 else "3 further", "" if i in (24, 25, 26, 27, 29) else " and one loop",
              "2" if i in (16, 29) else "1", "; " + e if e else ""),
      "one more node, 2 records" + (", 2 domains" if i in (17, 18) else ""), ["nothing to report", "one report", "long chain"], defs=["CHK=%d" % i])
p("C22", "c22_delegation.cpp", "resolutions of a delegated zone with 1-2 NS records at each side (servers inside or outside it), one address record at each side, addresses of the delegated name itself, the child's server perhaps serving a deeper zone too, a second address of a server at either side, 5 shapes; queries at and below it, types NS and A",
  "8 shapes", ["nothing to report", "one report", "several reports"])
p("C28", "c28_structure.cpp", "0-3 parent and 0-2 child versions of a zone on different servers, 1-2 NS and one address record per version (servers inside or outside the cut, or the cut itself; A or AAAA), a root or upper zone with a record at the name in either load order, where the nearer zone may hold other records than a delegation; 3 job domains",
  "more domains, DNAMEs in every shape", ["nothing to report", "one report", "its own server"])
p("C30", "c30_names.cpp", "every text of up to 6 characters over {a, B, '.', backslash}, and texts with labels of 20-54 octets around symbolic parts", "8 characters", ["root", "absolute", "no final dot"])
p("C31", "c31_subdomain.cpp", "all pairs of names of up to 3 labels of 1, 2 or 19 characters with symbolic contents; lists of up to 3 domains", "4 labels, 4 domains", ["inside", "outside", "in list", "not in list"])
p("C32", "c32_length.cpp", "names of up to 5 labels of lengths among 1, 2, 58-64, 200, the last of length 1-67; texts of 251-256 characters with 12 symbolic dots; both reporting levels; names at both limits with 6 symbolic characters among a, backslash, dot, 0, 7 (escape sequences)",
  "6 labels, every last length 1-70", ["exactly 255", "long label", "long name", "fits", "escapes fit", "escapes too long"])
p("C33", "c33_symdiff.cpp", "sets of up to 3 and 2 records with symbolic owner, type, TTL and data", "4 and 3 records", ["disjoint", "equal", "mixed"])
p("C34", "c34_sequence.cpp", "two jobs, the first of any property on 2 domains or the default, the second of any property, flag and parameters on 4 domains or the default, over two zones with every kind of violation",
  "three jobs, 6 domains", ["nothing", "violations"])
p("C35", "c35_threads.cpp", "class generation for 2 closest enclosers sharing DNAME targets with 1 preemption; full runs with 8 workers and 2 collectors on one class (2 preemptions) and three classes (1 preemption), each preemption a switch to any thread or the suspension of one until no other can go on, queue operations and shared accesses atomic; all 15 checks on a world with something to report for each, the threads taking turns every 1-5 operations; in every run, data races between any two accesses of the program's code",
  "3 and 2 preemptions, one more run", ["classes", "run"], replay="engine", outside="more preemptions; weak memory orders; the real queue's internals")
p("C36", "c36_job.cpp", "jobs of 1-2 properties out of 15 in every combination with symbolic parameters, 5 domains in either case, sub-domain flag, unknown properties, types on any property; the default job",
  "3 properties", ["default job", "listed properties", "reports"])
p("C37", "c37_permute.cpp", "3-4 zones on 3-4 servers in 6 (3 with a fourth zone) orders or with 2 top servers swapped, 4 shapes of records, jobs of 5 properties out of 15",
  "all 24 orders combined with both top orders, 6 shapes", ["violations"])
p("C38", "c38_metadata.cpp", "0-2 top servers and 0-2 zone-file entries, each part present or absent, server names of 2 symbolic letters in either case, origins with and without final dot",
  "3 entries", ["refused", "one zone", "several zones"])
p("C39", "c39_lint.cpp", "one zone with 2 records or two zones with 1, of 4 types, in 8 forms (accepted, out of zone, over-long labels and names of owner and target, duplicates, conflicts, missing addresses), bytes that are not UTF-8, records over several lines",
  "3 records", ["clean", "one entry", "several entries"])
p("C40", "c40_output.cpp", "0-2 jobs of 5 properties or none on 3 domains over a zone whose names and data hold 2 symbolic bytes among 9 (quote, backslash, control, UTF-8 and other high bytes); an output file that exists already",
  "3 bytes, 3 jobs", ["none", "one", "several", "not UTF-8"])
p("C41", "c41_program.cpp", "runs of main on two zones with 2 symbolic labels: a job file of 0-2 jobs (3 properties, 2 domains) or none, 3 forms of the directory, 3 output locations, -s or -lv, --lint with an earlier report; 6 kinds of unusable input",
  "3 jobs, 6 properties, 3 domains", ["refused", "nothing found", "violations", "default job", "lint"])
p("C42", "c42_classes.cpp", "a zone and perhaps a delegated one with 2 DNAME, CNAME or A records (owners of one symbolic label, * among them; 3 kinds of target), queries of 2-3 symbolic labels, 3 checks with symbolic types or limits; a job for the zone or for the query's name alone, which may not exist",
  "3 records, queries of 4 labels, 12 checks", ["undefined", "any name below", "one name", "its own job"])
