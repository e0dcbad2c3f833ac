#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from registry import PROPS

ZF, ZG, LG, IG, PR, DR, UT = ("src/zone-file-parser.cpp", "src/zone-graph.cpp", "src/label-graph.cpp", "src/interpretation-graph.cpp",
                              "src/properties.cpp", "src/driver.cpp", "src/utils.cpp")
P = []


def p(id, title, statement, over, text, why, mech, state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": sorted(set(w.split(":")[0] for _, w in mech)), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    assert len(title) <= 80, title
    P.append((d, na))


p("C01", "Zone-file text is loaded as the records RFC 1035 says it denotes",
  "Every supported record in a syntactically valid zone file is loaded once, with exactly the owner name, type, TTL and data the master-file rules give it: "
  "relative names completed with the current origin, '@', blank owners repeating the previous owner, optional TTL and class in either order, default TTL, "
  "parentheses over several lines, comments, escaped characters kept in the word or quoted string they stand in, and case folded to lower case. "
  "A line that states no supported record in the grammar's form is skipped without affecting the others. The last record counts whether or not the file ends in a newline, and no record is invented.",
  ["inputs"], "all zone files built from the grammar's constructs, with all name and number characters within the bounds",
  "The tests load a few fixed, well-behaved files and compare totals; the space of token arrangements and contents is unbounded.",
  [("tokenizer and line interpreter", ZF + ":Parser::operator()"), ("type column search", ZF + ":GetTypeIndex"), ("file load", ZF + ":ParseZoneFileAndExtendGraphs"),
   ("record construction", "src/resource-record.cpp:ResourceRecord")])
p("C02", "Invalid records are excluded one by one, and nothing else is",
  "A record is left out of a zone exactly when it lies outside the zone, has an owner, or a target of an NS, CNAME or DNAME, with a label longer than 63 octets or longer than 255 octets in all, repeats a record, "
  "puts a CNAME next to other data or a second CNAME or DNAME at a name. Leaving a record out changes nothing about the records that come before or after it, in the zone or in the name tree.",
  ["inputs"], "all sequences of valid and invalid records in a zone file within the bounds",
  "The tests have one file per kind of conflict; they cannot cover the combinations with records before and after, or the exact length limits.",
  [("membership", ZG + ":CheckZoneMembership"), ("conflicts", ZG + ":AddResourceRecord"), ("limits", UT + ":LengthCheck"), ("dispatch", ZF + ":Parser::operator()")])
p("C03", "No zone-file text crashes the program",
  "Whatever bytes a zone file contains, loading it ends: it either loads the file's usable records or stops with a diagnostic and a failure exit. "
  "It never ends in a memory error, an uncaught exception or an endless loop, and checks can be run on whatever was loaded.",
  ["inputs"], "all byte strings a zone file can hold, up to the bounds on length and alphabet",
  "Tests feed only readable files; malformed directives, numbers, parentheses and truncated lines are never sampled.",
  [("tokenizer and directives", ZF + ":Parser::operator()"), ("issue text", "src/resource-record.cpp:toString")])
p("C04", "A zone answers a query as an authoritative server would",
  "For every zone and query, the answer follows the authoritative lookup rules: a delegation on the way gives a referral, a DNAME above the name gives a rewrite, an existing name "
  "gives its records of the asked types (or the CNAME), a missing name gives the closest wildcard's answer or non-existence. "
  "Asked types that are absent at an existing name give an explicit empty answer, and exactly the zone's own records are returned.",
  ["inputs"], "all zones of up to N records and all queries (names, type sets, and 'any name below' classes) within the bounds",
  "The tests look up a handful of names in three fixed zones; precedence between delegation, DNAME, wildcard and CNAME depends on their combination.",
  [("lookup", ZG + ":QueryLookUpAtZone"), ("descent", ZG + ":GetClosestEncloser"), ("wildcards", ZG + ":WildcardMatch")])
p("C05", "Lookups do not depend on insertion order or on the number of siblings",
  "The answer of a zone to a query, and the set of names the name tree knows, depend only on the set of records loaded, not on their order. "
  "This includes nodes with so many children that the index for large nodes is used: lookups through the index and without it give the same answers.",
  ["histories", "inputs"], "all insertion orders of all record sets within the bounds, below and above the child-count threshold",
  "One test crosses the threshold once with regular names; the order in which index creation and later insertions interleave is never varied.",
  [("zone index", ZG + ":ConstructChildLabelsToVertexDescriptorMap"), ("zone insertion", ZG + ":AddNodes"), ("zone descent", ZG + ":GetAncestor"),
   ("name-tree index", LG + ":ConstructChildLabelsToVertexDescriptorMap"), ("name-tree descent", LG + ":GetAncestor")])
p("C06", "A referral carries every NS record of the cut and exactly its in-zone glue",
  "A referral lists each NS record of the delegated name exactly once, in a form from which each server is paired with precisely the A and AAAA records the zone holds for that server's name. "
  "No other records appear in it, and glue needed by a server inside the zone but missing from it is recognised as missing.",
  ["inputs"], "all sets of NS and address records at and below a cut within the bounds",
  "Tests contain referrals with one or two servers and fixed glue.",
  [("glue", ZG + ":AddGlueRecords"), ("glue for structure check", ZG + ":LookUpGlueRecords"), ("glue needed", ZG + ":RequireGlueRecords"), ("pairing", IG + ":MatchNsGlueRecords")])
p("C07", "Equivalence classes cover every query name of a job's domain",
  "For a job on a domain with sub-domains, every query name at or below the domain belongs to a generated class: an exact class if the name is one the zones mention (also through DNAME), "
  "otherwise a class for 'any other name' below its closest existing ancestor. Without sub-domains exactly the class of the domain itself is generated, no class lies outside the domain, and no exact class is for a name longer than 255 octets. "
  "Exact and wildcard classes ask for the job's types, and classes of names that no zone defines ask for all types.",
  ["inputs", "configurations"], "all sets of record owners, DNAME records, job domains and query names within the bounds",
  "Tests count classes for two fixed trees; missing coverage for some name shape would go unnoticed.",
  [("class generation", LG + ":GenerateECs"), ("sub-tree walk", LG + ":SubDomainECGeneration"), ("wildcard class", LG + ":WildcardChildEC"), ("exact class", LG + ":NodeEC")])
p("C08", "Closest-encloser search finds all longest matches, also through DNAME",
  "For any name, the search returns exactly the nodes reached with the largest number of matched labels, following both child labels and DNAME targets. "
  "The root is returned when nothing matches, and cyclic DNAME records neither hide matches nor prevent termination.",
  ["inputs"], "all name trees with DNAME edges (including cycles) and all names within the bounds",
  "The tests search five names in one tree.", [("search", LG + ":SearchNode"), ("DNAME edges", LG + ":AddResourceRecord")])
p("C09", "Class generation terminates and repeats identically, DNAME cycles included",
  "Generating the classes of a job always terminates, whatever chains or cycles of DNAME records exist, and every generated name respects the domain-name length limit. "
  "Running the same job again, on the same loaded zones, yields the same classes.",
  ["inputs", "histories"], "all DNAME graphs, job domains and repetitions within the bounds",
  "No test contains a DNAME cycle or runs a job twice.", [("loop marks", LG + ":SubDomainECGeneration"), ("loop marks in search", LG + ":SearchNode")])
p("C10", "Resolution explores exactly the servers and queries a resolver could visit",
  "For each query class the resolution graph holds exactly the (server, query) pairs reachable from the top servers by following referrals, CNAME/DNAME rewrites and look-ups of server addresses that lack glue. "
  "Each pair carries the answer of that server's best matching zone, and edges lead exactly to the pairs the answer implies.",
  ["configurations", "inputs"], "all configurations of zones over servers and all queries within the bounds",
  "Integration tests run three fixed configurations and look only at totals.",
  [("resolver", IG + ":QueryResolver"), ("referrals", IG + ":NsSubRoutine"), ("address look-ups", IG + ":SideQuery")])
p("C11", "Queries start at every top server and use the most specific zone",
  "A query is sent to every configured top server. A server answers from the zone with the longest origin that contains the query name, refuses if none of its zones contains the name, "
  "and a server referred to for which there are no zone files is reported as not found.",
  ["configurations", "inputs"], "all assignments of zones to servers, server lists and query names within the bounds",
  "Tests never host overlapping zones at one server in different load orders or have several top servers.",
  [("zone selection", IG + ":GetRelevantZone"), ("start", IG + ":StartFromTopNameservers"), ("unknown servers", IG + ":NsSubRoutine")])
p("C12", "CNAME and DNAME rewrites produce the name and types DNS prescribes",
  "Following a CNAME continues with the target name and the remaining types; following a DNAME replaces exactly the owner suffix by the target and keeps types and class shape. "
  "A rewrite whose result exceeds the legal name length ends in the 'name too long' outcome, and one that fits never does.",
  ["inputs"], "all owners, targets and query names within the bounds, up to the exact length limit",
  "Length overflow needs names of about 255 octets, and no test contains one.",
  [("CNAME", IG + ":ProcessCname"), ("DNAME", IG + ":ProcessDname"), ("limit", IG + ":CheckCnameDnameAtSameNameserver")])
p("C13", "Resolution terminates and never repeats a server-query pair",
  "Building the resolution graph terminates for every configuration, including rewrite and delegation loops. No two of its nodes have the same server and query, so repeated visits become edges to the existing node.",
  ["configurations"], "all configurations, including all loops, within the bounds",
  "Loops of every shape cannot be sampled; tests have none across servers.",
  [("node reuse", IG + ":InsertNode"), ("class equality", "src/equivalence-class.cpp:operator==")])
p("C14", "Cyclic Zone Dependency is reported exactly when resolution can loop",
  "A cyclic dependency is reported for a query class if and only if some chain of referrals, rewrites and server-address look-ups from its start returns to a server and query already on the chain. "
  "The reported loop is such a cycle.",
  ["configurations"], "all resolution graphs within the bounds", "Tests contain no configuration whose loop goes through an address look-up.",
  [("loop search", IG + ":CheckForLoops"), ("report", IG + ":PrettyPrintLoop")])
chk = "Tests run each check on at most one or two fixed configurations; wrong reports for other graph shapes, names and limits are not sampled."
q = "all resolution paths and answers within the bounds, and all parameters"


def c(id, title, st, name, where=None, over=None):
    p(id, title, st, over or ["inputs", "configurations"], q, chk, [(name, PR + ":" + (where or name)), ("job wiring", DR + ":SetJob"), ("path enumeration", IG + ":EnumeratePathsAndReturnEndNodes")])


c("C15", "Hops is reported exactly for paths through too many name servers",
  "A Hops violation is reported for a resolution path if and only if the number of name servers it goes through, counting consecutive steps at the same server once, exceeds the given limit. "
  "The report states the query, the actual number and the limit.", "NumberOfHops")
c("C16", "Rewrites is reported exactly for paths with too many rewrites",
  "A Rewrites violation is reported for a resolution path if and only if the number of CNAME and DNAME rewrites along it exceeds the given limit. The report states the query, the actual number and the limit.", "NumberOfRewrites")
c("C17", "Query Rewrite is reported exactly for rewrites out of the allowed domains",
  "A Query Rewrite violation is reported if and only if some step rewrites the query to a name that is not equal to or below any of the allowed domains. It names the rewritten query, the new name and the server.", "QueryRewrite")
c("C18", "Name Server Contact is reported exactly for servers outside the allowed domains",
  "A Name Server Contact violation is reported if and only if a path sends the query to a name server whose name is not equal to or below any of the allowed domains, and it names that server and the allowed domains.", "NameServerContact")
c("C19", "Rewrite Blackholing is reported exactly when a rewritten query ends in NX",
  "Rewrite Blackholing is reported if and only if a path contains a rewrite and its last step answers that the name does not exist. It names the first rewritten query, the final name and the final server.", "RewriteBlackholing")
c("C20", "All Aliases lists exactly the queries rewritten to a canonical name",
  "For each canonical name given, the report lists exactly the query classes that are rewritten, in one or more steps of some path, to that name. Queries never rewritten to it and names not reached are not listed.", "AllAliases")
c("C21", "Lame Delegation is reported exactly for delegations to refusing servers",
  "A Lame Delegation is reported if and only if a server refers the original query name to a server that has zone files but none for that name. It names the delegating and the refusing server.", "CheckLameDelegation")
c("C22", "Delegation Consistency reports exactly differing NS or glue sets",
  "Where a server refers the query to a server that answers authoritatively for the delegated zone, a violation is reported if and only if the NS records at parent and child differ, or the address records of servers inside the child zone differ. "
  "The kind of difference and both servers are named.", "CheckDelegationConsistency")
c("C23", "DNAME Substitution is reported exactly for rewrites to overlong names",
  "A DNAME substitution violation is reported if and only if a path ends because a rewrite produced a name longer than the legal limit. It names the original query, the overlong name and the server.", "DNAMESubstitutionExceedesLength")
c("C24", "Response Returned reports exactly the asked types that get no records",
  "For a name some zone defines, a violation is reported if and only if a path ends at a server which gives no record for one of the property's types, and it names those types and the server. "
  "Names no zone defines (unless a job asks for just that name), and ends at servers that refuse or are unknown, are not reported.", "CheckResponseReturned")
c("C25", "Response Consistency is reported exactly when final answers differ",
  "A violation is reported for a query class if and only if two paths end in answers whose records of the property's types differ (TTLs aside), or, while aliases are asked for, their kinds (answer, alias, non-existence) differ. "
  "The report names the query class; ends at refusing or unknown servers are disregarded.", "CheckSameResponseReturned")
c("C26", "Response Value is reported exactly when an answer differs from the expected",
  "A violation is reported for a query class if and only if some path ends in an answer, or in non-existence, whose set of data for the property's types is not the expected set; letter case is irrelevant. "
  "Every such end is listed with the values found, beside the expected ones, and ends at refusing or unknown servers are disregarded.", "CheckResponseValue")
c("C27", "Zero TTL is reported exactly for returned zero-TTL records of the given types",
  "A violation is reported if and only if a final answer contains a record of one of the property's types whose TTL is zero. Each such record is reported with its server and the query class.", "ZeroTTL")
p("C28", "Structural Delegation Consistency compares all parents and children of a cut",
  "For each delegated name in the domain, all zones that delegate it from the longest parent origin and all zones that are authoritative for it are compared pairwise: a violation is reported if and only if their NS records differ "
  "or the addresses of servers inside the child zone differ where glue is needed, whether or not the servers are reachable. The inconsistent pair of servers and their exclusive records are named.",
  ["configurations"], "all sets of parent and child zone versions within the bounds", chk,
  [("comparison", LG + ":CheckStructuralDelegationConsistency"), ("pairs", LG + ":CompareParentChildDelegationRecords"), ("report", LG + ":ConstructOutputNS")])
c("C29", "Infinite DNAME recursion is reported exactly for non-shrinking reuse",
  "A violation is reported for a path if and only if the same rewrite record is applied twice along it and the later query has at least as many labels as at the record's previous use. Paths in which every repeated use shortens the query are not reported. The report names both queries and the rewrite records used so far.", "InfiniteDName")
p("C30", "Names survive conversion between text and labels",
  "Splitting a name's text into labels yields exactly its labels in order from the root, with escaped dots and backslashes kept inside their label, and with or without the final dot. "
  "Converting back yields the same absolute name, and the root name is '.'.", ["inputs"], "all name texts of bounded length over letters, dots and backslashes",
  "Two tests convert a few names and none with an escape at the end.", [("split", UT + ":StringToLabels"), ("join", UT + ":LabelsToString")])
p("C31", "The sub-domain relation is label-wise suffix inclusion",
  "A name counts as inside a domain if and only if the domain's labels are the name's last labels; every name is inside itself and the root. "
  "For a list of domains it counts as inside if it is inside at least one of them.", ["inputs"], "all pairs of names and lists of domains within the bounds",
  "Tests check a few pairs.", [("relation", UT + ":SubDomainCheck")])
p("C32", "Name length limits are exactly 63 octets per label and 255 per name",
  "A name is accepted if and only if every label has at most 63 octets and its wire form, with one length octet per label and the root, has at most 255; an escape sequence stands for one octet. "
  "The offending label is named when one is too long.", ["inputs"], "all names whose label lengths are arbitrary within the bounds, around both limits",
  "No test is at the limits.", [("limits", UT + ":LengthCheck")])
p("C33", "Record-set comparison computes exact common and exclusive sets",
  "Comparing two sets of records yields the records in both, those only in the first and those only in the second, with equality by owner, type and data but not TTL. Nothing is lost or duplicated, and the order of records is irrelevant.",
  ["inputs"], "all pairs of record sets within the bounds", "Never tested directly.", [("difference", UT + ":CompareRRs"), ("equality", "src/resource-record.cpp:operator==")])
p("C34", "A job's result does not depend on the jobs run before it",
  "The violations a job finds are exactly those it finds when run alone on the same zones, whatever jobs were run before it; results of earlier jobs are kept, not altered. "
  "No property, type, parameter or statistic of one job carries over to the next.", ["histories"], "all sequences of two or three jobs over all properties and parameters within the bounds",
  "Tests run one job per driver.", [("job reset", DR + ":SetJob"), ("job run", DR + ":GenerateECsAndCheckProperties"), ("search marks", LG + ":SearchNode")])
p("C35", "Parallel checking loses and invents no violation",
  "Whatever the interleaving of the worker threads, a run ends, checks every query class exactly once, and reports exactly the violations of a sequential run. No two threads use the same object, one of them changing it, without anything that orders them.", ["schedules"],
  "all schedules of the producer, workers and collectors within the bound on preemptions", "A test observes one schedule out of very many.",
  [("workers", DR + ":GenerateECsAndCheckProperties"), ("task", "src/ec-task.cpp:Process"), ("class producers", LG + ":GenerateECs")])
p("C36", "A job runs exactly the requested properties with the given parameters",
  "Each property named in a job, and no other, is checked, with the domain (case-insensitive), sub-domain flag, types and values given. Queries ask for the union of the types of the properties, and for NS where a property has none; unknown property names are ignored. "
  "Without a job file the documented default properties are checked on everything.", ["configurations"], "all combinations of properties, types and values within the bounds",
  "Tests use two job files.", [("job parsing", DR + ":SetJob")])
p("C37", "Results do not depend on the order zone files are listed",
  "The violations reported are the same for every order in which zone files and top servers are listed in the metadata, given at most one file per server and origin.", ["configurations"], "all permutations of zone files and top servers over configurations within the bounds",
  "Tests use one order.", [("load", DR + ":SetContext"), ("zone selection", IG + ":GetRelevantZone"), ("class generation", LG + ":SubDomainECGeneration")])
p("C38", "Bad metadata is refused, good metadata is loaded completely",
  "Metadata without top servers, zone-file list, file name, name server or existing files, or in which no top server has a zone file, ends the program with a failure before anything is checked. "
  "Otherwise every listed zone is loaded under its own server, names compared without regard to letter case.", ["configurations"], "all metadata with each part present or absent, and all letter cases, within the bounds",
  "Only valid metadata is tested.", [("sanity check", DR + ":MetadataSanityCheck"), ("load", DR + ":SetContext")])
p("C39", "The lint report lists exactly the rejected records with file and line",
  "With linting on, each rejected record and each NS record whose server lies in the zone and has no address there gives exactly one entry with the file, line number and reason (or server and zone), and a clean file gives none; the report is valid JSON. "
  "Linting does not change what is loaded.", ["inputs"], "all sequences of accepted and rejected records within the bounds", "No test reads the lint report.",
  [("entries", UT + ":WriteRRIssueToFile"), ("separators", UT + ":WriteIssueToFile"), ("glue", ZG + ":CheckGlueRecordsPresence")])
p("C40", "The output file is valid JSON holding every distinct violation once",
  "The output file is a JSON list containing each distinct violation found by any job exactly once, whatever characters the names contain (octets that are not UTF-8 are shown as U+FFFD); with no violations it is an empty list.", ["inputs", "histories"],
  "all sets of violations within the bounds, including names with quotes and backslashes", "Tests do not read the output file.", [("writer", DR + ":WriteViolationsToFile")])
p("C41", "A run writes its jobs' violations where it is told, and fails visibly",
  "Run on a directory with usable metadata, zone files and jobs, the program ends with status 0 and writes to the chosen output file (output.json by default) exactly the violations of the jobs in the job file, "
  "or of the default job on the root if none is given, whatever the other options. With --lint, and only then, lint.json is a valid JSON list of the findings of this run alone. "
  "If the metadata, a zone file or the job file is missing or not valid JSON, it ends with a failure status.",
  ["inputs", "faults"], "all combinations of options, job files, zone contents and kinds of unusable input within the bounds",
  "No test runs the program itself; the tests call the library with fixed files.",
  [("program", "bin/groot.cpp:main"), ("run", "bin/groot.cpp:Main"), ("jobs", DR + ":SetJob"), ("output", DR + ":WriteViolationsToFile")])
p("C42", "Every query below a job's domain gets the reports of the class it belongs to",
  "For every query name below the job's domain, the class that covers it (its own class if the zones mention the name, else that of the names below its closest mentioned ancestor) is checked, and the reports made for the class "
  "are those a resolution of the query itself gives, with '~{ }' standing for the labels the zones do not mention. So no query has a violation that goes unreported, and no report lacks a query that shows it.",
  ["inputs"], "all zones, query names and checks within the bounds",
  "Tests look at totals of classes and violations of fixed zones; that each class speaks for all its infinitely many queries is never looked at.",
  [("classes", LG + ":GenerateECs"), ("closest enclosers", LG + ":ClosestEnclosers"), ("class resolution", IG + ":StartFromTopNameservers"), ("checks", IG + ":CheckPropertiesOnEC")])

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for d, na in P:
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, na in P:
        i = d["id"]
        if na or i not in PROPS:
            nas.append({"property": i, "reason": na or "no check has been completed for it"})
            continue
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "technique": "symbolic execution of the real code's LLVM IR with z3 (bounded, every path; counterexamples replayed natively)",
                       "level": "model_checking", "level_note": "exhaustive within: " + c["bounds"]})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": nas}, f, indent=1)
        f.write("\n")
main()
