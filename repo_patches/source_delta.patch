From 47c1aef3cb69f71b8288d818a81906be1b26ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 01/29] fix: MAKE stores the right node of a three node pattern

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From ad273db9acf97bba3d02b60b7c0ef72fe243d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 02/29] fix: created_at is the time the item is made, not the
 time of the import

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From c822fa731d9724087ff76a64c5deab89164a5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 03/29] fix: FIND short circuits on unknown relationship names,
 not on known ones

---
 .../clauses/find/short_circuits/find_short_circuits.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..ca1c55a 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,8 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    # Unnamed relationships match any relationship name
+    if find_pre.relationship_names and not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
-- 
2.43.0


From 3d9bb1a45bd803e411d0371cb17a74d54267d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 04/29] fix: FIND takes the right node from the right node of
 the pattern

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From 437b6889ba854540a3262a2869510deb5cd6a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 05/29] fix: a query with only a MAKE runs, a REPORT without a
 FIND is refused before anything is made

---
 wiggle_shell/core/query/query.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..ea39790 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,7 +35,9 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -51,6 +53,13 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    # Refuse before anything is written
+    if parsed_query.report_parsed and not parsed_query.find_parsed:
+        raise NotAValidQueryError("A REPORT must be accompanied by a FIND\n")
+
+    if not parsed_query.make_parsed and not parsed_query.find_parsed:
+        raise NotAValidQueryError("Query must contain a MAKE or a FIND\n")
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
@@ -65,8 +74,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From 1307d589f89b98f032ef1d902fbabf49ec9c12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 06/29] fix: a FIND with a bad property is refused before its
 query's MAKE is applied

---
 wiggle_shell/core/query/query.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index ea39790..c5d893e 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,9 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import (
+    process_parsed_find,
+)
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -60,10 +63,13 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
     if not parsed_query.make_parsed and not parsed_query.find_parsed:
         raise NotAValidQueryError("Query must contain a MAKE or a FIND\n")
 
+    if query_find := parsed_query.find_parsed:
+        process_parsed_find(query_find, parsed_query.criteria_parsed)
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-    if query_find := parsed_query.find_parsed:
+    if query_find:
         found = find(
             parsed_find=query_find,
             gdbms_file_path=gdbms_file_path,
-- 
2.43.0


From 0e49c1c9553fb5c3a089e594d7dcc5af10adbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 07/29] fix: statements on one line are told apart

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..e53661f 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\);)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From 01552b233b4cad7ab4842a4f43863d664a206ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 08/29] fix: a clause in mixed case passes the model's check
 like the parser's

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index e53661f..bf9adbc 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\);)"
+    return rf"(?P<clause_stmt_all>((?i:{clause}))\s*\(.+?\);)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From bdd23226c66b9334fb9173d65b5d2bb6bde18f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 09/29] fix: labels, handles and strings containing the word
 report are not REPORT statements

---
 .../clauses/regexes/report/report_patterns.py             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..b14a930 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -6,14 +6,18 @@ from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
 
 CLAUSE = "REPORT"
 
+# The rest of a REPORT statement: handles, their properties, functions of them or *.
+# Not a REPORT: labels (:Report), handles (report:Label) and words in strings 'a report'
+REPORT_BODY = r"\b(?:[^;:(){}<>\[\]'\"]|\([^;:(){}<>\[\]'\"]*\))+;"
+
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"(?P<report_stmt_all>\b((?i:{CLAUSE})){REPORT_BODY})",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"(?P<report_stmt_all>\b({get_clause_permutations(CLAUSE)}){REPORT_BODY})",
     flags=IGNORECASE,
 )
-- 
2.43.0


From b192c356663df71148e9bfe37f9555ea893f0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 10/29] fix: relationships are checked in every statement of a
 query

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From 48365609aa091491fb1910a55145a5bb9caa62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 11/29] fix: a property that is an empty list is kept

---
 wiggle_query_language/clauses/regexes/patterns/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..caa4f4f 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -6,7 +6,7 @@ from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
+        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]*\])|"
         r"(?P<string_type>[\w+\'\"@\.\s]+))"
     ),
     flags=IGNORECASE,
-- 
2.43.0


From d56e5cd2fcfe1b311819a2b2d69e7efb457f54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 12/29] fix: blanks after a quoted string do not make the quote
 part of the value

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..6b0bdee 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -60,7 +60,9 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = (
+        extracted_property.property_value.strip().strip('"').strip("'").strip()
+    )
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From f69d66842f8043f313661770852f18b0dfdf7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 13/29] fix: true, false and null inside the strings of a list
 are text

---
 .../clauses/parsing_helpers/parse_properties.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 6b0bdee..7d34d52 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import compile
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -8,6 +9,11 @@ from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
 )
 
+LIST_KEYWORDS = {"true": "True", "false": "False", "null": "None"}
+LIST_KEYWORD_OR_STRING_REGEX = compile(
+    r"'[^']*'|\"[^\"]*\"|\b(?:true|false|null)\b"
+)
+
 
 def get_property_dict(properties_string: str) -> Optional[dict]:
     """
@@ -168,10 +174,9 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    # true, false and null become Python's, quoted strings are left as they are
+    value = LIST_KEYWORD_OR_STRING_REGEX.sub(
+        lambda match: LIST_KEYWORDS.get(match.group(), match.group()), value_in
     )
     try:
         found_list = literal_eval(value)
-- 
2.43.0


From 4d5ff308663bc60e5e6febd7e8fa8ab03a7163fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 14/29] fix: values that cannot be stored are refused in lists

---
 .../clauses/parsing_helpers/parse_properties.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 7d34d52..17c0e14 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -180,8 +180,13 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     )
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+    for item in found_list:
+        if item is not None and not isinstance(item, (bool, int, float, str)):
+            raise WiggleGraphIllegalPropertyValue(
+                f"{value_in} contained {item!r}, which is not a WiggleGraph value."
+            )
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
-- 
2.43.0


From f4c301b75f16af3228e15c6ad61c64204cc78ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 15/29] fix: a MAKE with parts that are not understood is
 refused, not applied in part

---
 .../clauses/make/parse_make/parse_make_statement.py   | 11 +++++++++++
 .../clauses/regexes/make/make_patterns.py             |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..a000195 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -1,5 +1,6 @@
 from typing import Optional
 
+from exceptions.wql.parsing import ClauseSyntaxError
 from models.wql import Clause, ParsedMake
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
@@ -7,6 +8,9 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     validate_statement,
 )
+from wiggle_query_language.clauses.regexes.make.make_patterns import (
+    MAKE_STATEMENT_SANS_PATTERNS_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
     NODES_RELS_PATTERN_REGEX,
 )
@@ -22,6 +26,13 @@ def build_parsed_make(statement: str) -> ParsedMake:
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
 
+    # Everything in the statement must belong to a pattern
+    not_parsed = NODES_RELS_PATTERN_REGEX.sub("", statement)
+    if not MAKE_STATEMENT_SANS_PATTERNS_REGEX.fullmatch(not_parsed):
+        raise ClauseSyntaxError(
+            message=f"SyntaxError: {statement} was not understood: {not_parsed}"
+        )
+
     parsed_make = ParsedMake(
         raw_statement=statement, parsed_pattern_list=parsed_pattern_dict
     )
diff --git a/wiggle_query_language/clauses/regexes/make/make_patterns.py b/wiggle_query_language/clauses/regexes/make/make_patterns.py
index 53baa8d..594ca69 100644
--- a/wiggle_query_language/clauses/regexes/make/make_patterns.py
+++ b/wiggle_query_language/clauses/regexes/make/make_patterns.py
@@ -12,6 +12,11 @@ MAKE_STATEMENT_ALL_REGEX = compile(
     pattern=rf"{get_clause_all_regex(CLAUSE)}", flags=IGNORECASE
 )
 
+# MAKE , , ;
+MAKE_STATEMENT_SANS_PATTERNS_REGEX = compile(
+    pattern=rf"\s*{CLAUSE}[\s,]*;\s*", flags=IGNORECASE
+)
+
 
 # MAEK (node1:NodeLabel);
 MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-- 
2.43.0


From 36eddf4381cd2c7c475fe6ac44146af7d7e31d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 16/29] fix: a misspelt or unfinished statement is refused also
 next to well-formed ones

---
 .../clauses/parsing_helpers/extract_statements.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..3ebdc9d 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,9 +32,9 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    make_matches = [x.group() for x in clause_all_regex.finditer(query_string)]
 
-    check_clause_spelling(query_string, clause)
+    # What is left must not hold a misspelt or unfinished statement
+    check_clause_spelling(clause_all_regex.sub("", query_string), clause)
 
-    return None
+    return make_matches or None
-- 
2.43.0


From 08f1c322c967621592aa85b42f6fe4284cac1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 17/29] fix: properties that are not understood are refused,
 not dropped

---
 .../clauses/parsing_helpers/parse_properties.py             | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 17c0e14..f016796 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -36,6 +36,12 @@ def parse_properties(properties_string: str) -> dict:
     :param properties_string: The raw params string.
     :return: A dictionary ready for export.
     """
+    not_parsed = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    if not_parsed.strip("{}, \t\r\n"):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Error for setting property in {properties_string} {not_parsed} was not understood"
+        )
+
     primitive_property_dictionary = dict()
     if props_primitive := ALL_PROPERTIES_KEY_VALUE_REGEX.finditer(properties_string):
         for match in props_primitive:
-- 
2.43.0


From e30709ad1bab70b12e6fa7428112c97c6c0152dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 18/29] fix: the files of a DBMS are replaced in one step, not
 rewritten in place

---
 .../graph/database/database.py                | 34 ++++++++---------
 .../graph/database/indexes/index_helpers.py   | 24 ++++++------
 .../indexes/node_relationships_index.py       | 35 ++++++++---------
 .../graph/state/wiggle_number.py              |  4 +-
 wiggle_query_language/graph/storage.py        | 38 +++++++++++++++++++
 5 files changed, 83 insertions(+), 52 deletions(-)
 create mode 100644 wiggle_query_language/graph/storage.py

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..4a6e66f 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -6,6 +6,7 @@ from typing import Any
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import DATABASE_TEST_FILE_PATH
+from wiggle_query_language.graph.storage import replace_file
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
 
@@ -38,19 +39,19 @@ def add_item_to_database(
     :return: A bool.
     """
 
-    with open(database_file_path, "r+") as file_handle:
+    with open(database_file_path, "r") as file_handle:
         database = load(file_handle)
-        graph_logger.info("writing to db")
-        for wiggle_number_to_add, node in items_to_add.items():
-            if wiggle_number_to_add in database:
-                raise NodeExistsError(
-                    message=f"Node {wiggle_number_to_add} already exists did you mean to update"
-                )
-            else:
-                database[wiggle_number_to_add] = node
-
-        file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+
+    graph_logger.info("writing to db")
+    for wiggle_number_to_add, node in items_to_add.items():
+        if wiggle_number_to_add in database:
+            raise NodeExistsError(
+                message=f"Node {wiggle_number_to_add} already exists did you mean to update"
+            )
+        else:
+            database[wiggle_number_to_add] = node
+
+    replace_file(database_file_path, dumps(database, indent=4))
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
@@ -68,11 +69,8 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        with open(database_file_path, "w") as file_handle:
-            database = dict()
-            file_handle.seek(0)
-            dump(database, file_handle, indent=4)
-            file_handle.truncate()
+        database = dict()
+        replace_file(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..6e5274c 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,8 +1,9 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.storage import replace_file
 
 
 def add_items_set_to_index_by_name(
@@ -15,14 +16,13 @@ def add_items_set_to_index_by_name(
     :param index_name: The name of the index.
     :return: A bool.
     """
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        node_label_indexes = set(indexes_dict[index_name])
-        updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
-        indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+
+    node_label_indexes = set(indexes_dict[index_name])
+    updated_index = node_label_indexes.union(items_to_add)
+    indexes_dict[index_name] = list(updated_index)
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -62,12 +62,10 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[index_name] = []
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        indexes_dict[index_name] = []
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..a5b560a 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,10 +1,11 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
+from wiggle_query_language.graph.storage import replace_file
 
 
 def json_to_dict(
@@ -27,24 +28,22 @@ def add_items_to_node_relationships_index(
     :return: A bool.
     """
 
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        for node_wn, new_rels_wn_set in items_to_add.items():
-            if node_wn in rel_indexes_dict:
-                existing_rels = set(rel_indexes_dict[node_wn])
-                new_set = existing_rels.union(new_rels_wn_set)
-                rel_indexes_dict[node_wn] = list(new_set)
-            else:
-                rel_indexes_dict[node_wn] = list(new_rels_wn_set)
+    rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-            file_handle.seek(0)
+    for node_wn, new_rels_wn_set in items_to_add.items():
+        if node_wn in rel_indexes_dict:
+            existing_rels = set(rel_indexes_dict[node_wn])
+            new_set = existing_rels.union(new_rels_wn_set)
+            rel_indexes_dict[node_wn] = list(new_set)
+        else:
+            rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+    indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -86,12 +85,10 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/state/wiggle_number.py b/wiggle_query_language/graph/state/wiggle_number.py
index 5a99305..62ced89 100644
--- a/wiggle_query_language/graph/state/wiggle_number.py
+++ b/wiggle_query_language/graph/state/wiggle_number.py
@@ -2,6 +2,7 @@ from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import WIGGLE_NUMBER_TEST_FILE_PATH
+from wiggle_query_language.graph.storage import replace_file
 
 
 def get_current_wiggle_number(file_path: Path) -> int:
@@ -35,8 +36,7 @@ def update_wiggle_number(file_path: Path, new_wiggle_number: int) -> int:
     """
 
     graph_logger.debug("Updating state for WiggleNumber")
-    with open(file_path, "w") as file_handle:
-        file_handle.write(str(new_wiggle_number))
+    replace_file(file_path, str(new_wiggle_number))
     graph_logger.debug("Successfully updated state for WiggleNumber")
     return new_wiggle_number
 
diff --git a/wiggle_query_language/graph/storage.py b/wiggle_query_language/graph/storage.py
new file mode 100644
index 0000000..3282de5
--- /dev/null
+++ b/wiggle_query_language/graph/storage.py
@@ -0,0 +1,38 @@
+from contextlib import suppress
+from os import O_RDONLY, close, fsync, open as os_open, replace
+from pathlib import Path
+
+
+def sync_directory(directory_path: Path) -> None:
+    """
+    Makes the names in a directory survive a power loss.
+    :param directory_path: The path to the directory.
+    :return: None
+    """
+    directory_fd = os_open(directory_path, O_RDONLY)
+    try:
+        fsync(directory_fd)
+    finally:
+        close(directory_fd)
+
+
+def replace_file(file_path: Path, text: str) -> None:
+    """
+    Replaces the contents of a file in one step, readers and crashes see either the old
+    or the new contents.
+    :param file_path: The path to the file.
+    :param text: The new contents.
+    :return: None
+    """
+    new_file_path = file_path.with_name(f".{file_path.name}.new")
+    try:
+        with open(new_file_path, "w") as file_handle:
+            file_handle.write(text)
+            file_handle.flush()
+            fsync(file_handle.fileno())
+        replace(new_file_path, file_path)
+    except BaseException:
+        with suppress(OSError):
+            new_file_path.unlink(missing_ok=True)
+        raise
+    sync_directory(file_path.parent)
-- 
2.43.0


From 50355476c031d4635664cfc30940b133e9aa6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 19/29] fix: MAKE writes the wiggle number and the indexes
 before the nodes

---
 wiggle_query_language/clauses/make/make.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..6477fbf 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,22 +171,22 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # Nothing below is written if there were errors above.
+    # Wiggle numbers are used up first, so they are never handed out twice
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
-    # Add Indexes
+    # The indexes must cover the graph at all times, so they come before the nodes
     add_indexes(
         nodes_list=nodes_list_flat,
         emit_nodes_list=emit_nodes_list,
         gdbms_file_path=gdbms_file_path,
     )
-
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Adding the nodes commits the query
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
-- 
2.43.0


From ce4d9c12ad41b5d9f9b6ba0769f1d651802eb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 20/29] fix: sessions change a DBMS one at a time

---
 wiggle_query_language/clauses/make/make.py    | 16 +++++++++++++++-
 .../graph/database/database.py                |  7 ++++---
 .../graph/database/indexes/index_helpers.py   | 11 ++++++-----
 .../indexes/node_relationships_index.py       | 11 ++++++-----
 wiggle_query_language/graph/storage.py        | 19 ++++++++++++++++++-
 5 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 6477fbf..dc98ad4 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -28,6 +28,7 @@ from wiggle_query_language.graph.state.wiggle_number import (
     get_current_wiggle_number,
     update_wiggle_number,
 )
+from wiggle_query_language.graph.storage import locked
 
 
 def make_nodes(make_pre: MakePre) -> list[Node]:
@@ -153,7 +154,20 @@ def add_indexes(
 
 def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) -> bool:
     """
-    Handles the loading from stmt to putting data in the DB.
+    Handles the loading from stmt to putting data in the DB, one session at a time.
+    :param parsed_make_list: The list of parsed MAKE statements.
+    :param dbms_file_path: The path to the DBMS.
+    :return: A bool.
+    """
+    with locked(gdbms_file_path.database_file_path.parent):
+        return make_while_locked(parsed_make_list, gdbms_file_path)
+
+
+def make_while_locked(
+    parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath
+) -> bool:
+    """
+    Puts the data in the DB, the DBMS must be locked.
     :param parsed_make_list: The list of parsed MAKE statements.
     :param dbms_file_path: The path to the DBMS.
     :return: A bool.
diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4a6e66f..7a95661 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -6,7 +6,7 @@ from typing import Any
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import DATABASE_TEST_FILE_PATH
-from wiggle_query_language.graph.storage import replace_file
+from wiggle_query_language.graph.storage import locked, replace_file
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
 
@@ -69,8 +69,9 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        database = dict()
-        replace_file(database_file_path, dumps(database, indent=4))
+        with locked(database_file_path.parent):
+            database = dict()
+            replace_file(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index 6e5274c..4d35315 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -3,7 +3,7 @@ from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
-from wiggle_query_language.graph.storage import replace_file
+from wiggle_query_language.graph.storage import locked, replace_file
 
 
 def add_items_set_to_index_by_name(
@@ -62,10 +62,11 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r") as file_handle:
-            indexes_dict = load(file_handle)
-        indexes_dict[index_name] = []
-        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
+        with locked(indexes_file_path.parent):
+            with open(indexes_file_path, "r") as file_handle:
+                indexes_dict = load(file_handle)
+            indexes_dict[index_name] = []
+            replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index a5b560a..d02f52c 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -5,7 +5,7 @@ from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
-from wiggle_query_language.graph.storage import replace_file
+from wiggle_query_language.graph.storage import locked, replace_file
 
 
 def json_to_dict(
@@ -85,10 +85,11 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r") as file_handle:
-            indexes_dict = load(file_handle)
-        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
+        with locked(indexes_file_path.parent):
+            with open(indexes_file_path, "r") as file_handle:
+                indexes_dict = load(file_handle)
+            indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
+            replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/storage.py b/wiggle_query_language/graph/storage.py
index 3282de5..56f3b88 100644
--- a/wiggle_query_language/graph/storage.py
+++ b/wiggle_query_language/graph/storage.py
@@ -1,6 +1,23 @@
-from contextlib import suppress
+from contextlib import contextmanager, suppress
+from fcntl import LOCK_EX, flock
 from os import O_RDONLY, close, fsync, open as os_open, replace
 from pathlib import Path
+from typing import Iterator
+
+
+@contextmanager
+def locked(directory_path: Path) -> Iterator[None]:
+    """
+    Keeps other sessions from changing the files of a DBMS, freed when the session dies.
+    :param directory_path: The path to the directory of the DBMS.
+    :return: A context manager.
+    """
+    directory_fd = os_open(directory_path, O_RDONLY)
+    try:
+        flock(directory_fd, LOCK_EX)
+        yield
+    finally:
+        close(directory_fd)
 
 
 def sync_directory(directory_path: Path) -> None:
-- 
2.43.0


From 59f677b6cc1e911a3b941b55bb5e1050f02bfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 21/29] fix: only the help command itself is taken as help, not
 every query containing the word

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From b8e2cf6557a85dad29d7d0fabdf07f7380f9148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 22/29] fix: the existing DBMSs offered are those of the folder
 they are opened from

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..c824eab 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From bc0ed2409dc0e3339cb739b8d5782a85728f9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 23/29] fix: every existing DBMS can be selected, not only the
 first 26

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c824eab..49e8432 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,8 +1,9 @@
 import os
 from glob import glob
+from itertools import count, product
 from pathlib import Path
 from string import ascii_uppercase
-from typing import Optional
+from typing import Iterator, Optional
 
 from models.wigish import GDBMSFilePath
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
@@ -41,6 +42,16 @@ def list_existing_dbms(
     return existing_databases_sorted
 
 
+def selection_keys() -> Iterator[str]:
+    """
+    The keys that a User picks a DBMS with.
+    :return: A to Z, AA to ZZ, AAA...
+    """
+    for length in count(1):
+        for letters in product(ascii_uppercase, repeat=length):
+            yield "".join(letters)
+
+
 def get_and_display_available_dbms(
     path_to_dbms_dir: Path = DBMS_FOLDER,
 ) -> Optional[dict[str, str]]:
@@ -55,7 +66,7 @@ def get_and_display_available_dbms(
     # Zip does the shorter of the two iterables
     letter_db_dict = {
         char: x
-        for char, x in zip(ascii_uppercase, existing_databases)
+        for char, x in zip(selection_keys(), existing_databases)
         if x not in skips
     }
     # todo refactor this
-- 
2.43.0


From c1fbcdb2b2f8fd6934cf1efedb4b98f83f1e3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 24/29] fix: listing the DBMSs before the first one was created

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 49e8432..c5bc201 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -33,6 +33,8 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From 05c518bff0f976ac824796ab6e5d607c93717364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 25/29] fix: a DBMS is created with all of its files or not at
 all, only under a name of its own

---
 .../core/select_gdbms/select_database_file.py |  6 +-
 .../core/select_gdbms/select_gdbms.py         | 77 +++++++++++++++----
 .../core/select_gdbms/select_index_file.py    |  6 +-
 .../select_gdbms/select_wiggle_number_file.py |  6 +-
 4 files changed, 68 insertions(+), 27 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..b1b5631 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.storage import replace_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -20,12 +21,9 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     if new_database_file_path.is_file():
         raise ValueError("A Database file already exists")
 
-    new_database_file_path.touch()
-
     new_db_dict = dict()
 
-    with open(new_database_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_db_dict))
+    replace_file(new_database_file_path, dumps(new_db_dict))
 
     return new_database_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c5bc201..e9bb46f 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,11 +1,15 @@
 import os
+from errno import EEXIST, ENOTDIR, ENOTEMPTY
 from glob import glob
 from itertools import count, product
 from pathlib import Path
+from shutil import rmtree
 from string import ascii_uppercase
+from tempfile import mkdtemp
 from typing import Iterator, Optional
 
 from models.wigish import GDBMSFilePath
+from wiggle_query_language.graph.storage import sync_directory
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
@@ -20,6 +24,24 @@ from wiggle_shell.core.select_gdbms.select_wiggle_number_file import (
     get_existing_wn_file_path,
 )
 
+SKIPPED_FOLDERS = {"tests", "__pycache__"}
+STAGING_PREFIX = ".creating-"
+
+
+def check_gdbms_name(gdbms_name: str) -> None:
+    """
+    Refuses a name that is not that of a folder in the DBMS folder that gets listed.
+    :param gdbms_name: The name of the DBMS.
+    :return: None
+    """
+    if (
+        gdbms_name in {"", ".", ".."} | SKIPPED_FOLDERS
+        or "/" in gdbms_name
+        or "\0" in gdbms_name
+        or gdbms_name.startswith(STAGING_PREFIX)
+    ):
+        raise ValueError(f"{gdbms_name!r} cannot be used as the name of a DBMS")
+
 
 def list_existing_dbms(
     skips: Optional[set[str]] = None, path_to_dbms_dir: Path = DBMS_FOLDER
@@ -36,7 +58,11 @@ def list_existing_dbms(
     if not path_to_dbms_dir.is_dir():
         return []
     existing_databases = [
-        x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
+        x.name
+        for x in path_to_dbms_dir.iterdir()
+        if x.is_dir()
+        and x.name not in skips
+        and not x.name.startswith(STAGING_PREFIX)
     ]
 
     existing_databases_sorted = sorted(existing_databases)
@@ -62,7 +88,7 @@ def get_and_display_available_dbms(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return: A mapping of Letter: DBMS.
     """
-    skips = {"tests", "__pycache__"}
+    skips = SKIPPED_FOLDERS
     if not (existing_databases := list_existing_dbms(skips, path_to_dbms_dir)):
         return None
     # Zip does the shorter of the two iterables
@@ -92,7 +118,6 @@ def create_new_dbms(path_to_dbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
                 new_gdbms_name=new_db_name, path_to_dbms_dir=path_to_dbms_dir
             )
         except ValueError:
-            print(f"{new_db_name} is already taken, please choose another name.")
             continue
 
 
@@ -106,21 +131,43 @@ def get_new_gdbms_file_paths(
     :return: A filepath for both the db and wn.
     """
 
+    # todo cancel operation
     try:
-        # todo cancel operation
-        db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
-        indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
-        wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
-        print(f"Using {new_gdbms_name}")
-        return GDBMSFilePath(
-            database_file_path=db_path,
-            indexes_file_path=indexes_path,
-            wiggle_number_file_path=wn_path,
-        )
-    except ValueError:
-        print(f"{new_gdbms_name} is already taken, please choose another name.")
+        check_gdbms_name(new_gdbms_name)
+    except ValueError as e:
+        print(f"{e}, please choose another name.")
         raise
 
+    path_to_dbms_dir.mkdir(parents=True, exist_ok=True)
+    sync_directory(path_to_dbms_dir.parent)
+    gdbms_path = path_to_dbms_dir.joinpath(new_gdbms_name)
+
+    # Made out of sight, a DBMS is there with all of its files or not at all
+    staging_dir = Path(mkdtemp(prefix=STAGING_PREFIX, dir=path_to_dbms_dir))
+    try:
+        new_file_paths = [
+            create_new_database(new_gdbms_name, staging_dir),
+            create_new_indexes_file(new_gdbms_name, staging_dir),
+            create_new_wiggle_number_file(new_gdbms_name, staging_dir),
+        ]
+        staging_dir.joinpath(new_gdbms_name).rename(gdbms_path)
+    except OSError as e:
+        if e.errno not in {EEXIST, ENOTEMPTY, ENOTDIR}:
+            raise
+        print(f"{new_gdbms_name} is already taken, please choose another name.")
+        raise ValueError(f"{new_gdbms_name} is already taken") from e
+    finally:
+        rmtree(staging_dir, ignore_errors=True)
+    sync_directory(path_to_dbms_dir)
+
+    print(f"Using {new_gdbms_name}")
+    db_path, indexes_path, wn_path = (gdbms_path.joinpath(x.name) for x in new_file_paths)
+    return GDBMSFilePath(
+        database_file_path=db_path,
+        indexes_file_path=indexes_path,
+        wiggle_number_file_path=wn_path,
+    )
+
 
 def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..1fedd74 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.storage import replace_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -22,16 +23,13 @@ def create_new_indexes_file(
     if new_indexes_file_path.is_file():
         raise ValueError("An Indexes file already exists")
 
-    new_indexes_file_path.touch()
-
     new_index_dict = {
         "node_relationships": {},
         "node_labels": [],
         "relationship_names": [],
     }
 
-    with open(new_indexes_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_index_dict))
+    replace_file(new_indexes_file_path, dumps(new_index_dict))
 
     return new_indexes_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..7b8f2d2 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_query_language.graph.storage import replace_file
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -22,10 +23,7 @@ def create_new_wiggle_number_file(
     if new_wn_state_file_path.is_file():
         raise ValueError("A WiggleNUmber file already exists")
 
-    new_wn_state_file_path.touch()
-
-    with open(new_wn_state_file_path, "w") as file:
-        file.write("0")
+    replace_file(new_wn_state_file_path, "0")
 
     return new_wn_state_file_path
 
-- 
2.43.0


From 25a5bcb19ee48d04bf128f38425db092ecb1c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 26/29] fix: deleting a DBMS removes its files whatever its
 name, and nothing else

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index e9bb46f..01a05f2 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,6 +1,5 @@
 import os
 from errno import EEXIST, ENOTDIR, ENOTEMPTY
-from glob import glob
 from itertools import count, product
 from pathlib import Path
 from shutil import rmtree
@@ -9,7 +8,7 @@ from tempfile import mkdtemp
 from typing import Iterator, Optional
 
 from models.wigish import GDBMSFilePath
-from wiggle_query_language.graph.storage import sync_directory
+from wiggle_query_language.graph.storage import locked, sync_directory
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
@@ -227,17 +226,18 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
+    check_gdbms_name(gdbms_name)
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
+    with locked(db_path):
+        for file in list(db_path.iterdir()):
             os.remove(file)
 
-    db_path.rmdir()
+        db_path.rmdir()
+    sync_directory(path_to_dbms_dir)
 
     return 0
 
-- 
2.43.0


From 49760e5cf9e85a6a6a5ee51e5808573f786cde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 27/29] fix: a blank between an arrow and the next node no
 longer reverses the relationship

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..c29a44e 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.strip()[-1] == ">" else False
-- 
2.43.0


From 368021d2299816a96b863ce2c2755241a8d70868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 28/29] fix: a quoted string is stored as written, blanks and
 inner quotes included

---
 .../clauses/parsing_helpers/parse_properties.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index f016796..08512dd 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import compile
+from re import DOTALL, compile
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -13,6 +13,7 @@ LIST_KEYWORDS = {"true": "True", "false": "False", "null": "None"}
 LIST_KEYWORD_OR_STRING_REGEX = compile(
     r"'[^']*'|\"[^\"]*\"|\b(?:true|false|null)\b"
 )
+QUOTED_STRING_REGEX = compile(r"(?P<quote>['\"])(?P<string>.*)(?P=quote)", flags=DOTALL)
 
 
 def get_property_dict(properties_string: str) -> Optional[dict]:
@@ -75,6 +76,13 @@ def handle_extracted_property(
     striped_value = (
         extracted_property.property_value.strip().strip('"').strip("'").strip()
     )
+    # What stands between the quotes is the value, blanks and other quotes included
+    if quoted_string := QUOTED_STRING_REGEX.fullmatch(
+        extracted_property.property_value.strip()
+    ):
+        string_value = quoted_string.group("string")
+    else:
+        string_value = striped_value
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
@@ -88,7 +96,7 @@ def handle_extracted_property(
         case PropertyType.LIST_TYPE:
             return handle_list_property(striped_value)
         case PropertyType.STRING_TYPE:
-            return handle_string_property(striped_value)
+            return handle_string_property(string_value)
         case _:
             raise Exception()
 
-- 
2.43.0


From b2f0bcc6e0a1289e625ffb40ae635ccea3f37b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:41 +0000
Subject: [PATCH 29/29] fix: refuse numbers too large for a float instead of
 storing infinity

---
 .../clauses/parsing_helpers/parse_properties.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 08512dd..92d2f1f 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from math import isinf
 from re import DOTALL, compile
 from typing import Optional
 
@@ -152,6 +153,8 @@ def handle_float_property(value: str) -> float:
         )
     try:
         found_float = float(value)
+        if isinf(found_float):
+            raise WiggleGraphIllegalPropertyValue(f"{value} is too large for a float")
         graph_logger.debug(f"{value} was determined to be a float: {found_float}")
         return found_float
     except (TypeError, ValueError):
@@ -201,6 +204,10 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
             raise WiggleGraphIllegalPropertyValue(
                 f"{value_in} contained {item!r}, which is not a WiggleGraph value."
             )
+        if isinstance(item, float) and isinf(item):
+            raise WiggleGraphIllegalPropertyValue(
+                f"{value_in} contained a number which is too large for a float."
+            )
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
-- 
2.43.0

