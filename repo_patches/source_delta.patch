From ffe6e8bf968233c4ede850caa349dbf586af59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 01/28] fix: matrix: integer literals beyond the int range keep
 their value

An INTEGER token was read with atoi(), so 4294967296 evaluated to 0 (and other
large literals to arbitrary values). Such literals are now returned as NUMBER.
---
 tools/matrix/matrix.cc | 74 +++++++++++++++++++++++-------------------
 tools/matrix/matrix.ll | 10 +++++-
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 3d25b41..f5dcc20 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -532,6 +532,8 @@ char *yytext;
 #line 1 "matrix.ll"
 #line 2 "matrix.ll"
 #include <iostream>
+#include <cerrno>
+#include <climits>
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
@@ -554,7 +556,7 @@ int include_depth = 0;
 
 
 
-#line 554 "matrix.cc"
+#line 556 "matrix.cc"
 
 #define INITIAL 0
 #define incl 1
@@ -777,9 +779,9 @@ YY_DECL
 		}
 
 	{
-#line 27 "matrix.ll"
+#line 29 "matrix.ll"
 
-#line 779 "matrix.cc"
+#line 781 "matrix.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,52 +841,52 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 28 "matrix.ll"
+#line 30 "matrix.ll"
 ; /* Ignore comment lines */
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 30 "matrix.ll"
+#line 32 "matrix.ll"
 { return GAMMAPOLCH; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 31 "matrix.ll"
+#line 33 "matrix.ll"
 { return COEFXI; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 32 "matrix.ll"
+#line 34 "matrix.ll"
 { return COEFZETA; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 33 "matrix.ll"
+#line 35 "matrix.ll"
 { return COEFDELTA; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 34 "matrix.ll"
+#line 36 "matrix.ll"
 { return COEFKAPPA; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 35 "matrix.ll"
+#line 37 "matrix.ll"
 { return COEFV; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 36 "matrix.ll"
+#line 38 "matrix.ll"
 { BEGIN(incl); }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 38 "matrix.ll"
+#line 40 "matrix.ll"
 ;
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 39 "matrix.ll"
+#line 41 "matrix.ll"
 {
 	 parse_file(yytext);
 	 BEGIN(INITIAL);
@@ -892,17 +894,17 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 44 "matrix.ll"
+#line 46 "matrix.ll"
 { BEGIN(sys); }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 46 "matrix.ll"
+#line 48 "matrix.ll"
 ;
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 47 "matrix.ll"
+#line 49 "matrix.ll"
 {
          system(yytext);
          BEGIN(INITIAL);
@@ -910,15 +912,21 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 52 "matrix.ll"
+#line 54 "matrix.ll"
 { 
-         yylval.ival = atoi(yytext);
+         errno = 0;
+         const long value = strtol(yytext, nullptr, 10);
+         if (errno == ERANGE || value > INT_MAX) { // does not fit in ival
+           yylval.dval = atof(yytext);
+           return NUMBER;
+         }
+         yylval.ival = static_cast<int>(value);
 	 return INTEGER;
        }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 57 "matrix.ll"
+#line 65 "matrix.ll"
 {
   yylval.dval = atof(yytext);
   return NUMBER;
@@ -926,7 +934,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 62 "matrix.ll"
+#line 70 "matrix.ll"
 {
 		yylval.dval = atof(yytext);
 		return NUMBER;
@@ -934,17 +942,17 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 68 "matrix.ll"
+#line 76 "matrix.ll"
 ;		 /* ignore white space */
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 70 "matrix.ll"
+#line 78 "matrix.ll"
 ;          /* ignore sections (param) */
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 72 "matrix.ll"
+#line 80 "matrix.ll"
 { 
                      if (veryverbose) {
                        cerr << yytext << endl;
@@ -953,7 +961,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 78 "matrix.ll"
+#line 86 "matrix.ll"
 {	/* return symbol pointer */
 		struct symtab *sp = symlook(yytext);
 
@@ -964,7 +972,7 @@ YY_RULE_SETUP
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(incl):
 case YY_STATE_EOF(sys):
-#line 85 "matrix.ll"
+#line 93 "matrix.ll"
 {
            if (verbose) {
              cerr << "EOF" << endl;
@@ -987,19 +995,19 @@ case YY_STATE_EOF(sys):
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 97 "matrix.ll"
+#line 105 "matrix.ll"
 { return 0; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 99 "matrix.ll"
+#line 107 "matrix.ll"
 { count_braces++;
           return yytext[0];
 	}
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 103 "matrix.ll"
+#line 111 "matrix.ll"
 { if (count_braces == 0) {
              cerr << "Brace mismatch." << endl;
 	     exit(1);
@@ -1011,7 +1019,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-#line 111 "matrix.ll"
+#line 119 "matrix.ll"
 {
           if (count_braces > 0) {
 	    // ignore line breaks when lists span multiple lines
@@ -1022,15 +1030,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 118 "matrix.ll"
+#line 126 "matrix.ll"
 return yytext[0];
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 119 "matrix.ll"
+#line 127 "matrix.ll"
 ECHO;
 	YY_BREAK
-#line 1022 "matrix.cc"
+#line 1030 "matrix.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2032,7 +2040,7 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 119 "matrix.ll"
+#line 127 "matrix.ll"
 
 
 
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 230948c..76e5ced 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -1,5 +1,7 @@
 %{
 #include <iostream>
+#include <cerrno>
+#include <climits>
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
@@ -54,7 +56,13 @@ parse      { BEGIN(incl); }
        }
 
 [0-9]+ { 
-         yylval.ival = atoi(yytext);
+         errno = 0;
+         const long value = strtol(yytext, nullptr, 10);
+         if (errno == ERANGE || value > INT_MAX) { // does not fit in ival
+           yylval.dval = atof(yytext);
+           return NUMBER;
+         }
+         yylval.ival = static_cast<int>(value);
 	 return INTEGER;
        }
 
-- 
2.43.0


From f983a229551714929f1bd6d5d4be3606edf9a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 02/28] fix: matrix: evaluate function[name] instead of
 skipping the argument

The rule that ignores [param] section lines also swallowed the argument list
of sqrt[a] and the like, which then silently evaluated to 0. A bracket that
directly follows a name is now always an argument list.
---
 tools/matrix/matrix.cc | 78 ++++++++++++++++++++++++------------------
 tools/matrix/matrix.ll | 14 ++++++--
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index f5dcc20..5d004b6 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -554,9 +554,13 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+bool name_seen = false;  // the token being matched is a NAME
+bool after_name = false; // the previous token was a NAME
+#define YY_USER_ACTION after_name = name_seen; name_seen = false;
 
 
-#line 556 "matrix.cc"
+
+#line 560 "matrix.cc"
 
 #define INITIAL 0
 #define incl 1
@@ -779,9 +783,9 @@ YY_DECL
 		}
 
 	{
-#line 29 "matrix.ll"
+#line 33 "matrix.ll"
 
-#line 781 "matrix.cc"
+#line 785 "matrix.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -841,52 +845,52 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 30 "matrix.ll"
+#line 34 "matrix.ll"
 ; /* Ignore comment lines */
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 32 "matrix.ll"
+#line 36 "matrix.ll"
 { return GAMMAPOLCH; }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 33 "matrix.ll"
+#line 37 "matrix.ll"
 { return COEFXI; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 34 "matrix.ll"
+#line 38 "matrix.ll"
 { return COEFZETA; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 35 "matrix.ll"
+#line 39 "matrix.ll"
 { return COEFDELTA; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 36 "matrix.ll"
+#line 40 "matrix.ll"
 { return COEFKAPPA; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 37 "matrix.ll"
+#line 41 "matrix.ll"
 { return COEFV; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 38 "matrix.ll"
+#line 42 "matrix.ll"
 { BEGIN(incl); }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 40 "matrix.ll"
+#line 44 "matrix.ll"
 ;
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 41 "matrix.ll"
+#line 45 "matrix.ll"
 {
 	 parse_file(yytext);
 	 BEGIN(INITIAL);
@@ -894,17 +898,17 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 46 "matrix.ll"
+#line 50 "matrix.ll"
 { BEGIN(sys); }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 48 "matrix.ll"
+#line 52 "matrix.ll"
 ;
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 49 "matrix.ll"
+#line 53 "matrix.ll"
 {
          system(yytext);
          BEGIN(INITIAL);
@@ -912,7 +916,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 54 "matrix.ll"
+#line 58 "matrix.ll"
 { 
          errno = 0;
          const long value = strtol(yytext, nullptr, 10);
@@ -926,7 +930,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 65 "matrix.ll"
+#line 69 "matrix.ll"
 {
   yylval.dval = atof(yytext);
   return NUMBER;
@@ -934,7 +938,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 70 "matrix.ll"
+#line 74 "matrix.ll"
 {
 		yylval.dval = atof(yytext);
 		return NUMBER;
@@ -942,17 +946,22 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 76 "matrix.ll"
-;		 /* ignore white space */
+#line 80 "matrix.ll"
+name_seen = after_name; /* ignore white space */
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 78 "matrix.ll"
-;          /* ignore sections (param) */
+#line 82 "matrix.ll"
+{ /* ignore sections (param), but keep function arguments: sqrt[a] */
+                     if (after_name) {
+                       yyless(1);
+                       return yytext[0];
+                     }
+                }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 80 "matrix.ll"
+#line 89 "matrix.ll"
 { 
                      if (veryverbose) {
                        cerr << yytext << endl;
@@ -961,8 +970,9 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 86 "matrix.ll"
+#line 95 "matrix.ll"
 {	/* return symbol pointer */
+		name_seen = true;
 		struct symtab *sp = symlook(yytext);
 
 		yylval.symp = sp;
@@ -972,7 +982,7 @@ YY_RULE_SETUP
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(incl):
 case YY_STATE_EOF(sys):
-#line 93 "matrix.ll"
+#line 103 "matrix.ll"
 {
            if (verbose) {
              cerr << "EOF" << endl;
@@ -995,19 +1005,19 @@ case YY_STATE_EOF(sys):
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 105 "matrix.ll"
+#line 115 "matrix.ll"
 { return 0; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 107 "matrix.ll"
+#line 117 "matrix.ll"
 { count_braces++;
           return yytext[0];
 	}
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 111 "matrix.ll"
+#line 121 "matrix.ll"
 { if (count_braces == 0) {
              cerr << "Brace mismatch." << endl;
 	     exit(1);
@@ -1019,7 +1029,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-#line 119 "matrix.ll"
+#line 129 "matrix.ll"
 {
           if (count_braces > 0) {
 	    // ignore line breaks when lists span multiple lines
@@ -1030,15 +1040,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 126 "matrix.ll"
+#line 136 "matrix.ll"
 return yytext[0];
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 127 "matrix.ll"
+#line 137 "matrix.ll"
 ECHO;
 	YY_BREAK
-#line 1030 "matrix.cc"
+#line 1040 "matrix.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2040,7 +2050,7 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 127 "matrix.ll"
+#line 137 "matrix.ll"
 
 
 
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 76e5ced..616acc5 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -22,6 +22,10 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+bool name_seen = false;  // the token being matched is a NAME
+bool after_name = false; // the previous token was a NAME
+#define YY_USER_ACTION after_name = name_seen; name_seen = false;
+
 %}
 
 %x incl
@@ -77,9 +81,14 @@ parse      { BEGIN(incl); }
 	}
 
 
-[ \t]	;		 /* ignore white space */
+[ \t]	name_seen = after_name; /* ignore white space */
 
-\[{ALPHANAME}\] ;          /* ignore sections (param) */
+\[{ALPHANAME}\] { /* ignore sections (param), but keep function arguments: sqrt[a] */
+                     if (after_name) {
+                       yyless(1);
+                       return yytext[0];
+                     }
+                }
 
 {ALPHANAME}={TEXT} { 
                      if (veryverbose) {
@@ -88,6 +97,7 @@ parse      { BEGIN(incl); }
 		}
 
 {ALPHANAME}	{	/* return symbol pointer */
+		name_seen = true;
 		struct symtab *sp = symlook(yytext);
 
 		yylval.symp = sp;
-- 
2.43.0


From 3713dcf8abe7ccb5164c01bf6824687e0130edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 03/28] fix: matrix: reaching the end of an included file keeps
 the main file open

yywrap() is also called at the end of a file included with 'parse'; it then
closed the main script, whose remaining lines were lost (or the parser crashed).
---
 tools/matrix/parser.cc | 5 +++++
 tools/matrix/parser.yy | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..f651b47 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1940,10 +1940,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    if (include_depth > 0) {
+      return 1; // end of a file included with 'parse', keep the main file open
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..b5cf6e1 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -339,10 +339,15 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    if (include_depth > 0) {
+      return 1; // end of a file included with 'parse', keep the main file open
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
-- 
2.43.0


From 84ff6cbeec31a858cae38c578131d6cfa5137556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 04/28] fix: matrix: out-of-range coefficient indices are an
 error in every build

The ranges were only checked with assert(), so in release builds coefxi[1,99]
read beyond the table and printed an arbitrary number.
---
 tools/matrix/parser.cc | 26 +++++++++++++++-----------
 tools/matrix/parser.yy | 26 +++++++++++++++-----------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index f651b47..f9f847f 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2095,39 +2095,44 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// Out-of-range coefficients may not be read, also when assert() is disabled.
+void check_range(bool ok, const char *name)
+{
+  if (!ok) {
+    cerr << name << ": index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range(1 <= ch && ch <= nrchannels, "gammaPolCh");
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < zeta[ch-1].size(), "coefzeta");
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < xi[ch-1].size(), "coefxi");
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < delta[ch-1].size(), "coefdelta");
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < kappa[ch-1].size(), "coefkappa");
   return kappa[ch-1][i];
 }
 
@@ -2136,8 +2141,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range(1 <= i && i <= V[ch-1].size() && 1 <= j && j <= V[ch-1][i-1].size(), "coefV");
   return V[ch-1][i-1][j-1];
 }
 
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b5cf6e1..0d2eed4 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -494,39 +494,44 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// Out-of-range coefficients may not be read, also when assert() is disabled.
+void check_range(bool ok, const char *name)
+{
+  if (!ok) {
+    cerr << name << ": index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  check_range(1 <= ch && ch <= nrchannels, "gammaPolCh");
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < zeta[ch-1].size(), "coefzeta");
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < xi[ch-1].size(), "coefxi");
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < delta[ch-1].size(), "coefdelta");
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  check_range(1 <= ch && ch <= nrchannels && 0 <= i && i < kappa[ch-1].size(), "coefkappa");
   return kappa[ch-1][i];
 }
 
@@ -535,8 +540,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  check_range(1 <= i && i <= V[ch-1].size() && 1 <= j && j <= V[ch-1][i-1].size(), "coefV");
   return V[ch-1][i-1][j-1];
 }
 
-- 
2.43.0


From f998fe10c28fcb8915c90dff5f112f4bd60870a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 05/28] fix: intavg, integ, kk: comment lines between the data
 rows are skipped

peek() saw the line end left behind by the previous row, so only leading
comment lines were recognised; a later one silently ended the table.
---
 tools/intavg/intavg.cc | 2 +-
 tools/integ/integ.cc   | 2 +-
 tools/kk/kk.hpp        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..053319b 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -88,7 +88,7 @@ Vec load(int i) {
   Vec data;
 
   while (f) {
-    if (f.peek() == '#') { // skip comment lines
+    if ((f >> ws).peek() == '#') { // skip comment lines
       string line;
       getline(f, line);
     } else {
diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..61a3d61 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -115,7 +115,7 @@ void cmd_line(int argc, char *argv[]) {
 // Read data from stream F.
 void readtable(istream &F, XYFUNC &v) {
   while (F) {
-    if (F.peek() == '#') { // skip comment lines
+    if ((F >> ws).peek() == '#') { // skip comment lines
       string line;
       getline(F, line);
     } else {
diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index fb1fcfa..0c2baff 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -66,7 +66,7 @@ constexpr auto OUTPUT_PRECISION = 16;
 inline auto read(std::istream &F) {
   XYFUNC v;
   while (F) {
-    if (F.peek() == '#') { // skip comment lines
+    if ((F >> std::ws).peek() == '#') { // skip comment lines
       std::string line;
       std::getline(F, line);
     } else {
-- 
2.43.0


From 3949f04480cdfa3342882f1aea226c247b3c1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 06/28] fix: intavg: sort the rows before interpolating

LinInt assumes ascending abscissas (tdavg sorts them); unsorted input files were
silently averaged to wrong values.
---
 tools/intavg/intavg.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 053319b..17f49b0 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -228,7 +228,10 @@ dvec merge_meshes() {
 vector<LinInt> f; // interpolation objects
 
 void interpolate() {
-  for (int i = 0; i < Nz; i++) { f.emplace_back(input[i]); }
+  for (int i = 0; i < Nz; i++) {
+    sort(input[i].begin(), input[i].end()); // LinInt expects ascending x
+    f.emplace_back(input[i]);
+  }
 }
 
 Vec avg() {
-- 
2.43.0


From dd7051c4facbb664f298b70b48a366ee1078f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 07/28] fix: intavg, tdavg: a mesh point at zero is present
 only once

For a=b=0 the relative difference is NaN, so the point at 0 was printed once per
input curve.
---
 tools/intavg/intavg.cc | 2 +-
 tools/tdavg/tdavg.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 17f49b0..658ff48 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -209,7 +209,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..b25e12b 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -289,7 +289,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
-- 
2.43.0


From 8537649b42f5d452ecdd44e5ba4ae6e031ed6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 08/28] fix: integ: integrate between the table points

A single adaptive quadrature over the whole range could overlook narrow features
and the jump of the integrand at x=0: the positive and negative parts did not add
up to the total (2e-4 off for a straight line on 130 points), and isolated peaks
were lost. The interpolating function is smooth between consecutive points.
---
 tools/integ/integ.cc | 45 +++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 61a3d61..99f77a1 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -236,19 +236,38 @@ double calc(double (*fnc)(double, void *)) {
   F.function = fnc;
   //   F.params = &Z;
 
-  double integral;
-  double integration_error;
-  int status = gsl_integration_qag(&F,   // integrand function
-                                   Xmin, // lower integration boundary
-                                   Xmax, // upper integration boundary
-                                   EPSABS, EPSREL,
-                                   limit,               // size of workspace w
-                                   GSL_INTEG_GAUSS15,   // Gauss-Kronrod rule
-                                   w,                   // integration workspace
-                                   &integral,           // final approximation
-                                   &integration_error); // estimate of absolute error
-
-  handle_qag(status);
+  double integral          = 0.0;
+  double integration_error = 0.0;
+
+  // Integrate [x0:x1], which may not contain any table point or zero (where f_pos and f_neg jump) in its interior.
+  // Otherwise narrow features of the function could be overlooked.
+  auto add = [&](const double x0, const double x1) {
+    double part;
+    double part_error;
+    int status = gsl_integration_qag(&F, // integrand function
+                                     x0, // lower integration boundary
+                                     x1, // upper integration boundary
+                                     EPSABS, EPSREL,
+                                     limit,             // size of workspace w
+                                     GSL_INTEG_GAUSS15, // Gauss-Kronrod rule
+                                     w,                 // integration workspace
+                                     &part,             // final approximation
+                                     &part_error);      // estimate of absolute error
+    handle_qag(status);
+    integral += part;
+    integration_error += part_error;
+  };
+
+  for (int i = 0; i < len - 1; i++) {
+    const double x0 = Xpts[i];
+    const double x1 = Xpts[i + 1];
+    if (x0 < 0.0 && 0.0 < x1) {
+      add(x0, 0.0);
+      add(0.0, x1);
+    } else {
+      add(x0, x1);
+    }
+  }
 
   if (veryverbose) {
     cout << scientific;
-- 
2.43.0


From eca1c151385cc01e603bbef3ca1f2be320467f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 09/28] fix: broaden: finite spectral function at zero output
 frequency

---
 tools/broaden/broaden.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/broaden/broaden.hpp b/tools/broaden/broaden.hpp
index 474b458..7ef08e9 100644
--- a/tools/broaden/broaden.hpp
+++ b/tools/broaden/broaden.hpp
@@ -423,7 +423,7 @@ class Broaden {
    // energy of the spectral function point being computed. ept is the energy of point.
    inline auto BR_L_orig(const double e, const double ept) {
      if ((e < 0.0 && ept > 0.0) || (e > 0.0 && ept < 0.0)) return 0.0;
-     if (ept == 0.0) return 0.0;
+     if (e == 0.0 || ept == 0.0) return 0.0;
      const auto gamma = alpha / 4;
      return exp(-sqr(log(e / ept) / alpha - gamma)) / (alpha * std::abs(e) * m_SQRTPI);
    }
@@ -443,7 +443,7 @@ class Broaden {
        ept              = ept - shift;
      }
      if ((e < 0.0 && ept > 0.0) || (e > 0.0 && ept < 0.0)) return 0.0;
-     if (ept == 0.0) return 0.0;
+     if (e == 0.0 || ept == 0.0) return 0.0;
      const auto gamma = alpha / 4;
      return exp(-sqr(log(e / ept) / alpha - gamma)) / (alpha * std::abs(e) * m_SQRTPI);
    }
-- 
2.43.0


From ad1f71557ecb95f35f75ec5baed01e0c075ebd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 10/28] fix: polarized NONE, P and PP: subtract half the
 average occupancy per spin

DIAG_UP and DIAG_DOWN are each applied once per spin, but subtracted the average occupancy of the whole site, so
the on-site term zeta was counted relative to -1/2 per spin: energies were shifted by (zetaUP+zetaDOWN)/2 per site.
U1, QSZ and SPU1 use diag_function_half for this.
---
 c++/symmetry/sym-NONE-impl.hpp | 4 ++--
 c++/symmetry/sym-P-impl.hpp    | 4 ++--
 c++/symmetry/sym-PP-impl.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 48f7672..72418ab 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -76,10 +76,10 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryNONE<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 1fc54cd..180c1b6 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -95,10 +95,10 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b19c175..a9cee58 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -79,10 +79,10 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryPP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From b7451ff9ef6646fa7c7a0276352f6bb612fca613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/28] fix: SPSU2LR: quantum numbers of a singlet operator are
 SS=1, P=1

With SS=0 the triangle inequality rejected every block of a singlet operator, and any run with a
singlet operator in 'ops' ended with an out-of-range exception at the first iteration.
---
 c++/symmetry/sym-SPSU2LR-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index ca3835b..2571646 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -10,7 +10,7 @@ class SymmetrySPSU2LR : public SymLR<SC> {
  public:
    using Matrix = typename traits<SC>::Matrix;
    using t_matel = typename traits<SC>::t_matel;
-   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(0,1)) {
+   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(1,1)) {
      initInvar({
         {"SS", additive},     // spin
         {"P", multiplicative} // parity
-- 
2.43.0


From 54a7b7cf3e7c7ecb9d89dd2d7ef4ae52db5c0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/28] fix: SPSU2LR: no charge quantum number in
 spectral-function factors

specdens_factor() and dynamicsusceptibility_factor() asked for the quantum number Q, which this
symmetry type does not have, so every spectral function ended with an exception.
---
 c++/symmetry/sym-SPSU2LR-impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index 2571646..cd7cf20 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -32,7 +32,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
@@ -40,7 +39,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 1);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     return (ss1 == ssp + 1 ? S(ssp) + 1.0 : S(ssp));
-- 
2.43.0


From 05137d8d4d1b19efed501785469946d483673371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 13/28] fix: SL, three channels: count each added site once in
 N1, N2, N3

The tables repeated the contribution of the one relevant channel for all three channels.
---
 c++/symmetry/coefnew/sl/sl-3ch-N1.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N2.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N3.dat | 8 --------
 c++/symmetry/coefnew/sl/sl.m          | 3 +++
 4 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
index fca1387..415bad3 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
@@ -2,11 +2,3 @@ N1(1, 1, 0, -1);
 N1(2, 2, 0, -1);
 N1(3, 3, 0, -1);
 N1(5, 5, 0, -1);
-N1(1, 1, 1, -1);
-N1(2, 2, 1, -1);
-N1(3, 3, 1, -1);
-N1(5, 5, 1, -1);
-N1(1, 1, 2, -1);
-N1(2, 2, 2, -1);
-N1(3, 3, 2, -1);
-N1(5, 5, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
index aee6d05..da992cf 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
@@ -1,12 +1,4 @@
-N2(1, 1, 0, -1);
-N2(2, 2, 0, -1);
-N2(4, 4, 0, -1);
-N2(6, 6, 0, -1);
 N2(1, 1, 1, -1);
 N2(2, 2, 1, -1);
 N2(4, 4, 1, -1);
 N2(6, 6, 1, -1);
-N2(1, 1, 2, -1);
-N2(2, 2, 2, -1);
-N2(4, 4, 2, -1);
-N2(6, 6, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
index 881f742..657ee35 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
@@ -1,11 +1,3 @@
-N3(1, 1, 0, -1);
-N3(3, 3, 0, -1);
-N3(4, 4, 0, -1);
-N3(7, 7, 0, -1);
-N3(1, 1, 1, -1);
-N3(3, 3, 1, -1);
-N3(4, 4, 1, -1);
-N3(7, 7, 1, -1);
 N3(1, 1, 2, -1);
 N3(3, 3, 2, -1);
 N3(4, 4, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl.m b/c++/symmetry/coefnew/sl/sl.m
index 59471b7..a5e234d 100644
--- a/c++/symmetry/coefnew/sl/sl.m
+++ b/c++/symmetry/coefnew/sl/sl.m
@@ -107,18 +107,21 @@ matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
 ];
 
 matrixopN1[i1_, i2_, ch_] := Module[{op, opqtot},
+  If[ch != 0, Return[0]]; (* only one contribution *)
   op = ch2op[0];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN2[i1_, i2_, ch_] := Module[{op, opqtot},
+  If[ch != 1, Return[0]]; (* only one contribution *)
   op = ch2op[1];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
   matrixop1[i1, i2, opqtot]
 ];
 
 matrixopN3[i1_, i2_, ch_] := Module[{op, opqtot},
+  If[ch != 2, Return[0]]; (* only one contribution *)
   If[ch <= -1 || ch >= 3, Exit[]];
   op = ch2op[2];
   opqtot = number[ op[] ] - 1; (* Subtract 1 to conform to the definition of Q in the NRG code! *)
-- 
2.43.0


From 7495fda82cbac9f35314d4a58d9e7f3afca82564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 14/28] fix: SL3: total charge counts each added site as n-1

The shift by three sites was subtracted once for each of the three channels, so that Qtot differed from N1+N2+N3.
---
 c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat | 36 ++++++++---------------
 c++/symmetry/coefnew/sl3/sl3.m            |  2 +-
 2 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
index 0a23123..d6563c2 100644
--- a/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
+++ b/c++/symmetry/coefnew/sl3/sl3-3ch-qtot.dat
@@ -1,24 +1,12 @@
-QTOT(1, 1, 0, -3);
-QTOT(2, 2, 0, -3);
-QTOT(3, 3, 0, -3);
-QTOT(4, 4, 0, -3);
-QTOT(5, 5, 0, -2);
-QTOT(6, 6, 0, -2);
-QTOT(7, 7, 0, -2);
-QTOT(8, 8, 0, -2);
-QTOT(1, 1, 1, -3);
-QTOT(2, 2, 1, -3);
-QTOT(3, 3, 1, -2);
-QTOT(4, 4, 1, -2);
-QTOT(5, 5, 1, -3);
-QTOT(6, 6, 1, -3);
-QTOT(7, 7, 1, -2);
-QTOT(8, 8, 1, -2);
-QTOT(1, 1, 2, -3);
-QTOT(2, 2, 2, -2);
-QTOT(3, 3, 2, -3);
-QTOT(4, 4, 2, -2);
-QTOT(5, 5, 2, -3);
-QTOT(6, 6, 2, -2);
-QTOT(7, 7, 2, -3);
-QTOT(8, 8, 2, -2);
+QTOT(1, 1, 0, -1);
+QTOT(2, 2, 0, -1);
+QTOT(3, 3, 0, -1);
+QTOT(4, 4, 0, -1);
+QTOT(1, 1, 1, -1);
+QTOT(2, 2, 1, -1);
+QTOT(5, 5, 1, -1);
+QTOT(6, 6, 1, -1);
+QTOT(1, 1, 2, -1);
+QTOT(3, 3, 2, -1);
+QTOT(5, 5, 2, -1);
+QTOT(7, 7, 2, -1);
diff --git a/c++/symmetry/coefnew/sl3/sl3.m b/c++/symmetry/coefnew/sl3/sl3.m
index 7f82a92..98a54b5 100644
--- a/c++/symmetry/coefnew/sl3/sl3.m
+++ b/c++/symmetry/coefnew/sl3/sl3.m
@@ -121,7 +121,7 @@ diffsS = { {{0, 0, 0}, FNSINGLET<>".dat"} };
 
 matrixopqtot[i1_, i2_, ch_] := Module[{op, opqtot},
   op = ch2op[ch];
-  opqtot = number[ op[] ] - 3;
+  opqtot = number[ op[] ] - 1; (* for each channel *)
   matrixop1[i1, i2, opqtot]
 ];
 
-- 
2.43.0


From 9048544c7ba2471a53f577fafe56a175ff2f53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 15/28] fix: U1 without polarization: hop between sites with
 the same spin

The operators f are stored spin up first (as written by nrginit, as recalculated by recalc_irreduc()
and as used by the polarized code), but the non-polarized code took them in the opposite order. The
spin label alternated from site to site: energies were unaffected, but the global operators SZtot and
SXtot were wrong.
---
 c++/symmetry/sym-U1-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry/sym-U1-impl.hpp b/c++/symmetry/sym-U1-impl.hpp
index 7543f71..6a588b6 100644
--- a/c++/symmetry/sym-U1-impl.hpp
+++ b/c++/symmetry/sym-U1-impl.hpp
@@ -150,8 +150,8 @@ void SymmetryU1<SC>::make_matrix_pol2x2(Matrix &h, const Step &step, const Subsp
 #undef OFFDIAG_DO
 #undef OFFDIAG_UP
 
-#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 template<typename SC>
 void SymmetryU1<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 9e3d38bc361628e7d3957e8cd5e4e5a2235371e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 16/28] fix: fermionic sign in the recalculation of doublet
 operators with symtype P

---
 c++/symmetry/coefnew/p/p-1ch-doublet.dat |  4 ++--
 c++/symmetry/coefnew/p/p-2ch-doublet.dat | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/coefnew/p/p-1ch-doublet.dat b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
index b3d578f..978f1ee 100644
--- a/c++/symmetry/coefnew/p/p-1ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
@@ -1,4 +1,4 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
 { 3, 3, Invar(p1), Invar(-p1), 1},
 { 4, 4, Invar(p1), Invar(-p1), 1},
diff --git a/c++/symmetry/coefnew/p/p-2ch-doublet.dat b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
index 0c6d08c..4918748 100644
--- a/c++/symmetry/coefnew/p/p-2ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
@@ -1,11 +1,11 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
-{ 3, 3, Invar(-p1), Invar(p1), 1},
-{ 4, 4, Invar(-p1), Invar(p1), 1},
-{ 5, 5, Invar(-p1), Invar(p1), 1},
-{ 6, 6, Invar(-p1), Invar(p1), 1},
-{ 7, 7, Invar(-p1), Invar(p1), 1},
-{ 8, 8, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
+{ 3, 3, Invar(-p1), Invar(p1), -1},
+{ 4, 4, Invar(-p1), Invar(p1), -1},
+{ 5, 5, Invar(-p1), Invar(p1), -1},
+{ 6, 6, Invar(-p1), Invar(p1), -1},
+{ 7, 7, Invar(-p1), Invar(p1), -1},
+{ 8, 8, Invar(-p1), Invar(p1), -1},
 { 9, 9, Invar(p1), Invar(-p1), 1},
 { 10, 10, Invar(p1), Invar(-p1), 1},
 { 11, 11, Invar(p1), Invar(-p1), 1},
-- 
2.43.0


From 4300c7f392369f1a4abc5413e13b76b44ac7d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 17/28] fix: parity of the ket subspace in the recalculation of
 doublet and triplet operators with symtype SPU1LR

---
 c++/symmetry/nrg-recalc-SPU1LR.hpp    | 10 +++++-----
 c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp b/c++/symmetry/nrg-recalc-SPU1LR.hpp
index dbfc179..8667e11 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp
@@ -36,7 +36,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
@@ -63,7 +63,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
@@ -232,7 +232,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
@@ -259,7 +259,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
@@ -286,7 +286,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
index 6d02649..b915bc6 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
@@ -16,11 +16,11 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletp.dat", Invar(-1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletp.dat", Invar(-1, 1))');
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletm.dat", Invar(+1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletm.dat", Invar(+1, 1))');
   }
@@ -72,15 +72,15 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-triplets.dat", Invar(0, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-triplets.dat", Invar(0, 1))');
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletp.dat", Invar(-2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletp.dat", Invar(-2, 1))');
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletm.dat", Invar(+2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletm.dat", Invar(+2, 1))');
   }
-- 
2.43.0


From 496a0479c60b1ce40e3f7b4c97324e8a0e75ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 18/28] fix: spin of the operator in the recalculation of
 doublet and triplet operators with symtype SPSU2LR

---
 c++/symmetry/nrg-recalc-SPSU2LR.hpp    | 20 ++++++++++----------
 c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 | 10 +++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
index f49dec0..4f96290 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
@@ -38,26 +38,26 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
@@ -178,39 +178,39 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
index f5d9c8b..d8dfe2a 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
@@ -17,10 +17,10 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1 + 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(-1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(+1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(2, 1));
   }
   return cnew;
 }
@@ -65,13 +65,13 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(0, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(3, 1));
 
     Ip = Invar(ss1 + 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(-2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(3, 1));
 
     Ip = Invar(ss1 - 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(+2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(3, 1));
   }
   return cnew;
 }
-- 
2.43.0


From c3317bc7c9051f4251b03410a931f5c53220f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 19/28] fix: odd-parity singlet operators in symmetry types
 with reflection parity

---
 c++/invar.hpp    | 2 +-
 c++/symmetry.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/invar.hpp b/c++/invar.hpp
index 9d75952..e480302 100644
--- a/c++/invar.hpp
+++ b/c++/invar.hpp
@@ -52,7 +52,7 @@ class Invar {
    inline static size_t invdim = 0; // 0 before initialization!
    Invar() : data(invdim) {}
    explicit Invar(const InvType &d) {
-     my_assert(d.size() == data.size());
+     my_assert(d.size() == invdim);
      data = d;
    }
    explicit Invar(const int i0) : data{i0} {} // (int) constructor
diff --git a/c++/symmetry.hpp b/c++/symmetry.hpp
index 1657b1a..e9945a3 100644
--- a/c++/symmetry.hpp
+++ b/c++/symmetry.hpp
@@ -204,6 +204,7 @@ class Symmetry {
      for (const auto &I : diag.subspaces()) {
        const Invar I1 = I;
        const Invar Ip = parity == -1 ? I.InvertParity() : I;
+       if (!diag.contains(Ip)) continue; // the subspace of the opposite parity may be absent
        std::vector<Recalc<S>> recalc_table;
        for (const auto i: combs()) {
          const auto anc = ancestor(I, i);
-- 
2.43.0


From 509e1f46ee39d5d7cfe627b540ecdadcfe80e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 20/28] fix: doublet operators and their spectral functions
 with symtype DBLSU2

---
 c++/symmetry/nrg-recalc-DBLSU2.hpp    | 16 ++++++++--------
 c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 |  8 ++++----
 c++/symmetry/sym-DBLSU2-impl.hpp      | 12 ++++++++----
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp b/c++/symmetry/nrg-recalc-DBLSU2.hpp
index 8c58253..4557dfd 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp
@@ -38,52 +38,52 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ii11 - 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11 + 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0m.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0p.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
index 27c052b..966bdca 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
@@ -17,16 +17,16 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ii11 - 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ii11 + 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ii11, ii21 - 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(1, 2));
 
     Ip = Invar(ii11, ii21 + 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(1, 2));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-DBLSU2-impl.hpp b/c++/symmetry/sym-DBLSU2-impl.hpp
index 4ce5c88..b19c802 100644
--- a/c++/symmetry/sym-DBLSU2-impl.hpp
+++ b/c++/symmetry/sym-DBLSU2-impl.hpp
@@ -28,13 +28,17 @@ class SymmetryDBLSU2 : public Symmetry<SC> {
   // We always must have I1 >= 0 and I2 >= 0.
   bool Invar_allowed(const Invar &I) const override { return (I.get("II1") > 0) && (I.get("II2") > 0); }
 
-  // TO DO: support for the doublets wrt the second quantum number
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ii1p = Ip.get("II1");
     const int ii11 = I1.get("II1");
-    my_assert(std::abs(ii11 - ii1p) == 1);
-    const double isofactor = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
-    return isofactor;
+    const int ii2p = Ip.get("II2");
+    const int ii21 = I1.get("II2");
+    if (std::abs(ii11 - ii1p) == 1) {
+      my_assert(ii2p == ii21);
+      return (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p)) * ii2p; // times the multiplicity wrt the 2nd isospin
+    }
+    my_assert(std::abs(ii21 - ii2p) == 1 && ii1p == ii11);
+    return (ii21 == ii2p + 1 ? ISO(ii2p) + 1.0 : ISO(ii2p)) * ii1p;   // times the multiplicity wrt the 1st isospin
   }
 
   void load() override {
-- 
2.43.0


From eba1cb32493e132ec409dca44a22c985d1a4f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 21/28] fix: fermionic sign in the recalculation of doublet
 operators with symtype ISOLR

---
 .../coefnew/isolr/isolr-2ch-doubletmm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletmp.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpp.dat     | 36 +++++++++----------
 4 files changed, 72 insertions(+), 72 deletions(-)

diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
index 15e5bf6..f218907 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), sqrt((S(ss1)*(3 + 4*S(ss1)*(2 + S(ss1))))/(1 + S(ss1)))/(1 + 2*S(ss1))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), 1},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), 1},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), -(1)},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), -(1)},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, -1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
index dd25e32..4d44e2c 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), 1},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), 1},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), -(1)},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), -(1)},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, 1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
index af0cb79..480eb11 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), S(ss1)/sqrt((S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/(3 + 2*S(ss1)))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), 1},
-{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), 1},
-{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), -(1)},
+{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), -(1)},
+{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, -1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
index 509c6a4..840c2d8 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), 1},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), 1},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), -(1)},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), -(1)},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, 1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
-- 
2.43.0


From 23434bee4c36eb04f4aba94bd3bc1b78b0bc92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 22/28] fix: weight at zero frequency on a mesh with
 accumulation point is kept

---
 c++/bins.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/bins.hpp b/c++/bins.hpp
index 6c635b3..181a81c 100644
--- a/c++/bins.hpp
+++ b/c++/bins.hpp
@@ -135,6 +135,10 @@ inline void Bins<S>::add_std(const double energy, const t_weight weight) {
 
 template<scalar S>
 inline void Bins<S>::add_acc(const double energy, const t_weight weight) {
+  if (energy < bins.front().first) { // omega=0 data, cf. add_std()
+    bins.front().second += weight;
+    return;
+  }
   for (const auto i: range0(bins.size()-1)) {
     auto &[e1, w1] = bins[i]; // non-const
     auto &[e2, w2] = bins[i+1]; // non-const
-- 
2.43.0


From 3fe1b3f58ba12857b58a62660a6d4c8339a896bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 23/28] fix: check that a stored state is written before its
 archive is destroyed

---
 c++/eigen.hpp     | 4 ++--
 c++/operators.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/eigen.hpp b/c++/eigen.hpp
index 50217cf..373f79c 100644
--- a/c++/eigen.hpp
+++ b/c++/eigen.hpp
@@ -589,9 +589,9 @@ class DiagInfo : public std::map<Invar, Eigen<S>> {
            eig.save(oa);
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error writing {}", fn));
          }
+         MATRIXF.flush(); // before the archive is destroyed: its destructor also flushes, but ignores errors
+         if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        }
-       MATRIXF.flush();
-       if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        std::filesystem::rename(tmp_fn, fn);
diff --git a/c++/operators.hpp b/c++/operators.hpp
index 5610731..f507206 100644
--- a/c++/operators.hpp
+++ b/c++/operators.hpp
@@ -112,9 +112,9 @@ class DensMatElements : public std::map<Invar, Matrix> {
            NRG::save(oa, mat);
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error writing {}", fn));
          }
+         MATRIXF.flush(); // before the archive is destroyed: its destructor also flushes, but ignores errors
+         if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        }
-       MATRIXF.flush();
-       if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        std::filesystem::rename(tmp_fn, fn);
-- 
2.43.0


From 8d8c8d6c3a097a25f595aa2d5a07a905e64a8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 24/28] fix: report failed reads and writes of files instead of
 ignoring them

---
 c++/basicio.hpp     | 2 ++
 c++/nrg-general.hpp | 2 +-
 c++/outfield.hpp    | 2 +-
 c++/spectrum.hpp    | 1 +
 c++/store.hpp       | 4 ++--
 5 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index 3cf1c36..e753a9c 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -111,6 +111,7 @@ inline std::ofstream safe_open(const std::string &filename, const bool binary =
   if (binary) flag |= std::ios::binary;
   std::ofstream F(filename, flag);
   if (!F) throw std::runtime_error(fmt::format("Can't open {} for writing", filename));
+  F.exceptions(std::ios::failbit | std::ios::badbit); // a write error must not go unnoticed
   return F;
 }
 
@@ -120,6 +121,7 @@ inline std::ifstream safe_open_for_reading(const std::string &filename, const bo
   if (binary) flag |= std::ios::binary;
   std::ifstream F(filename, flag);
   if (!F) throw std::runtime_error(fmt::format("Can't open {} for reading", filename));
+  F.exceptions(std::ios::badbit); // a read error is not the end of the file
   return F;
 }
 
diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 5cf4450..722a652 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -213,7 +213,7 @@ public:
       run_dm_phase(operators_seed, coef_seed, diag_seed);
     }
 
-    if (P.done) { std::ofstream D("DONE"); } // Indicate successful completion by creating a flag file
+    if (P.done) safe_open("DONE"); // Indicate successful completion by creating a flag file
   }
   NRG_calculation(const NRG_calculation &) = delete;
   NRG_calculation(NRG_calculation &&) = delete;
diff --git a/c++/outfield.hpp b/c++/outfield.hpp
index 8732c07..c42d723 100644
--- a/c++/outfield.hpp
+++ b/c++/outfield.hpp
@@ -84,7 +84,7 @@ class TD_generic {
   template<typename T> void set(const std::string &desc, const T &x) { allfields.set(desc,x); }
   void save_values() {
     if (!O) {
-      O.emplace(filename);
+      O = safe_open(filename);
       allfields.save_header(O.value());
     }
     allfields.save_values(O.value());
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..3f48b12 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -171,6 +171,7 @@ void SpectrumRealFreq<S>::savebins() {
     if (P.reim)
       Fbins.write((char *)&wi, sizeof(double));
   }
+  Fbins.close(); // reports write errors
 }
 
 // Energy mesh for spectral functions
diff --git a/c++/store.hpp b/c++/store.hpp
index 4183500..9dc5e4f 100644
--- a/c++/store.hpp
+++ b/c++/store.hpp
@@ -64,12 +64,12 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
      }
    }
    void dump_all_absolute_energies(const std::string &filename = "absolute_energies.dat"s) {
-     std::ofstream F(filename);
+     auto F = safe_open(filename);
      this->dump_abs_G(F);
    }
    // Save a dump of all subspaces, with dimension info, etc.
    void dump_subspaces(const std::string &filename = "subspaces.dat"s) const {
-     std::ofstream O(filename);
+     auto O = safe_open(filename);
      for (const auto N : Nall()) {
        O << "Iteration " << N << std::endl;
        O << "len_dm=" << this->at(N).size() << std::endl;
-- 
2.43.0


From 6227cb5cd57daec66e6ae7871f6d2861f38bded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 25/28] fix: refuse malformed numbers, unfinished blocks and
 T=nan in the input

---
 c++/basicio.hpp    | 2 ++
 c++/params.hpp     | 2 +-
 c++/read-input.hpp | 8 ++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index e753a9c..12b0d8c 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -148,6 +148,8 @@ inline auto read_one(T &F) {
   F >> value;
   if constexpr (requires { F.fail(); })
     if (F.fail()) throw std::runtime_error("read_one() error. Input is corrupted.");
+  if constexpr (requires { F.peek(); }) // the value must extend to the end of the token
+    if (const auto c = F.peek(); c != std::char_traits<char>::eof() && !std::isspace(c)) throw std::runtime_error("read_one() error. Input is corrupted.");
   return value;
 }
   
diff --git a/c++/params.hpp b/c++/params.hpp
index 6be825a..34fb90c 100644
--- a/c++/params.hpp
+++ b/c++/params.hpp
@@ -620,7 +620,7 @@ class Params {
   }
 
   void validate() {
-    if (T <= 0.0) throw std::invalid_argument("T must be greater than 0.");
+    if (!(T > 0.0)) throw std::invalid_argument("T must be greater than 0.");
     my_assert(keep > 1);
     if (keepenergy > 0.0) my_assert(keepmin <= keep);
     if (dm_flags()) dm = true;
diff --git a/c++/read-input.hpp b/c++/read-input.hpp
index 2e73ec0..cfcdfba 100644
--- a/c++/read-input.hpp
+++ b/c++/read-input.hpp
@@ -67,7 +67,7 @@ class InputData {
 private:
   static auto read_next_block(std::istream &fdata) {
     while (!fdata.eof() && std::isspace(fdata.peek())) fdata.get();
-    char ch = char(fdata.get());
+    const auto ch = fdata.get(); // block type or end of file
     std::string opname;
     std::getline(fdata, opname);
     return std::make_pair(ch, opname);
@@ -88,8 +88,8 @@ private:
   void read_blocks(std::istream &fdata, Params &P) {
     while (true) {
       const auto [ch, opname] = read_next_block(fdata);
-      if (fdata.eof()) break;
-      if (ch != '#' && !P.silent) std::cout << "Reading <||" << opname << "||> (" << ch << ")" << std::endl;
+      if (ch == std::char_traits<char>::eof()) break;
+      if (ch != '#' && !P.silent) std::cout << "Reading <||" << opname << "||> (" << char(ch) << ")" << std::endl;
       switch (ch) {
       case '#':
         break;
@@ -125,7 +125,7 @@ private:
         coef.t.read(fdata);
         break;
 #endif
-      default: throw std::invalid_argument(fmt::format("Unknown block {} in data file.", ch));
+      default: throw std::invalid_argument(fmt::format("Unknown block {} in data file.", char(ch)));
       }
     }
   }
-- 
2.43.0


From 719e460cf2bfff6b54937b3ebb9a278f14bb7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 26/28] fix: tools refuse malformed and truncated input instead
 of computing with it

---
 tools/adapt/parser.hpp     |  5 ++--
 tools/common/tabulated.hpp | 47 ++++++++++++++++++++++++++++++++++----
 tools/diag/diag.cc         | 10 ++++----
 tools/hilb/hilb.hpp        | 41 +++++++++++++++------------------
 tools/intavg/intavg.cc     | 18 ++++-----------
 tools/integ/integ.cc       | 18 ++++-----------
 tools/kk/kk.hpp            | 16 ++++---------
 tools/matrix/parser.cc     | 22 ++++++++----------
 tools/matrix/parser.yy     | 22 ++++++++----------
 tools/nrgchain/parser.h    |  5 ++--
 tools/tdavg/tdavg.cc       |  3 +++
 11 files changed, 108 insertions(+), 99 deletions(-)

diff --git a/tools/adapt/parser.hpp b/tools/adapt/parser.hpp
index 2745994..666f0c7 100644
--- a/tools/adapt/parser.hpp
+++ b/tools/adapt/parser.hpp
@@ -11,6 +11,7 @@
 #include <stdexcept>
 
 #include "../common/parser.hpp"
+#include "../common/tabulated.hpp"
 
 namespace NRG::Adapt {
 
@@ -24,10 +25,10 @@ class Params : public std::map<std::string, std::string> {
     }
     // Return a parameter of type double, use default value if not found.
     auto P(const std::string &keyword, const double def) const {
-      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return atof(value); });
+      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return NRG::Tools::to_number(value); });
     }
     auto Pint(const std::string &keyword, const int def) const {
-      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return atoi(value); });
+      return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return NRG::Tools::to_integer(value); });
     }
     auto Pstr(const std::string &keyword, const std::string &def) const {
       return NRG::Tools::get_or_default(*this, keyword, def, [](const auto &value) { return value; });
diff --git a/tools/common/tabulated.hpp b/tools/common/tabulated.hpp
index 73473cf..c5b923d 100644
--- a/tools/common/tabulated.hpp
+++ b/tools/common/tabulated.hpp
@@ -36,6 +36,45 @@ inline auto split_fields(const std::string &s, const unsigned int atleast = 0) {
   return substrings;
 }
 
+// Convert a string to a finite number. The whole string must be used.
+inline double to_number(const std::string &s) {
+  char *end = nullptr;
+  const double x = std::strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != 0 || !std::isfinite(x))
+    throw std::runtime_error("Not a number: " + s);
+  return x;
+}
+
+// Convert a string to an integer. The whole string must be used.
+inline int to_integer(const std::string &s) {
+  const double x = to_number(s);
+  if (x != std::floor(x) || std::abs(x) > 2147483647.0)
+    throw std::runtime_error("Not an integer number: " + s);
+  return int(x);
+}
+
+// Read the next number of a stream. Returns false at the end of the data.
+inline bool read_number(std::istream &F, double &x) {
+  std::string s;
+  if (!(F >> s)) {
+    if (F.bad()) throw std::runtime_error("Error reading data.");
+    return false;
+  }
+  x = to_number(s);
+  return true;
+}
+
+// Read the next pair of numbers, skipping comment lines (#). Returns false at the end of the data.
+inline bool read_pair(std::istream &F, double &x, double &y) {
+  while ((F >> std::ws) && F.peek() == '#') {
+    std::string comment;
+    std::getline(F, comment);
+  }
+  if (!read_number(F, x)) return false;
+  if (!read_number(F, y)) throw std::runtime_error("Incomplete row at the end of the data.");
+  return true;
+}
+
 template<typename Vec, typename Stream, typename NextLine>
 auto load_pairs(Stream &input, NextLine next_line) {
   Vec vec;
@@ -43,7 +82,7 @@ auto load_pairs(Stream &input, NextLine next_line) {
     const auto line = next_line(input);
     if (!input) break;
     const auto columns = split_fields(line, 2);
-    vec.emplace_back(std::make_pair(std::atof(columns[0].c_str()), std::atof(columns[1].c_str())));
+    vec.emplace_back(std::make_pair(to_number(columns[0]), to_number(columns[1])));
   }
   if (vec.empty())
     throw std::runtime_error("No data found.");
@@ -78,8 +117,8 @@ auto load_abs_pairs(Stream &input, const Sign sign, AcceptSign accept_sign, Next
     const auto line = next_line(input);
     if (!input) break;
     const auto columns = split_fields(line, 2);
-    const auto x = std::atof(columns[0].c_str());
-    const auto y = std::atof(columns[1].c_str());
+    const auto x = to_number(columns[0]);
+    const auto y = to_number(columns[1]);
     if (accept_sign(sign, x)) {
       if (y < 0.0)
         throw std::runtime_error("Negative y found.");
@@ -120,7 +159,7 @@ void load_values(Stream &input, std::vector<double> &values, NextLine next_line)
   while (input) {
     const auto line = next_line(input);
     if (!input) break;
-    values.push_back(std::atof(line.c_str()));
+    values.push_back(to_number(split_fields(line, 1)[0]));
   }
 }
 
diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index bf9a97d..09cc5e6 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -18,6 +18,9 @@
 #include <limits>
 #include <unistd.h>
 
+#include "../common/io.hpp"
+#include "../common/tabulated.hpp"
+
 using namespace std;
 
 using DVEC = std::vector<double>;
@@ -163,11 +166,8 @@ void diagonalize(unsigned int dim, DVEC &d) {
 void diag_stream(istream &F) {
   DVEC data;
 
-  while (F.good()) {
-    double x;
-    F >> x;
-    if (!F.fail()) { data.push_back(x); }
-  }
+  for (auto line = NRG::Tools::next_data_line(F); F; line = NRG::Tools::next_data_line(F))
+    for (const auto &field : NRG::Tools::split_fields(line)) data.push_back(NRG::Tools::to_number(field));
 
   const auto size = data.size();
   if (size == 0) {
diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 80f3039..c021b9d 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -33,6 +33,8 @@
 #include <gsl/gsl_integration.h>
 #include <gsl/gsl_spline.h>
 
+#include "../common/tabulated.hpp"
+
 namespace NRG::Hilb {
 
 struct gsl_accel_deleter {
@@ -304,25 +306,25 @@ class Hilb {
   }
 
   void do_stream(std::istream &F, std::ostream &OUT) {
-    while (F.good()) {
-      double label, x, y;
-      F >> label >> x >> y;
-      if (!F.fail()) {
-        const auto res = hilbert(x, y);
-        if (!G)
-          OUT << label << " " << res.imag() << std::endl;
-        else
-          OUT << label << " " << res.real() << " " << res.imag() << std::endl;      
-      }
+    double label, x, y;
+    while (NRG::Tools::read_pair(F, label, x)) {
+      if (!NRG::Tools::read_number(F, y)) throw std::runtime_error("Incomplete row at the end of the input.");
+      const auto res = hilbert(x, y);
+      if (!G)
+        OUT << label << " " << res.imag() << std::endl;
+      else
+        OUT << label << " " << res.real() << " " << res.imag() << std::endl;
     }
   }
 
   void do_hilb(std::istream &Fr, std::istream &Fi, std::ostream &Or, std::ostream &Oi) {
-    while (Fr.good()) {
+    for (;;) {
       double label1, label2, x, y;
-      Fr >> label1 >> x;
-      Fi >> label2 >> y;
-      if (!Fr.fail() && !Fi.fail()) {
+      const bool more_r = NRG::Tools::read_pair(Fr, label1, x);
+      const bool more_i = NRG::Tools::read_pair(Fi, label2, y);
+      if (more_r != more_i) throw std::runtime_error("The input files have different numbers of rows.");
+      if (!more_r) break;
+      {
         if (std::abs(label1 - label2) > 1e-6) throw std::runtime_error("Frequency mismatch in do_hilb()");
         // Ensure ImSigma is negative
         const double CLIPPING = 1e-8;
@@ -361,14 +363,9 @@ class Hilb {
     if (verbose) { std::cout << "Density of states filename: " << filename << std::endl; }
     auto F = safe_open_rd(filename);
     std::vector<std::pair<double, double>> pts;
-    while (F) {
-      double x, y;
-      F >> x >> y;
-      if (!F.fail()) {
-        assert(std::isfinite(x) && std::isfinite(y));
-        pts.emplace_back(x, y);
-      }
-    }
+    double X, Y;
+    while (NRG::Tools::read_pair(F, X, Y)) pts.emplace_back(X, Y);
+    if (pts.size() < 3) throw std::runtime_error("At least three data points required in the DOS file.");
     std::sort(pts.begin(), pts.end());
     Xpts.clear();
     Ypts.clear();
diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 658ff48..22413f1 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -24,6 +24,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/tabulated.hpp"
+
 using namespace std;
 
 bool verbose     = false; // output verbosity level
@@ -87,20 +89,8 @@ Vec load(int i) {
 
   Vec data;
 
-  while (f) {
-    if ((f >> ws).peek() == '#') { // skip comment lines
-      string line;
-      getline(f, line);
-    } else {
-      double x, y;
-      f >> x >> y;
-
-      if (f.fail()) break;
-
-      assert(std::isfinite(x) && std::isfinite(y));
-      data.push_back(make_pair(x, y));
-    }
-  }
+  double x, y;
+  while (NRG::Tools::read_pair(f, x, y)) data.push_back(make_pair(x, y));
 
   if (data.size() < 2) {
     cerr << "At least two data points required in file " << filename << endl;
diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 99f77a1..561d30d 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -27,6 +27,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/tabulated.hpp"
+
 using namespace std;
 
 typedef pair<double, double> XYPOINT;
@@ -114,20 +116,8 @@ void cmd_line(int argc, char *argv[]) {
 
 // Read data from stream F.
 void readtable(istream &F, XYFUNC &v) {
-  while (F) {
-    if ((F >> ws).peek() == '#') { // skip comment lines
-      string line;
-      getline(F, line);
-    } else {
-      double x, y;
-      F >> x >> y;
-
-      if (F.fail()) break;
-
-      assert(std::isfinite(x) && std::isfinite(y));
-      v.push_back(make_pair(x, y));
-    }
-  }
+  double x, y;
+  while (NRG::Tools::read_pair(F, x, y)) v.push_back(make_pair(x, y));
 
   if (verbose) cout << v.size() << " lines read." << endl;
 }
diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index 0c2baff..088c7e1 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -35,6 +35,8 @@
 
 #include <unistd.h>
 
+#include "../common/tabulated.hpp"
+
 namespace NRG::KK {
 
 struct gsl_accel_deleter {
@@ -65,18 +67,8 @@ constexpr auto OUTPUT_PRECISION = 16;
 // Read data from stream F.
 inline auto read(std::istream &F) {
   XYFUNC v;
-  while (F) {
-    if ((F >> std::ws).peek() == '#') { // skip comment lines
-      std::string line;
-      std::getline(F, line);
-    } else {
-      double x, y;
-      F >> x >> y;
-      if (F.fail()) break;
-      assert(std::isfinite(x) && std::isfinite(y));
-      v.push_back({x, y});
-    }
-  }
+  double x, y;
+  while (NRG::Tools::read_pair(F, x, y)) v.push_back({x, y});
   return v;
 }
 
diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index f9f847f..118e13c 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -76,6 +76,7 @@
 #include <vector>
 
 #include "matrix.h"
+#include "../common/tabulated.hpp"
 
 using namespace std;
 
@@ -1860,14 +1861,11 @@ void load_vector(string filename, vector<double> &v)
     cerr << "Can't open " << filename << " for reading." << endl;
     exit(1);
   }
-  while (F.good()) {
-    double x;
-    F >> x;
-    if (!F.fail()) {
-      v.push_back(x);
-      if (verbose) {
-        cerr << filename << " " << x << endl;
-      }
+  double x;
+  while (NRG::Tools::read_number(F, x)) {
+    v.push_back(x);
+    if (verbose) {
+      cerr << filename << " " << x << endl;
     }
   }
   F.close();
@@ -1885,7 +1883,7 @@ void load_discretization()
       cerr << "Can't open " << fntheta << endl;
       exit(1);
     }
-    THETA >> theta[ch-1];
+    if (!NRG::Tools::read_number(THETA, theta[ch-1])) throw std::runtime_error("No data in " + fntheta);
     THETA.close();
     if (verbose) {
       cerr << "theta[" << ch << "]=" << theta[ch-1] << endl;
@@ -1915,7 +1913,7 @@ void load_discretization_sc()
           cerr << "Can't open " << fnV << endl;
           exit(1);
         }
-        FV >> V[ch-1][i-1][j-1];
+        if (!NRG::Tools::read_number(FV, V[ch-1][i-1][j-1])) throw std::runtime_error("No data in " + fnV);
         FV.close();
         if (verbose) {
           cerr << "V[" << ch << "](" << i << ", " << j << ")=" << V[ch-1][i-1][j-1] << endl;
@@ -2007,7 +2005,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
   if (verbose) {
   cerr << "DONE!" << endl;
@@ -2015,7 +2013,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
-  return 0;
+  return status;
 }
 
 void dump_vector(struct vec *dvec)
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 0d2eed4..9c8ad49 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -17,6 +17,7 @@
 #include <vector>
 
 #include "matrix.h"
+#include "../common/tabulated.hpp"
 
 using namespace std;
 
@@ -259,14 +260,11 @@ void load_vector(string filename, vector<double> &v)
     cerr << "Can't open " << filename << " for reading." << endl;
     exit(1);
   }
-  while (F.good()) {
-    double x;
-    F >> x;
-    if (!F.fail()) {
-      v.push_back(x);
-      if (verbose) {
-        cerr << filename << " " << x << endl;
-      }
+  double x;
+  while (NRG::Tools::read_number(F, x)) {
+    v.push_back(x);
+    if (verbose) {
+      cerr << filename << " " << x << endl;
     }
   }
   F.close();
@@ -284,7 +282,7 @@ void load_discretization()
       cerr << "Can't open " << fntheta << endl;
       exit(1);
     }
-    THETA >> theta[ch-1];
+    if (!NRG::Tools::read_number(THETA, theta[ch-1])) throw std::runtime_error("No data in " + fntheta);
     THETA.close();
     if (verbose) {
       cerr << "theta[" << ch << "]=" << theta[ch-1] << endl;
@@ -314,7 +312,7 @@ void load_discretization_sc()
           cerr << "Can't open " << fnV << endl;
           exit(1);
         }
-        FV >> V[ch-1][i-1][j-1];
+        if (!NRG::Tools::read_number(FV, V[ch-1][i-1][j-1])) throw std::runtime_error("No data in " + fnV);
         FV.close();
         if (verbose) {
           cerr << "V[" << ch << "](" << i << ", " << j << ")=" << V[ch-1][i-1][j-1] << endl;
@@ -406,7 +404,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
  if (verbose) {
   cerr << "DONE!" << endl;
@@ -414,7 +412,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
- return 0;
+ return status;
 }
 
 void dump_vector(struct vec *dvec)
diff --git a/tools/nrgchain/parser.h b/tools/nrgchain/parser.h
index 6e52143..825a608 100644
--- a/tools/nrgchain/parser.h
+++ b/tools/nrgchain/parser.h
@@ -6,16 +6,17 @@
 // $Id: parser.h,v 1.1 2009/03/20 09:53:41 rok Exp $
 
 #include "../common/parser.hpp"
+#include "../common/tabulated.hpp"
 
 map<string, string> params;
 
 // Return a parameter of type double, use default value if not found.
 double P(const string &keyword, double def) {
-  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return atof(value); });
+  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return NRG::Tools::to_number(value); });
 }
 
 int Pint(const string &keyword, int def) {
-  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return atoi(value); });
+  return NRG::Tools::get_or_default(params, keyword, def, [](const auto &value) { return NRG::Tools::to_integer(value); });
 }
 
 string Pstr(const string &keyword, string def) {
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index b25e12b..d72a0f7 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -26,6 +26,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/tabulated.hpp"
+
 using namespace std;
 
 bool verbose     = false; // output verbosity level
@@ -152,6 +154,7 @@ DataType load(const string &filename) {
       getline(f, line);
       if (veryverbose) cout << line << endl;
       if (f.fail()) break;
+      for (const auto &field : NRG::Tools::split_fields(line)) NRG::Tools::to_number(field); // refuse anything that is not a number
       dvec elements = split(line);
       if (elements.size() == 0) {
         cerr << "Error parsing line: " << line << endl;
-- 
2.43.0


From f2b21173686f0023b69f6b8e947176d182d44fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 27/28] fix: tools report output and input errors instead of
 ignoring them

---
 tools/adapt/adapt.hpp            |  2 ++
 tools/binavg/binavg.hpp          |  3 +++
 tools/broaden/broaden.hpp        |  2 ++
 tools/bw/bw.cc                   |  4 ++++
 tools/common/io.hpp              | 16 ++++++++++++++++
 tools/diag/diag.cc               |  6 +++---
 tools/hilb/hilb.hpp              |  5 +++++
 tools/intavg/intavg.cc           |  2 ++
 tools/integ/integ.cc             |  2 ++
 tools/kk/kk.hpp                  |  3 +++
 tools/matrix/parser.cc           |  5 ++++-
 tools/matrix/parser.yy           |  3 +++
 tools/mats/mats.cc               |  3 +++
 tools/nrgchain/load.h            |  2 ++
 tools/nrgchain/nrgchain.cc       |  7 ++++++-
 tools/specmoments/specmoments.cc |  8 +++++++-
 tools/tdavg/tdavg.cc             |  8 +++++++-
 17 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/tools/adapt/adapt.hpp b/tools/adapt/adapt.hpp
index 1e4d96a..1be736d 100644
--- a/tools/adapt/adapt.hpp
+++ b/tools/adapt/adapt.hpp
@@ -182,6 +182,7 @@ class Adapt {
        vecg.emplace_back(std::make_pair(x, y));
        if (x > xfine) { dx = dx_fast; }
      } while (x < xmax);
+     NRG::Tools::close_output(OUTG, filename_g);
      const auto factor = A / rho(0);
      const auto ratio  = y / factor;
      std::cout << "#  x_last=" << x << " " << "g_last/factor=" << ratio << std::endl;
@@ -356,6 +357,7 @@ class Adapt {
          std::cout<< "***** Terminating!" << std::endl;
        }
      } while (x < xmax && std::abs(y) <= max_abs);
+     NRG::Tools::close_output(OUTF, f_fn(sign));
    }
    void run() {
      load_init_rho();
diff --git a/tools/binavg/binavg.hpp b/tools/binavg/binavg.hpp
index eeaf7df..abe207a 100644
--- a/tools/binavg/binavg.hpp
+++ b/tools/binavg/binavg.hpp
@@ -17,6 +17,8 @@
 #include <stdexcept>
 #include <unistd.h> // getopt
 
+#include "../common/io.hpp"
+
 namespace NRG::BinAvg {
 
 inline std::string tostring(const int i) {
@@ -181,6 +183,7 @@ class BinAvg {
        const double vy = y[i];
        F.write((char *)&vy, sizeof(double));
      }
+     NRG::Tools::close_output(F, filename);
    }
    
  public:
diff --git a/tools/broaden/broaden.hpp b/tools/broaden/broaden.hpp
index 7ef08e9..fe38220 100644
--- a/tools/broaden/broaden.hpp
+++ b/tools/broaden/broaden.hpp
@@ -25,6 +25,7 @@
 
 #include <range/v3/all.hpp>
 
+#include "../common/io.hpp"
 #include "misc.hpp"
 #include "basicio.hpp"
 
@@ -94,6 +95,7 @@ void save(const std::string &filename, const std::vector<S> &x, const std::vecto
   assert(x.size() == y.size());
   const auto nr = x.size();
   for (auto i = 0; i < nr; i++) { F << x[i] << " " << y[i] << std::endl; }
+  NRG::Tools::close_output(F, filename);
 }
 
 // Estimate the weight using the trapezoidal rule. The x array must be sorted.
diff --git a/tools/bw/bw.cc b/tools/bw/bw.cc
index 3c2c797..10f6fb8 100644
--- a/tools/bw/bw.cc
+++ b/tools/bw/bw.cc
@@ -31,6 +31,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
+
 using namespace std;
 
 bool verbose            = false; // output verbosity level
@@ -444,6 +446,7 @@ void save(const string filename0, const mapdd &m, int iter = 0, double trim_ = 0
     if (trim_ != 0.0 && std::abs(I.first) < trim_) { continue; }
     F << I.first << " " << I.second << endl;
   }
+  NRG::Tools::close_output(F, filename);
 }
 
 // Save pairs taken respectively from (mesh) and (data).
@@ -469,6 +472,7 @@ void save(const string filename0, const vec &mesh_, const vec &data, int iter =
       if (veryverbose) { cout << "Warning: " << i << " not finite." << endl; }
     }
   }
+  NRG::Tools::close_output(F, filename);
 }
 
 // Eq. (7) in the paper of Freyn & Florens
diff --git a/tools/common/io.hpp b/tools/common/io.hpp
index d7cc393..9d6a5b8 100644
--- a/tools/common/io.hpp
+++ b/tools/common/io.hpp
@@ -21,6 +21,20 @@ inline void open_output(std::ofstream &stream, const std::string &filename, cons
   stream << std::setprecision(precision);
 }
 
+// Flush the output and make sure that all of it has been written.
+inline void check_output(std::ostream &stream, const std::string &name) {
+  stream.flush();
+  if (!stream)
+    throw std::runtime_error("Error writing to " + name + ".");
+}
+
+// Close the output file and make sure that all of it has been written.
+inline void close_output(std::ofstream &stream, const std::string &filename) {
+  stream.close();
+  if (!stream)
+    throw std::runtime_error("Error writing to " + filename + ".");
+}
+
 template<typename Stream>
 std::string next_data_line(Stream &stream) {
   std::string line;
@@ -31,6 +45,8 @@ std::string next_data_line(Stream &stream) {
     if (line[0] == '#') continue;
     return line;
   }
+  if (stream.bad())
+    throw std::runtime_error("Error reading data.");
   return "";
 }
 
diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index 09cc5e6..52c89af 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -120,7 +120,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
     }
     F << setprecision(OUTPUT_PREC);
     for (unsigned int r = 0; r < dim; r++) { F << eigenvalues[r] << endl; }
-    F.close();
+    NRG::Tools::close_output(F, fn_val);
   }
 
   if (fn_vec != nullptr && output_text) {
@@ -136,7 +136,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
       for (unsigned int j = 0; j < dim; j++) { F << ham[IJ(r, j)] << (j != dim - 1 ? " " : ""); }
       F << endl;
     }
-    F.close();
+    NRG::Tools::close_output(F, fn_vec);
   }
 
   if (fn_vec != nullptr && output_bin) {
@@ -158,7 +158,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
         F.write((char *)&el, sizeof(double));
       }
     }
-    F.close();
+    NRG::Tools::close_output(F, fn_vec);
   }
 }
 
diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index c021b9d..75b4680 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -33,6 +33,7 @@
 #include <gsl/gsl_integration.h>
 #include <gsl/gsl_spline.h>
 
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 namespace NRG::Hilb {
@@ -473,6 +474,7 @@ class Hilb {
       if (verbose) info();
       auto F = safe_open_rd(args[0]);
       do_stream(F, OUTFILE ? OUTFILE.value() : std::cout);
+      NRG::Tools::check_output(OUTFILE ? OUTFILE.value() : std::cout, "the output");
       return;
     }
     // Usage case 2: real a single (x,y) pair from the command line.
@@ -480,6 +482,7 @@ class Hilb {
       const auto x = atof(args[0]);
       const auto y = atof(args[1]);
       do_one(x, y, OUTFILE ? OUTFILE.value() : std::cout);
+      NRG::Tools::check_output(OUTFILE ? OUTFILE.value() : std::cout, "the output");
       return;
     }
     // Usage case 3: convert self-energy to a spectral function
@@ -491,6 +494,8 @@ class Hilb {
       auto Fra = safe_open_wr(args[2]); // Re[G] or Re[Aw] = -1/pi Re[G] (output) (factor -1/pi controlled by the -G switch)
       auto Fia = safe_open_wr(args[3]); // Im[G] or Im[Aw] = -1/pi Im[G] (output) (factor -1/pi controlled by the -G switch)
       do_hilb(Frs, Fis, Fra, Fia);
+      NRG::Tools::close_output(Fra, args[2]);
+      NRG::Tools::close_output(Fia, args[3]);
       return;
     }
     about();
diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 22413f1..2a67ecd 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -24,6 +24,7 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 using namespace std;
@@ -249,6 +250,7 @@ void save(const Vec &result, string filename) {
 
   const int len = result.size();
   for (int j = 0; j < len; j++) { f_ << result[j].first << " " << result[j].second << endl; }
+  NRG::Tools::close_output(f_, filename);
 }
 
 int main(int argc, char *argv[]) {
diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 561d30d..63cfde2 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -27,6 +27,7 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 using namespace std;
@@ -313,4 +314,5 @@ int main(int argv, char *argc[]) {
   if (out == "neg") cout << neg << endl;
   if (out == "abs") cout << totalabs << endl;
   if (out == "fermi") cout << fermi << endl;
+  NRG::Tools::check_output(cout, "the standard output");
 }
diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index 088c7e1..6516807 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -35,6 +35,7 @@
 
 #include <unistd.h>
 
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 namespace NRG::KK {
@@ -263,7 +264,9 @@ class KK {
      init(im);
      const auto re = calc(Xpts);
      write(re, mode == MODE::FILES ? Fout : std::cout);
+     if (mode == MODE::FILES) NRG::Tools::close_output(Fout, argc[2]);
      std::cout << "KK done!" << std::endl;
+     NRG::Tools::check_output(std::cout, "the standard output");
    }
    
    // Modern interface when kk is used as a library
diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 118e13c..03b39bf 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -76,6 +76,7 @@
 #include <vector>
 
 #include "matrix.h"
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 using namespace std;
@@ -2013,7 +2014,9 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
-  return status;
+  NRG::Tools::check_output(cout, "the standard output");
+
+ return status;
 }
 
 void dump_vector(struct vec *dvec)
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 9c8ad49..25cf78a 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -17,6 +17,7 @@
 #include <vector>
 
 #include "matrix.h"
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 using namespace std;
@@ -412,6 +413,8 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
+ NRG::Tools::check_output(cout, "the standard output");
+
  return status;
 }
 
diff --git a/tools/mats/mats.cc b/tools/mats/mats.cc
index a519a01..8f1d53f 100644
--- a/tools/mats/mats.cc
+++ b/tools/mats/mats.cc
@@ -25,6 +25,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
+
 using namespace std;
 
 bool verbose      = false; // output verbosity level
@@ -243,6 +245,7 @@ void save(const string filename, const cvec &x, const cvec &y) {
     assert(x[i].real() == 0.0);
     F << x[i].imag() << " " << y[i].real() << " " << y[i].imag() << endl;
   }
+  NRG::Tools::close_output(F, filename);
 }
 
 int main(int argc, char *argv[]) {
diff --git a/tools/nrgchain/load.h b/tools/nrgchain/load.h
index dba14ca..b0548d7 100644
--- a/tools/nrgchain/load.h
+++ b/tools/nrgchain/load.h
@@ -62,12 +62,14 @@ void save(const string &fn, const Vec &v) {
   ofstream F(fn.c_str());
   if (!F) fail_with_error("Failed to open " + fn + " for writing.");
   NRG::Tools::save_pairs(F, v);
+  run_or_exit([&] { NRG::Tools::close_output(F, fn); return 0; });
 }
 
 void save(const string &fn, const vector<double> &v) {
   ofstream F(fn.c_str());
   if (!F) fail_with_error("Failed to open " + fn + " for writing.");
   NRG::Tools::save_values(F, v);
+  run_or_exit([&] { NRG::Tools::close_output(F, fn); return 0; });
 }
 
 void load(const string &fn, vector<double> &v) {
diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..2be453a 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -265,7 +265,7 @@ void tables() {
   ofstream THETA;
   safe_open(THETA, "theta.dat"); // theta (hybridisation fnc. weight)
   THETA << theta << endl;
-  THETA.close();
+  run_or_exit([&] { NRG::Tools::close_output(THETA, "theta.dat"); return 0; });
 
   Table df_pos(mMAX + 1), df_neg(mMAX + 1);
   Table du0_neg(mMAX + 1), du0_pos(mMAX + 1);
@@ -513,6 +513,11 @@ void tridiag() {
       mpf_set(up_prev[m], up[m]);
     }
   }
+  run_or_exit([&] {
+    NRG::Tools::close_output(XI, "xi.dat");
+    NRG::Tools::close_output(ZETA, "zeta.dat");
+    return 0;
+  });
 }
 
 void calc_tables() {
diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..c068596 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -23,6 +23,8 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
+
 using namespace std;
 
 bool verbose      = false;   // output verbosity
@@ -148,7 +150,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len % (rows * sizeof(double)) != 0) {
+    cerr << "Incomplete record at the end of " << filename << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
@@ -312,4 +317,5 @@ int main(int argc, char *argv[]) {
     central_moments();
   else
     moments();
+  NRG::Tools::check_output(cout, "the standard output");
 }
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index d72a0f7..95a09a4 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -26,6 +26,7 @@
 #include <unistd.h>
 #include <getopt.h>
 
+#include "../common/io.hpp"
 #include "../common/tabulated.hpp"
 
 using namespace std;
@@ -156,7 +157,7 @@ DataType load(const string &filename) {
       if (f.fail()) break;
       for (const auto &field : NRG::Tools::split_fields(line)) NRG::Tools::to_number(field); // refuse anything that is not a number
       dvec elements = split(line);
-      if (elements.size() == 0) {
+      if (elements.size() < 2) { // temperature and at least one value
         cerr << "Error parsing line: " << line << endl;
         exit(1);
       }
@@ -184,6 +185,10 @@ DataType load(const string &filename) {
       if (veryverbose) { cout << "#" << line << endl; }
     }
   } while (f.good() && !f.eof());
+  if (f.bad()) {
+    cerr << "Error reading file " << filename << endl;
+    exit(1);
+  }
   return result;
 }
 
@@ -377,5 +382,6 @@ int main(int argc, char *argv[]) {
   multiVec result = avg();
   if (copycomments && lastcommentline != "") OF << lastcommentline << endl;
   save(result, OF);
+  NRG::Tools::close_output(OF, output_name);
   return 0;
 }
-- 
2.43.0


From 9bb7eb902136c744f0648d4c23306fc93bf09d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 28/28] fix: instantiate, nrgchain: refuse non-finite matrix
 elements, invalid SCALE lines and negative sizes; report write errors

NaN elements passed the rounding test in write_matrix() and were written as 0,
text after the number in the SCALE line was ignored, negative Nmax, mMAX or
preccpp wrapped around to huge unsigned values, and errors writing the output
files went unnoticed.
---
 tools/instantiate/instantiate.cc       | 16 +++++++++++++---
 tools/instantiate/matrix_evaluator.hpp |  4 +++-
 tools/nrgchain/nrgchain.cc             | 15 +++++++++------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/tools/instantiate/instantiate.cc b/tools/instantiate/instantiate.cc
index 45df6f8..e7b2764 100644
--- a/tools/instantiate/instantiate.cc
+++ b/tools/instantiate/instantiate.cc
@@ -28,6 +28,7 @@
 
 #include "matrix_evaluator.hpp"
 #include "nrgchain.hpp"
+#include "../common/io.hpp"
 
 namespace {
 
@@ -137,6 +138,7 @@ void write_param_section_files(const ParamSections &sections, const std::string
     std::ofstream out(param_filename + "." + section);
     if (!out) throw std::runtime_error("Can't open " + param_filename + "." + section + " for writing.");
     for (const auto &line : lines) out << line << '\n';
+    NRG::Tools::close_output(out, param_filename + "." + section);
   }
 }
 
@@ -202,12 +204,14 @@ void write_values(const std::string &filename, const std::vector<double> &values
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(16);
   for (const auto value : values) out << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 void write_scalar(const std::string &filename, const double value) {
   std::ofstream out(filename);
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(16) << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 void write_wilson_channel(const NRG::Tools::NrgChain::WilsonChannel &channel, const size_t index) {
@@ -228,6 +232,7 @@ void save_text_matrix(const std::string &filename, const NRG::Matrix_traits<doub
     }
     out << '\n';
   }
+  NRG::Tools::close_output(out, filename);
 }
 
 void save_binary_matrix(const std::string &filename, const NRG::Matrix_traits<double> &matrix) {
@@ -245,6 +250,7 @@ void save_binary_matrix(const std::string &filename, const NRG::Matrix_traits<do
       const auto value = matrix(row, col);
       out.write(reinterpret_cast<const char *>(&value), sizeof(value));
     }
+  NRG::Tools::close_output(out, filename);
 }
 
 void save_values(const std::string &filename, const std::vector<double> &values) {
@@ -252,6 +258,7 @@ void save_values(const std::string &filename, const std::vector<double> &values)
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(18);
   for (const auto value : values) out << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 std::vector<std::string> fields(const std::string &line) {
@@ -272,9 +279,11 @@ class DataTemplateReader {
     std::istringstream input(line);
     std::string hash, keyword;
     double scale = 0.0;
-    input >> hash >> keyword >> scale;
-    if (hash == "#" && keyword == "SCALE") return 1.0 / scale;
-    return std::nullopt;
+    input >> hash >> keyword;
+    if (hash != "#" || keyword != "SCALE") return std::nullopt;
+    if (!(input >> scale) || !(input >> std::ws).eof() || !(scale > 0.0) || !std::isfinite(1.0 / scale))
+      throw std::runtime_error("Invalid # SCALE line: " + line);
+    return 1.0 / scale;
   }
 
  public:
@@ -751,6 +760,7 @@ void run_full_instantiation(const Options &options) {
   std::ofstream data_out("data");
   if (!data_out) throw std::runtime_error("Can't open data for writing.");
   data_out << data_text;
+  NRG::Tools::close_output(data_out, "data");
 
   std::cout << "E_gs=" << std::setprecision(18) << seed.ground_energy << '\n';
 }
diff --git a/tools/instantiate/matrix_evaluator.hpp b/tools/instantiate/matrix_evaluator.hpp
index d945de6..cc1ce36 100644
--- a/tools/instantiate/matrix_evaluator.hpp
+++ b/tools/instantiate/matrix_evaluator.hpp
@@ -292,7 +292,9 @@ class MatrixEvaluator {
     auto value = parse_value();
     skip_ignored();
     if (!eof()) throw error("Unexpected trailing input.");
-    return to_matrix(value);
+    auto matrix = to_matrix(value);
+    if (!matrix.allFinite()) throw error("Non-finite matrix element.");
+    return matrix;
   }
 };
 
diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 2be453a..44c0a13 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -163,14 +163,17 @@ void set_parameters() {
   xmax = P("xmax", 30); // Interval [1..xmax]
   if (!(xmax >= 1.0)) throw std::invalid_argument("xmax must be greater than or equal to 1.");
 
-  Nmax = Pint("Nmax", 0); // Maximal site index in the Wilson chain
+  const int Nmax_value = Pint("Nmax", 0); // Maximal site index in the Wilson chain
+  if (Nmax_value < 0) throw std::invalid_argument("Nmax must not be negative.");
+  Nmax = Nmax_value;
 
-  mMAX = Pint("mMAX", 2 * Nmax); // Maximal index of coefficients (e,f)
+  const int mMAX_value = Pint("mMAX", 2 * Nmax_value); // Maximal index of coefficients (e,f)
+  if (!(mMAX_value > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
+  mMAX = mMAX_value;
 
-  if (!(mMAX > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
-
-  preccpp = Pint("preccpp", 2000); // Precision for GMP
-  if (!(preccpp > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  const int preccpp_value = Pint("preccpp", 2000); // Precision for GMP
+  if (!(preccpp_value > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  preccpp = preccpp_value;
 
   band = Pstr("band", "adapt"); // Default: load FSOL*.dat
 
-- 
2.43.0

