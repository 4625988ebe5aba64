From cca70fd9cc838b1c5bbea86a639bdbb52148ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/21] fix: return the learned clause from
 Formula::learnClause

The function was declared to return Clause* and flowed off its end, which is
undefined behaviour: the -O3 build the README describes crashes on the first
clause it learns.
---
 bitvec/Formula.cc | 1 +
 src/Formula.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..24238de 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..d3edfeb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From f0b21450c08c6a6c8e334a441f300b59e09c719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 02/21] verification hooks, guarded by MVL_VERIF

With MVL_VERIF defined, an external explorer may override each decision literal
and the assignment that the final model check is run on. Off by default.
---
 bitvec/Formula.cc     | 29 +++++++++++++++++++++++++++++
 bitvec/SolveFinite.cc | 19 +++++++++++++++++++
 src/Formula.cc        | 31 +++++++++++++++++++++++++++++++
 src/SolveFinite.cc    | 22 ++++++++++++++++++++++
 4 files changed, 101 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 24238de..bedfe2f 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -12,6 +12,32 @@
 #include <stdexcept>
 #include <climits>
 using namespace std;
+#ifdef MVL_VERIF
+// Verification build only: the explorer may replace the literal the heuristic
+// chose by any other undetermined literal. mvl_verif_decide gets the
+// undetermined (variable, value) pairs and the heuristic's choice, and returns
+// -1 to keep that choice, 2*k to decide pair k as "=" or 2*k+1 as "!=".
+extern "C" int mvl_verif_decide ( const int* vars, const int* vals, int n, int var, int equals, int val );
+
+static Literal verifDecide ( Formula& formula, Literal chosen ) {
+	vector<int> vars, vals;
+	for ( unsigned int i = 1; i < formula.VARLIST.size(); i++ ) {
+		if ( formula.VARLIST[i] -> CURRENT_DOMAIN.count() < 2 ) continue;
+		for ( int j = 0; j < formula.VARLIST[i] -> DOMAINSIZE; j++ ) {
+			if ( formula.VARLIST[i] -> CURRENT_DOMAIN.test ( j ) ) {
+				vars.push_back ( i );
+				vals.push_back ( j );
+			}
+		}
+	}
+	int val = chosen.VALS.count() == 1 ? (int) chosen.VALS._Find_first() : -1;
+	int k = mvl_verif_decide ( vars.data(), vals.data(), vars.size(), chosen.VAR, 1, val );
+	if ( k < 0 ) return chosen;
+	if ( k % 2 == 0 ) return Literal ( vars[k / 2], vals[k / 2] );
+	bitset<MAX_DOMAIN> rest = formula.VARLIST[vars[k / 2]] -> CURRENT_DOMAIN;
+	return Literal ( vars[k / 2], rest.reset ( vals[k / 2] ) );
+}
+#endif
 //**********************************************************************//
 //Default 0-arg constructor
 Formula::Formula () {
@@ -696,6 +722,9 @@ int Formula::WatchedLiterals ( int restarts ) {
 			Literal atom;
 			if ( VSIDS ) atom = chooseLiteralVSIDS();
 			else atom = lazyWatchedChooseLiteral ();
+#ifdef MVL_VERIF
+			if ( atom.VAR != -1 ) atom = verifDecide ( *this, atom );
+#endif
 			if ( atom.VAR != -1 ) {
 				DECISIONS++;
 				LEVEL++;
diff --git a/bitvec/SolveFinite.cc b/bitvec/SolveFinite.cc
index 98f0296..c69d8f4 100644
--- a/bitvec/SolveFinite.cc
+++ b/bitvec/SolveFinite.cc
@@ -11,6 +11,22 @@
 #include <time.h>
 
 using namespace std;
+#ifdef MVL_VERIF
+// Verification build only: the explorer may replace the assignment that was
+// found, to see what the final model check says of it. mvl_verif_assign returns
+// the value for a variable, or -1 to leave the variable as it is.
+extern "C" int mvl_verif_assign(int var, int domain);
+
+static void verifAssign(Formula * fobj)
+{
+	for (unsigned int i = 1; i < fobj->VARLIST.size(); i++) {
+		int val = mvl_verif_assign(i, fobj->VARLIST[i]->DOMAINSIZE);
+		if (val < 0) continue;
+		fobj->VARLIST[i]->CURRENT_DOMAIN.reset();
+		fobj->VARLIST[i]->CURRENT_DOMAIN.set(val);
+	}
+}
+#endif
 //Global Declaration - Variables
 
 //**********************************************************************//
@@ -64,6 +80,9 @@ void SolveFinite(CommandLine * cline, string type)
 			cout << "The model: " << endl;
 			fobj->PrintModel();
 		}
+#ifdef MVL_VERIF
+		verifAssign(fobj);
+#endif
 		cout << "Verifying model ... ";
 		if (fobj->verifyModel())
 			cout << "model is CORRECT" << endl;
diff --git a/src/Formula.cc b/src/Formula.cc
index d3edfeb..4515bc5 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -12,6 +12,28 @@
 #include <stdexcept>
 #include <climits>
 using namespace std;
+#ifdef MVL_VERIF
+// Verification build only: the explorer may replace the literal the heuristic
+// chose by any other undetermined literal. mvl_verif_decide gets the
+// undetermined (variable, value) pairs and the heuristic's choice, and returns
+// -1 to keep that choice, 2*k to decide pair k as "=" or 2*k+1 as "!=".
+extern "C" int mvl_verif_decide ( const int* vars, const int* vals, int n, int var, int equals, int val );
+
+static Literal verifDecide ( Formula& formula, Literal chosen ) {
+	vector<int> vars, vals;
+	for ( unsigned int i = 1; i < formula.VARLIST.size(); i++ ) {
+		for ( int j = 0; j < formula.VARLIST[i] -> DOMAINSIZE; j++ ) {
+			if ( formula.sat ( Literal ( i, true, j ) ) == 2 ) {
+				vars.push_back ( i );
+				vals.push_back ( j );
+			}
+		}
+	}
+	int k = mvl_verif_decide ( vars.data(), vals.data(), vars.size(), chosen.VAR, chosen.EQUAL, chosen.VAL );
+	if ( k < 0 ) return chosen;
+	return Literal ( vars[k / 2], k % 2 == 0, vals[k / 2] );
+}
+#endif
 //**********************************************************************//
 //Default 0-arg constructor
 Formula::Formula () {
@@ -1427,6 +1449,9 @@ int Formula::WatchedLiterals ( int restarts ) {
 			case Heuristic::VSIDS_pos : atom = chooseLiteralVSIDS_allPos(); break;
 			case Heuristic::lazy  : atom = lazyWatchedChooseLiteral (); break;
 			}
+#ifdef MVL_VERIF
+			if ( atom.VAR != -1 ) atom = verifDecide ( *this, atom );
+#endif
 			if ( atom.VAR != -1 ) {
 				DECISIONS++;
 				LEVEL++;
@@ -1515,6 +1540,9 @@ int Formula::NonChronoBacktrack ( int restarts ) {
 				case Heuristic::lazy  : atom = lazyChooseLiteral (); break;
 			}
 
+#ifdef MVL_VERIF
+			if ( atom.VAR != -1 ) atom = verifDecide ( *this, atom );
+#endif
 			if ( atom.VAR != -1 ) {
 
 				if (LOG) cout << "Decision: " << atom . VAR << ( atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
@@ -1575,6 +1603,9 @@ int Formula::ChronoBacktrack(int level)
 		case Heuristic::lazy  : atom = lazyChooseLiteral (); break;
 	}
 
+#ifdef MVL_VERIF
+	if(atom.VAR != -1) atom = verifDecide(*this, atom);
+#endif
 	if(atom.VAR != -1)
 	{
 		DECISIONS++;
diff --git a/src/SolveFinite.cc b/src/SolveFinite.cc
index ecdd0d8..aad2b3c 100644
--- a/src/SolveFinite.cc
+++ b/src/SolveFinite.cc
@@ -11,6 +11,25 @@
 #include <time.h>
 
 using namespace std;
+#ifdef MVL_VERIF
+// Verification build only: the explorer may replace the assignment that was
+// found, to see what the final model check says of it. mvl_verif_assign returns
+// the value for a variable, or -1 to leave the variable as it is.
+extern "C" int mvl_verif_assign(int var, int domain);
+
+static void verifAssign(Formula * fobj)
+{
+  for(unsigned int i=1; i<fobj->VARLIST.size(); i++)
+    {
+      Variable * v = fobj->VARLIST[i];
+      int val = mvl_verif_assign(i, v->DOMAINSIZE);
+      if(val < 0) continue;
+      v->VAL = val;
+      for(int j=0; j<v->DOMAINSIZE; j++)
+	v->ATOMASSIGN[j] = (j == val ? 1 : -1);
+    }
+}
+#endif
 //Global Declaration - Variables
 
 //**********************************************************************//
@@ -85,6 +104,9 @@ void SolveFinite(CommandLine * cline, string type)
   if(result == 0)
    { if(cline->MODEL) { cout<<"The model: "<<endl;
      fobj->PrintModel(); }
+#ifdef MVL_VERIF
+      verifAssign(fobj);
+#endif
       cout<<"Verifying model ... ";
        if(fobj->verifyModel())
  	cout<<"model is CORRECT"<<endl;
-- 
2.43.0


From 86c1564ed387092e4cafd813a9017ecf1e798ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 03/21] fix: read input lines of any length

A line of 3000 characters or more made getline fail: the rest of the file was
silently dropped and the solver answered for the clauses before it.
---
 bitvec/Formula.cc      | 10 ++++++----
 src/Boolean2Finite.cc  | 10 ++++++----
 src/Formula.cc         | 10 ++++++----
 src/LinearEncode.cc    | 10 ++++++----
 src/QuadraticEncode.cc | 10 ++++++----
 5 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index bedfe2f..210f80c 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -87,8 +87,7 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -117,8 +116,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		const char * line_buffer = line.c_str();
+		vector<char> word(line.size() + 1);
+		char * word_buffer = word.data();
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -146,7 +148,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			const char * lp = line_buffer;
 			do
 			{
 				char * wp = word_buffer;
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..c0ed97e 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,7 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,8 +46,11 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      const char * line_buffer = line.c_str();
+      vector<char> word(line.size() + 1);
+      char * word_buffer = word.data();
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -65,7 +67,7 @@ void Boolean2Finite(CommandLine * cline)
       //else its variables
       else
 	{
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer;
 	  vector <int> temp;
 	  do
 	    {
diff --git a/src/Formula.cc b/src/Formula.cc
index 4515bc5..ac3094b 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -85,8 +85,7 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -115,8 +114,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		const char * line_buffer = line.c_str();
+		vector<char> word(line.size() + 1);
+		char * word_buffer = word.data();
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -140,7 +142,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			const char * lp = line_buffer;
 			do
 			{
 				char * wp = word_buffer;
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..6e47250 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,7 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +56,11 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      const char * line_buffer = line.c_str();
+      vector<char> word(line.size() + 1);
+      char * word_buffer = word.data();
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -143,7 +145,7 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer;
 	  do
 	    {
 	      char * wp = word_buffer;
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..8c89745 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -27,8 +27,7 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -63,8 +62,11 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      const char * line_buffer = line.c_str();
+      vector<char> word(line.size() + 1);
+      char * word_buffer = word.data();
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -112,7 +114,7 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer;
 	  do
 	    {
 	      char * wp = word_buffer;
-- 
2.43.0


From 1ae8cb6eea4a7465e13671660216fa7efe5ff41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 04/21] fix: blank lines are not clauses, and an empty clause
 is unsatisfiable

A blank line (the README's own example ends with one) was stored as an empty
clause: the watched-literal solvers read past its atom list and crashed, the
others reported SAT with a model they then called INCORRECT. A clause that is
really empty (just the end-marker) was not noticed as a conflict either.
---
 bitvec/Formula.cc | 22 +++++++++++++++++++---
 src/Formula.cc    | 14 +++++++++++++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 210f80c..14c1c4f 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -145,6 +145,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
 			}
 		}
+		//blank lines are not clauses
+		else if(line.find_first_not_of(" \t\r") == string::npos)
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
@@ -208,13 +214,23 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				UNITLIST.push_back(clause_num);
 			}
 
+			// an empty clause cannot be satisfied
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
 
-			Literal watched1 = temp_clause -> ATOM_LIST[0];
-			temp_clause -> WATCHED[0] = watched1;
-			VARLIST[watched1.VAR]->addRecord(clause_num);
+			if ( ! temp_clause -> ATOM_LIST.empty() ) {
+
+				Literal watched1 = temp_clause -> ATOM_LIST[0];
+				temp_clause -> WATCHED[0] = watched1;
+				VARLIST[watched1.VAR]->addRecord(clause_num);
+
+			}
 
 			if ( temp_clause -> ATOM_LIST.size() > 1 ) {
 
diff --git a/src/Formula.cc b/src/Formula.cc
index ac3094b..aeb0932 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -139,6 +139,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
+		//blank lines are not clauses
+		else if(line.find_first_not_of(" \t\r") == string::npos)
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
@@ -208,10 +214,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				UNITLIST.push_back(clause_num);
 			}
 
+			// an empty clause cannot be satisfied
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && ! temp_clause -> ATOM_LIST.empty() ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
-- 
2.43.0


From 9483d415b8a813beca3f2c8891c397e133058c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 05/21] fix: treat v!=0 as false when 0 is the only value of v

The search assigned v!=0 and left v without any value: no conflict was ever
noticed and the formula was reported satisfiable.
---
 bitvec/Formula.cc | 4 ++++
 src/Formula.cc    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 14c1c4f..3ad4a03 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -186,6 +186,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 							vals.reset(val);
 						}
 
+						//the only value of a variable cannot be excluded: the literal is false
+						if (vals.none())
+							continue;
+
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, vals);
 						temp_clause->addAtom(temp_atom);
diff --git a/src/Formula.cc b/src/Formula.cc
index aeb0932..1a0e6d5 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -172,6 +172,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
+						//the only value of a variable cannot be excluded: the literal is false
+						if(ch == '!' && VARLIST[var]->DOMAINSIZE == 1)
+							continue;
+
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
 						temp_clause->addAtom(temp_atom);
-- 
2.43.0


From 965d3ae2bf6e5e9179babe765c7545a43e1fa7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 06/21] fix: a literal repeated in a clause is watched once

With both watched literals equal the watched-literal algorithm derived false
conflicts (UNSAT for satisfiable formulas) or crashed.
---
 src/Formula.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index 1a0e6d5..214cb3e 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -178,6 +178,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
+						//the two watched literals of a clause have to be different
+						if (WATCH && hasAtom(temp_clause, temp_atom))
+							continue;
 						temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
-- 
2.43.0


From 3077f8447243caaadb17a797ebc7ca5c1ce9f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 07/21] fix: do not look at the second watched literal of a
 one-literal clause (bitvec)

It does not exist: VARLIST was indexed with -1.
---
 bitvec/Formula.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 3ad4a03..a603392 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -436,13 +436,16 @@ inline void Formula::watchedUpdateVar ( int var ) {
 	while ( current && !CONFLICT ) {
 		next = current->next;
 
+		// a clause with one literal has no second watched literal
+		bool second = CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1;
+
 		if (sat(CLAUSELIST[current->c_num]->WATCHED[0])!=1) {
-			if (sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
+			if (second && sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
 				Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 				CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 				CLAUSELIST[current->c_num]->WATCHED[0] = lit;
 			} else {
-				if (CLAUSELIST[current->c_num]->WATCHED[1].VAR == var) {
+				if (second && CLAUSELIST[current->c_num]->WATCHED[1].VAR == var) {
 					Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 					CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 					CLAUSELIST[current->c_num]->WATCHED[0] = lit;
@@ -619,7 +622,7 @@ void Formula::SwapPointer ( VARRECORD* current ) {
 
 	bool unitClause = true;
 
-	if ( sat ( watched2 )  == 2 ) {
+	if ( clause -> ATOM_LIST.size() > 1 && sat ( watched2 )  == 2 ) {
 
 		// if watched2 unassigned, watched1 falsified
 
-- 
2.43.0


From 1ed6fb55ee1ddb0cfda31f54e75892816f7bdca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/21] fix: accept -restarts, the spelling the README
 documents

The option was silently ignored.
---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From a84812960fe50334e85af92d790da3d0d87574ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 09/21] fix: undo down to the level asked for (bitvec)

A restart kept the assignments of the levels up to the backjump level while the
search went on at level 0.
---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index a603392..91fa26a 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -463,7 +463,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From d73da51d591b28dac91c03f115fe3d6ee1c3a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 10/21] fix: random domain sizes start at 1, not 0

-drand 1 could give a variable an empty domain; drawing its value then divided
by zero.
---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..e578b95 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE + 1;
 	}
     }
 
-- 
2.43.0


From f7109980840c007312ac76ff56618dd2f5083e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 11/21] fix: -genben -bool 0 -sat 1 generates satisfiable
 problems

Half of the literals meant to agree with the hidden solution were negated.
---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index e578b95..46d1455 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 2d762db7c1460dde09e2d9a2e8b91b88311360ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 12/21] fix: -b2f writes extended DIMACS that describes the
 same problem

- variables that occur in no clause got no domain line, so that the solver,
  which numbers variables by their domain lines, read past its variable list;
- clauses were written without their end-marker, and a clause over several
  input lines became several clauses;
- blank lines and the % trailer of SATLIB files became empty clauses.
---
 src/Boolean2Finite.cc | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index c0ed97e..bb0168f 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -19,7 +19,8 @@ void Boolean2Finite(CommandLine * cline)
   string line;
   int line_num = 0;
   int variable = 0;
-  set<int> variables;
+  int num_var = 0;
+  vector <int> temp;
   vector <vector<int> > data;
 
   //opening infile to read and checking if it opens
@@ -63,22 +64,27 @@ void Boolean2Finite(CommandLine * cline)
 	{
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
+	  sscanf(line_buffer, "p cnf %d", &num_var);
+	}
+      //else if line is % - end of the problem in SATLIB files
+      else if(line_buffer[0] == '%')
+	{
+	  break;
 	}
       //else its variables
       else
 	{
 	  const char * lp = line_buffer;
-	  vector <int> temp;
 	  do
 	    {
 	      char * wp = word_buffer;
 	      //erasing all leading space/tabs
-	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
+	      while (*lp && ((*lp == ' ') || (*lp == '\t') || (*lp == '\r')))
 		{
 		  lp++;
 		}
 	      //reading each value into word buffer
-	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
+	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\r') && (*lp != '\n'))
 		{
 		  *(wp++) = *(lp++);
 		}
@@ -87,7 +93,7 @@ void Boolean2Finite(CommandLine * cline)
 	      if(strlen(word_buffer) != 0)
 		{
 		  variable = atoi(word_buffer);
-		  variables.insert(abs(variable));
+		  num_var = max(num_var, abs(variable));
 		  //checking if variable = 0 i.e end of line
 		  if(variable != 0)
 		    {
@@ -104,25 +110,25 @@ void Boolean2Finite(CommandLine * cline)
 			  temp.push_back(variable);
 			}
 		    }
-		  //else print newline in outfile
+		  //else the clause is complete
 		  else
 		    {
-		      //outfile.put('\n');
+		      data.push_back(temp);
+		      temp.clear();
 		    }
 		}
 	    }while(*lp);
-	  data.push_back(temp);
 	}
     }
 
+  //the last clause may lack its end-marker
+  if(!temp.empty())
+    data.push_back(temp);
+
   //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  for(int x=1; x<=num_var; x++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<x<<" 2"<<endl;
     }
 
   int ovsize = data.size();
@@ -144,7 +150,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From 0a92a60927066d0ababfaf4a1664858abe15c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 13/21] fix: -linenc encodes != of two-valued variables and
 one-valued variables

v!=0 and v!=1 of a two-valued variable were written like v=0 and v=1; a
one-valued variable could be false; the header counted variables and clauses
that are not written, and was not read at all in the documented "p mvcnf"
form; blank lines became empty clauses.
---
 src/LinearEncode.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 6e47250..3e6a7ca 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -71,7 +71,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
@@ -85,9 +85,25 @@ void LinearEncode(CommandLine * cline)
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
 	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
 	  domain[var] = val;
+	  if(val > 2)
+	    {
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
+	  else
+	    {
+	      new_num_var += 1;
+	      //a single value needs one clause that fixes its variable
+	      if(val == 1)
+		new_num_clause += 1;
+	    }
+	}
+      //blank lines are not clauses
+      else if(line.find_first_not_of(" \t\r") == string::npos)
+	{
+	  //do nothing
+	  ;
 	}
       //else its variables
       else
@@ -102,7 +118,7 @@ void LinearEncode(CommandLine * cline)
 	      index[1] = 1;
 	      for(int i=2; i<num_var+1; i++)
 		{
-		  if(domain[i-1] == 2)
+		  if(domain[i-1] <= 2)
 		    index[i] = index[i-1]+1;
 		  else
 		    index[i] = 2*domain[i-1] -1 + index[i-1];
@@ -110,7 +126,7 @@ void LinearEncode(CommandLine * cline)
 	      int var_t1 = 0;
 	      int var_t2 = 0;
 	      //add the extra clauses
-	      for(int i=0; i<num_var+1; i++)
+	      for(int i=1; i<num_var+1; i++)
 		{
 		  if(domain[i] > 2)
 		    {
@@ -137,10 +153,9 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
-		  else
+		  else if(domain[i] == 1)
 		    {
-		      //do nothing
-		      ;
+		      outfile<<-index[i]<<" 0"<<endl;
 		    }
 		}
 	    }
@@ -179,7 +194,7 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  if((val == 1) == (ch != '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 447ab3a346d6ad0d4a4590b0204b4cf9f3b753eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 14/21] fix: -quadenc header and end-markers

The number of at-most-one clauses was computed with factorials: wrong from
domain size 13 on (overflow), division by zero from 34 on. The clauses it adds
had no end-marker, "p mvcnf" headers were not read, and blank lines became
empty clauses.
---
 src/QuadraticEncode.cc | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 8c89745..40f89e5 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -77,7 +67,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
@@ -87,9 +77,15 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
+      //blank lines are not clauses
+      else if(line.find_first_not_of(" \t\r") == string::npos)
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
@@ -104,12 +100,12 @@ void QuadraticEncode(CommandLine * cline)
 		  int var_domain = VAR_LIST[x]->DOMAINSIZE;
 		  for(int y=0; y<var_domain; y++)
 		    outfile<<var_name<<"="<<y<<" ";
-		  outfile<<"\n";
+		  outfile<<"0\n";
 		  for(int p=0; p<var_domain; p++)
 		    {
 		      for(int q=p+1; q<var_domain; q++)
 			{
-			  outfile<<"-"<<var_name<<"="<<p<<" "<<"-"<<var_name<<"="<<q<<""<<endl;
+			  outfile<<"-"<<var_name<<"="<<p<<" "<<"-"<<var_name<<"="<<q<<" 0"<<endl;
 			}
 		    }
 		}
-- 
2.43.0


From b5506912d26e31d50398e0e443962e9ce7f4fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 15/21] fix: print a value for every variable of the model

With -lazy, variables that were only restricted by != (or not at all) were left
out: completing the printed model with an arbitrary value could violate a
clause.
---
 src/Formula.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index 214cb3e..9914614 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -263,6 +263,18 @@ void Formula::PrintModel()
 	{
 		if(DECSTACK[i].EQUAL) DECSTACK[i].Print();
 	}
+	// the lazy heuristics may leave variables open: any value that is not excluded will do
+	for(unsigned int i=1; i<VARLIST.size(); i++)
+	{
+		for(int j=0; VARLIST[i]->VAL == -1 && j<VARLIST[i]->DOMAINSIZE; j++)
+		{
+			if(VARLIST[i]->ATOMASSIGN[j] == 0)
+			{
+				Literal(i, '=', j).Print();
+				break;
+			}
+		}
+	}
 	if (LOG) cout<<endl;
 }
 
-- 
2.43.0


From 6a2b9b7e28eb5ccf9f3f9d2c3dc1a4284d2f9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 16/21] fix: stop after the error for a domain that does not
 fit (bitvec)

---
 bitvec/Formula.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 91fa26a..6937bd2 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -143,6 +143,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 			if (val>MAX_DOMAIN) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
+				exit(1);
 			}
 		}
 		//blank lines are not clauses
-- 
2.43.0


From f3dfd6fc74cb74f2a575887870cfabf00008671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 17/21] fix: the help menu ends at the end of the input

---
 bitvec/Global.cc | 4 +++-
 src/Global.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 1ac33e1..7e05097 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//the end of the input is as good as Quit
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..7c703f8 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//the end of the input is as good as Quit
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From 406fd70194ec5fd83575eff6115e3695120bacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 18/21] fix: report an input file that cannot be read to its
 end

---
 bitvec/Formula.cc      | 10 ++++++++++
 src/Boolean2Finite.cc  | 10 ++++++++++
 src/Formula.cc         | 10 ++++++++++
 src/LinearEncode.cc    | 10 ++++++++++
 src/QuadraticEncode.cc | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 6937bd2..1a02da6 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -251,6 +251,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//an answer for a part of the file would be no answer
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index bb0168f..7883c33 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -152,6 +152,16 @@ void Boolean2Finite(CommandLine * cline)
 	}
       outfile<<"0"<<endl;
     }
+  //a part of the file is not a problem to solve
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
diff --git a/src/Formula.cc b/src/Formula.cc
index 9914614..2412bfb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -251,6 +251,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//an answer for a part of the file would be no answer
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 3e6a7ca..d0ec4fa 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -212,6 +212,16 @@ void LinearEncode(CommandLine * cline)
 	}
     }
 
+  //a part of the file is not a problem to solve
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 40f89e5..9ed0749 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -147,6 +147,16 @@ void QuadraticEncode(CommandLine * cline)
 	}
     }
 
+  //a part of the file is not a problem to solve
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
-- 
2.43.0


From b7ba682a01776a2f5b0ab06247f406af4887f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 19/21] fix: report an output file that cannot be written

---
 src/Boolean2Finite.cc  |  8 ++++++++
 src/GenBenFunc.cc      | 20 ++++++++++++++++++--
 src/LinearEncode.cc    |  8 ++++++++
 src/QuadraticEncode.cc |  8 ++++++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 7883c33..51722d7 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -165,6 +165,14 @@ void Boolean2Finite(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End GenBenFunction
 //**********************************************************************//
diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 46d1455..ac2bff1 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -135,8 +135,16 @@ void GenBenFin(CommandLine * cline)
 	    }
 	  outfile<<"0"<<endl;
 	}
+      outfile.close();
+      if(!outfile)
+	{
+	  cout<<endl;
+	  cout<<"**** ERROR ****"<<endl;
+	  cout<<" Could not write output file "<<endl;
+	  cout<<endl;
+	  exit(1);
+	}
     }
-  outfile.close();
 }
 
 //GenBenBool
@@ -237,8 +245,16 @@ void GenBenBool(CommandLine * cline)
 	    }
 	  outfile<<"0"<<endl;
 	}
+      outfile.close();
+      if(!outfile)
+	{
+	  cout<<endl;
+	  cout<<"**** ERROR ****"<<endl;
+	  cout<<" Could not write output file "<<endl;
+	  cout<<endl;
+	  exit(1);
+	}
     }
-  outfile.close();
 }
 //End GenBenFunction
 //**********************************************************************//
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index d0ec4fa..dfbc6c4 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -225,6 +225,14 @@ void LinearEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 9ed0749..60d7645 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -160,6 +160,14 @@ void QuadraticEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
-- 
2.43.0


From c42d5c6b62fee7259f1dd525d03dfdb051b93fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 20/21] fix: a conflict can be at a lower level than the search

Resolving on a literal can remove all the literals of the current level
when a clause has several literals of one variable: the analysis then
went on below the current level, or with an empty clause, for ever.
---
 src/Formula.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index 2412bfb..7903fcc 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -1068,6 +1068,23 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
     continue analyzing the conflict.
 	 */
 
+	// Resolution can remove all the literals falsified at the current level: the conflict is at a lower level then
+	int level = 0;
+	for ( int i = 0; i < clause -> ATOM_LIST.size(); i++ ) {
+		Literal atom = clause -> ATOM_LIST[i];
+		if ( level < VARLIST[atom . VAR] -> ATOMLEVEL[atom . VAL] )
+			level = VARLIST[atom . VAR] -> ATOMLEVEL[atom . VAL];
+	}
+	if ( level < LEVEL ) LEVEL = level;
+
+	// A conflict at level 0: the problem is unsatisfiable, there is nothing to learn
+	if ( LEVEL == 0 ) {
+		if (freeClauseAfterUse) {
+			delete clause;
+		}
+		return NULL;
+	}
+
 	if ( potent ( clause ) ) {
 		learnClause(clause);
 		return clause;
@@ -1444,6 +1461,8 @@ int Formula::WatchedLiterals ( int restarts ) {
 			if ( LEVEL == 0 ) { cout << "UNSAT" << endl; return 2; }
 
 			Clause* learned = analyzeConflict ( CLAUSELIST[CONFLICTINGCLAUSE], false );
+			if ( learned == NULL ) { cout << "UNSAT" << endl; return 2; }
+
 			if (learned->ATOM_LIST.size() > 1)
 				LEVEL = VARLIST[learned->WATCHED[1].VAR]->ATOMLEVEL[learned->WATCHED[1].VAL];
 			else
@@ -1539,7 +1558,10 @@ int Formula::NonChronoBacktrack ( int restarts ) {
 
 			if ( LEVEL == 0 ) return 2;
 
-			LEVEL = backtrackLevel ( analyzeConflict ( CLAUSELIST[CONFLICTINGCLAUSE], false) );
+			Clause* learned = analyzeConflict ( CLAUSELIST[CONFLICTINGCLAUSE], false );
+			if ( learned == NULL ) return 2;
+
+			LEVEL = backtrackLevel ( learned );
 
 			if ( LOG ) cout << "We are backtracking to the level: " << LEVEL << endl;
 
-- 
2.43.0


From 096da1cfbed5bb0b215b7911d1a6ab1867129cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:32 +0000
Subject: [PATCH 21/21] MVL_VERIF: the assignment hook can leave variables open

---
 bitvec/SolveFinite.cc |  9 +++++----
 src/SolveFinite.cc    | 12 ++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/bitvec/SolveFinite.cc b/bitvec/SolveFinite.cc
index c69d8f4..77f3b29 100644
--- a/bitvec/SolveFinite.cc
+++ b/bitvec/SolveFinite.cc
@@ -14,16 +14,17 @@ using namespace std;
 #ifdef MVL_VERIF
 // Verification build only: the explorer may replace the assignment that was
 // found, to see what the final model check says of it. mvl_verif_assign returns
-// the value for a variable, or -1 to leave the variable as it is.
+// the value for a variable, or -1 to leave the variable as it is, or -2-m to leave
+// it open with the values j of the bits m>>j excluded.
 extern "C" int mvl_verif_assign(int var, int domain);
 
 static void verifAssign(Formula * fobj)
 {
 	for (unsigned int i = 1; i < fobj->VARLIST.size(); i++) {
 		int val = mvl_verif_assign(i, fobj->VARLIST[i]->DOMAINSIZE);
-		if (val < 0) continue;
-		fobj->VARLIST[i]->CURRENT_DOMAIN.reset();
-		fobj->VARLIST[i]->CURRENT_DOMAIN.set(val);
+		if (val == -1) continue;
+		for (int j = 0; j < fobj->VARLIST[i]->DOMAINSIZE; j++)
+			fobj->VARLIST[i]->CURRENT_DOMAIN.set(j, val >= 0 ? j == val : !(j < 31 && ((-2-val) >> j & 1)));
 	}
 }
 #endif
diff --git a/src/SolveFinite.cc b/src/SolveFinite.cc
index aad2b3c..a62bcb7 100644
--- a/src/SolveFinite.cc
+++ b/src/SolveFinite.cc
@@ -14,7 +14,8 @@ using namespace std;
 #ifdef MVL_VERIF
 // Verification build only: the explorer may replace the assignment that was
 // found, to see what the final model check says of it. mvl_verif_assign returns
-// the value for a variable, or -1 to leave the variable as it is.
+// the value for a variable, or -1 to leave the variable as it is, or -2-m to leave
+// it open with the values j of the bits m>>j excluded.
 extern "C" int mvl_verif_assign(int var, int domain);
 
 static void verifAssign(Formula * fobj)
@@ -23,10 +24,13 @@ static void verifAssign(Formula * fobj)
     {
       Variable * v = fobj->VARLIST[i];
       int val = mvl_verif_assign(i, v->DOMAINSIZE);
-      if(val < 0) continue;
-      v->VAL = val;
+      if(val == -1) continue;
+      v->VAL = max(val, -1);
       for(int j=0; j<v->DOMAINSIZE; j++)
-	v->ATOMASSIGN[j] = (j == val ? 1 : -1);
+	if(val >= 0)
+	  v->ATOMASSIGN[j] = (j == val ? 1 : -1);
+	else
+	  v->ATOMASSIGN[j] = (j < 31 && ((-2-val) >> j & 1) ? -1 : 0);
     }
 }
 #endif
-- 
2.43.0

