// Grammars that between them use every part of the language, each with a stream that makes its rules act.
// Used for properties that relate two runs of the real code to each other.
#pragma once
struct Zoo {
	const char *g, *s;
};
// DELIMITERS = "<.>" comes first unless the grammar starts with '!'
static const Zoo ZOO[] = {
	// 0: selecting and removing, all flags
	{ "SECTION\nSELECT (x) IF (1 (y)) ; REMOVE:r2 (y) IF (-1C (x)) ; IFF (z) IF (-1 (x)) ;", "a/?/z|b/?/y|." },
	{ "SECTION\nREMOVE UNSAFE (x) IF (NOT 1 (y)) ; SELECT DELAYED (y) ; REMOVE IGNORED (z) ; ADD LOOKDELAYED (@d) (x) IF (-1d (z)) ; RESTORE IGNORED (z) (x y) ; ADD (@k) (*) IF (-1I (z)) ;", "a/?/z|b/?/x y|." },
	{ "PROTECT (x) IF (1 (y)) ; REMOVE (x) ; UNPROTECT (x) ; REMOVE (x) IF (1 (z)) ;", "a/? v/u|b/?|." },
	{ "REMOVE:first REPEAT (x) IF (1 (x)) ; SELECT ITERATE (y) ; SELECT NOITERATE (z) ; REMOVE KEEPORDER (u) ; REMOVE VARYORDER (v) ;", "a/?/x z|b/?/y|c/z" },
	// 4: edits
	{ "ADD (n @p) (x) ; MAP (@q @r) (y) ; REPLACE (m) (z) ; ADD (n) BEFORE (x) (y x) ; ADD (k) AFTER (y) (y) ;", "a/? x/y|b/y ?" },
	{ "SUBSTITUTE (x) (n m) (x) ; SUBSTITUTE (y) (*) (y) ; SUBSTITUTE (\"a\") (\"q\") (z) ; UNMAP UNSAFE (@p) ; UNMAP (*) ;", "a/? x/y ?|b/y @p" },
	{ "APPEND (\"n\" m @p) (x) ; COPY (c) EXCEPT (y) (y) IF (NEGATE 1 (x)) ; COPY (d) AFTER (z) (z) ; UNMAP UNSAFE (@m) ;", "a/? x|b/? y/z" },
	{ "STATIC-SETS = L ; LIST L = y z ; ADD (VSTR:@$1) (\"<(.*)>\"r x) ; ADD (\"%U$1\"v) (\"([ab])\"r y) ; SUBSTITUTE (/^\\(u\\)$/r) (VSTR:n$1) (u) ; ADD (<{$$L}>v) $$L ;", "a/? |b/?" },
	// 8: cohorts
	{ "SECTION\nADDCOHORT (\"<n>\" \"n\" m) AFTER (x) IF (NOT 1 (m)) ; ADDCOHORT:b (\"<k>\" \"k\" l st \"k2\" l2) BEFORE (y) IF (NOT -1 (l)) ; REMCOHORT (z) ;", "a/?|b/y|c/?|." },
	{ "SECTION\nREMCOHORT IGNORED (z) ; REMCOHORT (y) IF (-1 (x)) ; MOVE (u) AFTER (1* (x)) ; SWITCH (v) WITH (1 (w)) ; RESTORE IGNORED (*) (x) ;", "a/?|b/x|c/?|w/w" },
	{ "SECTION\nMERGECOHORTS (\"<m>\" \"m\" m) (x) WITH (1 (y)) ; SPLITCOHORT (\"<s>\" \"s\" s 1->2 \"<t>\" \"t\" t 2->p) (z) ; COPYCOHORT (cp) EXCEPT (u) (u) TO AFTER (1* (v)) ;", "a/?|b/y|c/?|v/v" },
	{ "SECTION\nDELIMIT (x) IF (1 (y)) ; SELECT (z) IF (1 (<<<)) ; ADD (@first) (*) IF (-1 (>>>)) ; DELIMIT AFTER (u) ;", "a/?/z|b/y|c/?/x|." },
	// 12: contexts
	{ "ADD (@p) (*) IF (1*C (x) BARRIER (y) LINK NOT 0 (z)) ; ADD (@q) (*) IF (NOT -1* (x) CBARRIER (y)) ; ADD (@r) (z) IF (0*S (x)) (NEGATE 1 (y) LINK 1 (z)) ;", "a/?|b/?/z|c/z" },
	{ "ADD (@p) (*) IF (2 (x) OR (y)) ; ADD (@q) (*) IF ((1 (x)) OR (-1 (y) LINK -1 (x))) ; ADD (@r) (*) IF (@1 (x)) (@-1 (y)) ; ADD (@s) (*) IF (1** (z) LINK 1 (x)) ;", "a/?|b/?|c/y|d/x" },
	{ "TEMPLATE t = 1 (x) LINK 1 (y) ; TEMPLATE o = (-1 (x)) OR (1 (y)) ; TEMPLATE l = [(x), (y)] ; ADD (@p) (*) IF (T:t) ; ADD (@q) (*) IF (T:o LINK 1 (z)) ; ADD (@r) (*) IF (-1 T:l) ; ADD (@s) (*) IF (NEGATE 1 T:o) ;", "a/?|b/?|c/y|d/z" },
	{ "ADD (@w) (*) IF (1*W (x)) ; ADD (@l) (*) IF (-1*< (y)) ; ADD (@r) (*) IF (1*> (z)) ; ADD (@o) (*) IF (-1* (*) LINK 1*o (x)) ; ADD (@O) (x) IF (1 (*) LINK -1*O (x)) ;", "a/?|.|b/?|.|c/z" },
	{ "LIST NIL = nil ; ADD (@nk) (*) IF (0 (x) - NIL) ; ADD (@all) (*) IF (ALL 1* (x)) ; ADD (@none) (*) IF (NONE 1* (x)) ; ADD (@act) (*) IF (1X (x) LINK 1x (*)) ; ADD (@f) (*) IF (1f (x) LINK 1 (y)) ; ", "a/?|b/?|c/x" },
	{ "SECTION\nADD (@m) (x) IF (1*X (y)) (jM (y)) ; ADD (@t) (y) IF (jT (*)) ; ADD (@a) (z) IF (1*A (x)) (jA (x)) ;", "a/?|b/?|c/y" },
	// 18: sets
	{ "LIST A = x (y z) ^u ; LIST B = (*) ; SET C = A - (v) ; SET D = A + (z) | (w) ^ (x) ; SET E = (x) ∆ (y) ; ADD (@e) E ; SET F = A \\ (y z) ; ADD (@a) A ; ADD (@c) C ; ADD (@d) D ; ADD (@f) F ; REMOVE B - A ;", "a/? z/y ?|b/? ?" },
	{ "LIST A = x y ; LIST B = y z ; SET U = A OR B ; ADD (@u) $$A IF (1 $$A) ; ADD (@s) &&U IF (1 &&U) ; ADD (@v) $$U + (w) ; ADD &&U (v) IF (-1 &&U) ;", "a/? w|b/? v|c/? v" },
	{ "LIST A = \"A\"i \"<a>\" \"b.*\"r ; LIST B = /^[xy]$/r ; ADD (@a) A ; ADD (@b) B ; ADD (@i) (\"<A>\"i x) ; LIST C = zz ; LIST C += x ; ADD (@cc) C ;", "a/?|B/?|bb/x" },
	{ "LIST A = <n=3> (<n>2> x) <m=MAX> ; ADD (@a) A ; ADD (@b) (<n!=5> y) ; ADD (@c) (<n<=4>) ; REMOVE (<n=MIN>) IF (1 (x)) ;", "a/<n:3> ?/<n:4> x|b/? <m:7>/<m:9>" },
	{ "LIST S = x y ; UNDEF-SETS = Q ; ADD (@d) _S_DELIMITERS_ ; ADD (@e) _TARGET_ ; ADD (@b) (>>>) ; ADD (@x) (_ENCL_) ;LIST-TAGS += x y ; ADD (@s) S ;", "a/?|b/?|." },
	// 23: dependency
	{ "SETPARENT (x) TO (1* (y)) ; SETCHILD (z) TO (-1* (x)) ; ADD (@p) (*) IF (p (y)) ; ADD (@c) (*) IF (c (x)) ; ADD (@s) (*) IF (s (x)) ; ADD (@cc) (*) IF (cc (z)) ; ADD (@pp) (*) IF (pp (y)) ;", "a/?|b/?|c/y|d/?" },
	{ "SETPARENT UNSAFE (x) TO (-1* (y)) ; REMPARENT (z) ; SWITCHPARENT (y) IF (p (x)) ; ADD (@p) (*) IF (*p (y)) ; ADD (@l) (*) IF (lc (x)) ; ADD (@r) (*) IF (rs (x)) ; ADD (@S) (*) IF (Sp (x)) ;", "a/? #1->2|b/? #2->0|c/? #3->2|d/y #4->3" },
	{ "SETPARENT ALLOWLOOP (x) TO (1 (y)) ; SETPARENT ALLOWCROSS (y) TO (1 (z)) ; SETCHILD NEAREST (z) TO (-1* (*)) ; ADD (@n) (*) IF (NONE p (*)) ; ADD (@a) (*) IF (ALL c (x)) ; MOVE WITHCHILD (*) (x) AFTER (1 (y)) ;", "a/? #1->3|b/? #2->1|c/? #3->0|d/?" },
	// 26: relations
	{ "ADDRELATION (q) (x) TO (1* (y)) ; ADDRELATIONS (l) (r) (z) TO (-1* (x)) ; SETRELATION (q) (x) TO (1 (z)) ; ADD (@r) (*) IF (r:q (y)) ; ADD (@a) (*) IF (r:* (x)) ;", "a/?|b/?|c/y|d/?" },
	{ "SETRELATIONS (f) (g) (x) TO (1* (y)) ; REMRELATION (f) (x) IF (1 (y)) TO (1 (y)) ; REMRELATIONS (f) (g) (z) FROM (-1 (x)) ; ADD (@g) (*) IF (r:g (x)) ; SETRELATION (abs) (y) FROM (@1 (*)) ; ADD (@n) (*) IF (NONE r:/^f$/r (*)) ;", "a/? ID:5 R:f:6|b/? ID:6|c/y" },
	// 28: variables
	{ "SETVARIABLE (v) (on) (x) ; REMVARIABLE (v) (y) ; ADD (@v) (VAR:v) ; ADD (@von) (VAR:v=on) ; SETVARIABLE OUTPUT (o) (1) (z) ; ADD (@o) (LVAR:o=1) ; ADD (@n) (*) IF (NOT 0 (VAR:v)) ;", "a/?|.|b/?|.|c/z" },
	// 29: sections and flow
	{ "BEFORE-SECTIONS\nADD (@b) (x) ; SECTION one ;\nREMOVE (x) IF (1 (y)) ; SECTION\nSELECT (y) ; AFTER-SECTIONS\nADD (@a) (y) ; NULL-SECTION\nADD (@n) (*) ;", "a/?/z|b/?/y|c/x/y" },
	{ "JUMP (lbl) (x) ; ADD (@j) (*) ; ANCHOR lbl ; ADD (@k) (*) ; JUMP (end) (*) IF (0 (y)) ; ADD (@l) (*) ; ANCHOR end ; SECTION named ;\nADD (@e) (z) ;", "a/?|b/?|." },
	{ "WITH (x) IF (1X (y)) { MAP (@m) (*) ; SETPARENT (*) TO (1 _MARK_) ; REMOVE (z) ; ADD (@c) (*) IF (jC1 (y)) ; } ; WITH (z) IF (-1* (x)) { SUBSTITUTE (z) (k) (*) ; ADD (@w) _C1_ ; } ;", "a/?/z|b/? y|c/z" },
	// 32: subreadings
	{ "SUBREADINGS = LTR ; ADD SUB:1 (s) (x) ; ADD SUB:-1 (l) (x) ; REMOVE SUB:1 (y) ; ADD (@z) (*) IF (0/1 (z)) ; ADD (@any) (*) IF (1/* (x)) ;", "a/?/y|b/?" },
	// 33: configuration
	{ "SOFT-DELIMITERS = \"<,>\" ; MAPPING-PREFIX = £ ; ADD (£p) (x) ; MAP (£q) (y) ; REMOVE (£p) ; REMOVE UNMAPLAST (z) ;", "a/? £p/y|,/x|b/? £q £r|." },
	{ "PARENTHESES = (\"<(>\" \"<)>\") ; SECTION\nADD (@in) (x) IF (1* (_ENCL_)) ; ADD (@l) (*) IF (0 (_LEFT_)) ; SELECT ENCL_OUTER (y) ; ADD ENCL_FINAL (@f) (*) ; ADD (@p) (*) IF (1 (_PAREN_)) ;", "a/?|(|b/?/y|)|c/x" },
	{ "PREFERRED-TARGETS = x y ; STATIC-SETS = A ; LIST A = x ; LIST B = y ; OPTIONS += addcohort-attach ; ADDCOHORT (\"<n>\" \"n\") BEFORE A IF (1 B) ; STRICT-TAGS += x y n ; ADD (n) A ;", "a/?|b/?" },
	{ "REOPEN-MAPPINGS = @p ; MAP (@p) (x) ; MAP (@q) (x) ; ADD (@z) (y) ; ADD NOMAPPED (@n) (y) ; ADD NOPARENT (@np) (z) ; ", "a/? @p|b/? y" },
	{ "ADD REVERSE (r) (x) IF (-1 (r) OR (>>>)) ; MAP REVERSE (@b) (x) IF (1 (@b) OR (<<<)) ; MAP (@c) (x) IF (-1 (@c) OR (>>>)) ;", "a/?|b/?|c/x" },
	{ "LIST A = x y ; ADD:n OUTPUT (@o) A ; REMOVE:del DETACH (y) ;", "a/?|b/?" },
	// 39: flags above the 32nd bit
	{ "ADD NOPARENT (@np) (*) ; SETPARENT (y) TO (-1 (*)) ; ADD NOPARENT (@q) (*) ; REMOVE NOPARENT KEEPORDER (z) ;", "a/? #1->2/z|b/? #2->0/z|c/? #3->2/z" },
	// 40: readings that become equal but for the mapping
	{ "MAP (@m) (y) ; SUBSTITUTE (y) (*) (y) ;", "a/x/x ?|b/?" },
};
