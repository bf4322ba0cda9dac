// C04: unified sets
#ifndef WHICH
	#define WHICH 1
#endif
#define TAB_PRE "DELIMITERS = \"<.>\" ;\nLIST S = x y z ;\nLIST P = (x w) (y w) v ;\nLIST X = x w ;\nLIST Y = y w ;\nLIST W = w ;\nLIST BASE = \".*\"r ;\nLIST WORD = \"<.*>\"r ;\nLIST SEM = <.*>r ;\nSET XY = X OR Y ;\nSET XYZ = X OR Y OR (z) ;\nSET M = S - W ;\nSET J = X + Y ;\nSET XW = X - W ;\nSET YW = Y - W ;\nSET N = XW OR YW OR (z) ;\nSECTION\n"
#if WHICH != 3
	#define TAB_SUB
#endif
#include "tab.hpp"
#if WHICH == 1
static const char* G[] = { // target and tests
	"SELECT $$S IF (1 $$S) ;", "SELECT $$S IF (-1 $$S) ;", "SELECT (s) IF (1 $$S LINK 1 $$S) ;", "SELECT KEEPORDER (s) IF (1 $$S) (2 $$S) ;",
	"REMOVE $$S IF (1 $$S) ;", "REMOVE $$S IF (NOT 1 $$S) ;", "SELECT $$S IF (NEGATE 1 $$S) ;", "SELECT $$S IF (1C $$S) ;", "SELECT $$S IF (NOT 1C $$S) ;",
	"SELECT $$S IF (*1 $$S) ;", "SELECT $$S IF (**1 $$S) ;", "SELECT $$S IF (0* $$S) ;", "SELECT $$S IF (*1 $$S BARRIER W) ;", "SELECT $$S IF (*1 W BARRIER $$S) ;", "SELECT $$S IF (*1 W CBARRIER $$S) ;",
	"SELECT $$S IF (1 (*) LINK 1 $$S) ;", "SELECT $$S IF (1 $$S LINK 1 $$S) ;", "SELECT $$S IF ((1 $$S) OR (2 $$S)) ;", "REMOVE $$S IF (1 $$S) (2 $$S) ;",
	"SELECT $$P IF (1 $$P) ;", "SELECT $$P IF (1 $$S) ;", "SELECT $$XY IF (1 $$XY) ;", "SELECT $$X + $$Y IF (1 $$X) ;", "SELECT $$X + $$Y IF (1 $$Y LINK 1 $$X) ;",
	"SELECT $$S - $$X IF (1 $$S) ;", "SELECT S - $$X IF (1 $$X) ;", "SELECT (s) IF (1 $$S LINK 1 S - $$S) ;", "SELECT $$S IF (1 S - $$S) ;",
	"SELECT $$M IF (1 $$M) ;", "SELECT $$N IF (1 $$N) ;",
	"SELECT NEAREST (s) IF (**1 $$S LINK 1 $$S) ;", "SELECT IMMEDIATE LOOKDELETED (s) IF (*1 $$S LINK *1 $$S) ;", "SELECT $$S IF (**1 $$S LINK 1 W) ;", "SELECT (s) IF (**1 $$S LINK 1 $$S) ;", "SELECT KEEPORDER (s) IF (NOT 1 $$S) (2 $$S) ;",
	"SELECT $$BASE IF (1 $$BASE) ;", "SELECT $$WORD IF (1 $$WORD) ;", "SELECT $$SEM IF (1 $$SEM) ;", "SELECT (s) + $$BASE IF (*1 $$BASE) ;", "SELECT KEEPORDER (s) IF (1 $$BASE) (2 $$BASE) ;", "SELECT (s) IF (**1 $$BASE LINK 1 $$BASE) ;", "SELECT (s) IF (**1 $$SEM LINK 1 $$SEM) ;",
	"SELECT (s) IF (*1 $$S LINK NOT 1 $$S) ;", "REMOVE (s) IF (1 $$S LINK *1 $$S) ;", "SELECT (s) IF (**1C $$S LINK 1 $$S) ;", "SELECT KEEPORDER (s) IF (NOT 1C $$S) (2 $$S) ;",
};
static const char* SH[] = { "a/s ?/y|b/?/w ?|c/s w/y", "a/s x/y|b/?/y|c/?|d/?/z", "a/? <p>/s <q>|b/? <p>/u <r>|c/\"b\" w/\"a\" <q>", "a/s <q>/u|b/? <p>|c/\"k\" ? <r>|d/\"k\" <r>/\"a\" <p>" };
#elif WHICH == 2
static const char* G[] = { // sets of sets
	"SELECT &&XY IF (1 &&XY) ;", "SELECT &&XYZ IF (-1 &&XYZ) ;", "SELECT (s) IF (1 &&XY LINK 1 &&XY) ;", "SELECT KEEPORDER (s) IF (1 &&XYZ) (2 &&XYZ) ;", "REMOVE &&XYZ IF (1 &&XYZ) ;", "REMOVE &&XYZ IF (NOT 1 &&XYZ) ;", "SELECT &&XYZ IF (NEGATE 1 &&XYZ) ;",
	"SELECT &&XYZ IF (1C &&XYZ) ;", "SELECT &&XYZ IF (*1 &&XYZ) ;", "SELECT &&XYZ IF (**1 &&XYZ LINK 1 W) ;", "SELECT (s) IF (**1 &&XYZ LINK 1 &&XYZ) ;", "SELECT &&XY IF (1 &&1:XY) ;", "SELECT &&1:XYZ IF (1 &&2:XYZ LINK 1 &&1:XYZ) ;", "SELECT (s) IF (1 &&1:XY LINK 1 &&1:XY) ;",
	"SELECT &&J IF (1 &&J) ;", "SELECT &&M IF (1 &&M) ;", "SELECT &&N IF (1 &&N) ;", "SELECT &&XYZ + $$S IF (1 &&XYZ) ;", "SELECT $$S + &&XYZ IF (1 $$S LINK 1 &&XYZ) ;", "SELECT &&XYZ - W IF (1 &&XYZ) ;", "SELECT &&XYZ IF (1 XYZ - &&XYZ) ;",
	"SELECT KEEPORDER (s) IF (NOT 1 &&XYZ) (2 &&XYZ) ;", "SELECT NEAREST &&XYZ IF (**1 &&XYZ LINK 1 W) ;", "SELECT $$1:S IF (1 $$2:S LINK 1 $$1:S) ;", "SELECT &&XYZ IF ((1 &&XYZ) OR (2 &&XYZ)) ;", "SELECT (s) IF (**1C &&XYZ LINK 1 &&XYZ) ;",
};
static const char* SH[] = { "a/s ?/x z|b/? w/?|c/s w/y", "a/s x z w/u|b/?|c/? z|d/?/x z" };
#elif WHICH == 3
static const char* G[] = { // no binding leaks, and what is bound goes into the reading
	"MAP (@f) $$S IF (1 $$S) ;\nMAP (@g) (s) ;", "MAP (@f) $$S IF (1 $$S) ;\nMAP (@g) $$S IF (-1 $$S) ;", "ADD (n) $$S IF (1 $$S) ;\nREMOVE $$S IF (-1 $$S) ;",
	"ADD $$S $$S IF (1 W) ;", "ADD $$X $$X + $$Y IF (1 $$X) ;", "ADD $$S (s) IF (1 $$S) ;", "ADD $$S (s) IF (*1 $$S LINK 1 $$S) ;", "REPLACE $$S $$S IF (1 $$S) ;", "SUBSTITUTE $$S (n) $$S IF (1 $$S) ;", "SUBSTITUTE $$S (n) (s) IF (1 $$S) ;", "SUBSTITUTE (s) $$S (s) IF (1 $$S) ;", "SUBSTITUTE $$P (n) $$P ;",
	"ADD (<{$$S}>v) $$S IF (1 $$S) ;", "ADD (<k{$$S}>v) (s) IF (**1 $$S LINK 1 $$S) ;", "ADD $$P $$P IF (1 $$P) ;", "ADD NEAREST $$S (s) IF (1 $$S) ;", "ADD $$S (s) IF (*1 $$S LINK 1 W) ;",
};
static const char* SH[] = { "a/s ?/x ?|b/? u/?|c/s w/y", "a/s x/y|b/?/z|c/?|d/w ?" };
#endif
int main() { return run_table(G, SH, "unified sets bind as documented"); }
