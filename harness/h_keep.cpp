// C02: SELECT, REMOVE and IFF, alone and after one another
#define TAB_SUB
#include "tab.hpp"
static const char* G[] = {
	"SELECT (x) ;", "REMOVE (x) ;", "IFF (x) IF (1 (y)) ;", "IFF (x) IF (-1 (y)) ;", "IFF (x) ;", "SELECT (x) ; REMOVE (y) ;", "REMOVE (x) ; SELECT (y) ;", "REMOVE (x) ; REMOVE (y) ; REMOVE (z) ;",
	"REMOVE (x y) ; REMOVE (x) ; SELECT (y) ;", "IFF (x) IF (-1 (x)) ; SELECT (y) ;", "IFF (x) IF (1 (x)) ; IFF (y) IF (-1 (y)) ;", "REMOVE (x) IF (0 (y)) ; REMOVE (y) IF (0 (x)) ;", "SELECT (x) IF (-1C (y)) ; REMOVE (*) IF (1 (x)) ;",
	"SELECT (x) IF (NOT 0 (y)) ; SELECT (y) IF (NOT 0 (x)) ;", "REMOVE (*) ;", "SELECT (*) ;", "REMOVE (*) - (x) ;", "SELECT (x) - (y) ; REMOVE (x) - (z) ;", "REMOVE UNSAFE (x) ;", "REMOVE UNSAFE (x) IF (1 (y)) ; SELECT (y) ;", "REMOVE SAFE (x) ;",
	"REMOVE DELAYED (x) ; SELECT (y) IF (1 (*)) ;", "REMOVE DELAYED (x) ; SELECT (y) IF (1d (x)) ;", "REMOVE (x) ; SELECT (y) IF (1D (x)) ;", "REMOVE (x) ; SELECT (y) IF (NOT 1D (x)) ;", "SELECT DELAYED (x) ; REMOVE (y) IF (0d (z)) ;", "REMOVE IGNORED (x) ; SELECT (y) IF (1I (x)) ;", "REMOVE IGNORED (x) ; SELECT (y) IF (1 (x)) ;", "SELECT IGNORED (x) ; REMOVE (x) ;",
	"IFF UNSAFE (x) IF (1 (y)) ;", "PROTECT (x) ; REMOVE (*) ;", "PROTECT (x) ; SELECT (y) OR (x) ;", "PROTECT (x) ; IFF (y) ;", "PROTECT (x) ; IFF (y) IF (-1 (x)) ;", "PROTECT (x) IF (1 (y)) ; IFF (*) IF (-1 (y)) ; UNPROTECT (x) ; REMOVE (x) ;", "REMOVE (x) IF (-1 (y)) (1 (y)) ; REMOVE (y) ;",
	"SELECT (x) IF (1 (x)) ; SELECT (x) IF (-1 (x)) ; REMOVE (y) ;", "SECTION\nSELECT (x) ;\nSECTION\nREMOVE (y) ;", "IFF (*) IF (1 (x)) ; REMOVE (x) ;", "REMOVE (x) IF (1 (y) LINK -1 (z)) ; SELECT (z) ;",
};
static const char* SH[] = { "a/?/y|c/?/?", "a/?/?/x|c/?", "a/? ?|c/?/y x|d/y/?" };
int main() {
	return run_table(G, SH, "each cohort keeps exactly the readings the rules leave, and at least one");
}
