// C08: rules that edit readings
#define TAB_SUB
#include "tab.hpp"
static const char* G[] = {
#if WHICH == 1
	"ADD (@p) (x) ;", "MAP (@p) (x) ;", "ADD (@p @q) (x) ;", "MAP (@p @q) (x) IF (1 (y)) ;", "ADD (n) (x) ;", "ADD (n m) (x) IF (-1 (y)) ;", "ADD (n @p) (x) ; MAP (@q) (x) ;", "MAP (@p) (x) ; ADD (@q) (x) ;", "MAP (@p) (x) ; MAP (@q) (y) ;", "ADD (@p) (x) ; ADD (@p) (*) ;", "ADD (@p) (*) ; SELECT (@p) ; REMOVE (y) ;",
	"ADD (x) (y) ; SELECT (x) ;", "ADD (n) BEFORE (x) (x) ;", "ADD (n) AFTER (x) (x y) ;", "ADD (n m) BEFORE (x y) (x y) ;", "MAP (n @p) AFTER (y x) (x y) ;", "ADD (n m) AFTER (y) (y) ; REMOVE (n) IF (1 (x)) ;", "ADD (n) (x) ; ADD (n) (x) ; ADD (n) (y) ;", "ADD (n) (*) - (x) ;", "MAP (@p) (x) ; REMOVE (@p) ;", "MAP (@p @q) (x) ; SELECT (@q) IF (1 (x)) ;",
	"MAP (@p) (x) ; UNMAP (x) IF (1 (y)) ;", "MAP (@p) (x) ; UNMAP UNSAFE (*) ; ADD (@q) (x) ;", "ADD (@p) (x) ; UNMAP UNSAFE (@p) ;", "PROTECT (x) ; ADD (n) (*) ;", "PROTECT (x) ; SUBSTITUTE (y) (n) (*) ; UNPROTECT (*) ; SUBSTITUTE (y) (m) (*) ;", "ADD:r1 NOMAPPED (n) (*) ; ",
#elif WHICH == 2
	"SUBSTITUTE (x) (n) (*) ;", "SUBSTITUTE (x) (n m) (*) ;", "SUBSTITUTE (x y) (n) (x) ;", "SUBSTITUTE (x) (*) (*) ;", "SUBSTITUTE (x) (y) (x) ; SUBSTITUTE (y) (x) (y) IF (1 (x)) ;", "SUBSTITUTE (*) (n) (x) ;", "SUBSTITUTE (x) (@p) (x) ;", "SUBSTITUTE (x) (n @p) (x) ; REMOVE (@p) ;", "SUBSTITUTE (x) (y) (*) ; SELECT (y) ;",
	"SUBSTITUTE (x) (y) (x) ; REMOVE (y) ;", "REPLACE (n) (x) ;", "REPLACE (n m) (x) IF (1 (y)) ;", "REPLACE (\"q\" n) (x) ;", "REPLACE (n @p) (x) ; SELECT (n) ;", "REPLACE (y) (x) ; REMOVE (y) ;", "SUBSTITUTE (x) (x n) (x) ;", "SUBSTITUTE (x y) (y x) (x) (NOT 0 (n)) ;", "SUBSTITUTE (\"a\") (\"q\") (x) ;", "SUBSTITUTE (x) (n) (y) ; SUBSTITUTE (y) (x) (n) ; SELECT (x) ;", "SUBSTITUTE ITERATE (x) (n) (x) ; SUBSTITUTE (n) (x) (y) ;",
#elif WHICH == 3
	"APPEND (\"n\" x) (x) ;", "APPEND (\"n\" m) (x) IF (1 (y)) ;", "APPEND (\"n\" m @p) (x) ;", "APPEND (\"n\" y) (x) ; REMOVE (y) ;", "COPY (n) (x) ;", "COPY (n m) (x) IF (1 (y)) ;", "COPY (n) EXCEPT (x) (x) ;", "COPY (n) EXCEPT (x y) (y) ;", "COPY (n @p) (x) ; SELECT (n) ;", "COPY (n) (x) ; REMOVE (x) - (n) ;", "COPY (y) EXCEPT (x) (x) ; SELECT (y) ;", "COPY (n) AFTER (x) (x) ;", "COPY (n) BEFORE (y) (x y) ;",
	"APPEND (\"n\" @p @q) (x) ; SELECT (@p) ;", "APPEND (\"n\" m) (x) ; SUBSTITUTE (m) (x) (m) ; ADD (@p) (x) ;",
#endif
};
#if WHICH == 3
static const char* SH[] = { "a/?/y z|c/?", "a/? ?|c/y", "a|c/x/?" };
#else
static const char* SH[] = { "a/? ?|c/?/y x", "a/?/z x y|c/? ?", "a/x ? y/?|c/y @q/?" };
#endif
int main() {
	return run_table(G, SH, "an edit changes exactly what the rule says");
}
