// C05: what a set matches
#define SLOT_LO 'w'
#define TAB_SUB
#include "tab.hpp"
static const char* G[] = {
#if WHICH == 1
	"LIST S = x y ; MAP (@h) S ;", "LIST S = (x y) ; MAP (@h) S ;", "LIST S = (x y) z ; MAP (@h) S ;", "LIST S = x (x y) ; MAP (@h) S ;", "LIST S = (x y) (x z) (y z w) ; MAP (@h) S ;", "LIST S = (x y z) (x y) w ; MAP (@h) S ;", "LIST S = ^x y ; MAP (@h) S ;", "LIST S = x ^y z ; MAP (@h) S ;",
	"MAP (@h) (*) ;", "LIST S = * ; MAP (@h) S ;", "MAP (@h) (x y) ;", "MAP (@h) (^x) ;",
	"LIST S = * ^x ; MAP (@h) S ;", "LIST S = ^(x y) * z ; MAP (@h) S ;", "LIST S = ^x * ^y ; SET T = S OR (z) ; MAP (@h) T ;", "LIST S = * ^x ; MAP (@h) (*) - S ;",
	"LIST S = \"a\" ; MAP (@h) S ;", "LIST S = \"<a>\" x ; MAP (@h) S ;", "LIST S = (\"<c>\" x) (\"a\" y) ; MAP (@h) S ;", "LIST S = ^\"<a>\" z ; MAP (@h) S ;", "\"<a>\" MAP (@h) (x) ;", "\"<c>\" MAP (@h) (x) ; \"<a>\" MAP (@k) (y) ;", "LIST S = (x x y) ; MAP (@h) S ;", "LIST S = (y x) (x y) x ; MAP (@h) S ;",
#elif WHICH == 2
	"MAP (@h) (x) OR (y) ;", "MAP (@h) (x) | (y) ;", "MAP (@h) (x) + (y) ;", "MAP (@h) (x) - (y) ;", "MAP (@h) (*) - (x) ;", "MAP (@h) (*) - (x) - (y) ;", "MAP (@h) (x) ^ (y) ;", "MAP (@h) (x) OR (y) - (z) ;", "MAP (@h) (x) - (z) OR (y) ;", "MAP (@h) (x) + (y) OR (z) ;", "MAP (@h) (z) OR (x) + (y) ;", "MAP (@h) (x) ^ (y) OR (z) ;", "MAP (@h) (z) OR (x) ^ (y) ;", "MAP (@h) (x) + (y) - (z) ;",
	"MAP (@h) (*) - (x) + (y) ;", "MAP (@h) (*) ^ (x) OR (x y) ;", "LIST A = x y ; LIST B = y z ; MAP (@h) A + B ;", "LIST A = x y ; LIST B = y z ; MAP (@h) A - B ;", "LIST A = x y ; LIST B = y z ; SET C = A - B ; MAP (@h) C OR (w) ;", "LIST A = x y ; LIST B = y z ; SET C = A OR B ; MAP (@h) (*) - C ;", "LIST A = x y ; SET B = A - (x) ; SET C = B + (z) ; MAP (@h) C ;", "LIST A = x y ; LIST B = y z ; MAP (@h) A \\ B ;", "LIST A = x y (x y) ; LIST B = y z ; MAP (@h) A ∆ B ;", "LIST A = x y w ; LIST B = y z w ; MAP (@h) A ∩ B ;",
	"LIST A = x y ; LIST B = x ; SET C = A \\ B ; SET D = C OR (z) ; MAP (@h) D ;", "SET A = (x) - (y) ; SET B = (y) - (x) ; MAP (@h) A OR B ;", "SET A = (x) OR (y) ; SET B = (*) - A ; SET C = (*) - B ; MAP (@h) C ;", "LIST A = ^x y z ; SET B = A - (z) ; MAP (@h) B OR (w) ;", "SET A = (x) ^ (y) ; SET B = A OR (z) ; MAP (@h) B ;", "SET A = (*) ^ (y) ; MAP (@h) A + (z) ;", "LIST A = (x y) z ; SET B = A + (w) ; MAP (@h) B - (y z) ;",
	"SET A = (x) ; SET B = A ; SET C = B OR A ; MAP (@h) C - (y) ;", "MAP (@h) (x) OR (y) OR (z) OR (w) OR (x y) ;", "MAP (@h) (*) - (x y) - (z) ;", "MAP (@h) (x) - (x) ;", "MAP (@h) (x) + (x) ;", "MAP (@h) (x) OR (*) ;", "MAP (@h) (*) OR (x) - (x) ;",
#endif
};
#if WHICH == 1
static const char* SH[] = { "a/? ?/\"c\" ? y|c/? x", "c/\"a\" ?/? y|a/z x ?", "a|c/?/? z" };
#else
static const char* SH[] = { "a/? ?|c/? z", "a/? x ?/? y z" };
#endif
int main() {
	return run_table(G, SH, "exactly the readings the set describes are mapped");
}
