From 042dfd4d6a1bf600239651f9e55cae36282b6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 01/64] fix: interval_vector::insert() counts members added
 first or at the front

---
 src/interval_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..ff0a00a 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
-- 
2.43.0


From 1428fed39853187243cd11576e66e662a83d94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 02/64] fix: interval_vector::erase() wrote through an iterator
 invalidated by insert

---
 src/interval_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index ff0a00a..490f9cc 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -251,8 +251,10 @@ public:
 			return true;
 		}
 		if (it->lb < t && it->ub > t) {
-			elements.insert(it + 1, interval(t + 1, it->ub));
+			// Inserting may reallocate, so shrink the lower part first
+			interval upper(t + 1, it->ub);
 			it->ub = t - 1;
+			elements.insert(it + 1, upper);
 			--_size;
 			return true;
 		}
-- 
2.43.0


From 93311e218988bf2dcf2a747ef17a61aff1643f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 03/64] fix: erasing an absent key from a full-of-tombstones
 flat table never ended

---
 src/flat_unordered_map.hpp | 3 +++
 src/flat_unordered_set.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f4ef313..f1f03bf 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -171,6 +171,9 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot].first != res_empty && elements[spot].first != t) {
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 8f68cb9..7085858 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -167,6 +167,9 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot] != res_empty && elements[spot] != t) {
-- 
2.43.0


From e89f0d7fdc486f06f7a6a7aea2fa38fbbc381b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 04/64] fix: reserve() on an emptied flat table kept tombstones
 it no longer counted

---
 src/flat_unordered_map.hpp | 3 +--
 src/flat_unordered_set.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f1f03bf..d97d5b0 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -293,8 +293,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, std::make_pair(res_empty, V()));
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 7085858..26702aa 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -262,8 +262,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, res_empty);
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
-- 
2.43.0


From e2fd813016ede7726b2ff62e08dbbc1263395d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 05/64] fix: NOT on a scanning test also inverted the test's
 own BARRIER/CBARRIER

---
 src/GrammarApplicator_runContextualTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..cd4ae4a 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -97,7 +97,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 	context.origin = nullptr;
 	context.did_test = true;
 	if (test->barrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~(POS_CAREFUL | POS_NOT), false, false, false, true };
 		bool barrier = doesSetMatchCohortNormal(*cohort, test->barrier, &context);
 		if (barrier) {
 			seen_barrier = true;
@@ -106,7 +106,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 		}
 	}
 	if (test->cbarrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos | POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, (test->pos | POS_CAREFUL) & ~POS_NOT, false, false, false, true };
 		bool cbarrier = doesSetMatchCohortCareful(*cohort, test->cbarrier, &context);
 		if (cbarrier) {
 			seen_barrier = true;
-- 
2.43.0


From fda26486c94b2de206aab79a7b647ce8e2f876de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 06/64] fix: NOT on a careful test looked at the first reading
 only

---
 src/GrammarApplicator_matchSet.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..824c72a 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1030,6 +1030,16 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 
 	const Set* theset = grammar->sets_list[set];
 
+	// NOT inverts the outcome of the whole careful test, not that of each reading
+	if (context && (context->options & POS_NOT)) {
+		dSMC_Context inner = { context->test, nullptr, nullptr, context->options & ~POS_NOT, false, false, false, true };
+		if (doesSetMatchCohortCareful(cohort, set, &inner)) {
+			context->matched_target = true;
+			return false;
+		}
+		return doesSetMatchCohort_testLinked(cohort, *theset, context);
+	}
+
 	ReadingList* lists[4] = { &cohort.readings };
 	if (context && (context->options & POS_LOOK_DELETED)) {
 		lists[1] = &cohort.deleted;
@@ -1069,10 +1079,6 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 		}
 	}
 
-	if (context && !context->matched_target && (context->options & POS_NOT)) {
-		retval = doesSetMatchCohort_testLinked(cohort, *theset, context);
-	}
-
 	return retval;
 }
 }
-- 
2.43.0


From 8f0b709c5b3c52aa3e16acc3d1cf55b429593527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 07/64] fix: an IFF that could remove nothing left its readings
 queued for the next cohort

---
 src/GrammarApplicator_runRules.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..cd141a9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1400,6 +1400,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From 05c5fa8b1100beb021f84ce01c60dbc759eef76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 08/64] fix: an IFF counted protected readings twice and
 dropped those before the first match

---
 src/GrammarApplicator_runRules.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index cd141a9..da1ebf6 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -581,8 +581,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				if (type == K_SELECT) {
 					reading->matched_target = true;
 					reading->matched_tests = true;
-					reading_contexts.push_back(context_stack.back());
 				}
+				// Also if Remove, since Iff may turn into Select later
+				reading_contexts.push_back(context_stack.back());
 				++num_iff;
 				++num_immutable;
 				continue;
@@ -720,8 +721,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 								if (reading && reading->immutable) {
 									reading->matched_target = true;
 									reading->matched_tests = true;
-									++num_active;
-									++num_iff;
 								}
 							}
 						}
-- 
2.43.0


From f97090644fedef76efb2a2400d903b98f02ab7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 09/64] fix: ADD and COPY BEFORE/AFTER read past the reading's
 last tag

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index da1ebf6..2e5f107 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1819,7 +1819,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == reading.tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
@@ -2186,7 +2186,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == cReading->tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
-- 
2.43.0


From c5050aca6ef2aecea725897dcdeecedc8f391442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 10/64] fix: SUBSTITUTE looked at the first of no tags when
 none of its tags were present

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2e5f107..a57e891 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1943,7 +1943,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (size_t i = 0; i < get_apply_to().subreading->tags_list.size();) {
 					auto& remter = get_apply_to().subreading->tags_list[i];
 
-					if (plain && remter == (*theTags->begin())->hash) {
+					if (plain && !theTags->empty() && remter == (*theTags->begin())->hash) {
 						if (get_apply_to().subreading->baseform == remter) {
 							get_apply_to().subreading->baseform = 0;
 						}
-- 
2.43.0


From 75a30e5684749d27725c9a962c1d690b52016de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 11/64] fix: JUMP past the last rule active in the window ran
 off the rule list

---
 src/GrammarApplicator_runRules.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index a57e891..51eee68 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2900,6 +2900,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			goto bailout;
 		}
 		if (should_repeat) {
+			// JUMP may go past the last rule that is active in this window
+			iter_rules_end = intersects.end();
+			if (iter_rules == iter_rules_end) {
+				break;
+			}
 			goto repeat_rule;
 		}
 
-- 
2.43.0


From a663e440b81aef713837ab2d2a8c5e1739bb5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 12/64] fix: binary stream output lost dependency tags that
 were not parsed

---
 src/BinaryApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..c791efb 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -550,7 +550,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
-					if (tag->type & (T_DEPENDENCY | T_RELATION)) {
+					// Dependencies that were not parsed are only found in the tags
+					if ((tag->type & T_DEPENDENCY && has_dep) || tag->type & T_RELATION) {
 						continue;
 					}
 					if (unique_tags) {
-- 
2.43.0


From d36d343fb95de7ef0c1016477cc6b4bc223db07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 13/64] fix: FLUSH in a binary stream did not clear the
 variables as it does in a text stream

---
 src/BinaryApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index c791efb..f643fee 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -114,6 +114,7 @@ void BinaryApplicator::runGrammarOnText(std::istream& input, std::ostream& outpu
 				if (!flush(true)) {
 					printStreamCommand(STR_CMD_FLUSH, *ux_stdout);
 				}
+				variables.clear();
 			}
 			else if (cmd == BFC_EXIT) {
 				printStreamCommand(STR_CMD_EXIT, *ux_stdout);
-- 
2.43.0


From 31f26af592791525b662bacdff79348a3216d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 14/64] fix: rules were dropped for cohorts that they could
 still come to match

---
 src/GrammarApplicator_runRules.cpp | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 51eee68..2bd9e3d 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -341,6 +341,24 @@ Reading* GrammarApplicator::get_sub_reading(Reading* tr, int sub_reading) {
 	while (0)
 
 
+// Whether a set that does not match a reading can come to match it other than by its tags being added to the reading
+static bool canMatchLater(const Grammar& grammar, const Set& set) {
+	if (set.type & ST_SPECIAL) {
+		return true;
+	}
+	for (auto op : set.set_ops) {
+		if (op != S_OR && op != S_PLUS) {
+			return true;
+		}
+	}
+	for (auto s : set.sets) {
+		if (canMatchLater(grammar, *grammar.sets_list[s])) {
+			return true;
+		}
+	}
+	return false;
+}
+
 bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, RuleCallback reading_cb, RuleCallback cohort_cb) {
 	finish_cohort_loop = true;
 	bool anything_changed = false;
@@ -500,6 +518,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		bool did_test = false;
 		bool test_good = false;
 		bool matched_target = false;
+		bool skipped = false;
 
 		clear(readings_plain);
 		clear(subs_any);
@@ -566,9 +585,11 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			reading->matched_tests = false;
 
 			if (reading->mapped && (rule.type == K_MAP || rule.type == K_ADD || rule.type == K_REPLACE)) {
+				skipped = true;
 				continue;
 			}
 			if (reading->mapped && (rule.flags & RF_NOMAPPED)) {
+				skipped = true;
 				continue;
 			}
 			if (reading->noprint && !allow_magic_readings) {
@@ -792,7 +813,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
+			if (num_immutable == 0 && !matched_target && !skipped && !canMatchLater(*grammar, set)) {
 				--rocit;                         // We have already incremented rocit earlier, so take one step back...
 				cohortset->erase_n(rocit); // ...and one step forward again
 			}
@@ -1862,6 +1883,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							// Rules that did not match the cohort may match the restored reading
+							for (auto r = rl[i]; r; r = r->next) {
+								for (auto hash : r->tags_list) {
+									if (updateValidRules(rules, intersects, hash, *r)) {
+										iter_rules = intersects.find(rule->number);
+										iter_rules_end = intersects.end();
+									}
+								}
+							}
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
@@ -1883,6 +1913,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				if (did_restore) {
 					TRACE;
+					index_ruleCohort_no.clear();
+					readings_changed = true;
 				}
 				finish_reading_loop = false;
 			}
-- 
2.43.0


From b4ae869ef2368417154a8d6665ce52bc4288c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 15/64] fix: setting or removing a variable did not let rules
 that depend on it be tried again

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2bd9e3d..d8f0d88 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1454,6 +1454,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1464,6 +1465,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
 				variables[names.front()->hash] = values.front()->hash;
+				index_ruleCohort_no.clear();
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
-- 
2.43.0


From fe08b82a53cef8e54772650138803dd1df3cffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 16/64] fix: --rule NAME did not find the named rule, nor would
 have run it

---
 src/GrammarApplicator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..ec891af 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -987,11 +987,11 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status));
 
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line); // index() turns lines into numbers
 				}
 			}
 		}
-- 
2.43.0


From 4731fb5281fd47ecbc49f827a25efa26d4d0dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 17/64] fix: a JUMP taken in one pass over the rules was not
 taken in the next

---
 src/GrammarApplicator_runRules.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d8f0d88..38f8275 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -897,6 +897,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 	uint32IntervalVector intersects = current.valid_rules.intersect(rules);
 	ReadingList removed;
 	ReadingList selected;
+	uint32Vector jumped;
 
 	if (debug_level > 1) {
 		std::cerr << "DEBUG: Trying window " << current.number << std::endl;
@@ -1431,6 +1432,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 				else {
 					iter_rules = intersects.lower_bound(it->second);
+					jumped.push_back(hash_value(rule->number, get_apply_to().cohort->global_number));
 					finish_cohort_loop = false;
 					should_repeat = true;
 				}
@@ -2968,6 +2970,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		}
 	}
 
+	// A jump changes nothing, so it would otherwise not be made again the next time these rules are run
+	for (auto ih : jumped) {
+		index_ruleCohort_no.erase(ih);
+	}
+
 	if (section_did_something) {
 		retval |= RV_SOMETHING;
 	}
-- 
2.43.0


From 81f10c9e2190c7dad3bfceb188c87c6683983732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 18/64] fix: JUMP END still ran the grammar's last rule

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..d01496b 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -3055,7 +3055,7 @@ int TextualParser::parse_grammar(UString& data) {
 
 	parseFromUChar(&data[4], filename);
 
-	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size() - 1), true);
+	result->addAnchor(keywords[K_END], UI32(result->rule_by_number.size()), true);
 
 	for (auto it : result->rule_by_number) {
 		if (!it->name.empty()) {
-- 
2.43.0


From 34f5794a1cc5189f004b00105bf5161b1ee851ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 19/64] fix: _C1_ and so on of a test that found no cohort
 crashed WITH

---
 src/GrammarApplicator_runRules.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 38f8275..dfcc61f 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -376,7 +376,11 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			cohortset->insert(get_apply_to().cohort);
 			for (auto& t : set.trie_special) {
 				if (t.first->type & T_CONTEXT && t.first->context_ref_pos <= context_stack.back().context.size()) {
-					cohortset->insert(context_stack.back().context[t.first->context_ref_pos - 1]);
+					// A test that held because there was nothing to find has no cohort
+					auto ctx = context_stack.back().context[t.first->context_ref_pos - 1];
+					if (ctx) {
+						cohortset->insert(ctx);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 38c889424b4a2f59e905a75ff0cf54978df615b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 20/64] fix: changing a cohort's word form ran rules of other
 sections and skipped the next cohort

---
 src/GrammarApplicator.hpp          |  1 +
 src/GrammarApplicator_runRules.cpp | 46 ++++++++++++++++++------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..d3a2427 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -302,6 +302,7 @@ protected:
 	Tag* makeBaseFromWord(Tag* tag);
 
 	bool updateRuleToCohorts(Cohort& c, const uint32_t& rsit);
+	void eraseRuleFromCohort(Cohort& c, const uint32_t rsit);
 	void indexSingleWindow(SingleWindow& current);
 	uint32_t runGrammarOnSingleWindow(SingleWindow& current);
 	bool updateValidRules(const uint32IntervalVector& rules, uint32IntervalVector& intersects, const uint32_t& hash, Reading& reading);
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index dfcc61f..91ffeb8 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -78,25 +78,16 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		csi.push_back(i);
 	}
 	if (!csi.empty()) {
-		auto cap = cohortset.capacity();
-		std::vector<size_t*> ends;
-		std::vector<std::pair<size_t*,Cohort*>> chs;
-		for (size_t i = 0; i < csi.size(); ++i) {
-			if (*rocits[csi[i]] >= cohortset.size()) {
-				ends.push_back(rocits[csi[i]]);
-			}
-			else {
-				chs.push_back(std::pair(rocits[csi[i]], cohortset.at(*rocits[csi[i]])));
+		// Those that are looping over the cohorts must go on with whichever now follows the one they are at
+		std::vector<std::pair<size_t*, Cohort*>> chs;
+		for (auto i : csi) {
+			if (*rocits[i] && *rocits[i] <= cohortset.size()) {
+				chs.push_back(std::pair(rocits[i], cohortset.at(*rocits[i] - 1)));
 			}
 		}
 		cohortset.insert(&c);
-		for (auto it : ends) {
-			*it = cohortset.size();
-		}
-		if (cap != cohortset.capacity()) {
-			for (auto& it : chs) {
-				*it.first = cohortset.find_n(it.second);
-			}
+		for (auto& it : chs) {
+			*it.first = std::distance(cohortset.begin(), std::find(cohortset.begin(), cohortset.end(), it.second)) + 1;
 		}
 	}
 	else {
@@ -105,6 +96,21 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 	return current->valid_rules.insert(rsit);
 }
 
+void GrammarApplicator::eraseRuleFromCohort(Cohort& c, const uint32_t rsit) {
+	CohortSet& cohortset = c.parent->rule_to_cohorts[rsit];
+	auto it = std::find(cohortset.begin(), cohortset.end(), &c);
+	if (it == cohortset.end()) {
+		return;
+	}
+	size_t at = std::distance(cohortset.begin(), it);
+	for (size_t i = 0; i < cohortsets.size(); ++i) {
+		if (cohortsets[i] == &cohortset && *rocits[i] > at) {
+			--(*rocits[i]);
+		}
+	}
+	cohortset.erase_n(at);
+}
+
 bool GrammarApplicator::updateValidRules(const uint32IntervalVector& rules, uint32IntervalVector& intersects, const uint32_t& hash, Reading& reading) {
 	size_t os = intersects.size();
 	auto it = grammar->rules_by_tag.find(hash);
@@ -2105,11 +2111,13 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						get_apply_to().subreading->parent->wordform = wf;
 						for (auto r : grammar->wf_rules) {
 							if (doesWordformsMatch(wf, r->wordform)) {
-								current.rule_to_cohorts[r->number].insert(get_apply_to().cohort);
-								intersects.insert(r->number);
+								updateRuleToCohorts(*get_apply_to().cohort, r->number);
+								if (rules.contains(r->number) && current.valid_rules.contains(r->number)) {
+									intersects.insert(r->number);
+								}
 							}
 							else {
-								current.rule_to_cohorts[r->number].erase(get_apply_to().cohort);
+								eraseRuleFromCohort(*get_apply_to().cohort, r->number);
 							}
 						}
 						updateValidRules(rules, intersects, wf->hash, *get_apply_to().subreading);
-- 
2.43.0


From 15c1dcde7a07d288686fa39d96035ca74838bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 21/64] fix: PROTECT and UNPROTECT did not let rules be tried
 again

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 91ffeb8..34688f4 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1574,10 +1574,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_PROTECT) {
+				index_ruleCohort_no.clear();
 				TRACE;
 				get_apply_to().subreading->immutable = true;
 			}
 			else if (rule->type == K_UNPROTECT) {
+				index_ruleCohort_no.clear();
 				TRACE;
 				get_apply_to().subreading->immutable = false;
 			}
-- 
2.43.0


From 493d6e9394a110104ab9ada2f5d7a6da50fdebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 22/64] fix: a cohort without readings ended by a text
 delimiter got no placeholder reading

---
 src/GrammarApplicator_runGrammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..3d38e48 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -660,6 +660,9 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					if (lSWindow && lCohort && testStringAgainst(line, text_delimiters)) {
 						lSWindow->text_post += &line[0];
 
+						if (cCohort->readings.empty()) {
+							initEmptyCohort(*cCohort);
+						}
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-- 
2.43.0


From f1278fc323338f87de78316e4dac8640c1798656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 23/64] fix: a VAR test with a regular expression for a name
 looked at one matching variable only

---
 src/GrammarApplicator_matchSet.cpp | 40 ++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 824c72a..3cba3bf 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -492,36 +492,34 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		auto kit = grammar->single_tags.find(tag.comparison_hash);
 		if (kit != grammar->single_tags.end()) {
 			auto key = kit->second;
+			auto value_matches = [&](uint32_t value) {
+				if (tag.variable_hash == 0) {
+					return true;
+				}
+				auto comp = grammar->single_tags.find(tag.variable_hash)->second;
+				if (comp->type & T_REGEXP) {
+					return doesTagMatchRegexp(value, *comp, bypass_index) != 0;
+				}
+				if (comp->type & T_CASE_INSENSITIVE) {
+					return doesTagMatchIcase(value, *comp, bypass_index) != 0;
+				}
+				return comp->hash == value;
+			};
 			auto it = vars.begin();
 			if (key->type & T_REGEXP) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchRegexp(kv.first, *key, bypass_index) && value_matches(kv.second); });
 			}
 			else if (key->type & T_CASE_INSENSITIVE) {
-				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index); });
+				it = std::find_if(it, vars.end(), [&](auto& kv) { return doesTagMatchIcase(kv.first, *key, bypass_index) && value_matches(kv.second); });
 			}
 			else {
 				it = vars.find(tag.comparison_hash);
+				if (it != vars.end() && !value_matches(it->second)) {
+					it = vars.end();
+				}
 			}
 			if (it != vars.end()) {
-				if (tag.variable_hash == 0) {
-					match = tag.hash;
-				}
-				else {
-					auto comp = grammar->single_tags.find(tag.variable_hash)->second;
-					if (comp->type & T_REGEXP) {
-						if (doesTagMatchRegexp(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->type & T_CASE_INSENSITIVE) {
-						if (doesTagMatchIcase(it->second, *comp, bypass_index)) {
-							match = tag.hash;
-						}
-					}
-					else if (comp->hash == it->second) {
-						match = tag.hash;
-					}
-				}
+				match = tag.hash;
 			}
 		}
 	}
-- 
2.43.0


From 3d9d0327d5334e6d655b92cb4b7dad047a2f372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 24/64] fix: profiling and rule debugging reordered the
 readings rules were working on

---
 src/GrammarApplicator.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index ec891af..d97976e 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -489,6 +489,14 @@ void GrammarApplicator::printReading(const Reading* reading, std::ostream& outpu
 }
 
 void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
+	// Sort a copy, as profiling and rule debugging print windows that rules are still being applied to
+	auto printSorted = [&](ReadingList readings) {
+		std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+		for (auto reading : readings) {
+			printReading(reading, output);
+		}
+	};
+
 	if (cohort->local_number == 0) {
 		goto removed;
 	}
@@ -531,19 +539,10 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
-	for (auto rter1 : cohort->readings) {
-		printReading(rter1, output);
-	}
+	printSorted(cohort->readings);
 	if (trace && !trace_no_removed) {
-		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
-		for (auto rter3 : cohort->delayed) {
-			printReading(rter3, output);
-		}
-		std::sort(cohort->deleted.begin(), cohort->deleted.end(), Reading::cmp_number);
-		for (auto rter2 : cohort->deleted) {
-			printReading(rter2, output);
-		}
+		printSorted(cohort->delayed);
+		printSorted(cohort->deleted);
 	}
 
 removed:
-- 
2.43.0


From cce2e7c7693ebe8f812fb988d68d4d85c778bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 25/64] fix: ignored readings were not restored at the end of
 cg3_sentence_runrules()

---
 src/libcg3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 9efabb6..f90fdc8 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -409,6 +409,9 @@ void cg3_sentence_runrules(cg3_applicator* applicator_, cg3_sentence* sentence_)
 	SingleWindow* sentence = static_cast<SingleWindow*>(sentence_);
 	applicator->gWindow->current = sentence;
 	applicator->runGrammarOnWindow();
+	for (auto cohort : sentence->all_cohorts) {
+		cohort->unignoreAll();
+	}
 	applicator->gWindow->current = nullptr;
 }
 
-- 
2.43.0


From b0075a36eec9d72c1c4f4efb9d6bb4bb67fc8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 26/64] fix: cg3_reading_addtag() ended the process on a second
 mapping tag it had not seen before

---
 src/libcg3.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index f90fdc8..da56d48 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -537,14 +537,13 @@ cg3_reading* cg3_reading_create(cg3_cohort* cohort_) {
 cg3_status cg3_reading_addtag(cg3_reading* reading_, cg3_tag* tag_) {
 	auto reading = static_cast<Reading*>(reading_);
 	auto tag = static_cast<Tag*>(tag_);
-	if (tag->type & T_MAPPING) {
-		if (reading->mapping && reading->mapping != tag) {
-			u_fprintf(ux_stderr, "CG3 Error: Cannot add a mapping tag to a reading which already is mapped!\n");
-			return CG3_ERROR;
-		}
+	auto ga = reading->parent->parent->parent->parent;
+	const bool is_mapping = (tag->type & T_MAPPING) || tag->tag[0] == ga->grammar->mapping_prefix;
+	if (is_mapping && reading->mapping && reading->mapping != tag) {
+		u_fprintf(ux_stderr, "CG3 Error: Cannot add a mapping tag to a reading which already is mapped!\n");
+		return CG3_ERROR;
 	}
 
-	auto ga = reading->parent->parent->parent->parent;
 	ga->addTagToReading(*reading, tag);
 
 	return CG3_SUCCESS;
-- 
2.43.0


From b5afec941d099fb1dd3b512dc023af79dd9694d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 27/64] fix: readings built with a mapping tag through the C
 API were open to MAP, ADD and REPLACE

---
 src/libcg3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index da56d48..7634a27 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -545,6 +545,9 @@ cg3_status cg3_reading_addtag(cg3_reading* reading_, cg3_tag* tag_) {
 	}
 
 	ga->addTagToReading(*reading, tag);
+	if (is_mapping) {
+		reading->mapped = (ga->grammar->reopen_mappings.count(tag->hash) == 0);
+	}
 
 	return CG3_SUCCESS;
 }
-- 
2.43.0


From ac5b279f6887fbb7b5f58e8531601b9e6b77e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 28/64] fix: SETCHILD could give the start of the window a
 parent, and MOVE WITHCHILD then moved it

---
 src/GrammarApplicator_runRules.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 34688f4..e5a2991 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2509,7 +2509,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (rule->type == K_SETPARENT || rule->type == K_SETCHILD) {
 						has_dep = true;
 						bool attached = false;
-						if (rule->type == K_SETPARENT) {
+						// The start of the window is the root, and can thus not have a parent
+						if ((rule->type == K_SETPARENT ? target : attach)->local_number == 0) {
+							attached = false;
+						}
+						else if (rule->type == K_SETPARENT) {
 							attached = attachParentChild(*attach, *target, (rule->flags & RF_ALLOWLOOP) != 0, (rule->flags & RF_ALLOWCROSS) != 0);
 						}
 						else {
-- 
2.43.0


From 4a5b2a431a1f7f0ff22043c4932aa4dc9e72fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 29/64] fix: the end-of-window tag did not follow SPLITCOHORT
 and COPYCOHORT, and was copied along with others

---
 src/GrammarApplicator_runRules.cpp | 88 ++++++++++++++++++------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e5a2991..c9412fd 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1012,6 +1012,51 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 		};
 
+		// Replaces * in a cohort recipe with the tags of the cohort's first reading, except those that belong to its place
+		auto expand_any = [&](TagList& tags, const Cohort& cohort) {
+			for (size_t i = 0; i < tags.size();) {
+				if (tags[i]->hash != grammar->tag_any) {
+					++i;
+					continue;
+				}
+				tags.erase(tags.begin() + i);
+				auto& nt = cohort.readings.front()->tags_list;
+				for (size_t j = 2; j < nt.size(); ++j) {
+					auto tag = grammar->single_tags[nt[j]];
+					if ((tag->type & T_DEPENDENCY) || nt[j] == begintag || nt[j] == endtag) {
+						continue;
+					}
+					tags.insert(tags.begin() + i, tag);
+					++i;
+				}
+			}
+		};
+
+		// Makes sure that the last cohort of the window, and no other, has <<<
+		auto fix_endtag = [&](SingleWindow& which) {
+			for (auto c : which.cohorts) {
+				for (auto r : c->readings) {
+					bool has = r->tags.count(endtag) != 0;
+					if (c == which.cohorts.back()) {
+						if (!has) {
+							addTagToReading(*r, endtag);
+						}
+					}
+					else if (has) {
+						delTagFromReading(*r, endtag);
+					}
+				}
+			}
+		};
+		auto update_endtag = [&](SingleWindow& which) {
+			for (auto r : which.cohorts.back()->readings) {
+				if (updateValidRules(rules, intersects, endtag, *r)) {
+					iter_rules = intersects.find(rule->number);
+					iter_rules_end = intersects.end();
+				}
+			}
+		};
+
 		auto add_cohort = [&](Cohort* cohort, size_t& spacesInAddedWf, CohortSet* withs = nullptr) {
 			Cohort* cCohort = alloc_cohort(&current);
 			cCohort->global_number = gWindow->cohort_counter++;
@@ -1053,23 +1098,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 
 			for (auto& tags : readings) {
-				for (size_t i = 0; i < tags.size(); ++i) {
-					if (tags[i]->hash == grammar->tag_any) {
-						auto& nt = cohort->readings.front()->tags_list;
-						if (nt.size() <= 2) {
-							continue;
-						}
-						tags.reserve(tags.size() + nt.size() - 2);
-						tags[i] = grammar->single_tags[nt[2]];
-						for (size_t j = 3, k = 1; j < nt.size(); ++j) {
-							if (grammar->single_tags[nt[j]]->type & T_DEPENDENCY) {
-								continue;
-							}
-							tags.insert(tags.begin() + i + k, grammar->single_tags[nt[j]]);
-							++k;
-						}
-					}
-				}
+				expand_any(tags, *cohort);
 			}
 
 			for (auto& rit : readings) {
@@ -1719,23 +1748,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						cReading->noprint = false;
 						TagList mappings;
 
-						for (size_t i = 0; i < tags.size(); ++i) {
-							if (tags[i]->hash == grammar->tag_any) {
-								uint32Vector& nt = get_apply_to().cohort->readings.front()->tags_list;
-								if (nt.size() <= 2) {
-									continue;
-								}
-								tags.reserve(tags.size() + nt.size() - 2);
-								tags[i] = grammar->single_tags[nt[2]];
-								for (size_t j = 3, k = 1; j < nt.size(); ++j) {
-									if (grammar->single_tags[nt[j]]->type & T_DEPENDENCY) {
-										continue;
-									}
-									tags.insert(tags.begin() + i + k, grammar->single_tags[nt[j]]);
-									++k;
-								}
-							}
-						}
+						expand_any(tags, *get_apply_to().cohort);
 
 						for (auto tter : tags) {
 							uint32_t hash = tter->hash;
@@ -1830,6 +1843,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				current.cohorts.erase(current.cohorts.begin() + get_apply_to().cohort->local_number);
 
 				reindex();
+				fix_endtag(current);
+				update_endtag(current);
 				indexSingleWindow(current);
 				readings_changed = true;
 
@@ -2409,6 +2424,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							cReading->noprint = false;
 							TagList mappings;
 							for (auto hash : r->tags_list) {
+								if (hash == begintag || hash == endtag) {
+									continue;
+								}
 								auto tter = grammar->single_tags[hash];
 								if (tter->type & T_MAPPING || tter->tag[0] == grammar->mapping_prefix) {
 									mappings.push_back(tter);
@@ -2496,6 +2514,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 
 					reindex(attach->parent);
+					fix_endtag(*attach->parent);
+					update_endtag(*attach->parent);
 					indexSingleWindow(*attach->parent);
 					readings_changed = true;
 					reset_cohorts_for_loop = true;
-- 
2.43.0


From f0feb292d82b71de3daeac462dff7e27d57dc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 30/64] fix: MOVE and SWITCH left the lists of cohorts that
 rules look at out of order for the rules after them

---
 src/GrammarApplicator_runRules.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index c9412fd..5bdf0d9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -926,11 +926,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			{}
 
 			~Sorter() {
+				sort();
+			}
+
+			void sort() {
 				if (do_sort) {
 					for (auto& cs : current.rule_to_cohorts) {
 						cs.sort();
 					}
 				}
+				do_sort = false;
 			}
 		} sorter(current);
 
@@ -2964,6 +2969,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		removed.resize(0);
 		selected.resize(0);
 		bool rv = runSingleRule(current, *rule, reading_cb, cohort_cb);
+		// Other rules rely on cohorts being in order
+		sorter.sort();
 		if (rv || readings_changed) {
 			if (!(rule->flags & RF_NOITERATE) && section_max_count != 1) {
 				section_did_something = true;
-- 
2.43.0


From 20aaa14ea1f44c40f6db46baa8923c1ebb2f932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 31/64] fix: REMCOHORT of any but the last cohort did not let
 rules be tried again

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 5bdf0d9..54c2cc1 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1583,8 +1583,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
-- 
2.43.0


From 15758b88c0f09869f7da65b8eac04e24ef671b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 32/64] fix: the cohort after those MERGECOHORTS had merged was
 not looked at in that pass

---
 src/GrammarApplicator_runRules.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 54c2cc1..a27b2d9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -560,13 +560,15 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
-			if (lb == cohortset->end()) {
-				rocit = cohortset->size();
-			} else {
-				rocit = cohortset->find_n(*lb);
+			rocit = cohortset->size();
+			if (gac->local_number < current.cohorts.size()) {
+				auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+				if (lb != cohortset->end()) {
+					rocit = cohortset->find_n(*lb);
+				}
 			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
+			// Only step past the cohort itself, which may not be in the set, such as when it is new
+			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size() && *(cohortset->begin() + rocit) == gac) {
 				++rocit;
 			}
 		};
-- 
2.43.0


From 4c6678474f26925a9584da2737d9c58106912bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 33/64] fix: COPYCOHORT BEFORE the start of the window put the
 copy outside the window

---
 src/GrammarApplicator_runRules.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index a27b2d9..28b9c61 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2509,15 +2509,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					CohortSet edges;
 					collect_subtree(edges, attach, childset);
 
-					if (rule->flags & RF_BEFORE) {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.front()->local_number, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front()), cCohort);
-						attachParentChild(*edges.front(), *cCohort);
+					auto edge = (rule->flags & RF_BEFORE) ? edges.front() : edges.back();
+					// Nothing can be before the start of the window
+					if ((rule->flags & RF_BEFORE) && edge->local_number != 0) {
+						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edge->local_number, cCohort);
+						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edge->local_number, attach->parent->all_cohorts.end(), edge), cCohort);
+						attachParentChild(*edge, *cCohort);
 					}
 					else {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.back()->local_number + 1, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.back()->local_number, attach->parent->all_cohorts.end(), edges.back()) + 1, cCohort);
-						attachParentChild(*edges.back(), *cCohort);
+						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edge->local_number + 1, cCohort);
+						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edge->local_number, attach->parent->all_cohorts.end(), edge) + 1, cCohort);
+						attachParentChild(*edge, *cCohort);
 					}
 
 					reindex(attach->parent);
-- 
2.43.0


From f7c1e71d1a52f791304493f6759cea69cbced681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 34/64] fix: REMPARENT and SWITCHPARENT left the former parents
 with the children they had lost

---
 src/GrammarApplicator.hpp          |  1 +
 src/GrammarApplicator_reflow.cpp   | 11 +++++++++++
 src/GrammarApplicator_runRules.cpp | 12 ++++++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index d3a2427..4fb781a 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -358,6 +358,7 @@ protected:
 	bool isChildOf(const Cohort* child, const Cohort* parent);
 	bool wouldParentChildLoop(const Cohort* parent, const Cohort* child);
 	bool wouldParentChildCross(const Cohort* parent, const Cohort* child);
+	void detachParent(Cohort& child);
 	bool attachParentChild(Cohort& parent, Cohort& child, bool allowloop = false, bool allowcrossing = false);
 
 	void reflowTextuals_Reading(Reading& r);
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..96352b3 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -195,6 +195,17 @@ bool GrammarApplicator::attachParentChild(Cohort& parent, Cohort& child, bool al
 	return true;
 }
 
+void GrammarApplicator::detachParent(Cohort& child) {
+	auto it = gWindow->cohort_map.find(child.dep_parent);
+	if (it != gWindow->cohort_map.end()) {
+		it->second->remChild(child.global_number);
+	}
+	if (child.dep_parent == 0) {
+		child.parent->cohorts[0]->remChild(child.global_number);
+	}
+	child.dep_parent = DEP_NO_PARENT;
+}
+
 void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 	if (dep_delimit && !max && !input_eof && !gWindow->next.empty() && gWindow->next.back()->cohorts.size() > 1) {
 		max = gWindow->next.back()->cohorts[1]->global_number;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 28b9c61..7727f59 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2741,7 +2741,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				TRACE;
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detachParent(*get_apply_to().cohort);
+				index_ruleCohort_no.clear();
+				readings_changed = true;
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2760,10 +2762,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detachParent(*child);
+				detachParent(*parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detachParent(*s);
 				}
 
 				// reattach
@@ -2775,6 +2777,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (auto s : siblings) {
 					attachParentChild(*child, *s);
 				}
+				index_ruleCohort_no.clear();
+				readings_changed = true;
 			}
 			else if (rule->type == K_MOVE_AFTER || rule->type == K_MOVE_BEFORE || rule->type == K_SWITCH) {
 				// this is a per-cohort rule
-- 
2.43.0


From c11bc0978e4188a933a39cf1b02ff77b1ec92f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 35/64] fix: dependency tests with ALL, NONE, S, N, siblings of
 the root, or two glob directions gave wrong answers

---
 src/GrammarApplicator.hpp                   |  4 +-
 src/GrammarApplicator_runContextualTest.cpp | 69 ++++++++++++++++-----
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index 4fb781a..ae1101b 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -320,12 +320,12 @@ protected:
 		TRV_BARRIER       = (1 <<  1),
 		TRV_BREAK_DEFAULT = (1 <<  2),
 	};
-	Cohort* runSingleTest(Cohort* cohort, const ContextualTest* test, uint8_t& rvs, bool* retval, Cohort** deep = nullptr, Cohort* origin = nullptr);
+	Cohort* runSingleTest(Cohort* cohort, const ContextualTest* test, uint8_t& rvs, bool* retval, Cohort** deep = nullptr, Cohort* origin = nullptr, bool is_self = false);
 	Cohort* runSingleTest(SingleWindow* sWindow, size_t i, const ContextualTest* test, uint8_t& rvs, bool* retval, Cohort** deep = nullptr, Cohort* origin = nullptr);
 	bool posOutputHelper(const SingleWindow* sWindow, size_t position, const ContextualTest* test, const Cohort* cohort, const Cohort* cdeep);
 	Cohort* runContextualTest_tmpl(SingleWindow* sWindow, size_t position, const ContextualTest* test, ContextualTest* tmpl, Cohort*& cdeep, Cohort* origin);
 	Cohort* runContextualTest(SingleWindow* sWindow, size_t position, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
-	Cohort* runDependencyTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr, const Cohort* self = nullptr);
+	Cohort* runDependencyTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr, const Cohort* self = nullptr, bool* all_failed = nullptr);
 	Cohort* runParenthesisTest(SingleWindow* sWindow, const Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
 	Cohort* runRelationTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep = nullptr, Cohort* origin = nullptr);
 
diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index cd4ae4a..fc8662c 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -28,7 +28,7 @@
 
 namespace CG3 {
 
-Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* test, uint8_t& rvs, bool* retval, Cohort** deep, Cohort* origin) {
+Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* test, uint8_t& rvs, bool* retval, Cohort** deep, Cohort* origin, bool is_self) {
 	uint8_t regexgrpz = context_stack.back().regexgrp_ct;
 	if (test->pos & POS_MARK_SET) {
 		set_mark(cohort);
@@ -117,7 +117,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 	if (context.matched_target && *retval) {
 		rvs |= TRV_BREAK;
 	}
-	if (!broken && (rvs & TRV_BARRIER) && (test->pos & MASK_SELF_NB) == MASK_SELF_NB) {
+	if (!broken && is_self && (rvs & TRV_BARRIER) && (test->pos & MASK_SELF_NB) == MASK_SELF_NB) {
 		rvs &= ~(TRV_BREAK | TRV_BARRIER);
 	}
 	if (!*retval) {
@@ -468,7 +468,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 
 			uint8_t rvs = 0;
 			if (test->pos & POS_SELF) {
-				cohort = runSingleTest(cohort, test, rvs, &retval, deep, origin);
+				cohort = runSingleTest(cohort, test, rvs, &retval, deep, origin, true);
 				if (!retval && (rvs & TRV_BREAK_DEFAULT)) {
 					rvs &= ~(TRV_BREAK | TRV_BREAK_DEFAULT);
 				}
@@ -545,26 +545,35 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 				++seen;
 				assert(position < orgSWin->cohorts.size() && "Somehow, the input position wasn't inside the current window.");
 				Cohort* self = orgSWin->cohorts[position];
-				nc = runSingleTest(self, test, rvs, &retval, deep, origin);
+				nc = runSingleTest(self, test, rvs, &retval, deep, origin, true);
 				if (!retval && (rvs & TRV_BREAK_DEFAULT)) {
 					rvs &= ~(TRV_BREAK | TRV_BREAK_DEFAULT);
 				}
 			}
-			if (!(rvs & TRV_BREAK)) {
+			// ALL must look at every ancestor or descendant, also when one has matched
+			const bool all_deps = (test->pos & POS_ALL) && ((test->pos & POS_DEP_GLOB) || ((test->pos & POS_DEP_PARENT) && (test->pos & (POS_SCANFIRST | POS_SCANALL))));
+			if (seen && retval && (test->pos & POS_NONE)) {
+				nc = nullptr;
+			}
+			else if (seen && !retval && (test->pos & POS_ALL)) {
+				nc = nullptr;
+			}
+			else if (!(rvs & TRV_BREAK) || (retval && !(rvs & TRV_BARRIER) && (test->pos & POS_ALL) && (test->pos & (POS_DEP_GLOB | POS_DEP_PARENT)))) {
 				Cohort* current = cohort;
 				for (; *it != CohortIterator(0); ++(*it)) {
 					++seen;
-					if ((test->pos & POS_LEFT) && less_Cohort(current, **it)) {
+					rvs = 0;
+					if ((test->pos & POS_LEFT) && !(test->pos & POS_DEP_GLOB) && less_Cohort(current, **it)) {
 						nc = nullptr;
 						retval = false;
 						break;
 					}
-					if ((test->pos & POS_RIGHT) && !less_Cohort(current, **it)) {
+					if ((test->pos & POS_RIGHT) && !(test->pos & POS_DEP_GLOB) && !less_Cohort(current, **it)) {
 						nc = nullptr;
 						retval = false;
 						break;
 					}
-					nc = runSingleTest(**it, test, rvs, &retval, deep, origin);
+					nc = runSingleTest(**it, test, rvs, &retval, deep, origin, **it == cohort);
 					if (test->pos & POS_ALL && !retval) {
 						nc = nullptr;
 						break;
@@ -573,7 +582,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 						nc = nullptr;
 						break;
 					}
-					if (rvs & TRV_BREAK) {
+					if ((rvs & TRV_BREAK) && !(all_deps && !(rvs & TRV_BARRIER))) {
 						break;
 					}
 					current = **it;
@@ -627,7 +636,7 @@ label_gotACohort:
 	return cohort;
 }
 
-Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin, const Cohort* self) {
+Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin, const Cohort* self, bool* all_failed) {
 	Cohort* rv = nullptr;
 
 	if (self) {
@@ -637,6 +646,9 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 	}
 	else {
 		self = current;
+		// Only what this very search has been through counts as seen
+		auto& seen = dep_deep_seen.get();
+		seen.erase(std::remove_if(seen.begin(), seen.end(), [&](const auto& p) { return p.first == test->hash; }), seen.end());
 	}
 
 	// ToDo: Now that dep_deep_seen is a composite, investigate all .clear() to see if they're needed
@@ -650,12 +662,21 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 	if ((test->pos & POS_SELF) && !(test->pos & MASK_POS_LORR)) {
 		bool retval = false;
 		uint8_t rvs = 0;
-		Cohort* tmc = runSingleTest(current, test, rvs, &retval, deep, origin);
-		if (retval) {
+		Cohort* tmc = runSingleTest(current, test, rvs, &retval, deep, origin, self == current);
+		if (test->pos & POS_ALL) {
+			if (!retval) {
+				if (all_failed) {
+					*all_failed = true;
+				}
+				return 0;
+			}
+			rv = tmc;
+		}
+		else if (retval) {
 			return tmc;
 		}
 		if (rvs & TRV_BARRIER) {
-			return 0;
+			return rv;
 		}
 	}
 
@@ -679,7 +700,7 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 					u_fprintf(ux_stderr, "Warning: Cohort %u (parent %u) did not have any siblings.\n", current->dep_self, current->dep_parent);
 					u_fflush(ux_stderr);
 				}
-				return 0;
+				deps = &tmp_deps;
 			}
 		}
 	}
@@ -752,11 +773,27 @@ Cohort* GrammarApplicator::runDependencyTest(SingleWindow* sWindow, Cohort* curr
 		}
 		if (test->pos & POS_ALL) {
 			if (!retval) {
+				if (all_failed) {
+					*all_failed = true;
+				}
 				rv = nullptr;
 				break;
 			}
-			else {
-				rv = cohort;
+			rv = cohort;
+			if ((test->pos & POS_DEP_DEEP) && !(rvs & TRV_BARRIER)) {
+				// What is below must match too, but there may be nothing below
+				bool failed = false;
+				Cohort* tmc = runDependencyTest(cohort->parent, cohort, test, deep, origin, self, &failed);
+				if (failed) {
+					if (all_failed) {
+						*all_failed = true;
+					}
+					rv = nullptr;
+					break;
+				}
+				if (tmc) {
+					rv = tmc;
+				}
 			}
 		}
 		else if (retval) {
-- 
2.43.0


From 294275840d46c765a8d2f4a9ee09b58803ba7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 36/64] fix: --dep-delimit began a new window at each cohort
 that had no dependency number

---
 src/GrammarApplicator_runGrammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 3d38e48..ab6f334 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -424,7 +424,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 			++numReadings;
 
 			// Check whether the cohort still belongs to the window, as per --dep-delimit
-			if (!is_deleted && dep_delimit && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
+			if (!is_deleted && dep_delimit && cCohort->dep_self && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
 				reflowDependencyWindow(cCohort->global_number);
 
 				for (auto iter : cSWindow->cohorts.back()->readings) {
-- 
2.43.0


From 9ca8605d093ad290ebf1c89ffe6e36e6d19ee846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 37/64] fix: --dep-delimit made an empty window after one ended
 by the hard limit

---
 src/GrammarApplicator_runGrammar.cpp | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index ab6f334..9bd7290 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -427,23 +427,26 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 			if (!is_deleted && dep_delimit && cCohort->dep_self && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
 				reflowDependencyWindow(cCohort->global_number);
 
-				for (auto iter : cSWindow->cohorts.back()->readings) {
-					addTagToReading(*iter, endtag);
-				}
+				// The window may already be a new one, such as after the hard limit
+				if (cSWindow->cohorts.size() > 1) {
+					for (auto iter : cSWindow->cohorts.back()->readings) {
+						addTagToReading(*iter, endtag);
+					}
 
-				cSWindow = gWindow->allocAppendSingleWindow();
-				initEmptySingleWindow(cSWindow);
+					cSWindow = gWindow->allocAppendSingleWindow();
+					initEmptySingleWindow(cSWindow);
 
-				cSWindow->variables_set = variables_set;
-				variables_set.clear();
-				cSWindow->variables_rem = variables_rem;
-				variables_rem.clear();
-				cSWindow->variables_output = variables_output;
-				variables_output.clear();
+					cSWindow->variables_set = variables_set;
+					variables_set.clear();
+					cSWindow->variables_rem = variables_rem;
+					variables_rem.clear();
+					cSWindow->variables_output = variables_output;
+					variables_output.clear();
 
-				lSWindow = cSWindow;
-				++numWindows;
-				did_soft_lookback = false;
+					lSWindow = cSWindow;
+					++numWindows;
+					did_soft_lookback = false;
+				}
 				dep_highest_seen = 0;
 
 				if (grammar->has_bag_of_tags) {
-- 
2.43.0


From 8876ce8d93ac7d788ae3c690b0f98278d0ce6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 38/64] fix: SWITCHPARENT of a child of the root detached it
 and tried to give the root a parent

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 7727f59..550d7e6 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -501,6 +501,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 		}
 
 		// If this is REMPARENT and there's no parent, skip it.
+		if (type == K_SWITCHPARENT && (cohort->dep_parent == 0 || !gWindow->cohort_map.count(cohort->dep_parent))) {
+			// There is no parent that could trade places with this one
+			continue;
+		}
 		if ((type == K_REMPARENT || type == K_SWITCHPARENT) && cohort->dep_parent == DEP_NO_PARENT) {
 			continue;
 		}
-- 
2.43.0


From d5cd40c5ab033e1819f6ba47bb6b40cade868786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 39/64] fix: SPLITCOHORT with a dependency mapping to a cohort
 it does not make crashed, and a long one overflowed its buffer

---
 src/GrammarApplicator_runRules.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 550d7e6..b671d3e 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1716,7 +1716,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					UChar dep_self[12] = {};
 					UChar dep_parent[12] = {};
-					if (u_sscanf(tter->tag.data(), "%[0-9cd]->%[0-9pm]", &dep_self, &dep_parent) == 2) {
+					if (u_sscanf(tter->tag.data(), "%11[0-9cd]->%11[0-9pm]", &dep_self, &dep_parent) == 2) {
 						if (dep_self[0] == 'c' || dep_self[0] == 'd') {
 							cohort_dep[i - 1].first = DEP_NO_PARENT;
 							if (rel_trg == DEP_NO_PARENT) {
@@ -1743,6 +1743,13 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings->back().push_back(tter);
 				}
 
+				for (auto& dep : cohort_dep) {
+					if (dep.second != DEP_NO_PARENT && (dep.second == 0 || dep.second > cohorts.size())) {
+						u_fprintf(ux_stderr, "Error: SPLITCOHORT dependency mapping dep_parent was not one of the new cohorts on line %u before input line %u.\n", rule->line, numLines);
+						CG3Quit(1);
+					}
+				}
+
 				if (rel_trg == DEP_NO_PARENT) {
 					rel_trg = UI32(cohorts.size() - 1);
 				}
-- 
2.43.0


From 1f3ccd006460303b7fd998ae1e69d3db188e5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 40/64] fix: SPLITCOHORT into a single cohort lost the parent

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b671d3e..9231e27 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1687,9 +1687,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				uint32_t rel_trg = DEP_NO_PARENT;
 				std::vector<std::pair<uint32_t, uint32_t>> cohort_dep(cohorts.size());
-				cohort_dep.front().second = DEP_NO_PARENT;
 				cohort_dep.back().first = DEP_NO_PARENT;
 				cohort_dep.back().second = UI32(cohort_dep.size() - 1);
+				cohort_dep.front().second = DEP_NO_PARENT;
 				for (size_t i = 1; i < cohort_dep.size() - 1; ++i) {
 					cohort_dep[i].second = UI32(i);
 				}
-- 
2.43.0


From d1de6d2e3141545c814e2ca52158d510e7bdd619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 41/64] fix: relations set by rules were taken for ones from
 the input, and led to whichever cohort had that number there

---
 src/GrammarApplicator.hpp          | 1 +
 src/GrammarApplicator_reflow.cpp   | 2 +-
 src/GrammarApplicator_runRules.cpp | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index ae1101b..b56c5d7 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -160,6 +160,7 @@ public:
 
 	bool has_dep = false;
 	bool parse_dep = false;
+	bool parse_relations = true;
 	uint32_t dep_highest_seen = 0;
 	std::unique_ptr<Window> gWindow;
 	void reflowDependencyWindow(uint32_t max = 0);
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 96352b3..8546965 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -530,7 +530,7 @@ uint32_t GrammarApplicator::addTagToReading(Reading& reading, Tag* tag, bool reh
 		}
 		has_dep = true;
 	}
-	if (grammar->has_relations && (tag->type & T_RELATION)) {
+	if (parse_relations && grammar->has_relations && (tag->type & T_RELATION)) {
 		if (tag->dep_parent && tag->comparison_hash) {
 			reading.parent->relations_input[tag->comparison_hash].insert(tag->dep_parent);
 		}
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9231e27..c728e11 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -3107,6 +3107,8 @@ uint32_t GrammarApplicator::runGrammarOnSingleWindow(SingleWindow& current) {
 void GrammarApplicator::runGrammarOnWindow() {
 	SingleWindow* current = gWindow->current;
 	did_final_enclosure = false;
+	// What rules do with relation tags must not be taken for relations of the input
+	uncond_swap<bool> no_parse_relations(parse_relations, false);
 
 	for (const auto& vit : current->variables_set) {
 		variables[vit.first] = vit.second;
-- 
2.43.0


From afd8374ea10dd382b26cbf30b24f9b3997594572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 42/64] fix: relation tests with S did not look at the cohort
 itself when it had no relations, and r took a relation to itself for one to
 the right

---
 src/GrammarApplicator_runContextualTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index fc8662c..7d0d35c 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -839,7 +839,7 @@ Cohort* GrammarApplicator::runParenthesisTest(SingleWindow* sWindow, const Cohor
 }
 
 Cohort* GrammarApplicator::runRelationTest(SingleWindow* sWindow, Cohort* current, const ContextualTest* test, Cohort** deep, Cohort* origin) {
-	if (!(current->type & CT_RELATED) || current->relations.empty()) {
+	if ((!(current->type & CT_RELATED) || current->relations.empty()) && !(test->pos & POS_SELF)) {
 		return 0;
 	}
 
@@ -894,7 +894,7 @@ Cohort* GrammarApplicator::runRelationTest(SingleWindow* sWindow, Cohort* curren
 	}
 	if (test->pos & POS_RIGHT) {
 		static thread_local CohortSet tmp;
-		tmp.assign(rels.lower_bound(current), rels.end());
+		tmp.assign(rels.upper_bound(current), rels.end());
 		rels.swap(tmp);
 	}
 	if (test->pos & POS_SELF) {
-- 
2.43.0


From 9ec98a1153dc5c26ba73de9fc1129348f177a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 43/64] fix: relation tests to the right (rr:rel, rrrr:rel)
 were rejected by the parser

---
 src/TextualParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index d01496b..21e34e0 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -684,11 +684,11 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			t.relation = tag->hash;
 			p = n;
 		}
-		if (*p == 'r') {
+		if (*p == 'r' && p[1] != ':') {
 			t.pos |= POS_RIGHT;
 			++p;
 		}
-		if (*p == 'r' && (t.pos & POS_RIGHT)) {
+		if (*p == 'r' && p[1] != ':' && (t.pos & POS_RIGHT)) {
 			t.pos &= ~UI64(POS_RIGHT);
 			t.pos |= POS_RIGHTMOST;
 			++p;
-- 
2.43.0


From fe75b75e550a452a83637dc255a8e24f4192ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 44/64] fix: relations to the start of the window were lost, or
 led to another cohort, in the binary format

---
 src/BinaryApplicator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index f643fee..324309f 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -287,7 +287,12 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			if (head == 0) {
+				cCohort->relations[window_tags[tag]->hash].insert(cSWindow->cohorts.front()->global_number);
+			}
+			else {
+				cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			}
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -518,7 +523,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 			for (auto siter : miter.second) {
 				++rel_count;
 				WRITE_TAG_INTO(it->second, rel_buffer);
-				WRITE_U32_INTO(siter, rel_buffer);
+				// As with dependencies, 0 is the start of the window
+				WRITE_U32_INTO((siter == window->cohorts.front()->global_number) ? 0 : siter, rel_buffer);
 			}
 		}
 		WRITE_U16_INTO(rel_count, cohort_buffer);
-- 
2.43.0


From 390af8048b2f504291ed18d82c12437b6a08cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 45/64] fix: MIN and MAX in numeric tags were not found anew
 after readings were removed

---
 src/GrammarApplicator_runRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index c728e11..599b9fd 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -859,6 +859,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			context_stack.back() = ctx;
 			reset_cohorts_for_loop = false;
 			reading_cb();
+			cohort->type &= ~CT_NUM_CURRENT;
 			if (!finish_cohort_loop) {
 				context_stack.pop_back();
 				return anything_changed;
@@ -874,6 +875,8 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		reset_cohorts_for_loop = false;
 		cohort_cb();
+		// The callbacks may have changed the readings, so MIN and MAX must be found anew
+		cohort->type &= ~CT_NUM_CURRENT;
 		if (!finish_cohort_loop) {
 			context_stack.pop_back();
 			return anything_changed;
-- 
2.43.0


From e86501d5a9c500949577d2056791589109712cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 46/64] fix: expressions in numeric tags went out of bounds on
 long numbers and lower-case variables, and took a stale errno for a range
 error

---
 src/MathParser.hpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..34b57ae 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -23,6 +23,7 @@
 #include <stdexcept>
 #include <cstdlib>
 #include <cctype>
+#include <cerrno>
 #include <cstring>
 #include <cmath>
 
@@ -50,6 +51,11 @@ class MathParser {
 	void eval_func(double& result);
 	void get_token();
 
+	// Variables are the letters A-Z, regardless of case
+	static size_t var_slot(UStringView name) {
+		return (name[0] >= 'a') ? (name[0] - 'a') : (name[0] - 'A');
+	}
+
 public:
 	MathParser(double min=0, double max=0) : min(min), max(max) {}
 	double eval(UStringView exp);
@@ -74,9 +80,9 @@ inline void MathParser::eval_assign(double& result) {
 	if (tok_type == VARIABLE) {
 		UStringView t_ptr = exp_ptr;
 		temp_token = token;
-		auto slot = token[0] - 'A';
+		auto slot = var_slot(token);
 		get_token();
-		if (token[0] != '=') {
+		if (token.empty() || token[0] != '=') {
 			exp_ptr = t_ptr;
 			token = temp_token;
 			tok_type = VARIABLE;
@@ -157,10 +163,10 @@ inline void MathParser::eval_func(double& result) {
 		temp_token = token;
 		get_token();
 	}
-	if (token[0] == '(') {
+	if (!token.empty() && token[0] == '(') {
 		get_token();
 		eval_add_sub(result);
-		if (token[0] != ')') {
+		if (token.empty() || token[0] != ')') {
 			throw std::runtime_error("Unbalanced parentheses");
 		}
 		if (isfunc) {
@@ -237,15 +243,14 @@ inline void MathParser::eval_func(double& result) {
 				result = max;
 			}
 			else {
-				result = vars[token[0] - 'A'];
+				result = vars[var_slot(token)];
 			}
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
-			std::copy(token.begin(), token.end(), num);
-			num[token.size()] = 0;
-			result = strtod(num, nullptr);
+			std::string num(token.begin(), token.end());
+			errno = 0;
+			result = strtod(num.c_str(), nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
 			}
@@ -264,9 +269,13 @@ inline void MathParser::get_token() {
 	if (exp_ptr.empty()) {
 		return;
 	}
-	while (ISSPACE(exp_ptr[0])) {
+	while (!exp_ptr.empty() && ISSPACE(exp_ptr[0])) {
 		exp_ptr.remove_prefix(1);
 	}
+	if (exp_ptr.empty()) {
+		token = exp_ptr;
+		return;
+	}
 
 	if (ISDELIM(exp_ptr[0])) {
 		tok_type = DELIMITER;
@@ -276,10 +285,10 @@ inline void MathParser::get_token() {
 	else if (ISALPHA_C(exp_ptr[0])) {
 		token = exp_ptr.substr(0, exp_ptr.find_first_of(u" +-/*%^=()"));
 		exp_ptr.remove_prefix(token.size());
-		while (ISSPACE(exp_ptr[0])) {
+		while (!exp_ptr.empty() && ISSPACE(exp_ptr[0])) {
 			exp_ptr.remove_prefix(1);
 		}
-		tok_type = (exp_ptr[0] == '(') ? FUNCTION : VARIABLE;
+		tok_type = (!exp_ptr.empty() && exp_ptr[0] == '(') ? FUNCTION : VARIABLE;
 	}
 	else if (ISDIGIT_C(exp_ptr[0]) || exp_ptr[0] == '.') {
 		token = exp_ptr.substr(0, exp_ptr.find_first_of(u" +-/*%^=()"));
@@ -291,7 +300,7 @@ inline void MathParser::get_token() {
 		if (ux_simplecasecmp(token, u"MIN") || ux_simplecasecmp(token, u"MAX")) {
 			// Nothing
 		}
-		else if (token.size() > 1) {
+		else if (token.size() > 1 || var_slot(token) >= NUMVARS) {
 			throw std::runtime_error("Variables other than MIN and MAX must be 1 letter");
 		}
 	}
-- 
2.43.0


From 0e05aed8701667e456ab46366e7f5f128158c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:10 +0000
Subject: [PATCH 47/64] fix: fail-fast tags had no effect in a set that also
 has *

---
 src/Grammar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..10b7b00 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -136,6 +136,10 @@ void Grammar::addSet(Set*& to) {
 		positive->trie.swap(to->trie);
 		positive->trie_special.swap(to->trie_special);
 
+		// If the set had *, only the positive part always matches
+		positive->type |= (to->type & ST_ANY);
+		to->type &= ~ST_ANY;
+
 		for (auto iter : to->ff_tags) {
 			auto pit = positive->trie_special.find(iter);
 			if (pit != positive->trie_special.end()) {
-- 
2.43.0


From a13ad66ee6e4a7945eb289a612e23705d7873fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 48/64] fix: formatted output lost what follows a long word,
 such as the end of the line after a long stream command

---
 src/uextras.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..4c43554 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -264,15 +264,23 @@ inline int32_t _u_fprintf(std::ostream& output, const Char* fmt, va_list args) {
 	va_list args2;
 	va_copy(args2, args);
 
-	auto n16 = SI32(size(_buf16));
-	n16 = _u_vsnprintf(buf16, n16, fmt, args);
+	auto cap = SI32(size(_buf16));
+	auto n16 = _u_vsnprintf(buf16, cap, fmt, args2);
+	va_end(args2);
 	if (n16 < 0) {
 		throw std::runtime_error("Critical error in u_fprintf() wrapper");
 	}
-	if (n16 > SI32(size(_buf16))) {
-		_str16.resize(n16 + 1);
+	// The count is not that of the whole text if there is more after the argument that did not fit
+	while (n16 >= cap) {
+		cap = std::max(cap * 2, n16 + 1);
+		_str16.resize(cap);
 		buf16 = &_str16[0];
-		n16 = _u_vsnprintf(buf16, n16, fmt, args2);
+		va_copy(args2, args);
+		n16 = _u_vsnprintf(buf16, cap, fmt, args2);
+		va_end(args2);
+		if (n16 < 0) {
+			throw std::runtime_error("Critical error in u_fprintf() wrapper");
+		}
 	}
 
 	char _buf8[size(_buf16) * 3];
-- 
2.43.0


From bafb8d230a0d1cacad2aa29cfdaacb8c3444fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 49/64] fix: a last line without a newline could take on the
 end of an earlier line

---
 src/uextras.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 4c43554..6b57a85 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -113,6 +113,8 @@ UChar* u_fgets(UChar* s, int32_t n, std::istream& input) {
 	for (; i < n; ++i) {
 		UChar c = u_fgetc(input);
 		if (c == U_EOF) {
+			// The line ends here, whatever an earlier one left in the buffer
+			s[i] = 0;
 			break;
 		}
 		s[i] = c;
-- 
2.43.0


From cd3f3d6bacb4a2829955e2fc85dd96f737db196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:08 +0000
Subject: [PATCH 50/64] fix: a long line with many blanks was cut in two

---
 src/uextras.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 6b57a85..970eb06 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -78,7 +78,15 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 				if (!keep_tabs) {
 					space = ' ';
 				}
-				cleaned[packoff++] = space;
+				// The spaces may have begun in the segment before
+				if (packoff && ISSPACE(cleaned[packoff - 1])) {
+					if (space == '\t') {
+						cleaned[packoff - 1] = space;
+					}
+				}
+				else {
+					cleaned[packoff++] = space;
+				}
 			}
 			// Break if there is a newline
 			if (ISNL(line[offset])) {
@@ -92,7 +100,7 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			cleaned[packoff++] = line[offset];
 		}
 		// Either buffer wasn't big enough, or someone fed us malformed data thinking U+0085 is ellipsis when it in fact is Next Line (NEL)
-		if (packoff > line.size() / 2) {
+		if (offset > line.size() / 2) {
 			// If we reached this, buffer wasn't big enough. Double the size of the buffer and try again.
 			line.resize(line.size() * 2, 0);
 			cleaned.resize(line.size() + 1, 0);
-- 
2.43.0


From 122006e81079d361b5817116ede8e2f1225a741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 51/64] fix: a failed candidate kept its unification in
 NEAREST, IMMEDIATE, and LOOKDELETED rules

---
 src/GrammarApplicator_matchSet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 3cba3bf..a73585b 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -900,7 +900,7 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	auto usets = ss_usets.get();
 	uint8_t orz = (context_stack.empty() ? 0 : context_stack.back().regexgrp_ct);
 
-	if (context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
+	if (context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		*utags = *context_stack.back().unif_tags;
 		*usets = *context_stack.back().unif_sets;
 	}
@@ -928,10 +928,10 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 			}
 		}
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
+	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
 		context_stack.back().unif_tags->swap(utags);
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
+	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
 	if (!retval && !context_stack.empty()) {
-- 
2.43.0


From 0f3596fc0817ee85d68f1c9d80e49d8acf4c1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:31 +0000
Subject: [PATCH 52/64] fix: a unified set ignored what it subtracts after the
 first match, and lists joined by + or in sets of its own unified wrongly

---
 src/GrammarApplicator.hpp          |  1 +
 src/GrammarApplicator_matchSet.cpp | 39 ++++++++++++++++--------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b56c5d7..de29816 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -269,6 +269,7 @@ protected:
 	void set_attach_to(Reading* reading, Reading* subreading = nullptr);
 	void set_mark(Cohort* cohort);
 	bool check_unif_tags(uint32_t set, const void* val);
+	void unifyOtherLists(const Set& theset);
 
 	typedef bc::flat_map<uint32_t, Reading*> readings_plain_t;
 	readings_plain_t readings_plain;
diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index a73585b..77f6bcf 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -701,6 +701,22 @@ bool GrammarApplicator::doesSetMatchReading_tags(const Reading& reading, const S
 	return retval;
 }
 
+void GrammarApplicator::unifyOtherLists(const Set& theset) {
+	for (size_t i = 0; i < theset.sets.size(); ++i) {
+		// What is subtracted is not part of what is unified
+		if (i && (theset.set_ops[i - 1] == S_MINUS || theset.set_ops[i - 1] == S_FAILFAST)) {
+			continue;
+		}
+		const Set& sub = *grammar->sets_list[theset.sets[i]];
+		if (!sub.sets.empty()) {
+			unifyOtherLists(sub);
+		}
+		else {
+			context_stack.back().unif_tags->emplace(sub.number, nullptr);
+		}
+	}
+}
+
 /**
  * Tests whether a given reading matches a given LIST or SET set.
  *
@@ -783,14 +799,14 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 					break;
 				// Failfast makes a difference in A OR B ^ C OR D, where - does not.
 				case S_FAILFAST:
-					if (doesSetMatchReading(reading, theset.sets[i + 1], bypass_index, ((theset.type & ST_TAG_UNIFY) != 0) | unif_mode)) {
+					if (doesSetMatchReading(reading, theset.sets[i + 1], bypass_index, false)) {
 						match = false;
 						failfast = true;
 					}
 					break;
 				case S_MINUS:
 					if (match) {
-						if (doesSetMatchReading(reading, theset.sets[i + 1], bypass_index, ((theset.type & ST_TAG_UNIFY) != 0) | unif_mode)) {
+						if (doesSetMatchReading(reading, theset.sets[i + 1], bypass_index, false)) {
 							match = false;
 						}
 					}
@@ -811,22 +827,9 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 				break;
 			}
 		}
-		// Propagate unified tag to other sets of this set, if applicable
-		if ((unif_mode || (theset.type & ST_TAG_UNIFY)) && !context_stack.empty()) {
-			auto unif_tags = context_stack.back().unif_tags;
-			const void* tag = nullptr;
-			for (size_t i = 0; i < size; ++i) {
-				auto it = unif_tags->find(theset.sets[i]);
-				if (it != unif_tags->end()) {
-					tag = it->second;
-					break;
-				}
-			}
-			if (tag) {
-				for (size_t i = 0; i < size; ++i) {
-					(*unif_tags)[theset.sets[i]] = tag;
-				}
-			}
+		// The tag is now unified, so lists of this set that did not take part in the match must not match later
+		if (retval && (theset.type & ST_TAG_UNIFY) && !context_stack.empty()) {
+			unifyOtherLists(theset);
 		}
 	}
 
-- 
2.43.0


From 15d98586af2488ba71b6d406ee600b4585b94e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 53/64] fix: uses of a set unification could each match by
 another member set

---
 src/GrammarApplicator_matchSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 77f6bcf..82a8ee5 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -779,6 +779,10 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 				}
 			}
 			retval = !sets->empty();
+			// From now on only those that match here as well
+			if (retval) {
+				usets = *sets;
+			}
 		}
 	}
 	else {
@@ -934,7 +938,7 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
 		context_stack.back().unif_tags->swap(utags);
 	}
-	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
+	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
 	if (!retval && !context_stack.empty()) {
-- 
2.43.0


From 6ee597678badc56b5a079aae49643a651575da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:45 +0000
Subject: [PATCH 54/64] fix: a failed candidate kept the word, base form, or
 tag that ".*"r and its like had unified with

---
 src/GrammarApplicator_matchSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 82a8ee5..0669392 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -905,6 +905,9 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	bool retval = false;
 	auto utags = ss_utags.get();
 	auto usets = ss_usets.get();
+	auto last_wordform = unif_last_wordform;
+	auto last_baseform = unif_last_baseform;
+	auto last_textual = unif_last_textual;
 	uint8_t orz = (context_stack.empty() ? 0 : context_stack.back().regexgrp_ct);
 
 	if (context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
@@ -940,6 +943,9 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	}
 	if (!retval && context && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		context_stack.back().unif_sets->swap(usets);
+		unif_last_wordform = last_wordform;
+		unif_last_baseform = last_baseform;
+		unif_last_textual = last_textual;
 	}
 	if (!retval && !context_stack.empty()) {
 		context_stack.back().regexgrp_ct = orz;
-- 
2.43.0


From 6b4430da2e9c6f4c0e901d59bb89a54b87def3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 55/64] fix: a careful test that failed kept what its first
 readings had unified

---
 src/GrammarApplicator_matchSet.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 0669392..8b4a3bf 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1041,11 +1041,33 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 
 	const Set* theset = grammar->sets_list[set];
 
+	// Some readings may match, and thus unify, before another one makes the whole cohort fail
+	auto utags = ss_utags.get();
+	auto usets = ss_usets.get();
+	auto last_wordform = unif_last_wordform;
+	auto last_baseform = unif_last_baseform;
+	auto last_textual = unif_last_textual;
+	const bool unifies = context && (theset->type & ST_CHILD_UNIFY) && !context_stack.empty();
+	if (unifies) {
+		*utags = *context_stack.back().unif_tags;
+		*usets = *context_stack.back().unif_sets;
+	}
+	auto restore_unif = [&]() {
+		if (unifies) {
+			context_stack.back().unif_tags->swap(utags);
+			context_stack.back().unif_sets->swap(usets);
+			unif_last_wordform = last_wordform;
+			unif_last_baseform = last_baseform;
+			unif_last_textual = last_textual;
+		}
+	};
+
 	// NOT inverts the outcome of the whole careful test, not that of each reading
 	if (context && (context->options & POS_NOT)) {
 		dSMC_Context inner = { context->test, nullptr, nullptr, context->options & ~POS_NOT, false, false, false, true };
 		if (doesSetMatchCohortCareful(cohort, set, &inner)) {
 			context->matched_target = true;
+			restore_unif();
 			return false;
 		}
 		return doesSetMatchCohort_testLinked(cohort, *theset, context);
@@ -1090,6 +1112,10 @@ bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t
 		}
 	}
 
+	if (!retval) {
+		restore_unif();
+	}
+
 	return retval;
 }
 }
-- 
2.43.0


From c764ce86d3f04ed7855a3a6f6df283de93d8a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 56/64] fix: a stream that was looked ahead into could not
 begin with a character that shares bytes with the byte order mark, and
 reading it wrote one byte too many

---
 src/streambuf.hpp | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/streambuf.hpp b/src/streambuf.hpp
index 784c29c..c2ce210 100644
--- a/src/streambuf.hpp
+++ b/src/streambuf.hpp
@@ -81,40 +81,25 @@ public:
 	  : buffer(std::move(b))
 	  , stream(&input)
 	{
-		setg(&ch, &ch + 1, &ch + 1);
+		setg(&buffer[0], &buffer[0], &buffer[0] + buffer.size());
 	}
 
 	int_type underflow() {
-		int_type c = 0;
-		if (offset < buffer.size()) {
-			c = static_cast<std::make_unsigned<char_type>::type>(buffer[offset++]);
-		}
-		else {
-			c = stream->get();
+		auto c = stream->get();
+		if (c == Base::traits_type::eof()) {
+			return c;
 		}
-		ch = static_cast<char_type>(c);
-		setg(&ch, &ch, &ch + 1);
+		// Keep the last few characters, so that they can be put back
+		auto keep = std::min<std::ptrdiff_t>(gptr() - eback(), sizeof(last) - 1);
+		std::memmove(last, gptr() - keep, static_cast<size_t>(keep));
+		last[keep] = static_cast<char_type>(c);
+		setg(last, last + keep, last + keep + 1);
 		return c;
 	}
 
-	std::streamsize xsgetn(char_type* s, std::streamsize count) {
-		std::streamsize i = 0;
-		for (; offset < buffer.size() && i < count; ++i) {
-			s[i] = buffer[offset++];
-		}
-		if (i < count) {
-			stream->read(s + i, count - i);
-			i += stream->gcount();
-		}
-		s[i] = 0;
-		setg(&ch, &ch + 1, &ch + 1);
-		return i;
-	}
-
 private:
 	std::string buffer;
-	char_type ch = 0;
-	size_t offset = 0;
+	char_type last[8] = {};
 	std::istream* stream;
 };
 }
-- 
2.43.0


From ea2aa1e3a16b5d2eebdf0f811b7e40f022143f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 57/64] fix: detecting the format of a short stream that ends
 in a non-ASCII character threw

---
 src/uextras.cpp | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/uextras.cpp b/src/uextras.cpp
index 970eb06..72834a6 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -213,32 +213,18 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 
 	input.read(&buf8[0], BUF_SIZE - 4);
 	auto sz = static_cast<size_t>(input.gcount());
-	if (buf8[sz - 1] & 0x80) {
-		for (size_t i = sz - 1; ; --i) {
-			if ((buf8[i] & 0xF0) == 0xF0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 3 - i)) {
+	// If the last character is not all there, read the rest of it
+	for (size_t i = 1; i <= 4 && i <= sz && (buf8[sz - i] & 0x80); ++i) {
+		auto c = static_cast<unsigned char>(buf8[sz - i]);
+		if (c >= 0xC0) {
+			size_t len = (c >= 0xF0) ? 4 : (c >= 0xE0) ? 3 : 2;
+			if (len > i) {
+				if (!input.read(&buf8[sz], len - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
-				sz += 3 - i;
-				break;
-			}
-			else if ((buf8[i] & 0xE0) == 0xE0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 2 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 2 - i;
-				break;
-			}
-			else if ((buf8[i] & 0xC0) == 0xC0) {
-				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 1 - i)) {
-					throw std::runtime_error("Could not read expected bytes from stream");
-				}
-				sz += 1 - i;
-				break;
+				sz += len - i;
 			}
+			break;
 		}
 	}
 	buf8.resize(sz);
-- 
2.43.0


From c2448602aece65bea7f8c34e41b3e0cdb3908eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 58/64] fix: do not crash on a Niceline reading that ends with
 a [base form]

---
 src/NicelineApplicator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..742581a 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -237,8 +237,10 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					// The last part has no space after it, so its end must be found from the part itself
+					UChar* last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && last != base && *last == ']') {
+						*base = *last = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
-- 
2.43.0


From 5029e5f84dc547dd97b44347f84f37d783048b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 59/64] fix: keep the order of several punctuation marks at the
 end of a plain text word

---
 src/PlaintextApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..499877c 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -196,7 +196,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 				}
 				size_t tkz = tokens.size();
 				while (*p && u_ispunct(p[len - 1])) {
-					tokens.push_back(UnicodeString(p[len - 1]));
+					tokens.insert(tokens.begin() + tkz, UnicodeString(p[len - 1]));
 					p[len - 1] = 0;
 					--len;
 				}
-- 
2.43.0


From 0d7a84e8fdbbd07f5d4e57fc00160e8664454005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 60/64] fix: do not overflow the buffer for large FST weights

---
 src/FSTApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..aae425b 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -155,7 +155,8 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					if (comma) {
 						comma[0] = '.';
 					}
-					char buf[32];
+					// A float in %f form can be far longer than what it was read from
+					char buf[384];
 					size_t i = 0;
 					for (; i < 31 && tab[i]; ++i) {
 						buf[i] = static_cast<char>(tab[i]);
-- 
2.43.0


From c7f3862b559ef046412d3820f2ebee5e10838e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 61/64] fix: keep consecutive JSONL text lines apart

---
 src/JsonlApplicator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..55469b5 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -417,11 +417,13 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				if (verbosity_level > 1) {
 					u_fprintf(ux_stderr, "Info: Plain text line found in JSONL input on line %u: %S\n", numLines, t_ustr.data());
 				}
-				if (lCohort) {
-					lCohort->text += t_ustr;
-				}
-				else if (lSWindow) {
-					lSWindow->text += t_ustr;
+				if (lCohort || lSWindow) {
+					// Each is a line of its own, also if the text before it does not end in a newline
+					auto& text = (lCohort ? lCohort->text : lSWindow->text);
+					if (!text.empty() && !ISNL(text.back())) {
+						text += '\n';
+					}
+					text += t_ustr;
 				}
 				else {
 					printPlainTextLine(t_ustr, output);
-- 
2.43.0


From 63e11a4b88c9e936f9b82803fd74901831ef99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 62/64] fix: a both-ways scan from the edge of a window goes on
 in the adjacent window

---
 src/GrammarApplicator_runContextualTest.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 7d0d35c..825191d 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -465,6 +465,15 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 
 			right = left = sWindow;
 			rpos = lpos = pos;
+			// From the edge of a window, the scan begins in the adjacent one
+			if (lpos == 0 && left->previous && ((test->pos & (POS_SPAN_BOTH | POS_SPAN_LEFT)) || always_span)) {
+				left = left->previous;
+				lpos = SI32(left->cohorts.size());
+			}
+			if (rpos + 1 == SI32(right->cohorts.size()) && right->next && ((test->pos & (POS_SPAN_BOTH | POS_SPAN_RIGHT)) || always_span)) {
+				right = right->next;
+				rpos = -1;
+			}
 
 			uint8_t rvs = 0;
 			if (test->pos & POS_SELF) {
-- 
2.43.0


From d294cd63d082b796e879db30afc4ee1b79507d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:02 +0000
Subject: [PATCH 63/64] fix: a parent given by an external program is seen by
 tests for children and siblings

---
 src/GrammarApplicator.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index d97976e..8e837d4 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -787,7 +787,26 @@ void GrammarApplicator::pipeInCohort(Cohort* cohort, Process& input) {
 	}
 
 	if (flags & (1 << 1)) {
-		readRaw(input, cohort->dep_parent);
+		uint32_t dep_parent = DEP_NO_PARENT;
+		readRaw(input, dep_parent);
+		if (dep_parent != cohort->dep_parent) {
+			// The old and new parents' lists of children must follow
+			detachParent(*cohort);
+			cohort->dep_parent = dep_parent;
+			Cohort* parent = nullptr;
+			if (dep_parent == 0) {
+				parent = cohort->parent->cohorts[0];
+			}
+			else {
+				auto it = gWindow->cohort_map.find(dep_parent);
+				if (it != gWindow->cohort_map.end()) {
+					parent = it->second;
+				}
+			}
+			if (parent && parent != cohort) {
+				parent->addChild(cohort->global_number);
+			}
+		}
 		if (debug_level > 1) {
 			u_fprintf(ux_stderr, "DEBUG: cohort parent %u\n", cohort->dep_parent);
 		}
-- 
2.43.0


From ab589e5a032ea68d093f533e05855d49582fad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:02 +0000
Subject: [PATCH 64/64] fix: run every EXTERNAL ONCE rule, not only the first
 of its line

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 599b9fd..9a5be37 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1535,7 +1535,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 			}
 			else if (rule->type == K_EXTERNAL_ONCE || rule->type == K_EXTERNAL_ALWAYS) {
-				if (rule->type == K_EXTERNAL_ONCE && !current.hit_external.insert(rule->line).second) {
+				if (rule->type == K_EXTERNAL_ONCE && !current.hit_external.insert(rule->number).second) {
 					return;
 				}
 
-- 
2.43.0

