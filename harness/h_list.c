/* Client registry: a fixed sequence of operations (-DSCRIPT) with every answer of every selection predicate, against a reference sequence.
 * a add, x add while memory is exhausted, f find, r remove, d destroy the first match, s destroy all matches, v visit all; the end destroys the list. */
#include "vp_env.h"
#include "linked_list.h"

static const char script[] = SCRIPT;
#define MAXE 10
struct entry { int id; };
static struct entry E[MAXE];
static int added, destroyed[MAXE], in_list[MAXE]; static int seq[MAXE], n;
static bool pred[MAXE]; static int asked[MAXE];
static int visited[MAXE], nvis;

static struct entry *as_entry(void *p) {
    int hit = -1;
    for (int i = 0; i < MAXE; i++) if (p == &E[i]) hit = i;
    VP_ASSERT(hit >= 0 && hit < added && in_list[hit] && destroyed[hit] == 0, "only live registered entries are handed to predicates, visitors and destructors");
    VP_ASSUME(hit >= 0);
    return &E[hit];
}
static bool match(void *d) { struct entry *e = as_entry(d); asked[e->id]++; return pred[e->id]; }
static bool match_id(void *id, void *d) { VP_ASSERT(id == (void *) &n, "the caller's argument reaches the predicate"); return match(d); }
static void visit(void *arg, void *d) { struct entry *e = as_entry(d); VP_ASSERT(arg == (void *) &n, "the caller's argument reaches the visitor"); if (nvis < MAXE) visited[nvis] = e->id; nvis++; }
static void destroy(void *d) { struct entry *e = as_entry(d); destroyed[e->id]++; }
static int first_match(void) { for (int i = 0; i < n; i++) if (pred[seq[i]]) return i; return -1; }
static void drop(int at) { in_list[seq[at]] = 0; for (int i = 0; i + 1 < MAXE; i++) if (i >= at && i + 1 < n) seq[i] = seq[i + 1]; n--; }

VP_MAIN {
    linked_list *list = NULL;
    for (int i = 0; i < MAXE; i++) E[i].id = i;
    int before[MAXE];
    for (size_t k = 0; k < sizeof(script) - 1; k++) {
        char op = script[k];
        for (int i = 0; i < MAXE; i++) { pred[i] = nd_bool(); before[i] = destroyed[i]; }
        if (op == 'a' || op == 'x') {
            linked_list *old = list;
            if (op == 'x') { vp_fail_alloc = 1; vp_alloc_no = 0; }
            in_list[added] = 1;     /* an entry may be looked at as soon as it is being added */
            int code = linked_list_add(&E[added], &destroy, &list);
            vp_fail_alloc = 0;
            if (op == 'x') {
                VP_ASSERT(code != 0, "a failed addition is reported"); VP_ASSERT(list == old, "a failed addition changes nothing"); in_list[added] = 0; added++;
            } else {
                VP_ASSERT(code == 0, "an addition succeeds when memory is available"); seq[n++] = added++;
            }
        } else if (op == 'f') {
            void *r = linked_list_find(&n, &match_id, list);
            int m = first_match();
            VP_ASSERT(r == (m < 0 ? NULL : (void *) &E[seq[m]]), "find returns the first matching entry, or nothing");
        } else if (op == 'r') {
            int m = first_match();
            void *want = m < 0 ? NULL : (void *) &E[seq[m]];
            void *r = linked_list_remove_by_id(&n, &match_id, &list);
            VP_ASSERT(r == want, "removal hands out the first matching entry, or nothing");
            if (m >= 0) drop(m);
        } else if (op == 'd') {
            int m = first_match();
            linked_list_destroy_by_id(&n, &match_id, &list);
            for (int i = 0; i < MAXE; i++) VP_ASSERT(destroyed[i] == before[i] + (m >= 0 && seq[m] == i), "exactly the first matching entry is destroyed, once");
            if (m >= 0) drop(m);
        } else if (op == 's') {
            linked_list_destroy_by_selector(&match, &list);
            for (int i = 0; i < MAXE; i++) VP_ASSERT(destroyed[i] == before[i] + (in_list[i] && pred[i]), "exactly the matching entries are destroyed, once each");
            for (int j = 0; j < MAXE; j++) { int m = first_match(); if (m >= 0) drop(m); }
        }
        if (op == 'f' || op == 'v' || op == 'r' || op == 'a' || op == 'x') for (int i = 0; i < MAXE; i++) VP_ASSERT(destroyed[i] == before[i], "only destroying destroys");
        nvis = 0;
        linked_list_foreach(&n, &visit, list);
        VP_ASSERT(nvis == n, "the registry holds exactly the registered entries");
        for (int i = 0; i < MAXE; i++) if (i < n && i < nvis) VP_ASSERT(visited[i] == seq[i], "entries keep their order");
        VP_ASSERT(vp_live == n, "no memory is kept for entries that left");
    }
    for (int i = 0; i < MAXE; i++) before[i] = destroyed[i];
    linked_list_destroy(list);
    for (int i = 0; i < MAXE; i++) VP_ASSERT(destroyed[i] == before[i] + in_list[i], "destroying the registry destroys every entry left, once");
    VP_ASSERT(vp_live == 0, "a destroyed registry keeps no memory");
    VP_COVER("sequence done");
}
