// C21: the generator of random databases.
#include "docs.h"
#include <sse/schemes/utils/db_generator.hpp>

#include <atomic>
#include <map>
#include <thread>

using namespace sim;

static Decl d("C21", "gen_db (lib/utils/db_generator.cpp), logger",
              "threads, number of hardware threads, random device: simulator");

namespace {
struct Kw { std::map<uint64_t, int> docs; size_t n = 0; };
struct Seen
{
    std::map<std::string, Kw> kw;
    std::atomic<int> inside{0}, most{0};
    bool returned = false;
};

void run()
{
    draw_sched_cfg();
    // few documents in most runs; enough for the random groups in some
    size_t n = work(30) == 0 ? (work(4) ? 1200 + work(1500) : 2600 + work(6000)) : work(4) ? work(30) : work(260);
    static const unsigned HW[] = {4, 1, 2, 3, 7, 0, 16};
    g_hw_concurrency = HW[work(7)];
    // the groups of ten thousand are completed only by a thread with that many
    if (work(250) == 0) { n = 10000 + work(14000); g_hw_concurrency = 1 + work(2); }
    Seen* s = make_shared_state<Seen>();
    bool slow = work(3) == 0;
    incarnation([&] {
    sim::Scope app(AR_A);
    sse::sophos::gen_db(n, [s, slow](const std::string& kw, size_t ind) {
        if (slow) {
            int i = ++s->inside;
            if (i > s->most) s->most = i;
            std::this_thread::yield();
        }
        {
            Quiet q; sim::Scope a(AR_S);
            if (s->returned) fail("late", "an entry is delivered after the generator returned");
            Kw& k = s->kw[kw];
            k.docs[ind]++;
            k.n++;
            progress();
        }
        if (slow) s->inside--;
    });
    });
    Quiet q; sim::Scope a(AR_S);
    s->returned = true;
    if (s->most > 1) probe("concurrent_callbacks");
    // the size of a group is in its name; the counts of each family add up to n
    std::map<std::string, size_t> sum;
    std::map<std::string, std::vector<size_t>> groups; // family and thread -> sizes
    for (auto& e : s->kw) {
        const std::string& k = e.first;
        size_t n1 = e.second.n, size = 0;
        unsigned a1, a2, a3;
        char fam[64];
        if (sscanf(k.c_str(), "Group-rand-10^%u_%u_%u", &a1, &a2, &a3) == 3) {
            for (size = 1; a1; a1--) size *= 10;
            if (n1 > size) fail("group-too-large", "keyword %s has %zu entries", k.c_str(), n1);
            probe("random_group");
            for (auto& dd : e.second.docs) if (dd.second > 1) fail("repeated", "keyword %s has document %zu %d times", k.c_str(), (size_t)dd.first, dd.second);
            continue;
        } else if (sscanf(k.c_str(), "Group-10^%u_%u_%u", &a1, &a2, &a3) == 3) {
            snprintf(fam, sizeof fam, "Group-10^%u", a1);
            for (size = 1; a1; a1--) size *= 10;
            groups[std::string(fam) + "/" + std::to_string(a2) + "/" + std::to_string(size)].push_back(n1);
        } else if (sscanf(k.c_str(), "Group-%u_%u_%u", &a1, &a2, &a3) == 3) {
            snprintf(fam, sizeof fam, "Group-%u", a1);
            size = a1;
            groups[std::string(fam) + "/" + std::to_string(a2) + "/" + std::to_string(size)].push_back(n1);
        } else {
            char fr[8];
            if (sscanf(k.c_str(), "%7[0-9.]_%u_%u", fr, &a1, &a2) != 3) fail("unknown", "unexpected keyword '%s'", k.c_str());
            snprintf(fam, sizeof fam, "%s%%_%u", fr, a2);
            uint64_t mod = !strcmp(fr, "0.1") ? 1000 : !strcmp(fr, "1") ? 100 : 10;
            for (auto& dd : e.second.docs)
                if ((a2 == 1 ? dd.first : dd.first / 1000) % 1000 % mod != a1) fail("wrong-document", "document %zu is under %s", (size_t)dd.first, k.c_str());
        }
        sum[fam] += n1;
    }
    static const char* FAM[] = {"0.1%_1", "0.1%_2", "1%_1", "1%_2", "10%_1", "10%_2", "Group-10^1", "Group-10^2", "Group-10^3", "Group-10^4", "Group-10^5", "Group-10^6", "Group-20", "Group-30", "Group-60"};
    for (auto f : FAM)
        if (sum[f] != n) fail("wrong-number", "%zu documents were asked for, %zu delivered under the keywords %s", n, sum[f], f);
    for (auto& g : groups) {
        size_t size = std::stoul(g.first.substr(g.first.rfind('/') + 1)), partial = 0;
        for (size_t c : g.second) {
            if (c > size) fail("group-too-large", "a keyword of %s has %zu entries", g.first.c_str(), c);
            partial += c < size;
        }
        if (partial > 1) fail("group-not-filled", "%zu keywords of %s are not full", partial, g.first.c_str());
    }
    // the same documents under every family
    std::map<uint64_t, int> all[15];
    for (auto& e : s->kw) {
        std::string f = e.first;
        for (int i = 0; i < 6; i++) {
            std::string p = "Group-10^" + std::to_string(i + 1) + "_";
            if (f.compare(0, p.size(), p) == 0) for (auto& x : e.second.docs) all[i][x.first] += x.second;
        }
    }
    for (int i = 1; i < 6; i++) if (all[i] != all[0]) fail("wrong-document", "the documents of the groups of 10^%d are not those of the groups of 10", i + 1);
    for (auto& x : all[0]) mix(x.first);
    if (n > 10) nontrivial();
}
Reg r({"C21", "generator", run, false, 10000, 120000,
       "up to 24000 documents (below 30 in most runs) generated on a machine with 0 to 16 hardware threads, the callback running at once in several threads; non-trivial: more than ten documents"});
} // namespace
