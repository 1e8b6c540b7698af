// A linearizability check for a single register-like object (one key), with
// operations that may or may not have taken effect.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <vector>
#include <algorithm>

namespace lin {
enum Kind { GET, SET, GAI, INC, DEL };
static const int64_t ABSENT = -1;
static const uint64_t NEVER = ~0ULL;
enum Status { PENDING = 0, OK, FAILED, DROPPED };
struct Op
{
    int      key = 0;
    Kind     kind = GET;
    int64_t  arg = 0;
    uint64_t inv = 0, resp = NEVER;
    Status   st = PENDING;
    int64_t  res = 0;
    int      thread = 0;
};
// the sequential specification
inline bool step(const Op& o, int64_t in, int64_t& out)
{
    switch (o.kind) {
    case GET: out = in; return o.st != OK || o.res == in;
    case SET: out = o.arg; return true;
    case DEL: out = ABSENT; return true;
    case INC: out = in == ABSENT ? o.arg : in + 1; return true;
    case GAI: out = in == ABSENT ? 0 : in + 1; return o.st != OK || o.res == out;
    }
    return false;
}
struct Search
{
    std::vector<Op> ops;                    // of one key, sorted by inv
    std::set<std::pair<std::vector<uint64_t>, int64_t>> seen;
    std::vector<uint64_t> done;
    size_t left = 0;                        // OK operations still to place
    uint64_t budget = 2000000;
    // what a power loss may leave: every state that includes the operations
    // that had responded by `must` (NEVER: not asked for)
    uint64_t must = NEVER;
    size_t   must_left = 0;
    std::set<int64_t>* collect = nullptr;
    bool ok = false;
    bool is(size_t i) const { return done[i / 64] >> (i % 64) & 1; }
    void go(int64_t state)
    {
        if (budget == 0) { ok = true; return; }
        budget--;
        if (!seen.insert({done, state}).second) return;
        if (left == 0) ok = true;
        if (collect && must_left == 0) collect->insert(state);
        if (ok && !collect) return;
        // an operation can be next if none that is still out responded before it began
        uint64_t first = NEVER;
        for (size_t i = 0; i < ops.size(); i++)
            if (!is(i) && ops[i].st == OK) first = std::min(first, ops[i].resp);
        for (size_t i = 0; i < ops.size(); i++) {
            if (is(i) || ops[i].inv > first) continue;
            if (ops[i].st != OK && ops[i].kind == GET) continue;
            int64_t out;
            if (!step(ops[i], state, out)) continue;
            if (ops[i].st != OK && out == state) continue;
            done[i / 64] |= 1ULL << (i % 64);
            if (ops[i].st == OK) left--;
            bool mu = ops[i].st == OK && ops[i].resp < must;
            if (mu) must_left--;
            go(out);
            if (mu) must_left++;
            if (ops[i].st == OK) left++;
            done[i / 64] &= ~(1ULL << (i % 64));
            if (ok && !collect) return;
        }
    }
};
// Is there an order of the operations of `key` that starts from one of `init`
// and explains every answer? With `collect`, also gathers the states that may
// be left if everything after time `must` can be lost.
inline bool check(const std::vector<Op>& all, int key, const std::set<int64_t>& init,
                  uint64_t must = NEVER, std::set<int64_t>* collect = nullptr)
{
    bool any = false;
    for (int64_t i : init) {
        Search s;
        for (auto& o : all) if (o.key == key && o.st != DROPPED) s.ops.push_back(o);
        std::stable_sort(s.ops.begin(), s.ops.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
        s.done.assign(s.ops.size() / 64 + 1, 0);
        s.must = must;
        for (auto& o : s.ops) { if (o.st == OK) { s.left++; if (o.resp < must) s.must_left++; } }
        s.collect = collect;
        s.go(i);
        any |= s.ok;
    }
    return any;
}
inline const char* name(Kind k)
{
    static const char* n[] = {"get", "set", "get_and_increment", "increment", "remove"};
    return n[k];
}
} // namespace lin
