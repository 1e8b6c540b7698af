// The reference model of a searchable index: what was inserted for each keyword.
#pragma once
#include "sim.h"
#include <algorithm>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace docs {
using namespace sim;
struct Ins
{
    uint64_t doc;
    uint64_t start, end = ~0ULL; // ~0: never acknowledged
    uint64_t from = 0;           // deleted at this time; 0: not
    int      inc = 0;            // the incarnation which asked for it
    bool     failed = false;     // reported as such: it may be there or not
    bool     deleting = false;   // a search is deleting it
    int      settled = 0;        // of one cut off by a crash: 1 it took effect, 2 it did not
};
struct Model
{
    uint64_t clock = 0;
    int      inc = 0; // number of the incarnation
    std::vector<std::vector<Ins>> kw;
    std::vector<std::string> name;
};

// keywords: short, long, binary, prefixes of each other
inline std::string keyword(int k)
{
    std::string s;
    int kind = (int)work(5);
    size_t len = kind == 0 ? 0 : kind == 1 ? 100 : 4;
    for (size_t i = 0; i < len; i++) s += (char)(kind == 3 ? work(256) : 'a' + work(2));
    if (kind == 0 && k == 0) return "";
    return s + (char)k;
}
inline std::string list(const std::multiset<uint64_t>& s)
{
    std::string r;
    for (uint64_t x : s) r += " " + std::to_string(x);
    return r;
}
// An incarnation starts.
inline void restart(Model& m)
{
    m.inc++;
    for (auto& v : m.kw)
        for (auto& i : v)
            if (i.deleting) { i.deleting = false; i.end = ~0ULL; i.settled = 0; i.inc = m.inc - 1; } // deleted or not
}
// Everything inserted for k so far is being deleted.
inline void deleting(Model& m, int k)
{
    for (auto& i : m.kw[k]) if (!i.from && i.settled != 2) i.deleting = true;
}
inline void deleted(Model& m, int k)
{
    for (auto& i : m.kw[k]) if (i.deleting) { i.deleting = false; i.from = m.clock; }
}
// A search of keyword k which ran from `start` to `end` returned `res`.
inline void check(Model& m, int k, uint64_t start, uint64_t end, const std::multiset<uint64_t>& res, const char* how)
{
    std::multiset<uint64_t> must, may;
    for (auto& i : m.kw[k]) {
        if (i.from && i.from < start) continue;
        if (i.settled == 2) continue;
        bool sure = (i.end < start && !i.from) || i.settled == 1;
        if (sure) must.insert(i.doc);
        if (sure || i.start < end) may.insert(i.doc);
    }
    std::multiset<uint64_t> missing, extra;
    std::set_difference(must.begin(), must.end(), res.begin(), res.end(), std::inserter(missing, missing.end()));
    std::set_difference(res.begin(), res.end(), may.begin(), may.end(), std::inserter(extra, extra.end()));
    if (!missing.empty()) fail("missing-result", "%s of keyword %d does not return%s (returned:%s)", how, k, list(missing).c_str(), list(res).c_str());
    if (!extra.empty()) fail("extra-result", "%s of keyword %d returns too much:%s (expected at most:%s)", how, k, list(extra).c_str(), list(may).c_str());
    // an insertion in progress at a crash took effect or not, once and for all
    std::multiset<uint64_t> left = res;
    for (uint64_t d : must) left.erase(left.find(d));
    for (auto& i : m.kw[k])
        if (!i.failed && !i.settled && i.end == ~0ULL && i.inc < m.inc) {
            bool unclear = false; // others in progress insert the same
            for (auto& j : m.kw[k]) unclear |= j.doc == i.doc && j.inc == m.inc && j.start < end && j.end > start;
            if (unclear) continue;
            auto it = left.find(i.doc);
            if (it != left.end()) { i.settled = 1; left.erase(it); }
            else i.settled = 2;
        }
    mix(res.size());
    for (uint64_t d : res) mix(d);
}
inline uint64_t io_faults() { return fault_count() - fault_count("process_crash") - fault_count("power_loss"); }
inline vfs::FaultCfg write_faults()
{
    vfs::FaultCfg fc;
    uint32_t p = 50 << work(6); // 0.5% to 16%
    switch (work(5)) {
    case 0: fc.p[vfs::F_WRITE_EIO] = p; break;
    case 1: fc.p[vfs::F_WRITE_NOSPC] = p; break;
    case 2: fc.p[vfs::F_WRITE_SHORT] = p * 3; fc.p[vfs::F_WRITE_EINTR] = p * 3; break;
    case 3: fc.p[vfs::F_OPEN] = p; fc.p[vfs::F_META] = p; break;
    case 4: fc.p[vfs::F_FSYNC] = p * 4; break;
    }
    return fc;
}
} // namespace docs
