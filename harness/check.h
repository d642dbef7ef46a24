// Offline oracles over recorded histories.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <deque>
#include <algorithm>
#include <cstdio>
#include "mon.h"

struct Op {
    int code;
    int pid;
    int64_t a, b, ret;
    uint64_t inv, res;
    uint64_t mark = UINT64_MAX; // when the caller had taken many steps inside the call
    int64_t val; // raw value for reporting
};
typedef std::vector<Op> Hist;

static inline uint64_t hmix(uint64_t h, uint64_t v) {
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ULL;
    h += (v ^ (v >> 31)) * 0x9E3779B97F4A7C15ULL + 0x94D049BB133111EBULL;
    h = (h ^ (h >> 30)) * 0xff51afd7ed558ccdULL;
    h = (h ^ (h >> 27)) * 0x94D049BB133111EBULL;
    return h ^ (h >> 31);
}

static std::string op_str(const Op &o, const char *kind) {
    char buf[256];
    snprintf(buf, sizeof buf, "t%d %s[%s] a=%lld b=%lld ret=%lld inv=%llu res=%llu", o.pid,
             o.code == OP_INS ? "insert" : o.code == OP_REM ? "remove" : o.code == OP_FIND ? "find" : o.code == OP_APPLY ? "apply" : "lock",
             kind, (long long)o.a, (long long)o.b, (long long)o.ret, (unsigned long long)o.inv, (unsigned long long)o.res);
    return buf;
}

// ---------------------------------------------------------------- generic search (Wing & Gong with memoisation)
// The values of a history are distinct. rem_of maps a value to its removal (or -1).
struct LinearSpec {
    std::deque<int64_t> q;
    int64_t empty;
    bool lifo;
    const Hist *h = nullptr;
    std::unordered_map<int64_t, int> rem_of;
    void prepare(const Hist &hh) {
        h = &hh;
        for (size_t i = 0; i < hh.size(); i++) if (hh[i].code == OP_REM && hh[i].ret != empty) rem_of[hh[i].ret] = (int)i;
    }
    // A removal that matches the current state may always be linearized at once: moving it forward to this
    // point keeps every other result and the real-time order. Hence only insertions branch.
    bool eager(const Op &o) const {
        if (o.code != OP_REM) return false;
        if (q.empty()) return o.ret == empty;
        return o.ret == (lifo ? q.back() : q.front());
    }
    // x is removed strictly before y in real time
    bool must_precede(int64_t x, int64_t y) const {
        auto a = rem_of.find(x), b = rem_of.find(y);
        if (a == rem_of.end()) return false;
        if (b == rem_of.end()) return true;
        return (*h)[a->second].res < (*h)[b->second].inv;
    }
    bool step(const Op &o, int64_t &undo) {
        if (o.code == OP_INS) {
            if (!q.empty()) {
                // the element below (stack) must leave after o.a; the last element (queue) must leave before o.a
                if (lifo ? must_precede(q.back(), o.a) : must_precede(o.a, q.back())) return false;
            }
            q.push_back(o.a);
            return true;
        }
        if (q.empty()) { undo = 0; return o.ret == empty; }
        if (o.ret != (lifo ? q.back() : q.front())) return false;
        undo = 1;
        if (lifo) q.pop_back(); else q.pop_front();
        return true;
    }
    void back(const Op &o, int64_t undo) {
        if (o.code == OP_INS) q.pop_back();
        else if (undo) { if (lifo) q.push_back(o.ret); else q.push_front(o.ret); }
    }
    uint64_t hash() const { uint64_t k = 7; for (auto v : q) k = hmix(k, v); return k; }
};
struct KSpec { // one key of a set; insert returns true, delete returns nothing
    bool in = false;
    bool step(const Op &o, int64_t &undo) {
        undo = in;
        if (o.code == OP_INS) { if (!o.ret) return false; in = true; return true; }
        if (o.code == OP_REM) { in = false; return true; }
        return (o.ret != 0) == in;
    }
    void back(const Op &, int64_t undo) { in = undo != 0; }
    uint64_t hash() const { return in ? 3 : 5; }
    bool eager(const Op &o) const { return o.code == OP_FIND && (o.ret != 0) == in; }
    void prepare(const Hist &) {}
};

struct CntSpec { // a counter modulo 4 that returns its previous value
    int64_t v = 0;
    bool step(const Op &o, int64_t &undo) { undo = v; if (o.ret != v) return false; v = (v + o.a) & 3; return true; }
    void back(const Op &, int64_t undo) { v = undo; }
    uint64_t hash() const { return 11 + v; }
    bool eager(const Op &o) const { return (o.a & 3) == 0 && o.ret == v; }
    void prepare(const Hist &) {}
};

template <class Spec> struct WGL {
    const Hist &h;
    Spec s;
    size_t n;
    std::vector<uint64_t> mask;
    std::unordered_set<uint64_t> seen;
    uint64_t explored = 0;
    uint64_t budget = 300000;
    bool gave_up = false;
    WGL(const Hist &h_, Spec s_) : h(h_), s(s_), n(h_.size()), mask((h_.size() + 63) / 64, 0) { s.prepare(h); }
    bool done(size_t i) const { return mask[i >> 6] >> (i & 63) & 1; }
    uint64_t key() const { uint64_t k = s.hash(); for (auto m : mask) k = hmix(k, m); return k; }
    // h sorted by inv
    bool rec(size_t left) {
        if (left == 0) return true;
        if (++explored > budget) { gave_up = true; return true; }
        if (!seen.insert(key()).second) return false;
        uint64_t minres = UINT64_MAX;
        for (size_t i = 0; i < n; i++)
            if (!done(i) && h[i].res < minres) minres = h[i].res;
        for (size_t i = 0; i < n; i++) {
            if (done(i)) continue;
            if (h[i].inv > minres) break;
            if (s.eager(h[i])) {
                int64_t u = 0;
                s.step(h[i], u);
                mask[i >> 6] |= 1ULL << (i & 63);
                bool r = rec(left - 1);
                mask[i >> 6] &= ~(1ULL << (i & 63));
                s.back(h[i], u);
                return r;
            }
        }
        for (size_t i = 0; i < n; i++) {
            if (done(i)) continue;
            if (h[i].inv > minres) break;
            int64_t u = 0;
            if (s.step(h[i], u)) {
                mask[i >> 6] |= 1ULL << (i & 63);
                bool r = rec(left - 1);
                mask[i >> 6] &= ~(1ULL << (i & 63));
                s.back(h[i], u);
                if (r) return true;
                if (gave_up) return true;
            }
        }
        return false;
    }
    bool run() { return rec(n); }
};

static void sort_inv(Hist &h) {
    std::sort(h.begin(), h.end(), [](const Op &x, const Op &y) { return x.inv < y.inv; });
}

// ---------------------------------------------------------------- conservation and order patterns, any size
// Complete for queues with distinct values (Henzinger, Sezgin, Vafeiadis: aspect-oriented proofs).
static bool patterns(const Hist &h, int64_t empty, bool fifo, std::string &why) {
    struct V { int ins = -1, rem = -1; };
    std::unordered_map<int64_t, V> m;
    m.reserve(h.size() * 2);
    char buf[300];
    for (size_t i = 0; i < h.size(); i++)
        if (h[i].code == OP_INS) m[h[i].a].ins = (int)i;
    std::vector<int> empties;
    for (size_t i = 0; i < h.size(); i++) {
        if (h[i].code != OP_REM) continue;
        if (h[i].ret == empty) { empties.push_back((int)i); continue; }
        auto it = m.find(h[i].ret);
        if (it == m.end() || it->second.ins < 0) { why = "a value that was never inserted is returned: " + op_str(h[i], ""); return false; }
        if (it->second.rem >= 0) { why = "a value is returned twice: " + op_str(h[it->second.rem], "") + " / " + op_str(h[i], ""); return false; }
        if (h[i].res < h[it->second.ins].inv) { why = "a value is returned before it was inserted: " + op_str(h[i], ""); return false; }
        it->second.rem = (int)i;
    }
    // values sorted by insertion response; order violations
    struct T { uint64_t ii, ir, ri, rr; int64_t v; };
    std::vector<T> vs;
    for (auto &kv : m) {
        T t; t.v = kv.first; t.ii = h[kv.second.ins].inv; t.ir = h[kv.second.ins].res;
        if (kv.second.rem >= 0) { t.ri = h[kv.second.rem].inv; t.rr = h[kv.second.rem].res; }
        else { t.ri = t.rr = UINT64_MAX; }
        vs.push_back(t);
    }
    if (fifo) {
        // x inserted strictly before y, but y removed strictly before x (or x never removed)
        std::vector<size_t> by_ir(vs.size()), by_ii(vs.size());
        for (size_t i = 0; i < vs.size(); i++) by_ir[i] = by_ii[i] = i;
        std::sort(by_ir.begin(), by_ir.end(), [&](size_t a, size_t b) { return vs[a].ir < vs[b].ir; });
        std::sort(by_ii.begin(), by_ii.end(), [&](size_t a, size_t b) { return vs[a].ii < vs[b].ii; });
        size_t p = 0; uint64_t max_ri = 0; int64_t wv = 0;
        for (size_t k = 0; k < by_ii.size(); k++) {
            T &y = vs[by_ii[k]];
            while (p < by_ir.size() && vs[by_ir[p]].ir < y.ii) {
                if (vs[by_ir[p]].ri > max_ri) { max_ri = vs[by_ir[p]].ri; wv = vs[by_ir[p]].v; }
                p++;
            }
            if (y.rr != UINT64_MAX && max_ri > y.rr) {
                snprintf(buf, sizeof buf, "order: value %lld was inserted before value %lld but is removed after it%s", (long long)wv, (long long)y.v,
                         max_ri == UINT64_MAX ? " (never removed)" : "");
                why = buf; return false;
            }
        }
    }
    // "empty" although the structure cannot have been empty at any time during the call:
    // a value whose insertion ended before time t and whose removal starts after t covers t; chains of values
    // covering the whole interval of the call.
    {
        std::vector<std::pair<uint64_t, uint64_t>> cov; // [ir, ri)
        for (auto &t : vs) if (t.ir < t.ri) cov.push_back({t.ir, t.ri});
        std::sort(cov.begin(), cov.end());
        // merge into maximal covered intervals
        std::vector<std::pair<uint64_t, uint64_t>> mg;
        for (auto &c : cov) {
            if (!mg.empty() && c.first <= mg.back().second) mg.back().second = std::max(mg.back().second, c.second);
            else mg.push_back(c);
        }
        for (int e : empties) {
            auto it = std::upper_bound(mg.begin(), mg.end(), std::make_pair(h[e].inv, UINT64_MAX));
            if (it == mg.begin()) continue;
            --it;
            // covered strictly: inserted before the call begins, still inside when it ends
            if (it->first < h[e].inv && it->second > h[e].res) {
                why = "reported empty although elements were present during the whole call: " + op_str(h[e], "");
                return false;
            }
        }
    }
    return true;
}

// ---------------------------------------------------------------- combining objects: the returned states form a chain
static inline uint64_t chain_next(uint64_t s, int64_t arg, int pid) {
    return hmix(hmix(s, (uint64_t)arg), (uint64_t)pid + 0x51ED27);
}
static bool chain_check(const Hist &h, uint64_t init, uint64_t final_state, bool have_final, std::string &why, std::vector<int> *order_out = nullptr) {
    std::unordered_map<uint64_t, int> byret;
    for (size_t i = 0; i < h.size(); i++) {
        auto r = byret.insert({(uint64_t)h[i].ret, (int)i});
        if (!r.second) { why = "two operations return the same state: " + op_str(h[r.first->second], "") + " / " + op_str(h[i], ""); return false; }
    }
    uint64_t s = init, maxinv = 0;
    size_t cnt = 0;
    int maxop = -1;
    while (cnt < h.size()) {
        auto it = byret.find(s);
        if (it == byret.end()) {
            char b[200]; snprintf(b, sizeof b, "after %zu of %zu operations no operation returned the current state: an effect was lost, duplicated, reordered, or applied with a wrong argument", cnt, h.size());
            why = b; return false;
        }
        const Op &o = h[it->second];
        if (o.res < maxinv) { why = "real-time order broken: " + op_str(o, "") + " is ordered after " + op_str(h[maxop], ""); return false; }
        if (o.inv > maxinv) { maxinv = o.inv; maxop = it->second; }
        if (order_out) order_out->push_back(it->second);
        s = chain_next(s, o.a, o.pid);
        cnt++;
    }
    if (have_final && s != final_state) { why = "final state differs from the state after all operations (an operation was applied more than once or not at all)"; return false; }
    return true;
}
