// Valid signatures at any index of any parameter set without generating the trees: the one-time keys come from
// a seed, the authentication paths are random, and the public key's root is whatever they lead to.
#pragma once
#include "lib.hpp"
#include <cstring>
namespace synth {
using lib::Buf; using lib::u8;
struct Synth {
    ref::P p; uint64_t idx; Buf skseed, seed, root, upper;   // upper: everything after the one-time signature of layer 0
    Synth(const ref::P &p_, uint64_t idx_, uint64_t s) : p(p_), idx(idx_) {
        eng::Bytes b(eng::mix(s, 0x73796e)); skseed = b.get(p.n); seed = b.get(p.n);
        uint64_t t = idx; Buf cur;
        for (unsigned l = 0; l < p.d; l++) {
            uint32_t leaf = (uint32_t)(t & ((1ULL << p.th) - 1)), a[8]; t >>= p.th;
            ref::ots_addr(a, l, t, leaf);
            if (l) { Buf g = ref::wots_sig(p, cur.data(), skseed.data(), seed.data(), a); upper.insert(upper.end(), g.begin(), g.end()); }
            cur = ref::ltree(p, ref::wots_pk(p, skseed.data(), seed.data(), a), seed.data(), l, t, leaf);
            Buf auth = b.get(p.th * p.n); upper.insert(upper.end(), auth.begin(), auth.end());
            a[3] = 2; a[4] = 0;
            for (unsigned j = 0; j < p.th; j++) {
                Buf nx(p.n); const u8 *x = &auth[j * p.n];
                a[5] = j; a[6] = leaf >> (j + 1);
                if ((leaf >> j) & 1) ref::H(p, nx.data(), x, cur.data(), seed.data(), a); else ref::H(p, nx.data(), cur.data(), x, seed.data(), a);
                cur = nx;
            }
        }
        root = cur;
    }
    // signature followed by the message, made for a public key that claims the given root
    Buf sign(const Buf &claimed, const Buf &R, const Buf &m) const {
        Buf o(p.idxb), dg(p.n); ref::to_bytes(o.data(), p.idxb, idx);
        o.insert(o.end(), R.begin(), R.end());
        ref::hmsg(p, dg.data(), R.data(), claimed.data(), idx, m.data(), m.size());
        uint32_t a[8]; ref::ots_addr(a, 0, idx >> p.th, (uint32_t)(idx & ((1ULL << p.th) - 1)));
        Buf g = ref::wots_sig(p, dg.data(), skseed.data(), seed.data(), a);
        o.insert(o.end(), g.begin(), g.end()); o.insert(o.end(), upper.begin(), upper.end()); o.insert(o.end(), m.begin(), m.end());
        return o;
    }
    Buf pk(const lib::Api &a, const Buf &claimed) const {
        Buf r(a.pk); if (a.oid) ref::to_bytes(r.data(), 4, p.oid);
        memcpy(&r[a.off], claimed.data(), p.n); memcpy(&r[a.off + p.n], seed.data(), p.n); return r;
    }
};
} // namespace synth
