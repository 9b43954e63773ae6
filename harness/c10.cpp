// C10: parameter-set names and identifiers.
#include "shapes.hpp"
#include <cstring>
using namespace eng; using namespace lib;

static void fields(const ref::P &p, const xmss_params &q, bool fast, const char *how) {
    struct { const char *n; ull got, want; } t[] = {
        {"hash function", q.func, (ull)p.func}, {"n", q.n, p.n}, {"padding length", q.padding_len, p.pad}, {"w", q.wots_w, p.w}, {"log w", q.wots_log_w, p.logw},
        {"len1", q.wots_len1, p.len1}, {"len2", q.wots_len2, p.len2}, {"len", q.wots_len, p.len}, {"one-time signature size", q.wots_sig_bytes, (ull)p.len * p.n},
        {"height", q.full_height, p.h}, {"tree height", q.tree_height, p.th}, {"layers", q.d, p.d}, {"index size", q.index_bytes, p.idxb},
        {"signature size", q.sig_bytes, p.sigb}, {"public key size", q.pk_bytes, 2 * p.n}};
    for (auto &e : t) if (e.got != e.want) fail("%s (%s): %s is %llu, the standard has %llu", pname(p), how, e.n, e.got, e.want);
    ull min = p.idxb + 4 * p.n;
    if (fast ? q.sk_bytes < min : q.sk_bytes != min) fail("%s (%s): secret key size is %llu, %s%llu is needed", pname(p), how, q.sk_bytes, fast ? "at least " : "", min);
}
// every 32-bit identifier of a block
static void oids(const Case &c, Ctx &x) {
    bool mt = c["mt"]; const Lib &L = get(c["blk"] & 1 ? "fast" : "basic"); auto parse = mt ? L.xmssmt_parse_oid : L.xmss_parse_oid;
    const uint64_t B = 1u << 24; uint64_t lo = (uint64_t)c["blk"] * B; xmss_params q; uint64_t known = 0;
    uint32_t max = mt ? 56 : 21;
    for (uint64_t i = lo; i < lo + B; i++) {
        int r = parse(&q, (uint32_t)i);
        if (i >= 1 && i <= max) { known++; if (r) fail("%s identifier 0x%08llx is refused", mt ? "XMSSMT" : "XMSS", (ull)i); }
        else if (!r) fail("%s identifier 0x%08llx is accepted", mt ? "XMSSMT" : "XMSS", (ull)i);
    }
    x.label("identifiers", B); if (known) x.label("standard identifiers", known); x.nontrivial = true;
}
// a standard identifier, parsed into a structure with generated earlier contents; and its name
static void standard(const Case &c, Ctx &x) {
    const ref::P &p = ref::standard()[c["ps"]]; bool fast = c["fast"]; const Lib &L = get(fast ? "fast" : "basic");
    xmss_params q; Bytes b(c["s"]); b.fill(&q, sizeof q); if (c["s"] % 3 == 0) memset(&q, 0, sizeof q);
    int r = (p.mt ? L.xmssmt_parse_oid : L.xmss_parse_oid)(&q, p.oid);
    if (r) fail("%s: identifier 0x%08x is refused", pname(p), p.oid);
    fields(p, q, fast, "from its identifier");
    if (q.bds_k != 0 && (q.bds_k > q.tree_height || (q.tree_height - q.bds_k) % 2)) fail("%s: BDS parameter %u", pname(p), q.bds_k);
    if (L.sk_bytes(&q) != q.sk_bytes) fail("%s: secret key sizes %llu and %llu", pname(p), L.sk_bytes(&q), q.sk_bytes);
    uint32_t o = (uint32_t)b.next(); char nm[64]; snprintf(nm, sizeof nm, "%s", p.name.c_str());
    r = (p.mt ? L.xmssmt_str_to_oid : L.xmss_str_to_oid)(&o, nm);
    if (r || o != p.oid) fail("name %s gives status %d and 0x%08x instead of 0x%08x", nm, r, o, p.oid);
    x.nontrivial = true; x.sample = p.name;
}
// names that are not standard
static void names(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); Bytes b(c["s"]); auto &all = ref::standard(); std::string n = all[b.below(all.size())].name, m = all[b.below(all.size())].name;
    const char extra[] = "XMSMT-_/0123456789SHAKE sha.\n\t\x80";
    for (int64_t op : c.lst("ops")) {
        size_t i = n.empty() ? 0 : b.below(n.size()); char ch = extra[b.below(sizeof extra - 1)];
        switch (op) {
        case 0: n.insert(i, 1, ch); break;
        case 1: if (!n.empty()) n.erase(i, 1); break;
        case 2: if (!n.empty()) n[i] = ch; break;
        case 3: n += ch; break;
        case 4: n = n.substr(0, i); break;
        case 5: n = n.substr(i); break;
        case 6: n += m; break;
        case 7: for (auto &k : n) k = (char)(k >= 'A' && k <= 'Z' ? k + 32 : k); break;
        case 8: { size_t k = n.find_last_of('_'), l = m.find_last_of('_'); if (k != n.npos && l != m.npos) n = n.substr(0, k) + m.substr(l); break; }
        case 9: { size_t k = n.find('_'), l = m.find('_'); if (k != n.npos && l != m.npos) n = n.substr(0, k) + m.substr(l); break; }
        case 10: n = (n.rfind("XMSSMT", 0) == 0) ? "XMSS" + n.substr(6) : n.rfind("XMSS", 0) == 0 ? "XMSSMT" + n.substr(4) : n; break;
        case 11: n = ""; break;
        case 12: n = " " + n; break;
        case 13: { size_t k = n.find('-'), l = m.find('-'); if (k != n.npos && l != m.npos) n = m.substr(0, l) + n.substr(k); break; }
        default: { n.clear(); size_t k = b.below(300); for (size_t j = 0; j < k; j++) n += (char)(1 + b.below(255)); }
        }
    }
    n = n.c_str();
    for (int mt = 0; mt < 2; mt++) {
        const ref::P *p = nullptr; for (auto &e : all) if (e.mt == (mt == 1) && e.name == n) p = &e;
        Guard g(n.size() + 1); g.set(n.c_str(), n.size() + 1); g.readonly(true);
        uint32_t o = 0xdeadbeef; int r = 0; auto f = mt ? L.xmssmt_str_to_oid : L.xmss_str_to_oid;
        if (!guarded([&] { r = f(&o, (const char *)g.p); })) fail("%s_str_to_oid(\"%s\") reads behind the string", mt ? "xmssmt" : "xmss", n.c_str());
        if (p && (r || o != p->oid)) fail("name %s gives status %d and 0x%08x instead of 0x%08x", n.c_str(), r, o, p->oid);
        if (!p && !r) fail("%s name \"%s\" is accepted as 0x%08x", mt ? "XMSSMT" : "XMSS", n.c_str(), o);
        x.label(p ? "standard name" : "other name");
    }
    x.nontrivial = true; x.sample = "\"" + n + "\"";
}
// many lookups in one process: none depends on the ones before
static void sequence(const Case &c, Ctx &x) {
    bool fast = c["fast"]; const Lib &L = get(fast ? "fast" : "basic"); auto &all = ref::standard(); Bytes b(c["s"]); size_t n = 0; uint32_t near = 1 + (uint32_t)b.below(56);
    for (int64_t op : c.lst("ops")) {
        bool mt = op & 1; uint32_t id = op & 2 ? near : 1 + (uint32_t)b.below(mt ? 58 : 24); if (op & 2 && b.below(4) == 0) id = near ^ 1;
        const ref::P *p = nullptr, *other = nullptr; for (auto &e : all) { if (e.oid == id && e.mt == mt) p = &e; if (e.oid == id && e.mt != mt) other = &e; }
        std::string how = "lookup " + std::to_string(n++) + " of a process"; xmss_params q; memset(&q, (int)b.below(256), sizeof q); uint32_t o = (uint32_t)b.next(); int r;
        switch (op / 4) {
        case 0: case 1: case 2:
            r = (mt ? L.xmssmt_parse_oid : L.xmss_parse_oid)(&q, id);
            if (!r != !!p) fail("%s: %s identifier 0x%08x gives %d", how.c_str(), mt ? "XMSSMT" : "XMSS", id, r);
            if (p) { fields(*p, q, fast, how.c_str()); if (q.bds_k) fail("%s (%s): BDS parameter %u", pname(*p), how.c_str(), q.bds_k); } break;
        case 3: case 4: {
            const ref::P *e = p ? p : other; if (!e) break;
            r = (mt ? L.xmssmt_str_to_oid : L.xmss_str_to_oid)(&o, e->name.c_str());
            if (p ? r || o != p->oid : !r) fail("%s: name %s among those of %s gives status %d, 0x%08x", how.c_str(), e->name.c_str(), mt ? "XMSSMT" : "XMSS", r, o);
            break; }
        default: {
            if (!p) break;
            ref::P e = *p; unsigned k = e.th > 3 ? e.th % 2 + 2 * (unsigned)b.below(2) : 0; if (k > 1 && (e.th - k) % 2) k = 0; e = ref::make(e.func, e.n, b.below(2) ? 4 : 256, e.h, e.d, k); e.mt = e.d > 1;
            q.func = e.func; q.n = e.n; q.wots_w = e.w; q.full_height = e.h; q.d = e.d; q.bds_k = k; q.padding_len = e.pad;
            if ((r = L.initialize_params(&q))) fail("%s (%s): refused (%d)", pname(e), how.c_str(), r);
            fields(e, q, fast, how.c_str()); }
        }
    }
    x.label("lookups", n); x.nontrivial = n > 1; x.sample = std::to_string(n) + " lookups";
}
// custom parameters
static void custom_params(const Case &c, Ctx &x) {
    static const struct { int f; unsigned n; } t[] = {{0, 32}, {0, 64}, {1, 32}, {2, 64}, {0, 24}, {2, 32}, {2, 24}};
    bool fast = c["fast"]; const Lib &L = get(fast ? "fast" : "basic"); static const unsigned ws[] = {4, 16, 256};
    unsigned d = (unsigned)c["d"], th = 1 + (unsigned)c["th"] % (62 / d > 24 ? 24 : 62 / d); unsigned k = (unsigned)c["k"]; if (k > th || k > 10) k = th > 2 ? th % 3 : 0;
    ref::P p = ref::make(t[c["g"]].f, t[c["g"]].n, ws[c["wi"]], th * d, d, k); p.mt = d > 1;
    xmss_params q; memset(&q, (int)c["s"], sizeof q); q.func = p.func; q.n = p.n; q.wots_w = p.w; q.full_height = p.h; q.d = d; q.bds_k = k; q.padding_len = p.pad;
    int r = L.initialize_params(&q); if (r) fail("%s: refused (%d)", pname(p), r);
    fields(p, q, fast, "custom"); if (q.bds_k != k) fail("%s: BDS parameter changed to %u", pname(p), q.bds_k);
    // another Winternitz parameter is refused
    unsigned w = (unsigned)c["badw"]; if (w != 4 && w != 16 && w != 256) { q.wots_w = w; if (!L.initialize_params(&q)) fail("w=%u is accepted", w); }
    x.nontrivial = true; x.sample = pname(p);
}
// sizes against what key generation, signing and verification produce
static void produced(const Case &c, Ctx &x) {
    bool fast = c["fast"]; const Lib &L = get(fast ? "mockfast" : "mockbasic"); if (!L.mock_ok) { x.skipped = true; return; }
    Api a = api(L, ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["s"]); Buf m = b.get(b.below(100));
    int side = c["front"]; Guard pk(a.pk, side), sk(a.sk, side), sm(a.sig + m.size(), side), o(a.sig + m.size(), side); Rng::seed(c["s"]); ull n = 0, ml = 0; int r = 0;
    if (!guarded([&] { r = a.keypair(pk.p, sk.p); })) fail("%s: key generation leaves the announced sizes", pname(p)); if (r) fail("%s: key generation returns %d", pname(p), r);
    if (!guarded([&] { r = a.sign(sk.p, sm.p, &n, m.data(), m.size()); })) fail("%s: signing leaves the announced sizes", pname(p));
    if (r || n != sm.n) fail("%s: signing returns %d and %llu bytes for a signature size of %zu and a message of %zu", pname(p), r, n, a.sig, m.size());
    if (!guarded([&] { r = a.open(o.p, &ml, sm.p, n, pk.p); })) fail("%s: verification leaves the announced sizes", pname(p));
    if (r || ml != m.size()) fail("%s: verification returns %d, length %llu", pname(p), r, ml);
    if (!pk.slack_ok() || !sk.slack_ok() || !sm.slack_ok() || !o.slack_ok()) fail("%s: bytes beside the announced sizes are written", pname(p));
    x.nontrivial = true; x.sample = p.name;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    std::vector<Fixed> o; for (int mt = 0; mt < 2; mt++) for (int blk = 0; blk < 256; blk++) o.push_back({{"mt", mt}, {"blk", blk}});
    v.push_back({"identifiers", {}, o, 1, 1, oids}); v.back().rule = "all 2^32 identifiers of both families, one block of 2^24 per case"; v.back().hang_s = 600; v.back().max_shrinks = 1;
    auto any = [](const ref::P &) { return true; };
    v.push_back({"standard", {seed("s")}, shapes::pick(any, {0, 1}), T ? 200 : 20, 20, standard}); v.back().rule = "each standard identifier and name against the standard's values, whatever the structure held before";
    v.push_back({"names", {seed("s"), list("ops", 3, {{1, 0, 14}})}, {}, T ? 1000000 : 60000, 2000, names}); v.back().rule = "standard names changed by edits, recombination and case, and arbitrary strings, in both families";
    std::vector<Fixed> cp; for (int g = 0; g < 7; g++) for (int wi = 0; wi < 3; wi++) for (int fast = 0; fast < 2; fast++) cp.push_back({{"g", g}, {"wi", wi}, {"fast", fast}});
    v.push_back({"custom", {num("d", {{1, 1, 1}, {2, 2, 31}}), num("th", 0, 60), num("k", 0, 10), num("s", 0, 255), num("badw", {{1, 0, 300}, {1, 0, 70000}})}, cp, T ? 3000 : 300, 100, custom_params}); v.back().rule = "derived sizes of custom parameters";
    v.push_back({"sequence", {seed("s"), list("ops", 40, {{1, 0, 23}}), num("fast", 0, 1)}, {}, T ? 200000 : 12000, 500, sequence}); v.back().rule = "generated sequences of lookups by identifier and name in both families and of custom parameters, each as if it were the first";
    v.push_back({"produced", {num("s", 0, 1 << 30), num("front", 0, 1)}, shapes::pick([&](const ref::P &p) { return p.th <= (T ? 16u : 10u) || p.n == 24; }, {0, 1}), T ? 3 : 1, 1, produced}); v.back().max_shrinks = 4;
    v.back().rule = "announced sizes against what key generation, signing and verification write (cheap one-time functions)";
    return v;
}
