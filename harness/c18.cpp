// C18: the command-line tools reject malformed files cleanly.
#include "cli.hpp"
#include "synth.hpp"
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;

static const char *kinds[] = {"mock", "asan", ""};
struct T3 { std::string kind; bool mt, fast; };
static T3 variant(const Case &c, bool mt) { return {kinds[c["kind"]], mt, (bool)c["fast"]}; }
static std::string nm(const T3 &t, const char *n) { return (t.kind.empty() ? "" : t.kind + " ") + (t.mt ? "xmssmt_" : "xmss_") + n + (t.fast ? "_fast" : ""); }
// Runs a tool on files it has to refuse.
static void refuse(const T3 &t, const Dir &d, const char *which, const std::vector<std::string> &args, const std::string &what, const std::string &keyfile) {
    Buf k0 = slurp(keyfile); struct stat s0, s1; bool had = !stat(keyfile.c_str(), &s0);
    Opt lim; lim.limit = 40; Result r = run(d, tool(t.kind, t.mt, which, t.fast), args, lim); std::string w = nm(t, which) + ": " + what;
    if (r.hung) fail("%s: does not end", w.c_str());
    if (!r.exited) fail("%s: %s", w.c_str(), r.str().c_str());
    if (r.asan()) fail("%s: memory error: %s", w.c_str(), r.err.substr(r.err.find("ERROR:") == std::string::npos ? 0 : r.err.find("ERROR:"), 200).c_str());
    if (r.code == 0) fail("%s: exit status 0", w.c_str());
    if (!strcmp(which, "sign") && !r.out.empty()) fail("%s: %zu bytes of output", w.c_str(), r.out.size());
    if (!keyfile.empty()) { bool has = !stat(keyfile.c_str(), &s1); if (had != has || slurp(keyfile) != k0) fail("%s: the key file changed", w.c_str()); }
}
static uint32_t bad_oid(Bytes &b, const ref::P &p) {
    for (;;) {
        uint32_t id; switch (b.below(8)) { case 0: id = 0; break; case 1: id = p.mt ? 57 : 22; break; case 2: id = (uint32_t)b.below(256); break; case 3: id = p.oid << 8; break; case 4: id = p.oid | 1u << (6 + b.below(26)); break; case 5: id = 0xffffffffu; break; case 6: id = __builtin_bswap32(p.oid); break; default: id = (uint32_t)b.next(); }
        if (!ref::by_oid(p.mt, id)) return id;
    }
}
static bool prep(const Case &c, Ctx &x, T3 &t, const ref::P *&p) {
    p = &ref::standard()[c["ps"]]; t = variant(c, p->mt);
    if (t.kind == "mock" && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    return true;
}
// key files for signing: no private key operation is needed to refuse, so the key's body is arbitrary
static void sign_key(const Case &c, Ctx &x) {
    T3 t; const ref::P *p; if (!prep(c, x, t, p)) return;
    Api a = by_oid(get(t.fast ? "fast" : "basic"), *p); Bytes b(c["cs"]); Dir d; Buf key = b.get(a.pk + a.sk), m = b.get(b.below(200)); std::string what;
    ref::to_bytes(key.data(), 4, p->oid); ref::to_bytes(&key[a.pk], 4, p->oid); b.fill(&key[a.pk + 4], p->idxb); if (b.below(2)) memset(&key[a.pk + 4], 0, p->idxb);
    switch (c["what"]) {
    case 0: key.clear(); what = "empty key file"; break;
    case 1: { size_t n = c["cut"] % (a.pk + a.sk); key.resize(n); what = "key file cut to " + std::to_string(n) + " of " + std::to_string(a.pk + a.sk) + " bytes"; break; }
    case 2: { static const int near[] = {0, 4, 1, 5}; size_t base[] = {0, a.pk, a.pk + 4 + p->idxb, a.pk + a.sk}; size_t q = base[c["cut"] % 4]; size_t dlt = near[c["cut"] / 4 % 4]; size_t n = c["cut"] / 16 % 2 && q >= dlt ? q - dlt : q + dlt; if (n >= a.pk + a.sk) n = a.pk + a.sk - 1 - c["cut"] % 3; key.resize(n); what = "key file cut to " + std::to_string(n) + " of " + std::to_string(a.pk + a.sk) + " bytes"; break; }
    case 3: { uint32_t id = bad_oid(b, *p); ref::to_bytes(key.data(), 4, id); what = "public key with identifier " + std::to_string(id); break; }
    case 4: { uint32_t id = bad_oid(b, *p); ref::to_bytes(&key[a.pk], 4, id); what = "secret key with identifier " + std::to_string(id); break; }
    case 5: { uint32_t id = bad_oid(b, *p), i2 = bad_oid(b, *p); ref::to_bytes(key.data(), 4, id); ref::to_bytes(&key[a.pk], 4, i2); what = "keys with identifiers " + std::to_string(id) + ", " + std::to_string(i2); break; }
    case 6: { size_t n = b.below(3000); key = b.get(n); if (n >= 4) ref::to_bytes(key.data(), 4, bad_oid(b, *p)); what = std::to_string(n) + " arbitrary bytes as key file"; break; }
    case 7: { size_t n = b.below(3000); key.assign(n, b.below(2) ? 0xff : 0); what = std::to_string(n) + " constant bytes as key file"; break; }
    case 9: case 10: {                                                             // another valid identifier, whose keys have another length
        std::vector<const ref::P *> o; for (auto &q : ref::standard()) if (q.mt == p->mt && q.oid != p->oid) o.push_back(&q);
        const ref::P &q = *o[b.below(o.size())]; Api z = by_oid(get(t.fast ? "fast" : "basic"), q);
        if (c["what"] == 9) { ref::to_bytes(&key[a.pk], 4, q.oid); size_t full = a.pk + z.sk, n = key.size(); if (n >= full || b.below(4) == 0) n = full - 1 - b.below(b.below(2) ? 3 : z.sk - 4); key.resize(n, 7); what = "secret key with identifier of " + q.name + ", file of " + std::to_string(n) + " instead of " + std::to_string(full) + " bytes"; }
        else { if (key.size() < z.pk + 4) key.resize(z.pk + 4, 7); ref::to_bytes(key.data(), 4, q.oid); ref::to_bytes(&key[z.pk], 4, bad_oid(b, *p)); what = "public key with identifier of " + q.name + ", no known one behind it"; } break; }
    default: { key.resize(a.pk); if (b.below(2)) key.resize(a.pk + b.below(4)); what = "public key only"; }
    }
    std::string kf = d.put("key", key), mf = d.put("msg", m);
    refuse(t, d, "sign", {kf, mf}, std::string(pname(*p)) + ", " + what, kf);
    x.nontrivial = true; x.label(what.substr(0, what.find_first_of("0123456789"))); x.sample = nm(t, "sign") + " " + pname(*p) + ": " + what;
}
// every length of a key file
static void sign_cuts(const Case &c, Ctx &x) {
    T3 t; const ref::P *p; if (!prep(c, x, t, p)) return;
    Api a = by_oid(get(t.fast ? "fast" : "basic"), *p); Bytes b(c["cs"]); Dir d; Buf key = b.get(a.pk + a.sk); std::string mf = d.put("msg", b.get(30));
    ref::to_bytes(key.data(), 4, p->oid); ref::to_bytes(&key[a.pk], 4, p->oid); size_t n = 0;
    for (size_t len = 0; len < key.size(); len += (len < a.pk + 4 + p->idxb + 4 * p->n + 8 || len + 12 > key.size() ? 1 : 1 + b.below(c["step"]))) { std::string kf = d.put("key", Buf(key.begin(), key.begin() + len)); refuse(t, d, "sign", {kf, mf}, std::string(pname(*p)) + ", key file cut to " + std::to_string(len) + " of " + std::to_string(key.size()) + " bytes", kf); n++; }
    x.label("lengths", n); x.nontrivial = true; x.sample = nm(t, "sign") + " " + pname(*p) + ", key file of 0.." + std::to_string(key.size() - 1) + " bytes";
}
static void open_files(const Case &c, Ctx &x) {
    T3 t; const ref::P *p; if (!prep(c, x, t, p)) return;
    bool mock = t.kind == "mock"; Api a = by_oid(get(mock ? "mockbasic" : "basic"), *p); Bytes b(c["cs"]); Dir d; Buf pk, sm; std::string what;
    if (mock || c["valid"]) { synth::Synth s(a.p, b.below(1ULL << std::min(p->h, 40u)), b.next() >> 16); Buf R = b.get(p->n), m = b.get(b.below(100)); sm = s.sign(s.root, R, m); pk = s.pk(a, s.root); }
    else { pk = b.get(a.pk); ref::to_bytes(pk.data(), 4, p->oid); sm = b.get(p->sigb + b.below(100)); }
    if (b.below(2)) { Buf sk = b.get(a.sk); ref::to_bytes(sk.data(), 4, p->oid); pk.insert(pk.end(), sk.begin(), sk.end()); }
    switch (c["what"]) {
    case 0: pk.clear(); what = "empty key file"; break;
    case 1: { size_t n = c["cut"] % a.pk; pk.resize(n); what = "key file cut to " + std::to_string(n) + " of " + std::to_string(a.pk) + " bytes"; break; }
    case 2: { uint32_t id = bad_oid(b, *p); ref::to_bytes(pk.data(), 4, id); what = "identifier " + std::to_string(id); break; }
    case 3: sm.clear(); what = "empty signed message"; break;
    case 4: { size_t n = c["cut"] % p->sigb; sm.resize(n); what = "signed message cut to " + std::to_string(n) + " of " + std::to_string(p->sigb) + " signature bytes"; break; }
    case 5: { size_t n = b.below(p->sigb + 200); sm = b.get(n); what = std::to_string(n) + " arbitrary bytes as signed message"; break; }
    case 6: { size_t n = b.below(300); pk = b.get(n); if (n >= 4 && b.below(2)) ref::to_bytes(pk.data(), 4, bad_oid(b, *p)); what = std::to_string(n) + " arbitrary bytes as key file"; break; }
    case 7: { size_t n = b.below(300); pk.assign(n, b.below(2) ? 0 : 0xff); sm.assign(b.below(3000), b.below(2) ? 0 : 0xff); what = "constant bytes in both files"; break; }
    case 8: { size_t n = p->sigb - 1 - c["cut"] % 40; sm.resize(n); what = "signed message cut to " + std::to_string(n) + " of " + std::to_string(p->sigb) + " signature bytes"; break; }
    default: { ref::to_bytes(pk.data(), 4, 1 + (uint32_t)b.below(p->mt ? 56 : 21)); if (ref::to_int(pk.data(), 4) == p->oid) pk[5] ^= 1; what = "another set's identifier"; }
    }
    std::string kf = d.put("key", pk), sf = d.put("sig", sm);
    refuse(t, d, "open", {kf, sf}, std::string(pname(*p)) + ", " + what, kf);
    x.nontrivial = true; x.label(what.substr(0, what.find_first_of("0123456789"))); x.sample = nm(t, "open") + " " + pname(*p) + ": " + what;
}
// wrong arguments, missing files, folders, devices
static void args(const Case &c, Ctx &x) {
    T3 t; const ref::P *p; if (!prep(c, x, t, p)) return;
    Api a = by_oid(get(t.fast ? "fast" : "basic"), *p); Bytes b(c["cs"]); Dir d; Buf key = b.get(a.pk + a.sk); ref::to_bytes(key.data(), 4, p->oid); ref::to_bytes(&key[a.pk], 4, p->oid); memset(&key[a.pk + 4], 0, p->idxb);
    std::string kf = d.put("key", key), mf = d.put("msg", b.get(50)), none = d.file("none"), dir = d.file("dir"); mkdir(dir.c_str(), 0700); std::string empty = d.put("empty", {});
    static const char *tools[] = {"sign", "open", "keypair"}; const char *w = tools[c["tool"]]; std::vector<std::string> av; std::string what; int64_t k = c["what"];
    if (!strcmp(w, "keypair")) {
        switch (k % 4) { case 0: what = "no arguments"; break; case 1: av = {p->name, p->name}; what = "two arguments"; break; case 2: av = {""}; what = "empty name"; break; default: av = {kf}; what = "a file name"; }
    } else switch (k) {
        case 0: what = "no arguments"; break;
        case 1: av = {kf}; what = "one argument"; break;
        case 2: av = {kf, mf, mf}; what = "three arguments"; break;
        case 3: av = {none, mf}; what = "no such key file"; break;
        case 4: av = {kf, none}; what = "no such message file"; break;
        case 5: av = {dir, mf}; what = "folder as key file"; break;
        case 6: av = {kf, dir}; what = "folder as message file"; break;
        case 7: av = {empty, mf}; what = "empty key file"; break;
        case 8: av = {"/dev/null", mf}; what = "null device as key file"; break;
        case 9: av = {none, none}; what = "no such files"; break;
        case 10: av = {"", mf}; what = "empty name of the key file"; break;
        case 11: av = {kf, ""}; what = "empty name of the message file"; break;
        default: av = {mf, kf}; key[0] = 1; what = "files swapped"; { Buf z = b.get(40); ref::to_bytes(z.data(), 4, bad_oid(b, *p)); mf = d.put("msg", z); }
    }
    refuse(t, d, w, av, what, kf);
    if (slurp(none).size() || !access(none.c_str(), F_OK)) fail("%s: %s: creates a file", nm(t, w).c_str(), what.c_str());
    x.nontrivial = true; x.label(what); x.sample = nm(t, w) + ": " + what;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, std::vector<int> xs) { std::vector<Fixed> o; for (auto e : f) for (int q : xs) { e[k] = q; o.push_back(e); } return o; };
    auto any = [](const ref::P &) { return true; };
    Field cut = num("cut", 0, 1 << 30);
    auto few = [&](const ref::P &p) { return T || p.name == "XMSS-SHA2_10_256" || p.name == "XMSSMT-SHA2_20/4_256" || p.name == "XMSSMT-SHAKE256_40/2_192" || p.name == "XMSS-SHAKE_16_512"; };
    v.push_back({"sign-cuts", {seed("cs"), num("step", T ? 20 : 300, T ? 20 : 300)}, with(with(pick(few), "fast", {0, 1}), "kind", {1}), 1, 1, sign_cuts}); v.back().max_shrinks = 3; v.back().hang_s = 600;
    v.back().rule = "key files cut at every length up to the end of the fixed part and at generated ones in the traversal state";
    v.push_back({"sign-key", {seed("cs"), cut, num("what", 0, 11), num("kind", 1, 2)}, with(pick(any), "fast", {0, 1}), T ? 60 : 8, 4, sign_key}); v.back().max_shrinks = 100;
    v.back().rule = "malformed key files for the signing tools (plain and ASan builds): empty, cut, unknown identifiers, arbitrary bytes";
    v.push_back({"open", {seed("cs"), cut, num("what", 0, 9), num("valid", 0, 0)}, with(with(pick(any), "fast", {0, 1}), "kind", {0, 1}), T ? 40 : 6, 3, open_files}); v.back().max_shrinks = 100;
    v.back().rule = "malformed key files and signed messages for the verification tools";
    v.push_back({"args", {seed("cs"), num("what", 0, 12), num("tool", {{3, 0, 1}, {1, 2, 2}}), num("kind", 1, 2)}, with(pick(any), "fast", {0, 1}), T ? 40 : 6, 6, args}); v.back().max_shrinks = 60;
    v.back().rule = "wrong numbers of arguments, missing files, folders, devices";
    return v;
}
