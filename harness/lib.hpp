// Access to builds of the library under test (dlopen, one .so per flavour), guard-page buffers, the scripted
// random source, and uniform wrappers over the OID interface and the core interface with custom parameters.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "engine.hpp"
#include "ref.hpp"
extern "C" {
#include "params.h"
}

namespace lib {
using u8 = unsigned char;
using ull = unsigned long long;
using Buf = std::vector<uint8_t>;

struct Lib {
    std::string name; void *h = nullptr; bool fast = false, mock = false, mock_ok = false;
    // xmss.h
    int (*xmss_keypair)(u8 *, u8 *, const uint32_t);
    int (*xmss_sign)(u8 *, u8 *, ull *, const u8 *, ull);
    int (*xmss_sign_open)(u8 *, ull *, const u8 *, ull, const u8 *);
    int (*xmssmt_keypair)(u8 *, u8 *, const uint32_t);
    int (*xmssmt_sign)(u8 *, u8 *, ull *, const u8 *, ull);
    int (*xmssmt_sign_open)(u8 *, ull *, const u8 *, ull, const u8 *);
    // params.h
    int (*xmss_str_to_oid)(uint32_t *, const char *);
    int (*xmssmt_str_to_oid)(uint32_t *, const char *);
    int (*xmss_parse_oid)(xmss_params *, const uint32_t);
    int (*xmssmt_parse_oid)(xmss_params *, const uint32_t);
    int (*initialize_params)(xmss_params *);
    ull (*sk_bytes)(const xmss_params *);
    // xmss_core.h
    int (*core_keypair[2])(const xmss_params *, u8 *, u8 *);
    int (*core_sign[2])(const xmss_params *, u8 *, u8 *, ull *, const u8 *, ull);
    int (*core_open[2])(const xmss_params *, u8 *, ull *, const u8 *, ull, const u8 *);
    int (*core_seed_keypair)(const xmss_params *, u8 *, u8 *, u8 *) = nullptr;
    // hash.h, wots.h, fips202.h, utils.h, xmss_commons.h (null where the tree does not offer them as declared)
    int (*prf)(const xmss_params *, u8 *, const u8 *, const u8 *) = nullptr;
    int (*prf_keygen)(const xmss_params *, u8 *, const u8 *, const u8 *) = nullptr;
    int (*thash_h)(const xmss_params *, u8 *, const u8 *, const u8 *, uint32_t *) = nullptr;
    int (*thash_f)(const xmss_params *, u8 *, const u8 *, const u8 *, uint32_t *) = nullptr;
    int (*hash_message)(const xmss_params *, u8 *, const u8 *, const u8 *, ull, u8 *, ull) = nullptr;
    void (*wots_pkgen)(const xmss_params *, u8 *, const u8 *, const u8 *, uint32_t *) = nullptr;
    void (*wots_sign)(const xmss_params *, u8 *, const u8 *, const u8 *, const u8 *, uint32_t *) = nullptr;
    void (*wots_pk_from_sig)(const xmss_params *, u8 *, const u8 *, const u8 *, const u8 *, uint32_t *) = nullptr;
    void (*gen_leaf_wots)(const xmss_params *, u8 *, const u8 *, const u8 *, uint32_t *, uint32_t *) = nullptr;
    void (*shake128)(u8 *, ull, const u8 *, ull) = nullptr;
    void (*shake256)(u8 *, ull, const u8 *, ull) = nullptr;
    void (*ull_to_bytes)(u8 *, unsigned, ull) = nullptr;
    ull (*bytes_to_ull)(const u8 *, unsigned) = nullptr;
    void (*randombytes)(u8 *, ull) = nullptr;
    // shim / mock
    void (*set_rng)(void (*)(u8 *, ull)) = nullptr;
    ull *mock_calls = nullptr; void (**yield)() = nullptr, (**mock_yield)() = nullptr;   // called inside the hash functions ("yield" builds)
    void (**wots_log)(const uint32_t *, const u8 *, unsigned) = nullptr;
};
Lib load(const std::string &path, const std::string &flavour);   // a copy of its own (not probed)
const Lib &get(const std::string &flavour);      // "basic", "fast", "mockbasic", "mockfast" (loaded on first use)
bool mocks_reached();                           // found out in a process of its own
void more_real(std::vector<eng::Stage> &v, int times);   // where they are not, the stages with real hashing get more cases
void probe_mock(const std::string &flavour);     // sets mock_ok

// ---------------------------------------------------------------- scripted random source (all flavours)
struct Rng {
    static void seed(uint64_t s);                // restarts the stream
    static void fixed(const Buf &b);             // hands out exactly these bytes, then the seeded stream
    static const Buf &drawn();                   // everything handed out since seed()/fixed()
    static const std::vector<size_t> &calls();   // sizes of the requests
};

// ---------------------------------------------------------------- a key's interface
struct Api {
    const Lib *L = nullptr; ref::P p; xmss_params prm{}; bool oid = false;  // oid: through xmss.h
    unsigned off = 0;                            // bytes of OID prefix in pk and sk
    int family = 0;                              // 0 XMSS, 1 XMSS^MT
    size_t sig, pk, sk;                          // sizes; pk and sk with prefix
    int keypair(u8 *pk, u8 *sk) const;
    int sign(u8 *sk, u8 *sm, ull *smlen, const u8 *m, ull mlen) const;
    int open(u8 *m, ull *mlen, const u8 *sm, ull smlen, const u8 *pk) const;
    uint64_t index(const u8 *sk) const { return ref::to_int(sk + off, p.idxb); }
    void set_index(u8 *sk, uint64_t i) const { ref::to_bytes(sk + off, p.idxb, i); }
};
Api by_oid(const Lib &, const ref::P &p);
Api custom(const Lib &, const ref::P &p);        // core functions with a hand-filled parameter structure
Api api(const Lib &, const ref::P &p);           // by_oid when p.oid != 0
xmss_params lib_params(const Lib &, const ref::P &p);

// Key pair made by the library from the given seeds, whatever number of draws it uses.
struct KeyPair { Buf pk, sk; };
KeyPair make_key(const Api &, uint64_t seed);
// The same secret key layout without spending key generation time: only for the plain signer and for verification.
KeyPair plain_key(const Api &, ref::Key &k, uint64_t idx);
ref::Key model_of(const Api &, const u8 *sk);    // seeds taken from the documented positions

// ---------------------------------------------------------------- memory
// A buffer with inaccessible pages around it; the data touches one of them, the slack carries a pattern.
class Guard {
  public:
    Guard(size_t n, bool front = false, int fill = 0xA5);
    ~Guard();
    Guard(const Guard &) = delete;
    u8 *p; size_t n;
    bool slack_ok() const;
    void set(const void *src, size_t len) { if (len) __builtin_memcpy(p, src, len); }
    Buf copy() const { return Buf(p, p + n); }
    void readonly(bool on);
  private:
    u8 *map; size_t maplen, pages; u8 *lo; size_t lolen; u8 *hi; size_t hilen;
};
// A large area whose pages all show the same block of memory (so it needs no memory of its own), with private pages at
// both ends.
class Repeat {
  public:
    Repeat(size_t n, size_t block = 16 << 20, size_t ends = 1 << 16);
    ~Repeat();
    Repeat(const Repeat &) = delete;
    u8 *p; size_t n;
  private:
    size_t len; int fd;
};
// Runs f; returns false when it hit an inaccessible page (the fault address goes to *addr).
bool guarded(const std::function<void()> &f, void **addr = nullptr);

std::vector<eng::Fixed> strata_standard(bool mt_too = true);   // field "ps": position in ref::standard()
const char *pname(const ref::P &p);
// Indices biased to subtree boundaries and the ends of the lifetime. Fields "im", "ia", "ib".
std::vector<eng::Field> index_fields();
uint64_t last_index(const ref::P &p);            // last index that signs
uint64_t pick_index(const ref::P &p, const eng::Case &c);
uint64_t tree_mask(const ref::P &p);
unsigned crossings(const ref::P &p, uint64_t idx);   // layers whose tree ends with this index
// Message lengths: small, around hash blocks, larger. Fields "ml", "ms" (content seed).
std::vector<eng::Field> message_fields(int64_t max = 2000);
Buf message(const eng::Case &c);
void model_ready();                              // ends the process when the model disagrees with OpenSSL
ref::Key &cached_key(const ref::P &p, uint64_t seed);   // model key with seeds expanded from seed (cached)
} // namespace lib
