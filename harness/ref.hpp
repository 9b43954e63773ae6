// Independent model of XMSS / XMSS^MT written from RFC 8391 and SP 800-208 (recursive, no shared code with
// the library under test). Hashing: OpenSSL for SHA-2, an own bitwise-simple Keccak for SHAKE that is compared
// with OpenSSL's EVP at start-up.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {
using Buf = std::vector<uint8_t>;
enum Func { SHA2 = 0, SHAKE128 = 1, SHAKE256 = 2 };

struct P {                        // parameter set
    int func = SHA2; unsigned n = 32, w = 16, h = 10, d = 1, k = 0;
    unsigned pad, logw, len1, len2, len, th, idxb, sigb;
    bool mt = false;              // XMSS^MT name space
    uint32_t oid = 0; std::string name;
    bool mock = false;
    void derive();
};
P make(int func, unsigned n, unsigned w, unsigned h, unsigned d, unsigned k = 0);
const std::vector<P> &standard();              // all 21 + 56 parameter sets
const P *by_oid(bool mt, uint32_t oid);

using Addr = uint32_t[8];
void hash(const P &p, uint8_t *out, const uint8_t *in, size_t len);
void shake(unsigned rate, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void to_bytes(uint8_t *out, unsigned len, uint64_t v);     // toByte
uint64_t to_int(const uint8_t *in, unsigned len);
void prf(const P &, uint8_t *out, const uint8_t in[32], const uint8_t *key);
void prf_keygen(const P &, uint8_t *out, const uint8_t *seed, const uint32_t adrs[8], const uint8_t *key);
void F(const P &, uint8_t *out, const uint8_t *in, const uint8_t *seed, const uint32_t adrs[8]);
void H(const P &, uint8_t *out, const uint8_t *l, const uint8_t *r, const uint8_t *seed, const uint32_t adrs[8]);
void hmsg(const P &, uint8_t *out, const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, size_t mlen);

void chain(const P &, uint8_t *out, const uint8_t *in, unsigned start, unsigned steps, const uint8_t *seed, const uint32_t ots[8], unsigned i);
std::vector<unsigned> digits(const P &, const uint8_t *digest);    // len chain positions incl. checksum
Buf wots_sk(const P &, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]);
Buf wots_pk(const P &, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]);
Buf wots_sig(const P &, const uint8_t *digest, const uint8_t *skseed, const uint8_t *seed, const uint32_t ots[8]);
Buf wots_pk_from_sig(const P &, const uint8_t *sig, const uint8_t *digest, const uint8_t *seed, const uint32_t ots[8]);
Buf ltree(const P &, Buf pk, const uint8_t *seed, const uint32_t layer, uint64_t tree, uint32_t leaf);
void ots_addr(uint32_t a[8], uint32_t layer, uint64_t tree, uint32_t leaf);

// Key with cached trees.
struct Key {
    P p; Buf skseed, skprf, seed, root;
    Key(const P &p, const Buf &skseed, const Buf &skprf, const Buf &seed);   // root is not computed
    const Buf &compute_root();
    const uint8_t *node(unsigned layer, uint64_t tree, unsigned height, uint64_t i);
    Buf leaf(unsigned layer, uint64_t tree, uint32_t i);
    Buf sign(uint64_t idx, const uint8_t *m, size_t mlen);          // signature without message
    Buf prefix(uint64_t idx, const uint8_t *m, size_t mlen);        // idx || R || WOTS signature of layer 0
    Buf digest(uint64_t idx, const uint8_t *m, size_t mlen, Buf *R = nullptr);
  private:
    struct Tree { uint64_t id = ~0ULL; Buf nodes; uint64_t sig_id = ~0ULL; Buf sig; };
    std::vector<std::map<uint64_t, Tree>> trees;
    Tree &tree(unsigned layer, uint64_t id);
};

// Root a signature implies (what verification must compare with the public key).
Buf root_from_sig(const P &, const uint8_t *sig, const uint8_t *pkroot, const uint8_t *pkseed, const uint8_t *m, size_t mlen);

bool selftest(std::string &why);      // own Keccak and SHA wrappers against EVP
} // namespace ref
