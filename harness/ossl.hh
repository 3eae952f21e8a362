// Independent signature implementation (OpenSSL) used as reference.  PBT_LIB(crypto)
#pragma once
#include "model.hh"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>

namespace ossl {
using pbt::Bytes;
static inline const EVP_MD *md(unsigned kind) { return kind == 1 ? EVP_sha256() : kind == 2 ? EVP_sha384() : EVP_sha512(); }
static inline EVP_PKEY *load(const std::string &base, bool priv)
{
    static std::map<std::string, EVP_PKEY *> cache;
    std::string f = model::keydir() + base + (priv ? ".p8.pem" : ".pub.pem");
    auto it = cache.find(f);
    if (it != cache.end())
        return it->second;
    FILE *fp = fopen(f.c_str(), "r");
    EVP_PKEY *k = fp ? (priv ? PEM_read_PrivateKey(fp, nullptr, nullptr, nullptr) : PEM_read_PUBKEY(fp, nullptr, nullptr, nullptr)) : nullptr;
    if (fp)
        fclose(fp);
    if (!k)
        FAILF("harness: cannot load %s", f.c_str());
    return cache[f] = k;
}
static inline bool verify(const std::string &key, unsigned kind, const Bytes &digest, const Bytes &sig)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(load(key, false), nullptr);
    bool ok = EVP_PKEY_verify_init(c) == 1 && EVP_PKEY_CTX_set_signature_md(c, md(kind)) == 1 &&
              EVP_PKEY_verify(c, sig.data(), sig.size(), digest.data(), digest.size()) == 1;
    EVP_PKEY_CTX_free(c);
    return ok;
}
static inline Bytes sign(const std::string &key, unsigned kind, const Bytes &digest)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(load(key, true), nullptr);
    Bytes s(1024);
    size_t n = s.size();
    bool ok = EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_CTX_set_signature_md(c, md(kind)) == 1 &&
              EVP_PKEY_sign(c, s.data(), &n, digest.data(), digest.size()) == 1;
    EVP_PKEY_CTX_free(c);
    if (!ok)
        FAILF("harness: reference signing with %s failed", key.c_str());
    s.resize(n);
    return s;
}
} // namespace ossl
