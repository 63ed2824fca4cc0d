// Failures of SSL library calls, injected by the linker's --wrap; shared by fault.cc and diag.cc.
#ifndef VERIF_HARNESS_FAULTS_H_
#define VERIF_HARNESS_FAULTS_H_
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif

#include "harness/h.h"
using namespace h;

struct Inj {
  bool armed = false;
  long calls = 0;
  long at[2] = {-1, -1};
  int mode[2] = {0, 0};  // 0: fails without doing anything; 1: fails after doing its work
  bool hard = false;     // a fault that the current operation must report has fired
  int fired = 0;
  long start = 0, first = -1;  // of the current operation: its first call, its first reported fault
  const char* names[2] = {"", ""};
  std::vector<const char*> log;
  void Reset(long a, int ma, long b, int mb) {
    calls = 0; at[0] = a; at[1] = b; mode[0] = ma; mode[1] = mb; fired = 0; hard = false; armed = false; log.clear();
  }
  // The current operation's first fault came after key derivation had begun.
  bool InUpdate() const {
    for (long i = start; i <= first; i++) if (!strncmp(log[i], "HMAC", 4)) return true;
    return false;
  }
} g;
// 0: run normally, 1: fail at once, 2: work, then fail
static int Hit(const char* name, bool reported = true) {
  if (!g.armed) return 0;
  long i = g.calls++;
  g.log.push_back(name);
  for (int k = 0; k < 2; k++)
    if (g.at[k] == i) {
      g.names[k] = name;
      g.fired++;
      if (reported) { if (!g.hard) g.first = i; g.hard = true; }
      return 1 + g.mode[k];
    }
  return 0;
}
// Runs one operation with the faults armed; true if it must report an error.
template <class Fn>
static bool During(Fn f) {
  g.hard = false;
  g.start = g.calls;
  g.first = -1;
  g.armed = true;
  f();
  g.armed = false;
  Count("operations");
  return g.hard;
}

extern "C" {
#define WRAP_INT(name, params, args)               \
  int __real_##name params;                        \
  int __wrap_##name params {                       \
    int h = Hit(#name);                            \
    if (h == 0) return __real_##name args;         \
    if (h == 2) (void)__real_##name args;          \
    return 0;                                      \
  }
WRAP_INT(EVP_EncryptInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv))
WRAP_INT(EVP_DecryptInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv))
WRAP_INT(EVP_CipherInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv, int enc), (c, t, e, k, iv, enc))
WRAP_INT(EVP_EncryptUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il))
WRAP_INT(EVP_DecryptUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il))
WRAP_INT(EVP_CipherUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il))
WRAP_INT(EVP_EncryptFinal_ex, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol), (c, o, ol))
WRAP_INT(EVP_DecryptFinal_ex, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol), (c, o, ol))
WRAP_INT(EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX* c, int t, int a, void* p), (c, t, a, p))
WRAP_INT(HMAC_Update, (HMAC_CTX* c, const unsigned char* d, size_t n), (c, d, n))
WRAP_INT(HMAC_Final, (HMAC_CTX* c, unsigned char* o, unsigned int* n), (c, o, n))
#ifdef OPENSSL_IS_BORINGSSL
WRAP_INT(HMAC_Init_ex, (HMAC_CTX* c, const void* k, size_t n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
#else
WRAP_INT(HMAC_Init_ex, (HMAC_CTX* c, const void* k, int n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
#endif
EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new();
EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new() { return Hit("EVP_CIPHER_CTX_new") ? nullptr : __real_EVP_CIPHER_CTX_new(); }
HMAC_CTX* __real_HMAC_CTX_new();
HMAC_CTX* __wrap_HMAC_CTX_new() { return Hit("HMAC_CTX_new") ? nullptr : __real_HMAC_CTX_new(); }
BIO* __real_BIO_new(const BIO_METHOD* m);
BIO* __wrap_BIO_new(const BIO_METHOD* m) { return Hit("BIO_new", false) ? nullptr : __real_BIO_new(m); }
#ifdef OPENSSL_IS_BORINGSSL
EVP_AEAD_CTX* __real_EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t);
EVP_AEAD_CTX* __wrap_EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t) {
  return Hit("EVP_AEAD_CTX_new") ? nullptr : __real_EVP_AEAD_CTX_new(a, k, n, t);
}
// On failure BoringSSL leaves max_out_len zero bytes in out.
#define WRAP_AEAD(name)                                                                                                            \
  int __real_##name(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t ml, const uint8_t* n, size_t nl, const uint8_t* i,       \
                    size_t il, const uint8_t* a, size_t al);                                                                       \
  int __wrap_##name(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t ml, const uint8_t* n, size_t nl, const uint8_t* i,       \
                    size_t il, const uint8_t* a, size_t al) {                                                                      \
    int h = Hit(#name);                                                                                                            \
    if (h == 0) return __real_##name(c, o, ol, ml, n, nl, i, il, a, al);                                                           \
    if (ml) memset(o, 0, ml);                                                                                                      \
    *ol = 0;                                                                                                                       \
    return 0;                                                                                                                      \
  }
WRAP_AEAD(EVP_AEAD_CTX_seal)
WRAP_AEAD(EVP_AEAD_CTX_open)
#endif
}
#endif
