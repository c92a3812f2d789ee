// Makes the k-th call into the crypto library fail. Linked with -Wl,--wrap=F.
#include "common.h"
#include <unordered_map>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
// Provided by the sanitizers' run-time libraries, where there is one.
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace mem {
thread_local int g_lib = 0;
static thread_local bool g_in = false;
static bool g_on = false, g_installed = false;
static long g_held = 0;
static std::unordered_map<const volatile void*, size_t>* g_map = nullptr;
static void OnMalloc(const volatile void* p, size_t n) {
  if (!g_on || g_in || g_lib <= 0) return;
  g_in = true;
  (*g_map)[p] = n;
  g_held += n;
  g_in = false;
}
static void OnFree(const volatile void* p) {
  if (!g_on || g_in) return;
  g_in = true;
  auto it = g_map->find(p);
  if (it != g_map->end()) { g_held -= it->second; g_map->erase(it); }
  g_in = false;
}
void Start() {
  g_on = false;
  if (!g_map) g_map = new std::unordered_map<const volatile void*, size_t>();
  g_map->clear();
  g_held = 0;
  if (!g_installed && &__sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree); g_installed = true; }
  g_on = true;
}
long Held() { return g_held; }
long Total() { return &__sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
}  // namespace mem
namespace fault {
void Clear() { ERR_clear_error(); }
static thread_local int g_k = -1;
static thread_local bool g_armed = false, g_fired = false;
static thread_local int g_calls = 0;
static thread_local bool g_hmac = false, g_fired_hmac = false;
void Arm(int k) { mem::g_lib = 1; g_k = k; g_armed = true; g_calls = 0; g_fired = false; g_hmac = g_fired_hmac = false; }
int Disarm() { mem::g_lib = 0; g_armed = false; return g_calls; }
bool Fired() { return g_fired; }
bool FiredInDerivation() { return g_fired && g_fired_hmac; }
void (*g_point)() = nullptr;   // called at every call into the library
static bool Hit(const char* name) {
  if (g_point) g_point();
  if (!g_armed) return false;
  if (name[0] == 'H') g_hmac = true;
  bool h = g_calls == g_k;
  g_calls++;
  if (h) { g_fired = true; g_fired_hmac = g_hmac; }
  return h;
}
}  // namespace fault
#define W(ret, name, params, args)        \
  ret __real_##name params;               \
  ret __wrap_##name params {              \
    if (fault::Hit(#name)) return 0;           \
    return __real_##name args;            \
  }
extern "C" {
#ifdef OPENSSL_IS_BORINGSSL
W(int, HMAC_Init_ex, (HMAC_CTX * c, const void* k, size_t n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
W(uint8_t*, HMAC, (const EVP_MD* m, const void* k, size_t n, const uint8_t* d, size_t dn, uint8_t* o, unsigned* on), (m, k, n, d, dn, o, on))
W(int, EVP_AEAD_CTX_seal, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* on, size_t mx, const uint8_t* n, size_t nn, const uint8_t* i, size_t in, const uint8_t* a, size_t an), (c, o, on, mx, n, nn, i, in, a, an))
W(int, EVP_AEAD_CTX_open, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* on, size_t mx, const uint8_t* n, size_t nn, const uint8_t* i, size_t in, const uint8_t* a, size_t an), (c, o, on, mx, n, nn, i, in, a, an))
W(EVP_AEAD_CTX*, EVP_AEAD_CTX_new, (const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t), (a, k, n, t))
W(int, EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * c, int t, int a, void* p), (c, t, a, p))
#else
W(int, HMAC_Init_ex, (HMAC_CTX * c, const void* k, int n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e))
W(unsigned char*, HMAC, (const EVP_MD* m, const void* k, int n, const unsigned char* d, size_t dn, unsigned char* o, unsigned* on), (m, k, n, d, dn, o, on))
W(int, EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * c, int t, int a, void* p), (c, t, a, p))
#endif
W(HMAC_CTX*, HMAC_CTX_new, (void), ())
W(EVP_CIPHER_CTX*, EVP_CIPHER_CTX_new, (void), ())
W(int, HMAC_Update, (HMAC_CTX * c, const unsigned char* d, size_t n), (c, d, n))
W(int, HMAC_Final, (HMAC_CTX * c, unsigned char* o, unsigned* n), (c, o, n))
W(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX * c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i))
W(int, EVP_DecryptInit_ex, (EVP_CIPHER_CTX * c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i))
W(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX * c, unsigned char* o, int* on, const unsigned char* i, int n), (c, o, on, i, n))
W(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX * c, unsigned char* o, int* on, const unsigned char* i, int n), (c, o, on, i, n))
W(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* on), (c, o, on))
W(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* on), (c, o, on))
}
