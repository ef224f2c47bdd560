// AESSetEncryptKey + AESEcbEncryptBlks against OpenSSL's AES-128-ECB
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <random>
#include <openssl/evp.h>
#include "crypto/aes.h"
#include "crypto/block.h"
int main(int argc, char** argv) {
  std::mt19937_64 g(argc > 1 ? atoi(argv[1]) : 1); int fails = 0;
  for (int it = 0; it < 20000; it++) {
    alignas(16) uint64_t key[2] = {g(), g()}; if (it == 0) key[0] = key[1] = 0;
    int n = 1 + it % 8; alignas(16) block b[8], c[8]; for (int i = 0; i < 8; i++) { uint64_t w[2] = {g(), g()}; memcpy(&b[i], w, 16); c[i] = b[i]; }
    AES_KEY k; memset(&k, 0xa5, sizeof k); AESSetEncryptKey((unsigned char*)key, 128, &k);
    AESEcbEncryptBlks(b, n, &k);
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, EVP_aes_128_ecb(), 0, (unsigned char*)key, 0); EVP_CIPHER_CTX_set_padding(x, 0);
    unsigned char o[160]; int l; EVP_EncryptUpdate(x, o, &l, (unsigned char*)c, 16 * n); EVP_CIPHER_CTX_free(x);
    if (memcmp(o, b, 16 * n) || memcmp(b + n, c + n, 16 * (8 - n))) { if (fails++ < 5) printf("FAIL AES differs from OpenSSL AES-128-ECB: key=%016lx%016lx n=%d\n", key[1], key[0], n); }
  }
  printf("aes: %d failing inputs\n", fails); return fails ? 1 : 0;
}
