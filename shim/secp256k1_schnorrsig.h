// Adapts the installed libsecp256k1 (0.2.0) to the calls the repository makes:
// it was written against an earlier revision of the experimental module.
#ifndef VERIF_SHIM_SCHNORR
#define VERIF_SHIM_SCHNORR
#include_next <secp256k1_schnorrsig.h>
#ifdef __cplusplus
static inline int secp256k1_schnorrsig_sign(const secp256k1_context* ctx,
                                            unsigned char* sig64,
                                            const unsigned char* msg32,
                                            const secp256k1_keypair* keypair,
                                            std::nullptr_t,
                                            std::nullptr_t) {
    return secp256k1_schnorrsig_sign32(ctx, sig64, msg32, keypair, nullptr);
}
static inline int secp256k1_schnorrsig_verify(const secp256k1_context* ctx,
                                              const unsigned char* sig64,
                                              const unsigned char* msg32,
                                              const secp256k1_xonly_pubkey* pk) {
    return secp256k1_schnorrsig_verify(ctx, sig64, msg32, 32, pk);
}
#endif
#endif
