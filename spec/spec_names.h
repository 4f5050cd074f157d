/* Algorithm names as published (Noise specification revisions 30/31 with the hfs and noidh extensions). */
typedef struct { int id; const char *name; unsigned char n; char cat; } SpName;
#define SPN(id, s, c) {id, s, sizeof(s) - 1, c}
static const SpName sp_names[] = {
    SPN(NOISE_PREFIX_STANDARD, "Noise", 'N'), SPN(NOISE_PREFIX_PSK, "NoisePSK", 'N'),
#define SPN_PREFIX 0
#define SPN_NPREFIX 2
    SPN(NOISE_DH_CURVE25519, "25519", 'D'), SPN(NOISE_DH_CURVE448, "448", 'D'), SPN(NOISE_DH_NEWHOPE, "NewHope", 'D'),
#define SPN_DH 2
#define SPN_NDH 3
    SPN(NOISE_CIPHER_CHACHAPOLY, "ChaChaPoly", 'C'), SPN(NOISE_CIPHER_AESGCM, "AESGCM", 'C'),
#define SPN_CIPHER 5
#define SPN_NCIPHER 2
    SPN(NOISE_HASH_SHA256, "SHA256", 'H'), SPN(NOISE_HASH_SHA512, "SHA512", 'H'), SPN(NOISE_HASH_BLAKE2s, "BLAKE2s", 'H'), SPN(NOISE_HASH_BLAKE2b, "BLAKE2b", 'H'),
#define SPN_HASH 7
#define SPN_NHASH 4
    SPN(NOISE_SIGN_ED25519, "Ed25519", 'S'),
    SPN(NOISE_PATTERN_N, "N", 'P'), SPN(NOISE_PATTERN_X, "X", 'P'), SPN(NOISE_PATTERN_K, "K", 'P'),
    SPN(NOISE_PATTERN_NN, "NN", 'P'), SPN(NOISE_PATTERN_NK, "NK", 'P'), SPN(NOISE_PATTERN_NX, "NX", 'P'), SPN(NOISE_PATTERN_XN, "XN", 'P'), SPN(NOISE_PATTERN_XK, "XK", 'P'), SPN(NOISE_PATTERN_XX, "XX", 'P'),
    SPN(NOISE_PATTERN_KN, "KN", 'P'), SPN(NOISE_PATTERN_KK, "KK", 'P'), SPN(NOISE_PATTERN_KX, "KX", 'P'), SPN(NOISE_PATTERN_IN, "IN", 'P'), SPN(NOISE_PATTERN_IK, "IK", 'P'), SPN(NOISE_PATTERN_IX, "IX", 'P'),
    SPN(NOISE_PATTERN_XX_FALLBACK, "XXfallback", 'P'),
    SPN(NOISE_PATTERN_X_NOIDH, "Xnoidh", 'P'), SPN(NOISE_PATTERN_NX_NOIDH, "NXnoidh", 'P'), SPN(NOISE_PATTERN_XX_NOIDH, "XXnoidh", 'P'), SPN(NOISE_PATTERN_KX_NOIDH, "KXnoidh", 'P'),
    SPN(NOISE_PATTERN_IK_NOIDH, "IKnoidh", 'P'), SPN(NOISE_PATTERN_IX_NOIDH, "IXnoidh", 'P'),
    SPN(NOISE_PATTERN_NN_HFS, "NNhfs", 'P'), SPN(NOISE_PATTERN_NK_HFS, "NKhfs", 'P'), SPN(NOISE_PATTERN_NX_HFS, "NXhfs", 'P'), SPN(NOISE_PATTERN_XN_HFS, "XNhfs", 'P'), SPN(NOISE_PATTERN_XK_HFS, "XKhfs", 'P'), SPN(NOISE_PATTERN_XX_HFS, "XXhfs", 'P'),
    SPN(NOISE_PATTERN_KN_HFS, "KNhfs", 'P'), SPN(NOISE_PATTERN_KK_HFS, "KKhfs", 'P'), SPN(NOISE_PATTERN_KX_HFS, "KXhfs", 'P'), SPN(NOISE_PATTERN_IN_HFS, "INhfs", 'P'), SPN(NOISE_PATTERN_IK_HFS, "IKhfs", 'P'), SPN(NOISE_PATTERN_IX_HFS, "IXhfs", 'P'),
    SPN(NOISE_PATTERN_XX_FALLBACK_HFS, "XXfallback+hfs", 'P'),
    SPN(NOISE_PATTERN_NX_NOIDH_HFS, "NXnoidh+hfs", 'P'), SPN(NOISE_PATTERN_XX_NOIDH_HFS, "XXnoidh+hfs", 'P'), SPN(NOISE_PATTERN_KX_NOIDH_HFS, "KXnoidh+hfs", 'P'),
    SPN(NOISE_PATTERN_IK_NOIDH_HFS, "IKnoidh+hfs", 'P'), SPN(NOISE_PATTERN_IX_NOIDH_HFS, "IXnoidh+hfs", 'P'),
};
#define SPN_PATTERN 12
#define SPN_TOTAL ((int)(sizeof sp_names / sizeof sp_names[0]))
