/* the cipher a job is not about */
#include "vf.h"
#include <noise/protocol.h>
#if CIPHER == 1
NoiseCipherState *noise_aesgcm_new_ref(void) { return 0; }
NoiseCipherState *noise_aesgcm_new_sodium(void) { return 0; }
#if defined(USE_LIBSODIUM)
int crypto_aead_aes256gcm_is_available_(void) { return 0; }
#endif
#else
NoiseCipherState *noise_chachapoly_new(void) { return 0; }
#endif
