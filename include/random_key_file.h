/* Verification stand-in for the generated random_key_file.h: an arbitrary key. */
#define DECLARE_MLLE_CR_KEY() unsigned char MLLE_CR_KEY[33]
#define MLLE_CR_KEY_LEN (32)
void vp_key_init(unsigned char *k, int n);
void vp_key_clear(unsigned char *k, int n);
#define INITIALIZE_MLLE_CR_KEY() vp_key_init(MLLE_CR_KEY, 32)
#define CLEAR_MLLE_CR_KEY() vp_key_clear(MLLE_CR_KEY, 32)
