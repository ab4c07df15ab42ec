/* Verification stand-in for the generated private_key_lve.h. */
void vp_key_init(unsigned char *k, int n);
void vp_key_clear(unsigned char *k, int n);
#ifdef VP_E2E
#define PRIVATE_KEY_LVE_LEN (3999)
#else
#define PRIVATE_KEY_LVE_LEN (32)
#endif
#define DECLARE_PRIVATE_KEY_LVE() unsigned char PRIVATE_KEY_LVE[PRIVATE_KEY_LVE_LEN + 1]
#define INITIALIZE_PRIVATE_KEY_LVE() vp_key_init(PRIVATE_KEY_LVE, PRIVATE_KEY_LVE_LEN)
#define CLEAR_PRIVATE_KEY_LVE() vp_key_clear(PRIVATE_KEY_LVE, PRIVATE_KEY_LVE_LEN)
