/* Verification stand-in for the generated public_key_tool.h: the same macros, the
 * keys supplied by the harness (1 to 4 keys, any text). */
#ifndef VP_PUBLIC_KEY_TOOL_H
#define VP_PUBLIC_KEY_TOOL_H
#define VP_TOOL_MAX 4
#ifdef VP_E2E
#define VP_TOOL_LEN 1000
#else
#define VP_TOOL_LEN 64
#endif
extern int vp_tool_num;
void vp_tool_init(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]);
void vp_tool_clear(unsigned char k[VP_TOOL_MAX][VP_TOOL_LEN]);
#define PUBLIC_KEY_TOOL_NUM vp_tool_num
#define DECLARE_PUBLIC_KEY_TOOL() unsigned char vp_pk_[VP_TOOL_MAX][VP_TOOL_LEN]; unsigned char *PUBLIC_KEY_TOOL[] = { vp_pk_[0], vp_pk_[1], vp_pk_[2], vp_pk_[3], 0 }
#define INITIALIZE_PUBLIC_KEY_TOOL() vp_tool_init(vp_pk_)
#define CLEAR_PUBLIC_KEY_TOOL() vp_tool_clear(vp_pk_)
#endif
