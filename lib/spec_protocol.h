/* Specification of the command set, written from doc/SEMLA.md (not from the code). */
#ifndef SPEC_PROTOCOL_H
#define SPEC_PROTOCOL_H
#include "mlle_protocol.h"
enum spec_form { SF_SIMPLE = 1, SF_NUMBER = 2, SF_LENGTH = 3, SF_NUMLEN = 4 };
struct spec_cmd { enum mlle_protocol_command_id id; enum spec_form form; const char *name; unsigned len; };
#define SPEC_NCMD 14
static const struct spec_cmd spec_cmds[SPEC_NCMD] = {
    { MLLE_PROTOCOL_NOTSIMPLE_CMD, SF_SIMPLE, "NOTSIMPLE", 9 },
    { MLLE_PROTOCOL_TOOLS_CMD, SF_SIMPLE, "TOOLS", 5 },
    { MLLE_PROTOCOL_YES_CMD, SF_SIMPLE, "YES", 3 },
    { MLLE_PROTOCOL_VERSION_CMD, SF_NUMBER, "VERSION", 7 },
    { MLLE_PROTOCOL_FEATURE_CMD, SF_LENGTH, "FEATURE", 7 },
    { MLLE_PROTOCOL_FILE_CMD, SF_LENGTH, "FILE", 4 },
    { MLLE_PROTOCOL_FILECONT_CMD, SF_LENGTH, "FILECONT", 8 },
    { MLLE_PROTOCOL_LIB_CMD, SF_LENGTH, "LIB", 3 },
    { MLLE_PROTOCOL_LICENSE_CMD, SF_LENGTH, "LICENSE", 7 },
    { MLLE_PROTOCOL_NO_CMD, SF_LENGTH, "NO", 2 },
    { MLLE_PROTOCOL_RETURNFEATURE_CMD, SF_LENGTH, "RETURNFEATURE", 13 },
    { MLLE_PROTOCOL_RETURNLICENSE_CMD, SF_LENGTH, "RETURNLICENSE", 13 },
    { MLLE_PROTOCOL_TOOLLIST_CMD, SF_LENGTH, "TOOLLIST", 8 },
    { MLLE_PROTOCOL_ERROR_CMD, SF_NUMLEN, "ERROR", 5 },
};
#define SPEC_MAXNAME 13
static inline int spec_ntokens(enum spec_form f) { return f == SF_SIMPLE ? 1 : f == SF_NUMLEN ? 3 : 2; }
/* index of the command whose name is the n bytes at w, or -1 */
static inline int spec_find(const char *w, size_t n)
{
    int r = -1;
    for (int c = 0; c < SPEC_NCMD; c++) {
        if (n != spec_cmds[c].len) continue;
        int eq = 1;
        for (unsigned i = 0; i < SPEC_MAXNAME; i++) if (i < spec_cmds[c].len && w[i] != spec_cmds[c].name[i]) eq = 0;
        if (eq) r = c;
    }
    return r;
}
static inline int spec_index(enum mlle_protocol_command_id id)
{ for (int c = 0; c < SPEC_NCMD; c++) if (spec_cmds[c].id == id) return c; return -1; }
#endif
