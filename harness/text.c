/* C18: text queries */
#include "common.h"
#define BIG 220
static unsigned long len(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
static char big[BIG];

/* the text `full` must have been copied, truncated and padded, into buf[0..size), guard bytes intact */
static void check_copy(const char *buf, unsigned long size, const char *full, unsigned long total) {
    unsigned long n = len(full);
    for (unsigned long i = 0; i < total; i++) {
        if (i >= size) V_check(buf[i] == (char)0x5a, "nothing written past the buffer");
        else if (i == size - 1) V_check(buf[i] == 0, "the text is terminated");
        else V_check(buf[i] == (i < n ? full[i] : 0), "the text is copied, truncated to what fits and padded");
    }
}
static void fill(char *b, unsigned long n) { for (unsigned long i = 0; i < n; i++) b[i] = (char)0x5a; }
static int has(const char *s, const char *w) {
    for (; *s; s++) { unsigned long i = 0; while (w[i] && s[i] == w[i]) i++; if (!w[i]) return 1; }
    return 0;
}

/* every size up to the bound (symbolic), in a guarded buffer */
static char guarded[BIG + 16];
void h_version(void) {
    int mx = V_param("max", 130), which = V_choose(0, 1, "which");
    unsigned long size = V_ulong("size");
    V_assume(size <= (unsigned long)mx);
    const char *full = which ? LICENSE : VERSION;
    fill(guarded, (unsigned long)mx + 16);
    if (which) libspot_license(guarded + 8, size);
    else libspot_version(guarded + 8, size);
    size = V_concrete(size);
    for (int i = 0; i < 8; i++) V_check(guarded[i] == (char)0x5a, "nothing written before the buffer");
    check_copy(guarded + 8, size, full, (unsigned long)mx + 8);
    V_cover("copied");
}
static const char *key(int code) {
    return code == 1000 ? "lloc" : code == 1001 ? "level" : code == 1002 ? " q " : code == 1003 ? "excess" : code == 1004 ? "anomaly" : "NaN";
}
void h_message(void) {
    int code = V_choose(1000, 1005, "code");
    fill(big, BIG);
    libspot_error((enum LibspotError)code, big, BIG);
    if (code == ERR_DATA_IS_NAN) V_check(big[0] != (char)0x5a && big[0] != 0, "the NaN-data error code has a message");
    V_check(big[0] != (char)0x5a && big[0] != 0, "every defined error code has a non-empty message");
    V_check(big[BIG - 1] == 0, "the message is terminated");
    V_check(has(big, key(code)), "the message is the one of its error code");
    if (code == 1001) V_check(!has(big, " q "), "the message is the one of its error code");
    for (int o = 1000; o < 1005; o++) {
        char other[BIG];
        fill(other, BIG);
        libspot_error((enum LibspotError)o, other, BIG);
        int same = 1;
        for (int i = 0; i < BIG && same; i++) if (big[i] != other[i]) same = 0;
        V_check(same == (o == code), "messages are distinct");
    }
    V_cover("message");
}
void h_error(void) {
    int mx = V_param("max", 130), code = V_choose(1000, 1004, "code");
    unsigned long size = V_ulong("size");
    V_assume(size <= (unsigned long)mx);
    fill(big, BIG);
    libspot_error((enum LibspotError)code, big, BIG);
    V_check(big[BIG - 1] == 0, "the message is terminated");
    fill(guarded, (unsigned long)mx + 16);
    libspot_error((enum LibspotError)code, guarded + 8, size);
    size = V_concrete(size);
    for (int i = 0; i < 8; i++) V_check(guarded[i] == (char)0x5a, "nothing written before the buffer");
    check_copy(guarded + 8, size, big, (unsigned long)mx + 8);
    V_cover("copied");
}
/* any other code: the buffer is left alone */
void h_unknown(void) {
    int code = V_int("code");
    char b[16];
    fill(b, 16);
    V_assume(code < 1000 || code > 1005);
    libspot_error((enum LibspotError)code, b, 16);
    for (int i = 0; i < 16; i++) V_check(b[i] == (char)0x5a, "unknown error codes leave the buffer untouched");
    V_cover("unknown");
}
/* null buffer: nothing happens */
void h_null(void) {
    unsigned long size = V_ulong("size");
    int code = V_int("code");
    libspot_error((enum LibspotError)code, 0, size);
    libspot_version(0, size);
    libspot_license(0, size);
    V_cover("null");
}
/* the codes are the documented ones */
void h_codes(void) {
    V_check(ERR_MEMORY_ALLOCATION_FAILED == 1000 && ERR_LEVEL_OUT_OF_BOUNDS == 1001 && ERR_Q_OUT_OF_BOUNDS == 1002 && ERR_EXCESS_THRESHOLD_IS_NAN == 1003 &&
            ERR_ANOMALY_THRESHOLD_IS_NAN == 1004 && ERR_DATA_IS_NAN == 1005, "error codes keep their values");
    V_cover("codes");
}
