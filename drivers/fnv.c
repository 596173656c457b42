/* Drives zt_hash. */
#include <zt.h>
#include <libzt/zt_hash.h>
#include "vp_args.h"
#define IS2 (isS[2] == 1 && vp_w[0][0] != 'f')
static void put(uint64_t h, int n) { int k; fputs(",\"r\":[", vp_f); for (k = 0; k < n; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned)(h >> (8 * k)) & 255); fputc(']', vp_f); }
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; uint64_t h = 0; size_t k; char *b;
        args(n);
        for (k = IS2 ? L[2] : L[1]; k-- > 0;) h = h << 8 | (unsigned char)(IS2 ? S[2] : S[1])[k];
        b = malloc(L[1] + (op[0] == 's')); memcpy(b, S[1], L[1] + (op[0] == 's'));
        if (0) ;
        IS("buf32") put(zt_hash32_buff(b, L[1], (uint32_t)h), 4);
        IS("str32") put(zt_hash32_cstr((uint8_t *)b, (uint32_t)h), 4);
        IS("buf64") put(zt_hash64_buff(b, L[1], h), 8);
        IS("str64") put(zt_hash64_cstr((uint8_t *)b, h), 8);
        IS("fold") {
            uint32_t v = (uint32_t)h, r = 0;
            switch (I[2]) { case 24: r = ZT_HASH24_MASK(v); break; case 16: r = ZT_HASH16_MASK(v); break; case 8: r = ZT_HASH8_MASK(v); break; default: r = ZT_HASH4_MASK(v); }
            put(r == v ? r : ~(uint64_t)0, 4);
        }
        IS("foldto") { uint32_t v = (uint32_t)h; int x = (int)I[2]; ZT_HASH_SUB32_MASK(v, x); put(v, 4); }
        else vp_die("what?");
        free(b);
        args_end(n);
    }
    return 0;
}
