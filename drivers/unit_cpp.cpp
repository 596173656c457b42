/* The steps of a test in C++. */
#define ZT_WITH_UNIT
#include <zt.h>
#include <libzt/zt_unit.h>
#include <stdlib.h>
extern "C" const char *unit_prog(struct zt_unit_test *, void *);
extern "C" void run_cpp(struct zt_unit_test *test, void *data) {
    static char thrown[] = "thrown";
    for (const char *p = unit_prog(test, data); *p; p++) switch (*p) {
        case 'a': ZT_UNIT_ASSERT(test, 1 == 1); break;
        case 'e': ZT_UNIT_ASSERT_EQUAL(test, 2, 2); break;
        case 'f': ZT_UNIT_ASSERT(test, 1 == 2); break;
        case 'd': ZT_UNIT_ASSERT(test, 1 == 2, "one is two"); break;
        case 'n': ZT_UNIT_ASSERT_NOT_EQUAL(test, 1, 1); break;
        case 'm': ZT_UNIT_FAIL(test, "message %d", 42); break;
        case 'q': ZT_UNIT_EXIT(test); break;
        case 'x': throw (char *)thrown;
        case 'y': throw 7;
        case 'z': throw (char *)0;
        default: abort(); }
}
