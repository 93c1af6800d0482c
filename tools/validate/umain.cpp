// Runs the repository's unit tests (which call exit(1) on a wrong value) against shim.cpp.
#include <cstdio>
#include <cstring>
extern "C" { void testSponge(); void testDuplex(); void testPRG(); void testSP800_185(); void testKangarooTwelve(); void testKravatte(); void testKravatteModes(); void testXoofff(); void testXoofffModes(); int testXoodyak();
int KeccakP1600_StaticInitialize_dummy; }
static void xdk() { testXoodyak(); }
int main(int c, char **v)
{
    struct { const char *n; void (*f)(); } t[] = { { "sponge", testSponge }, { "duplex", testDuplex }, { "prg", testPRG }, { "sp800-185", testSP800_185 }, { "k12", testKangarooTwelve }, { "kravatte", testKravatte },
        { "kravatte-modes", testKravatteModes }, { "xoofff", testXoofff }, { "xoofff-modes", testXoofffModes }, { "xoodyak", xdk } };
    for (auto &x : t) if (c < 2 || !strcmp(v[1], x.n)) { x.f(); printf("model passes the unit tests of %s\n", x.n); fflush(stdout); }
}
