#include "core.hpp"
// a driver is linked with the decoders of the properties it is built for only
#define G(id, n) __attribute__((weak)) void gen_##id(Ch &, Case &);
#define LIST G(C01, 160) G(C02, 120) G(C03, 160) G(C04, 60) G(C05, 120) G(C06, 120) G(C07, 120) G(C08, 120) G(C09, 100) G(C10, 80) G(C11, 160) G(C12, 120) G(C13, 120) G(C14, 110) G(C15, 70) G(C16, 120) G(C17, 110) G(C18, 70) G(C19, 140) G(C20, 90) G(C21, 260) G(C22, 160) G(C23, 500) G(C24, 60) G(C25, 110) G(C26, 160) G(C28, 160)
LIST
#undef G
#define G(id, n) { #id, gen_##id, n },
static const std::vector<Prop> props = { LIST };
const std::vector<Prop> &allProps() { return props; }
