#ifndef VCLOCK_H
#define VCLOCK_H
#include <cstdint>
// ------------------------------------------------------------- virtual clock
namespace vclock {
void    enable();
void    addMs(int64_t ms);
int64_t nowMs();
}
#endif
