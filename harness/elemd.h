// Tracked element with a default constructor, for sorters whose buffers need one: a
// default-constructed element has no value to read or move from.
#ifndef ELEMD_H_
#define ELEMD_H_
#include "types.h"
namespace td
{
struct ElemD: Elem
{
    ElemD(): Elem(-987654, -1) { state = MOVED; }
    ElemD(int k, int i): Elem(k, i) {}
    ElemD(ElemD&&) = default;
    ElemD& operator=(ElemD&&) = default;
};
}
#endif
