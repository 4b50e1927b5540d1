// Live/peak accounting of malloc and operator new in the instrumented process (plain build
// only), so that monitors can observe how much memory a call really needs.
#pragma once
#include <cstddef>
struct MemStat { size_t live, peak; };
bool MemTracked();
void MemReset();           // peak := live
MemStat MemNow();
