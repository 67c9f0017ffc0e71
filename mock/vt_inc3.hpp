#pragma once
namespace vt_inc3 { enum { ok = 3 }; }
#define VT_INC3 1
