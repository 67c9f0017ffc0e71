#pragma once
namespace vt_inc1 { enum { ok = 1 }; }
#define VT_INC1 1
