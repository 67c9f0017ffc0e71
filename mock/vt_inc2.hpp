#pragma once
namespace vt_inc2 { enum { ok = 2 }; }
#define VT_INC2 1
