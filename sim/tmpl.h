#pragma once
#include "rt.h"
#include "plan.h"
namespace sim {
struct TVal { enum { STR, ARR, SUB } t = STR; std::string s; std::vector<TVal> arr; std::vector<std::pair<std::string, TVal>> sub; };
typedef std::vector<std::pair<std::string, TVal>> TCtx;
struct TCase { std::string tmpl; TCtx ctx; std::map<std::string, std::string> includes; std::string full, out; size_t outsize = 0; bool loops = false, conds = false, incl = false, filt = false; };
TCase gen_tcase(u32 stream, const std::string& incdir, bool allow_include, int size);
greshunkel_ctext* build_ctx(const TCtx& c);
// reference renderer: full text and the size reported
void ref_render(const std::string& t, const std::vector<const TCtx*>& scope, const std::map<std::string, std::string>& inc, std::string& full, size_t& outsize);
}
