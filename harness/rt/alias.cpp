// Stand-in for the console's alias table (Wine does not implement it).  Resolves the imports of the
// alias functions inside the executable, so the code under test calls these.
#include <windows.h>
#include <map>
#include <string>
#include <vector>
#include "alias.h"
struct Nocase { bool operator()(const std::wstring& a, const std::wstring& b) const { return _wcsicmp(a.c_str(), b.c_str()) < 0; } };
static std::map<std::wstring, std::wstring, Nocase>& tab() { static std::map<std::wstring, std::wstring, Nocase> m; return m; }
unsigned long g_alias_lookups = 0;
void alias_clear() { tab().clear(); }
void alias_set(const wchar_t* n, const wchar_t* v) { if (v && *v) tab()[n] = v; else tab().erase(n); }
extern "C" {
static DWORD WINAPI my_GetConsoleAliasW(LPWSTR n, LPWSTR buf, DWORD bytes, LPWSTR) {
    g_alias_lookups++;
    auto it = tab().find(n); if (it == tab().end()) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    DWORD need = (DWORD)(it->second.size() + 1) * 2; if (bytes < need) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(buf, it->second.c_str(), need); return need;
}
static BOOL WINAPI my_AddConsoleAliasW(LPWSTR n, LPWSTR v, LPWSTR) { if (!n || !*n) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } if (!v || !*v) tab().erase(n); else tab()[n] = v; return TRUE; }
static DWORD WINAPI my_GetConsoleAliasesLengthW(LPWSTR) { DWORD n = 0; for (auto& a : tab()) n += (DWORD)(a.first.size() + a.second.size() + 2) * 2; return n; }
static DWORD WINAPI my_GetConsoleAliasesW(LPWSTR buf, DWORD bytes, LPWSTR) {
    std::wstring s; for (auto& a : tab()) { s += a.first; s += L'='; s += a.second; s += L'\0'; }
    if (bytes < s.size() * 2) { SetLastError(ERROR_MORE_DATA); return 0; } memcpy(buf, s.data(), s.size() * 2); return (DWORD)s.size() * 2;
}
void* __imp_GetConsoleAliasW = (void*)my_GetConsoleAliasW;
void* __imp_AddConsoleAliasW = (void*)my_AddConsoleAliasW;
void* __imp_GetConsoleAliasesLengthW = (void*)my_GetConsoleAliasesLengthW;
void* __imp_GetConsoleAliasesW = (void*)my_GetConsoleAliasesW;
}
