#pragma once
void alias_clear();
void alias_set(const wchar_t* name, const wchar_t* value);     // empty value removes
extern unsigned long g_alias_lookups;
