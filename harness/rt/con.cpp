// Stand-in for the console screen buffer, so that readline sees the size of the model screen.
#include <windows.h>
#include "con.h"
ConSize g_con = { 80, 25, 0, 0 };
extern "C" {
static BOOL WINAPI my_GetConsoleScreenBufferInfo(HANDLE, PCONSOLE_SCREEN_BUFFER_INFO p) {
    memset(p, 0, sizeof(*p)); p->dwSize = { (SHORT)g_con.w, (SHORT)g_con.h }; p->dwCursorPosition = { (SHORT)g_con.x, (SHORT)g_con.y }; p->wAttributes = 7;
    p->srWindow = { 0, 0, (SHORT)(g_con.w - 1), (SHORT)(g_con.h - 1) }; p->dwMaximumWindowSize = p->dwSize; return TRUE;
}
static BOOL WINAPI my_SetConsoleCursorPosition(HANDLE, COORD) { return TRUE; }
static BOOL WINAPI my_SetConsoleWindowInfo(HANDLE, BOOL, const SMALL_RECT*) { return TRUE; }
void* __imp_GetConsoleScreenBufferInfo = (void*)my_GetConsoleScreenBufferInfo;
void* __imp_SetConsoleCursorPosition = (void*)my_SetConsoleCursorPosition;
void* __imp_SetConsoleWindowInfo = (void*)my_SetConsoleWindowInfo;
}
