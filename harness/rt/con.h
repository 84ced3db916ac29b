#pragma once
struct ConSize { int w, h, x, y; };
extern ConSize g_con;          // what the console stand-in reports
