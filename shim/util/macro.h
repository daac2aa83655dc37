#pragma once
#define func_used __attribute__((used))
#define GRAPH_FONT_RED ""
#define GRAPH_FONT_YELLOW ""
#define GRAPH_ATTR_NONE ""
