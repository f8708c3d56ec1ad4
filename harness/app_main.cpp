// the command line tool, callable
#define main app_main
#include "apps/mask_rasterio.cpp"
#undef main
