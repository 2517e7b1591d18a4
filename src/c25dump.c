/* ptseg as it is, with its main renamed. */
#ifndef PT_VERSION_PATCH
#  define PT_VERSION_PATCH 0
#endif
#ifndef PT_VERSION_BUILD
#  define PT_VERSION_BUILD 0
#endif
#ifndef PT_VERSION_EXT
#  define PT_VERSION_EXT ""
#endif
#define main ptseg_main
#include "../ptseg/src/ptseg.c"
