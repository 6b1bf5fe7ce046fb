/* config.h generated by configure script */

#define LIBSTATGRAB_API_0_90
