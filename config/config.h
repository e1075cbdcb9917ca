/* src/CglCommon/config.h.  Generated from config.h.in by configure.  */
/* src/CglCommon/config.h.in.  Generated from configure.ac by autoheader.  */

/* Library Visibility Attribute */
#define CGLLIB_EXPORT 

/* Library Visibility Attribute */
#define CGLUNITTEST_EXPORT 

/* Define to 1 if Clp is available. */
/* #undef CGL_HAS_CLP */

/* Define to 1 if CoinUtils is available. */
#define CGL_HAS_COINUTILS 1

/* Define to 1 if Osi is available. */
#define CGL_HAS_OSI 1

/* Define to 1 if OsiClp is available. */
#define CGL_HAS_OSICLP 1

/* Define to 1 if OsiCpx is available. */
/* #undef CGL_HAS_OSICPX */

/* Define to 1 if OsiDyLP is available. */
/* #undef CGL_HAS_OSIDYLP */

/* Define to 1 if OsiGlpk is available. */
/* #undef CGL_HAS_OSIGLPK */

/* Define to 1 if OsiGrb is available. */
/* #undef CGL_HAS_OSIGRB */

/* Define to 1 if OsiMsk is available. */
/* #undef CGL_HAS_OSIMSK */

/* Define to 1 if OsiSpx is available. */
/* #undef CGL_HAS_OSISPX */

/* Define to 1 if OsiVol is available. */
/* #undef CGL_HAS_OSIVOL */

/* Define to 1 if OsiXpr is available. */
/* #undef CGL_HAS_OSIXPR */

/* Define to 1 if Sample is available. */
#define CGL_HAS_SAMPLE 1

/* Version number of project */
#define CGL_VERSION "devel"

/* Major version number of project. */
#define CGL_VERSION_MAJOR 9999

/* Minor version number of project. */
#define CGL_VERSION_MINOR 9999

/* Release version number of project. */
#define CGL_VERSION_RELEASE 9999

/* Define to 1 if your C++ compiler doesn't accept -c and -o together. */
/* #undef CXX_NO_MINUS_C_MINUS_O */

/* Define to 1 if you have the <cfloat> header file. */
#define HAVE_CFLOAT 1

/* Define to 1 if you have the <cieeefp> header file. */
/* #undef HAVE_CIEEEFP */

/* Define to 1 if you have the <cmath> header file. */
#define HAVE_CMATH 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <float.h> header file. */
/* #undef HAVE_FLOAT_H */

/* Define to 1 if you have the <ieeefp.h> header file. */
/* #undef HAVE_IEEEFP_H */

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <math.h> header file. */
/* #undef HAVE_MATH_H */

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "https://github.com/coin-or/Cgl/issues/new"

/* Define to the full name of this package. */
#define PACKAGE_NAME "Cgl"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "Cgl devel"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "coin-or-cgl"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://github.com/coin-or/Cgl"

/* Define to the version of this package. */
#define PACKAGE_VERSION "devel"

/* Define to 1 if all of the C89 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1
