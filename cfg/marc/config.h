/* lib/marc/config.h.  Generated from config.h.in by configure.  */
/* lib/marc/config.h.in.  Generated from configure.ac by autoheader.  */


/**
 * @file config.h
 *
 * MaRC configuration header file.
 *
 * @note This is an internal header, and not meant for use
 *       outside of MaRC.
 */
#ifndef MARC_CONFIG_H
#define MARC_CONFIG_H



/* Use fmt library in header-only form */
#define FMT_HEADER_ONLY 1

/* Define if you have Argp */
#define HAVE_ARGP 1

/* define if the compiler supports basic C++17 syntax */
#define HAVE_CXX17 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sysexits.h> header file. */
/* #undef HAVE_SYSEXITS_H */

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Define if debugging is disabled */
/* #undef NDEBUG */

/* Name of package */
#define PACKAGE "marc"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "https://github.com/ossama-othman/MaRC/issues"

/* Define to the full name of this package. */
#define PACKAGE_NAME "MaRC"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "MaRC 0.10"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "marc"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://ossama-othman.github.io/MaRC/"

/* Define to the version of this package. */
#define PACKAGE_VERSION "0.10"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "0.10"

/* Define to 1 if `lex' declares `yytext' as a `char *' by default, not a
   `char[]'. */
#define YYTEXT_POINTER 1


#endif   /* MARC_CONFIG_H */

// Local Variables:
// mode:C++
// End:

