/* include/bertini2/config.h.  Generated from config.h.in by configure.  */
/* include/bertini2/config.h.in.  Generated from configure.ac by autoheader.  */

/* Define if B2_FORBID_MIXED_ARITHMETIC keyword should be used to forbid mixed
   type arithmetic involving multiprecision numbers. */
/* #undef B2_FORBID_MIXED_ARITHMETIC */

/* Use expression templates from Boost.Multiprecision; default is enabled. */
#define BMP_EXPRESSION_TEMPLATES 1

/* define if the Boost library is available */
#define HAVE_BOOST /**/

/* define if the Boost::Chrono library is available */
#define HAVE_BOOST_CHRONO /**/

/* define if the Boost::Filesystem library is available */
#define HAVE_BOOST_FILESYSTEM /**/

/* define if the Boost::Log library is available */
#define HAVE_BOOST_LOG /**/

/* define if the Boost::Log_setup library is available */
#define HAVE_BOOST_LOG_SETUP /**/

/* Define to 1 if you have the <boost/multiprecision/mpc.hpp> header file. */
#define HAVE_BOOST_MULTIPRECISION_MPC_HPP 1

/* define if the Boost::PROGRAM_OPTIONS library is available */
#define HAVE_BOOST_PROGRAM_OPTIONS /**/

/* define if the Boost::Regex library is available */
#define HAVE_BOOST_REGEX /**/

/* define if the Boost::Serialization library is available */
#define HAVE_BOOST_SERIALIZATION /**/

/* define if the Boost::System library is available */
#define HAVE_BOOST_SYSTEM /**/

/* define if the Boost::Thread library is available */
#define HAVE_BOOST_THREAD /**/

/* define if the Boost::Timer library is available */
/* #undef HAVE_BOOST_TIMER */

/* define if the Boost::Unit_Test_Framework library is available */
#define HAVE_BOOST_UNIT_TEST_FRAMEWORK /**/

/* define if the compiler supports basic C++17 syntax */
#define HAVE_CXX17 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <Eigen/Dense> header file. */
#define HAVE_EIGEN_DENSE 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "b2"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "amethyst@uwec.edu"

/* Define to the full name of this package. */
#define PACKAGE_NAME "b2"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "b2 2.0-alpha8"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "b2"

/* Define to the home page for this package. */
#define PACKAGE_URL "http://github.com/bertiniteam/b2"

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.0-alpha8"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "2.0-alpha8"
