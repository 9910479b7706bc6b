#define PACKAGE_BUGREPORT "bugs@telemidia.puc-rio.br"
#define PACKAGE_NAME "ginga"
#define PACKAGE_STRING "ginga"
#define PACKAGE_URL "http://github.com/telemidia/ginga"
#define PACKAGE_VERSION "1.0"
#define TOP_SRCDIR "/repo/"
#define ABS_TOP_SRCDIR "/repo/"
#define GINGADATADIR "/usr/share/ginga/"
#define GINGABINDIR "/usr/bin"
