#define HAVE_ASPRINTF 1
#define HAVE_SQLITE3 1
#define HAVE_LIBSQLITE3 1
#define HAVE___ATTRIBUTE__ 1
