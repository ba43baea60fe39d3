/* uninstrumented trampolines */
#include <sqlite3.h>
int sxn_bind_double(sqlite3_stmt*s,int i,double d){ return sqlite3_bind_double(s,i,d); }
double sxn_value_double(sqlite3_value*v){ return sqlite3_value_double(v); }
double sxn_column_double(sqlite3_stmt*s,int i){ return sqlite3_column_double(s,i); }
void sxn_result_double(sqlite3_context*c,double d){ sqlite3_result_double(c,d); }
/* paths are forked processes: no mutexes (a fork inside a query callback would leave them locked) */
__attribute__((constructor)) static void sxn_init(void){ sqlite3_config(SQLITE_CONFIG_SINGLETHREAD); }
