#define sqrt __builtin_sqrt
#define fabs __builtin_fabs
#define floor __builtin_floor
