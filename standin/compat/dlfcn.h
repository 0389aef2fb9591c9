/* RTLD_DEEPBIND is refused by the sanitizer runtimes */
#include_next <dlfcn.h>
#undef RTLD_DEEPBIND
#define RTLD_DEEPBIND 0
