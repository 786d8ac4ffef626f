// Makes a locale the global one of C++ and C.  Returns 1 when numbers are now written with decimal commas.
#include <cstdio>
#include <cstring>
#include <locale>
extern "C" int set_global_locale(const char *name) {
    try {
        std::locale::global(std::locale(name));
    } catch(...) {
        return 0;
    }
    char b[20];
    snprintf(b, sizeof b, "%.1f", 1.5);
    return !strcmp(b, "1,5");
}
