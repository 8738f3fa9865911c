// The locale query in one platform configuration. Reads commands, prints one line per query.
//   e VAR VALUE   set in the environment        u VAR   unset
//   l NAME        setlocale(LC_CTYPE, NAME)     c N     code page of the stand-in for Windows
//   q             query: C name, C++ name, what the name looks up to
//   n NAME        what NAME looks up to         r       back to the start: clean environment, "C" locale
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
extern "C" { unsigned vp_cp = 1252; unsigned GetACP(void) { return vp_cp; } unsigned GetConsoleOutputCP(void) { return vp_cp; } }
int main()
{
    static char line[1 << 16];
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin))
    {
        size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
        char *a = line[0] && line[1] ? line + 2 : line + 1, *b;
        switch (line[0])
        {
        case 'e': b = strchr(a, ' '); *b++ = 0; setenv(a, b, 1); break;
        case 'u': unsetenv(a); break;
        case 'l': if (!setlocale(LC_CTYPE, a)) puts("NOLOCALE"); break;
        case 'c': vp_cp = strtoul(a, nullptr, 10); break;
        case 'r': unsetenv("LC_ALL"); unsetenv("LC_CTYPE"); unsetenv("LANG"); unsetenv("LANGUAGE"); setlocale(LC_CTYPE, "C"); vp_cp = 1252; break;
        case 'n': printf("N %d\n", reiconv_lookup_from_name(a)); break;
        case 'q':
        {
            const char *c = locale_charset();
            std::string cs = c ? c : "(null)"; std::string cpp{reiconv::locale_charset()};
            printf("Q %s\t%s\t%d\n", cs.c_str(), cpp.c_str(), c ? reiconv_lookup_from_name(cs.c_str()) : -2);
            break;
        }
        }
    }
    fflush(stdout);
}
