"""Calls of library functions made by instrumented code.

For every library function the runtime harness calls through its wrapper there is a small C function that takes its
arguments from a global structure, calls the function by its own name and stores the result back. Those C functions are
compiled to bitcode and instrumented with the repository's passes and function lists; the harness is compiled with its
wrapper calls redirected to them. Labels of arguments and results are those of the structure's memory."""
import os
import re

SIG = """
FILE *fopen(const char *, const char *)
FILE *fopen64(const char *, const char *)
int close(int)
int fclose(FILE *)
ssize_t read(int, void *, size_t)
ssize_t pread(int, void *, size_t, off_t)
ssize_t pread64(int, void *, size_t, off_t)
size_t fread(void *, size_t, size_t, FILE *)
size_t fread_unlocked(void *, size_t, size_t, FILE *)
int fgetc(FILE *)
int fgetc_unlocked(FILE *)
int _IO_getc(FILE *)
int getc(FILE *)
int getc_unlocked(FILE *)
int getchar()
int getchar_unlocked()
char *fgets(char *, int, FILE *)
ssize_t getdelim(char **, size_t *, int, FILE *)
ssize_t __getdelim(char **, size_t *, int, FILE *)
void *mmap(void *, size_t, int, int, int, off_t)
int munmap(void *, size_t)
ssize_t write(int, void *, size_t)
size_t fwrite(void *, size_t, size_t, FILE *)
int putc(int, FILE *)
int fputc(int, FILE *)
ssize_t send(int, void *, size_t, int)
ssize_t recv(int, void *, size_t, int)
ssize_t recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *)
int accept(int, struct sockaddr *, socklen_t *)
int accept4(int, struct sockaddr *, socklen_t *, int)
int connect(int, const struct sockaddr *, socklen_t)
void exit(int)
void __assert_fail(const char *, const char *, unsigned, const char *)
void *malloc(size_t)
void *realloc(void *, size_t)
void free(void *)
void *calloc(size_t, size_t)
char *strdup(const char *)
void *memcpy(void *, const void *, size_t)
void *memmove(void *, const void *, size_t)
void *memset(void *, int, size_t)
char *strcpy(char *, const char *)
char *strncpy(char *, const char *, size_t)
char *strcat(char *, const char *)
int memcmp(const void *, const void *, size_t)
int bcmp(const void *, const void *, size_t)
int strcmp(const char *, const char *)
int strcasecmp(const char *, const char *)
int strncmp(const char *, const char *, size_t)
int strncasecmp(const char *, const char *, size_t)
size_t strlen(const char *)
char *strchr(const char *, int)
void *memchr(void *, int, size_t)
char *strrchr(char *, int)
char *strstr(char *, char *)
char *strpbrk(const char *, const char *)
long strtol(const char *, char **, int)
long long strtoll(const char *, char **, int)
unsigned long strtoul(const char *, char **, int)
unsigned long long strtoull(const char *, char **, int)
double strtod(const char *, char **)
int inet_pton(int, const char *, void *)
""".strip().splitlines()

TYPES = """typedef long ssize_t; typedef unsigned long size_t; typedef long off_t; typedef unsigned socklen_t;
typedef unsigned mode_t; typedef struct _IO_FILE FILE; struct sockaddr;
"""


def parse(s):
    m = re.match(r"(.*?)(\w+)\((.*)\)$", s)
    ret, name, args = m.group(1).strip(), m.group(2), m.group(3)
    return ret, name, [a.strip() for a in args.split(",")] if args else []


def decl(t, n):
    return "%s %s" % (t, n)


VARIADIC = 4  # arguments of formatting calls


def generate():
    """(C source to instrument, C++ source of the entry points, header redirecting the wrappers)"""
    c, cpp, h, tab = [TYPES], [], [], []
    cpp.append('#include <fcntl.h>\n#include <stdarg.h>\n#include <stdint.h>\n#include <string.h>\n#include <string>\n'
               '#include <stdio.h>\n#include <sys/socket.h>\ntypedef uint32_t L;\n'
               'extern "C" { void dfsan_set_label(L, void *, size_t); L dfsan_read_label(const void *, size_t);\n'
               'extern void (*inst_tab[])(void);\n'
               'int __dfsw_sprintf(char *, const char *, L, L, L *, L *, ...);\n'
               'int __dfsw_snprintf(char *, size_t, const char *, L, L, L, L *, L *, ...);\n}\n')

    def tramp(name, ret, args, call=None, variadic=None, declare=True):
        """variadic: number of fixed parameters"""
        fields = "".join(decl(t, "a%d; " % i) for i, t in enumerate(args)) + (decl(ret, "r; ") if ret != "void" else "")
        st = "struct I_%s { %s char pad; };\n" % (name, fields)
        f = call or name
        if declare and not f.startswith("__builtin"):
            c.append("%s %s(%s);\n" % (ret, f, ", ".join(args[:variadic] + (["..."] if variadic is not None else [])) or "void"))
        c.append(st + "struct I_%s G_%s;\n" % (name, name))
        c.append("static void T_%s(void) { %s%s(%s); }\n" % (
            name, "G_%s.r = " % name if ret != "void" else "", f, ", ".join("G_%s.a%d" % (name, i) for i in range(len(args)))))
        cpp.append(st + 'extern "C" struct I_%s G_%s;\n' % (name, name))
        tab.append("T_" + name)
        return len(tab) - 1

    def body(name, k, args, ret, labels):
        g = "G_%s" % name
        s = ""
        for i in range(len(args)):
            s += " %s.a%d = a%d; dfsan_set_label(%s, &%s.a%d, sizeof %s.a%d);" % (g, i, i, labels[i], g, i, g, i)
        if ret != "void":
            s += " dfsan_set_label(0, &%s.r, sizeof %s.r);" % (g, g)
        s += " inst_tab[%d]();" % k
        if ret != "void":
            s += " *rl = dfsan_read_label(&%s.r, sizeof %s.r); return %s.r;" % (g, g, g)
        return s

    for line in SIG:
        ret, name, args = parse(line)
        k = tramp(name, ret, args)
        params = [decl(t, "a%d" % i) for i, t in enumerate(args)] + ["L l%d" % i for i in range(len(args))]
        if ret != "void":
            params.append("L *rl")
        cpp.append('extern "C" %s inst_%s(%s) {%s }\n' % (
            ret, name, ", ".join(params), body(name, k, args, ret, ["l%d" % i for i in range(len(args))])))
        h.append("#define __dfsw_%s inst_%s\n" % (name, name))

    need = "bool need = (fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE;"
    for name, fixed in (("open", ["const char *", "int"]), ("open64", ["const char *", "int"]),
                        ("openat", ["int", "const char *", "int"])):
        n = len(fixed)
        k2 = tramp(name + "_2", "int", fixed, name, n)
        k3 = tramp(name + "_3", "int", fixed + ["mode_t"], name, n, declare=False)
        params = [decl(t, "a%d" % i) for i, t in enumerate(fixed)] + ["L l%d" % i for i in range(n)] + ["L *vl", "L *rl", "..."]
        ls = ["l%d" % i for i in range(n)]
        cpp.append('extern "C" int inst_%s(%s) { int fl = a%d; %s\n if (need) { va_list v; va_start(v, rl); mode_t a%d = '
                   'va_arg(v, mode_t); va_end(v);%s }\n %s }\n' % (
                       name, ", ".join(params), n - 1, need, n, body(name + "_3", k3, fixed + ["mode_t"], "int", ls + ["0"]),
                       body(name + "_2", k2, fixed, "int", ls)))
        h.append("#define __dfsw_%s inst_%s\n" % (name, name))

    # formatting: one function per number and kinds of the arguments, in the order the format uses them
    first = {}
    for name, fixed in (("sprintf", ["char *", "const char *"]), ("snprintf", ["char *", "size_t", "const char *"])):
        n = len(fixed)
        cases = ""
        for cnt in range(VARIADIC + 1):
            for pat in range(1 << cnt):
                kinds = ["double" if pat >> i & 1 else "unsigned long" for i in range(cnt)]
                t = "%s_%d_%d" % (name, cnt, pat)
                k = tramp(t, "int", fixed + kinds, name, n, declare=name not in first)
                first[name] = 1
                decls = " ".join("%s a%d = %s;" % (kinds[i], n + i, "dv[nd++]" if pat >> i & 1 else "iv[ni++]") for i in range(cnt))
                cases += " case %d: {%s %s }\n" % (cnt << 8 | pat, decls, body(
                    t, k, fixed + kinds, "int", ["l%d" % i for i in range(n)] + ["vl[%d]" % i for i in range(cnt)]))
        params = [decl(t, "a%d" % i) for i, t in enumerate(fixed)] + ["L l%d" % i for i in range(n)] + ["L *vl", "L *rl", "..."]
        cpp.append('''extern "C" int inst_%s(%s) {
 va_list v; va_start(v, rl); uint64_t iv[3]; double dv[3]; int ni = 0, nd = 0;
 for (auto &x : iv) x = va_arg(v, uint64_t);
 for (auto &x : dv) x = va_arg(v, double);
 va_end(v);
 int cnt = 0, pat = 0; // the kinds of arguments the format uses
 for (const char *p = a%d; *p; ++p) {
  if (*p != '%%') continue;
  ++p;
  for (; *p && !strchr("diouxXcsaAeEfFgGpn%%", *p); ++p) if (*p == '*') ++cnt;
  if (!*p) break;
  if (*p == '%%') continue;
  if (strchr("aAeEfFgG", *p)) pat |= 1 << cnt;
  ++cnt;
 }
 if (cnt <= %d) switch (cnt << 8 | pat) {
%s }
 return __dfsw_%s(%s, vl, rl, iv[0], iv[1], iv[2], dv[0], dv[1], dv[2]);
}
''' % (name, ", ".join(params), n - 1, VARIADIC, cases, name, ", ".join(["a%d" % i for i in range(n)] + ["l%d" % i for i in range(n)])))
        h.append("#define __dfsw_%s inst_%s\n" % (name, name))
    c.append("void (*inst_tab[])(void) = {%s};\n" % ", ".join(tab))
    return "".join(c), "".join(cpp), "".join(h)
