/* The command that is executed by C15: follows the script named by PBT_SCRIPT.
   d        write argv and environ and cwd to the report
   r        read standard input to its end and write it to the report
   o HEX N  write the bytes N times to standard output;  e HEX N  to standard error
   n MS     sleep
   f        leave behind a child that sleeps, holding the pipes; its pid goes to the report
   c FD     close
   x N      exit;  s N  end by a signal */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <limits.h>
extern char **environ;
static FILE *rep;
static void put(const char *tag, const unsigned char *s, size_t n) {
    fprintf(rep, "%s ", tag);
    for (size_t i = 0; i < n; i++) fprintf(rep, "%02x", s[i]);
    fputc('\n', rep);
    fflush(rep);
}
static void out(int fd, const char *hex, long times) {
    size_t n = strlen(hex) / 2;
    unsigned char *b = malloc(n * times + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); b[i] = v; }
    for (long t = 1; t < times; t++) memcpy(b + n * t, b, n);
    size_t left = n * times; unsigned char *p = b;
    while (left) { ssize_t k = write(fd, p, left); if (k <= 0) break; p += k; left -= k; }
    free(b);
}
int main(int argc, char **argv) {
    FILE *f = fopen(getenv("PBT_SCRIPT"), "r");
    static char line[1 << 20], hex[1 << 20];
    char name[PATH_MAX];
    if (!f) return 99;
    if (!fgets(name, sizeof name, f)) return 98;
    name[strcspn(name, "\n")] = 0;
    rep = fopen(name, "a");
    if (!rep) return 97;
    sprintf(line, "%d", (int) getpid());
    put("pid", (unsigned char *) line, strlen(line));
    while (fgets(line, sizeof line, f)) {
        long n = 0; hex[0] = 0;
        switch (line[0]) {
        case 'd':
            for (int i = 0; i < argc; i++) put("arg", (unsigned char *) argv[i], strlen(argv[i]));
            for (char **e = environ; *e; e++) put("env", (unsigned char *) *e, strlen(*e));
            if (getcwd(name, sizeof name)) put("cwd", (unsigned char *) name, strlen(name));
            break;
        case 'r': {
            size_t cap = 1 << 16, len = 0; unsigned char *b = malloc(cap); ssize_t k;
            while ((k = read(0, b + len, cap - len)) > 0) { len += k; if (len == cap) b = realloc(b, cap *= 2); }
            put("in", b, len); free(b);
            break; }
        case 'o': sscanf(line + 2, "%s %ld", hex, &n); out(1, hex, n); break;
        case 'e': sscanf(line + 2, "%s %ld", hex, &n); out(2, hex, n); break;
        case 'n': usleep(atol(line + 2) * 1000L); break;
        case 'f': {
            pid_t p = fork();
            if (!p) { sleep(60); _exit(0); }
            sprintf(name, "%d", (int) p); put("kid", (unsigned char *) name, strlen(name));
            break; }
        case 'c': close(atoi(line + 2)); break;
        case 'x': fflush(rep); _exit(atoi(line + 2));
        case 's': fflush(rep); signal(atoi(line + 2), SIG_DFL); raise(atoi(line + 2)); pause(); break;
        }
    }
    return 0;
}
