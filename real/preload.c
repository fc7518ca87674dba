/* Keeps a run of the real program on the loopback interface: calls that name an address listed in
 * REAL_MAP ("ip:port=ip:port;...") go to the address it is mapped to, all others outside 127/8 to
 * REAL_NONE, where nobody listens; TCP listeners are put at REAL_HTTP. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>

static int parse(const char **s, struct sockaddr_in *a) {
    char ip[32];
    size_t n = strcspn(*s, ":");
    if (n >= sizeof ip || (*s)[n] != ':') return 0;
    memcpy(ip, *s, n);
    ip[n] = 0;
    char *end;
    long port = strtol(*s + n + 1, &end, 10);
    memset(a, 0, sizeof *a);
    a->sin_family = AF_INET;
    a->sin_port = htons(port);
    *s = end;
    return inet_pton(AF_INET, ip, &a->sin_addr) == 1;
}

static int same(const struct sockaddr_in *a, const struct sockaddr_in *b) {
    return a->sin_addr.s_addr == b->sin_addr.s_addr && a->sin_port == b->sin_port;
}

static void lookup(struct sockaddr_in *a, int back) {
    const char *s = getenv("REAL_MAP");
    struct sockaddr_in from, to;
    while (s && *s && parse(&s, &from) && *s == '=' && (s++, parse(&s, &to))) {
        if (back && same(a, &to)) { a->sin_addr = from.sin_addr; a->sin_port = from.sin_port; return; }
        if (!back && same(a, &from)) { a->sin_addr = to.sin_addr; a->sin_port = to.sin_port; return; }
        if (*s == ';') s++;
    }
    const char *none = getenv("REAL_NONE");
    if (!back && none && (ntohl(a->sin_addr.s_addr) >> 24) != 127 && parse(&none, &to)) {
        a->sin_addr = to.sin_addr;
        a->sin_port = to.sin_port;
    }
}

static const struct sockaddr *there(const struct sockaddr *a, struct sockaddr_in *b) {
    if (!a || a->sa_family != AF_INET) return a;
    memcpy(b, a, sizeof *b);
    lookup(b, 0);
    return (struct sockaddr *)b;
}

static void back(struct sockaddr *a) {
    if (a && a->sa_family == AF_INET) lookup((struct sockaddr_in *)a, 1);
}

#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))

int connect(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in b;
    return REAL(connect)(fd, there(a, &b), n);
}

ssize_t sendto(int fd, const void *p, size_t len, int flags, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in b;
    return REAL(sendto)(fd, p, len, flags, there(a, &b), n);
}

ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
    struct sockaddr_in b;
    struct msghdr k = *m;
    k.msg_name = (void *)there(m->msg_name, &b);
    return REAL(sendmsg)(fd, &k, flags);
}

ssize_t recvfrom(int fd, void *p, size_t len, int flags, struct sockaddr *a, socklen_t *n) {
    ssize_t r = REAL(recvfrom)(fd, p, len, flags, a, n);
    if (r >= 0) back(a);
    return r;
}

ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
    ssize_t r = REAL(recvmsg)(fd, m, flags);
    if (r >= 0) back(m->msg_name);
    return r;
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    int type = 0;
    socklen_t len = sizeof type;
    struct sockaddr_in b;
    const char *http = getenv("REAL_HTTP");
    if (a && a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_port && http &&
        !getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &len) && type == SOCK_STREAM && parse(&http, &b))
        return REAL(bind)(fd, (struct sockaddr *)&b, sizeof b);
    return REAL(bind)(fd, a, n);
}
