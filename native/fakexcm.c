/*
 * A stand-in for libxcm.so.0, with the functions and semantics that paf's
 * binding uses, on top of AF_UNIX SOCK_SEQPACKET sockets. Any XCM address is
 * mapped to an abstract UNIX socket (or a socket in $FAKEXCM_DIR, if set).
 *
 * It verifies how it is called (live sockets, live attribute maps, sound
 * buffers) and injects failures and attributes for tests; see the fake_
 * functions.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#define MAX_MSG 65535
#define RECEIVABLE 1
#define SENDABLE 2
#define ACCEPTABLE 4
#define MAGIC 0x5ca1ab1e

enum { T_BOOL = 1, T_INT64, T_STR, T_BIN };

struct attr {
    struct attr *next;
    char name[128];
    int type;
    size_t len;
    char *value;
};

struct xcm_attr_map {
    int magic;
    struct attr *attrs;
};

struct xcm_socket {
    int magic;
    bool server;
    int fd;
    int epfd;
    bool in_ep;
    bool blocking;
    int target;
    struct attr *attrs;
    long id;
    struct xcm_socket *next;
};

/* with tracking on, no memory is reused, to recognise stale uses */
static bool track;
void fake_track(bool on) { track = on; }
#define MAX_OBJ 400000
static void *dead[MAX_OBJ];
static long n_dead;
static struct xcm_socket *socks;
static struct xcm_attr_map *maps[4096];
static long n_opened, n_closed, n_map_new, n_map_del, n_errors;
static char last_error[512];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static void misuse(const char *fun, const char *what)
{
    n_errors++;
    snprintf(last_error, sizeof(last_error), "%s: %s", fun, what);
}

/* injected failures */
#define MAX_INJ 64
static struct { char op[32]; int err; int skip; } inj[MAX_INJ];
static int n_inj;

static int injected(const char *op)
{
    for (int i = 0; i < n_inj; i++)
	if (strcmp(inj[i].op, op) == 0) {
	    if (inj[i].skip-- > 0)
		return 0;
	    int e = inj[i].err;
	    memmove(&inj[i], &inj[i+1], (n_inj - i - 1) * sizeof(inj[0]));
	    n_inj--;
	    errno = e;
	    return 1;
	}
    return 0;
}

void fake_inject(const char *op, int err, int skip)
{
    if (n_inj < MAX_INJ) {
	snprintf(inj[n_inj].op, sizeof(inj[0].op), "%s", op);
	inj[n_inj].err = err;
	inj[n_inj].skip = skip;
	n_inj++;
    }
}

void fake_clear_injected(void) { n_inj = 0; }

long fake_count(const char *what)
{
    if (strcmp(what, "opened") == 0) return n_opened;
    if (strcmp(what, "closed") == 0) return n_closed;
    if (strcmp(what, "map_new") == 0) return n_map_new;
    if (strcmp(what, "map_del") == 0) return n_map_del;
    if (strcmp(what, "errors") == 0) return n_errors;
    if (strcmp(what, "injected") == 0) return n_inj;
    return -1;
}

const char *fake_last_error(void) { return last_error; }

/* attributes */

static void attr_put(struct attr **list, const char *name, int type,
		     const void *value, size_t len)
{
    struct attr *a;
    for (a = *list; a != NULL; a = a->next)
	if (strcmp(a->name, name) == 0)
	    break;
    if (a == NULL) {
	a = calloc(1, sizeof(*a));
	snprintf(a->name, sizeof(a->name), "%s", name);
	a->next = *list;
	*list = a;
    } else
	free(a->value);
    a->type = type;
    a->len = len;
    a->value = malloc(len + 1);
    memcpy(a->value, value, len);
    a->value[len] = 0;
}

static struct attr *attr_find(struct attr *list, const char *name)
{
    for (; list != NULL; list = list->next)
	if (strcmp(list->name, name) == 0)
	    return list;
    return NULL;
}

static void attr_free(struct attr *a)
{
    while (a != NULL) {
	struct attr *next = a->next;
	free(a->value);
	free(a);
	a = next;
    }
}

static int map_slot(const struct xcm_attr_map *m)
{
    for (int i = 0; i < 4096; i++)
	if (maps[i] == m)
	    return i;
    return -1;
}

struct xcm_attr_map *xcm_attr_map_create(void)
{
    pthread_mutex_lock(&lock);
    struct xcm_attr_map *m = calloc(1, sizeof(*m));
    m->magic = MAGIC;
    int i = map_slot(NULL);
    if (i >= 0)
	maps[i] = m;
    n_map_new++;
    pthread_mutex_unlock(&lock);
    return m;
}

void xcm_attr_map_destroy(struct xcm_attr_map *m)
{
    if (m == NULL)
	return;
    pthread_mutex_lock(&lock);
    int i = map_slot(m);
    if (i < 0)
	misuse("xcm_attr_map_destroy", "not a live attribute map");
    else {
	maps[i] = NULL;
	attr_free(m->attrs);
	m->attrs = NULL;
	if (!track)
	    free(m);
	/* as free() may */
	errno = ENOTTY;
	n_map_del++;
    }
    pthread_mutex_unlock(&lock);
}

static bool map_ok(const char *fun, struct xcm_attr_map *m)
{
    if (m != NULL && map_slot(m) >= 0)
	return true;
    misuse(fun, "not a live attribute map");
    return false;
}

void xcm_attr_map_add_bool(struct xcm_attr_map *m, const char *name, bool v)
{
    if (map_ok("xcm_attr_map_add_bool", m))
	attr_put(&m->attrs, name, T_BOOL, &v, sizeof(v));
}

void xcm_attr_map_add_int64(struct xcm_attr_map *m, const char *name,
			    int64_t v)
{
    if (map_ok("xcm_attr_map_add_int64", m))
	attr_put(&m->attrs, name, T_INT64, &v, sizeof(v));
}

void xcm_attr_map_add_str(struct xcm_attr_map *m, const char *name,
			  const char *v)
{
    if (map_ok("xcm_attr_map_add_str", m))
	attr_put(&m->attrs, name, T_STR, v, strlen(v) + 1);
}

/* sockets */

static struct xcm_socket *sock_find(const char *fun, struct xcm_socket *s)
{
    for (struct xcm_socket *c = socks; c != NULL; c = c->next)
	if (c == s)
	    return c;
    for (long i = 0; i < n_dead; i++)
	if (dead[i] == s) {
	    misuse(fun, "closed socket");
	    errno = EBADF;
	    return NULL;
	}
    misuse(fun, "not a socket");
    errno = EBADF;
    return NULL;
}

static struct xcm_socket *sock_new(int fd, bool server)
{
    struct xcm_socket *s = calloc(1, sizeof(*s));
    s->magic = MAGIC;
    s->server = server;
    s->fd = fd;
    s->epfd = epoll_create1(EPOLL_CLOEXEC);
    s->blocking = true;
    s->next = socks;
    socks = s;
    s->id = ++n_opened;
    return s;
}

static void sock_apply(struct xcm_socket *s, struct xcm_attr_map *m)
{
    if (m == NULL)
	return;
    for (struct attr *a = m->attrs; a != NULL; a = a->next) {
	attr_put(&s->attrs, a->name, a->type, a->value, a->len);
	if (strcmp(a->name, "xcm.blocking") == 0)
	    s->blocking = *(bool *)a->value;
    }
}

static void addr_of(const char *xaddr, struct sockaddr_un *sa, socklen_t *len)
{
    const char *dir = getenv("FAKEXCM_DIR");
    /* FNV-1a */
    uint64_t h = 14695981039346656037ULL;
    for (const char *p = xaddr; *p; p++)
	h = (h ^ (unsigned char)*p) * 1099511628211ULL;
    memset(sa, 0, sizeof(*sa));
    sa->sun_family = AF_UNIX;
    if (dir != NULL) {
	snprintf(sa->sun_path, sizeof(sa->sun_path), "%s/%016llx", dir,
		 (unsigned long long)h);
	*len = sizeof(*sa);
    } else {
	snprintf(sa->sun_path + 1, sizeof(sa->sun_path) - 1,
		 "fakexcm-%d-%016llx", (int)getuid(), (unsigned long long)h);
	*len = offsetof(struct sockaddr_un, sun_path) + 1 +
	    strlen(sa->sun_path + 1);
    }
}

static bool addr_valid(const char *a)
{
    const char *c = strchr(a, ':');
    if (c == NULL || c[1] == 0)
	return false;
    static const char *protos[] = { "ux", "uxf", "tcp", "tls", "utls", "sctp",
				    NULL };
    for (int i = 0; protos[i] != NULL; i++)
	if (strlen(protos[i]) == (size_t)(c - a) &&
	    strncmp(protos[i], a, c - a) == 0)
	    return true;
    return false;
}

struct hello { char remote[256]; int skilen; unsigned char ski[64]; };

struct xcm_socket *xcm_server_a(const char *addr, struct xcm_attr_map *m)
{
    if (m != NULL && !map_ok("xcm_server_a", m)) {
	errno = EFAULT;
	return NULL;
    }
    if (injected("server"))
	return NULL;
    if (!addr_valid(addr)) {
	errno = EINVAL;
	return NULL;
    }
    struct sockaddr_un sa;
    socklen_t len;
    addr_of(addr, &sa, &len);
    int fd = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (fd < 0)
	return NULL;
    if (sa.sun_path[0] != 0) {
	/* a socket nobody listens to is left over */
	int t = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
	if (connect(t, (void *)&sa, len) < 0 && errno == ECONNREFUSED)
	    unlink(sa.sun_path);
	close(t);
    }
    if (bind(fd, (void *)&sa, len) < 0 || listen(fd, 512) < 0) {
	int e = errno;
	close(fd);
	errno = e;
	return NULL;
    }
    pthread_mutex_lock(&lock);
    struct xcm_socket *s = sock_new(fd, true);
    attr_put(&s->attrs, "xcm.local_addr", T_STR, addr, strlen(addr) + 1);
    sock_apply(s, m);
    pthread_mutex_unlock(&lock);
    return s;
}

static void set_transport(struct xcm_socket *s, const char *addr)
{
    char tp[16];
    size_t n = strchr(addr, ':') - addr;
    memcpy(tp, addr, n);
    tp[n] = 0;
    attr_put(&s->attrs, "xcm.transport", T_STR, tp, n + 1);
    if (strcmp(tp, "tcp") == 0 || strcmp(tp, "tls") == 0) {
	bool t = true;
	attr_put(&s->attrs, "tcp.keepalive", T_BOOL, &t, sizeof(t));
    }
}

static int port = 20000;

struct xcm_socket *xcm_connect_a(const char *addr, struct xcm_attr_map *m)
{
    if (m != NULL && !map_ok("xcm_connect_a", m)) {
	errno = EFAULT;
	return NULL;
    }
    if (injected("connect"))
	return NULL;
    if (!addr_valid(addr)) {
	errno = EINVAL;
	return NULL;
    }
    struct sockaddr_un sa;
    socklen_t len;
    addr_of(addr, &sa, &len);
    int fd = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (fd < 0)
	return NULL;
    if (connect(fd, (void *)&sa, len) < 0) {
	int e = errno == ENOENT ? ECONNREFUSED : errno;
	close(fd);
	errno = e;
	return NULL;
    }
    struct hello h;
    memset(&h, 0, sizeof(h));
    const char *ip = getenv("FAKEXCM_IP");
    const char *ski = getenv("FAKEXCM_SKI");
    size_t n = strchr(addr, ':') - addr;
    if (strncmp(addr, "ux", 2) == 0)
	snprintf(h.remote, sizeof(h.remote), "%.*s:", (int)n, addr);
    else
	snprintf(h.remote, sizeof(h.remote), "%.*s:%s:%d", (int)n, addr,
		 ip ? ip : "127.0.0.1", port++);
    if (strncmp(addr, "tls", 3) == 0 || strncmp(addr, "utls", 4) == 0) {
	const char *cert = ski ? ski : getenv("XCM_TLS_CERT");
	if (m != NULL) {
	    struct attr *a = attr_find(m->attrs, "tls.cert_file");
	    if (a != NULL)
		cert = a->value;
	}
	if (cert != NULL && cert[0] != 0) {
	    size_t l = strlen(cert);
	    if (l > 20) {
		cert += l - 20;
		l = 20;
	    }
	    memcpy(h.ski, cert, l);
	    h.skilen = l;
	}
    }
    if (send(fd, &h, sizeof(h), MSG_NOSIGNAL) < 0) {
	int e = errno;
	close(fd);
	errno = e;
	return NULL;
    }
    pthread_mutex_lock(&lock);
    struct xcm_socket *s = sock_new(fd, false);
    attr_put(&s->attrs, "xcm.remote_addr", T_STR, addr, strlen(addr) + 1);
    set_transport(s, addr);
    sock_apply(s, m);
    pthread_mutex_unlock(&lock);
    return s;
}

struct xcm_socket *xcm_accept_a(struct xcm_socket *srv,
				struct xcm_attr_map *m)
{
    if (m != NULL && !map_ok("xcm_accept_a", m)) {
	errno = EFAULT;
	return NULL;
    }
    if (sock_find("xcm_accept_a", srv) == NULL)
	return NULL;
    if (injected("accept"))
	return NULL;
    int fd;
    struct hello h;
    for (;;) {
	struct pollfd p = { .fd = srv->fd, .events = POLLIN };
	if (poll(&p, 1, srv->blocking ? -1 : 0) <= 0) {
	    errno = EAGAIN;
	    return NULL;
	}
	fd = accept4(srv->fd, NULL, NULL, SOCK_CLOEXEC);
	if (fd < 0)
	    return NULL;
	p.fd = fd;
	memset(&h, 0, sizeof(h));
	if (poll(&p, 1, 5000) == 1 && recv(fd, &h, sizeof(h), 0) ==
	    sizeof(h))
	    break;
	close(fd);
    }
    pthread_mutex_lock(&lock);
    struct xcm_socket *s = sock_new(fd, false);
    attr_put(&s->attrs, "xcm.remote_addr", T_STR, h.remote,
	     strlen(h.remote) + 1);
    set_transport(s, h.remote);
    if (h.skilen > 0)
	attr_put(&s->attrs, "tls.peer_subject_key_id", T_BIN, h.ski,
		 h.skilen);
    /* accepted sockets inherit the mode of operation */
    s->blocking = srv->blocking;
    sock_apply(s, m);
    pthread_mutex_unlock(&lock);
    return s;
}

int xcm_close(struct xcm_socket *s)
{
    if (s == NULL)
	return 0;
    pthread_mutex_lock(&lock);
    if (sock_find("xcm_close", s) == NULL) {
	pthread_mutex_unlock(&lock);
	return -1;
    }
    for (struct xcm_socket **p = &socks; *p != NULL; p = &(*p)->next)
	if (*p == s) {
	    *p = s->next;
	    break;
	}
    if (s->server) {
	struct sockaddr_un sa;
	socklen_t len = sizeof(sa);
	if (getsockname(s->fd, (void *)&sa, &len) == 0 &&
	    sa.sun_path[0] != 0)
	    unlink(sa.sun_path);
    }
    close(s->fd);
    close(s->epfd);
    attr_free(s->attrs);
    s->attrs = NULL;
    n_closed++;
    if (!track)
	free(s);
    else if (n_dead < MAX_OBJ)
	dead[n_dead++] = s;
    pthread_mutex_unlock(&lock);
    if (injected("close"))
	return -1;
    return 0;
}

int xcm_finish(struct xcm_socket *s)
{
    if (sock_find("xcm_finish", s) == NULL || injected("finish"))
	return -1;
    return 0;
}

int xcm_send(struct xcm_socket *s, const void *buf, size_t len)
{
    if (sock_find("xcm_send", s) == NULL)
	return -1;
    if (s->server) {
	misuse("xcm_send", "server socket");
	errno = EINVAL;
	return -1;
    }
    if (injected("send"))
	return -1;
    if (len == 0) {
	errno = EINVAL;
	return -1;
    }
    if (len > MAX_MSG) {
	errno = EMSGSIZE;
	return -1;
    }
    if (send(s->fd, buf, len, MSG_NOSIGNAL |
	     (s->blocking ? 0 : MSG_DONTWAIT)) < 0)
	return -1;
    return 0;
}

int xcm_receive(struct xcm_socket *s, void *buf, size_t cap)
{
    if (sock_find("xcm_receive", s) == NULL)
	return -1;
    if (s->server) {
	misuse("xcm_receive", "server socket");
	errno = EINVAL;
	return -1;
    }
    if (injected("receive"))
	return -1;
    if (cap > MAX_MSG + 1)
	misuse("xcm_receive", "capacity larger than a message can be");
    return recv(s->fd, buf, cap, s->blocking ? 0 : MSG_DONTWAIT);
}

int xcm_await(struct xcm_socket *s, int cond)
{
    if (sock_find("xcm_await", s) == NULL)
	return -1;
    if (injected("await"))
	return -1;
    if (cond & ~(s->server ? ACCEPTABLE : RECEIVABLE | SENDABLE)) {
	errno = EINVAL;
	return -1;
    }
    struct epoll_event ev = { .data.fd = s->fd };
    if (cond & (RECEIVABLE | ACCEPTABLE))
	ev.events |= EPOLLIN;
    if (cond & SENDABLE)
	ev.events |= EPOLLOUT;
    if (ev.events == 0) {
	if (s->in_ep)
	    epoll_ctl(s->epfd, EPOLL_CTL_DEL, s->fd, NULL);
	s->in_ep = false;
    } else {
	epoll_ctl(s->epfd, s->in_ep ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, s->fd,
		  &ev);
	s->in_ep = true;
    }
    s->target = cond;
    return 0;
}

int xcm_fd(struct xcm_socket *s)
{
    if (sock_find("xcm_fd", s) == NULL || injected("fd"))
	return -1;
    return s->epfd;
}

int xcm_want(struct xcm_socket *s, int cond, int *fds, int *events, size_t n)
{
    misuse("xcm_want", "obsolete");
    errno = ENOSYS;
    return -1;
}

int xcm_set_blocking(struct xcm_socket *s, bool v)
{
    if (sock_find("xcm_set_blocking", s) == NULL || injected("set_blocking"))
	return -1;
    s->blocking = v;
    attr_put(&s->attrs, "xcm.blocking", T_BOOL, &v, sizeof(v));
    return 0;
}

bool xcm_is_blocking(struct xcm_socket *s)
{
    if (sock_find("xcm_is_blocking", s) == NULL)
	return false;
    return s->blocking;
}

int xcm_attr_get(struct xcm_socket *s, const char *name, int *type, void *v,
		 size_t cap)
{
    if (sock_find("xcm_attr_get", s) == NULL || injected("attr_get"))
	return -1;
    struct attr *a = attr_find(s->attrs, name);
    if (a == NULL) {
	errno = ENOENT;
	return -1;
    }
    if (a->len > cap) {
	errno = EOVERFLOW;
	return -1;
    }
    if (type != NULL)
	*type = a->type;
    memcpy(v, a->value, a->len);
    return a->len;
}

static int set(const char *fun, struct xcm_socket *s, const char *name,
	       int type, const void *v, size_t len)
{
    if (sock_find(fun, s) == NULL || injected("attr_set"))
	return -1;
    if (strncmp(name, "ro.", 3) == 0) {
	errno = EACCES;
	return -1;
    }
    if (strcmp(name, "xcm.blocking") == 0 && type == T_BOOL)
	s->blocking = *(const bool *)v;
    attr_put(&s->attrs, name, type, v, len);
    return 0;
}

int xcm_attr_set_bool(struct xcm_socket *s, const char *name, bool v)
{
    return set("xcm_attr_set_bool", s, name, T_BOOL, &v, sizeof(v));
}

int xcm_attr_set_int64(struct xcm_socket *s, const char *name, int64_t v)
{
    return set("xcm_attr_set_int64", s, name, T_INT64, &v, sizeof(v));
}

int xcm_attr_set_str(struct xcm_socket *s, const char *name, const char *v)
{
    return set("xcm_attr_set_str", s, name, T_STR, v, strlen(v) + 1);
}

/* test access to sockets by their number, counted from 1 in order of
   creation */
static struct xcm_socket *selected;

int fake_select(long id)
{
    for (struct xcm_socket *c = socks; c != NULL; c = c->next)
	if (c->id == id) {
	    selected = c;
	    return 0;
	}
    return -1;
}

long fake_newest(void) { return n_opened; }

int fake_target(void) { return selected->target; }

int fake_blocking(void) { return selected->blocking; }

int fake_set(const char *name, int type, const char *v, size_t len)
{
    attr_put(&selected->attrs, name, type, v, len);
    return 0;
}

int fake_get(const char *name, int *type, char *v, size_t cap)
{
    struct attr *a = attr_find(selected->attrs, name);
    if (a == NULL || a->len > cap)
	return -1;
    *type = a->type;
    memcpy(v, a->value, a->len);
    return a->len;
}

/* the rest of the interface, in case the binding comes to use it */
struct xcm_socket *xcm_server(const char *addr)
{
    return xcm_server_a(addr, NULL);
}

struct xcm_socket *xcm_connect(const char *addr, int flags)
{
    struct xcm_socket *s = xcm_connect_a(addr, NULL);
    if (s != NULL && (flags & 1))
	s->blocking = false;
    return s;
}

struct xcm_socket *xcm_accept(struct xcm_socket *srv)
{
    return xcm_accept_a(srv, NULL);
}

int xcm_attr_set(struct xcm_socket *s, const char *name, int type,
		 const void *v, size_t len)
{
    return set("xcm_attr_set", s, name, type, v, len);
}

void xcm_attr_map_add(struct xcm_attr_map *m, const char *name, int type,
		      const void *v, size_t len)
{
    if (map_ok("xcm_attr_map_add", m))
	attr_put(&m->attrs, name, type, v, len);
}

void xcm_attr_map_add_bin(struct xcm_attr_map *m, const char *name,
			  const void *v, size_t len)
{
    xcm_attr_map_add(m, name, T_BIN, v, len);
}

#define GETTER(suffix, ctype)						\
    int xcm_attr_get_##suffix(struct xcm_socket *s, const char *name,	\
			      ctype *v)					\
    {									\
	int t;								\
	return xcm_attr_get(s, name, &t, v, sizeof(ctype));		\
    }
GETTER(bool, bool)
GETTER(int64, int64_t)

int xcm_attr_get_str(struct xcm_socket *s, const char *name, char *v,
		     size_t cap)
{
    int t;
    return xcm_attr_get(s, name, &t, v, cap);
}

int xcm_attr_get_bin(struct xcm_socket *s, const char *name, void *v,
		     size_t cap)
{
    int t;
    return xcm_attr_get(s, name, &t, v, cap);
}
