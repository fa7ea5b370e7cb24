/* A scripted operating system under the entropy code, and an explorer which
 * drives requests through every sequence of its answers with a bounded number
 * of deviations from the healthy ones.
 *
 * Linked with --wrap, so that every call the library makes ends up here. */

#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>

int torsion_getentropy(void *dst, size_t size);
int torsion_getrandom(void *dst, size_t size);
int torsion_random(uint32_t *num);
int torsion_uniform(uint32_t *num, uint32_t max);

enum { SRC_CALL = 1, SRC_DEV = 2, SRC_UUID = 4, SRC_EGD = 8, SRC_HW = 16 };

#define MAXCHOICE 4096
#define MAXCALLS 1000000
#define MAXSTEP 8
#define MAXSIZE 2048
#define GUARD 32
#define FD0 700
#define NFD 64

typedef struct step_s {
  int op; /* E, G, R, U, P, D */
  int size;
} step_t;

/* The path: what was chosen among how many. */
static struct {
  short pick, n;
  const char *name;
} path[MAXCHOICE];
static int depth, fixed;

static int mode;          /* which stream the sources deliver */
static long flip;         /* the position of a byte delivered inverted */
static long pos;          /* bytes delivered so far */
static long calls;
static unsigned hard;     /* sources which failed for good */
static int fds[NFD], fd0; /* open descriptors; 2: already closed */
static int isegd[NFD];
static long fresh = 1000000; /* process ids given out */
static long pid = 1000;
static int dead[5];           /* calls which fail for good, by errno */
static int refused;        /* EGD: paths tried in vain */
static int grant_n, grant; /* EGD: size asked for, bytes granted left */
static int hw_leaf[3], hw_sticky, hw_seeded, hw_calls;
static char bad[256];
static jmp_buf out;

static void
fault(const char *what) {
  if (!bad[0])
    snprintf(bad, sizeof(bad), "%s", what);
}

void (*env_hook)(void);

static int
choose(const char *name, int n) {
  int i = depth++;

  if (env_hook) {
    env_hook();
    depth = 0;
    return 0;
  }

  if (++calls > MAXCALLS || i >= MAXCHOICE) {
    fault("the request does not terminate");
    longjmp(out, 1);
  }

  if (i >= fixed)
    path[i].pick = 0;

  path[i].n = n;
  path[i].name = name;

  return path[i].pick;
}

enum { D_GETRANDOM, D_OPEN, D_READ, D_SYSCTL, D_EGD };

/* Whether the call failed for good before; also guards termination. */
static int
gone(int what) {
  if (dead[what] && ++calls > MAXCALLS) {
    fault("the request does not terminate");
    longjmp(out, 1);
  }

  return dead[what];
}

static unsigned char
stream(long p) {
  unsigned char x;

  switch (mode) {
    case 0:
      x = p;
      break;
    case 1:
      x = p >> 8;
      break;
    case 2:
      x = ~p;
      break;
    default:
      /* invert a few words of the first stream */
      x = p;
      if (mode >= 100 ? (p >> 3) == mode - 100 : (p >> 3) % 1021 == (mode - 3) * 250)
        x = ~x;
      break;
  }

  return p == flip ? ~x : x;
}

static void
deliver(void *dst, size_t n) {
  unsigned char *p = dst;

  while (n--)
    *p++ = stream(pos++);
}

static long
err(int e) {
  errno = e;
  return -1;
}

/*
 * System calls
 */

/* getrandom(2) never returns less than one byte. */
static long
sys_getrandom(void *buf, size_t n) {
  int k;

  if (gone(D_GETRANDOM)) {
    hard |= SRC_CALL;
    return err(dead[D_GETRANDOM]);
  }

  k = choose("getrandom", n > 2 ? 7 : n > 1 ? 6 : 5);

  switch (k) {
    case 0:
      deliver(buf, n);
      return n;
    case 1:
      return err(EINTR);
    case 2:
      return err(EAGAIN);
    case 3:
      hard |= SRC_CALL;
      return err(dead[D_GETRANDOM] = ENOSYS);
    case 4:
      hard |= SRC_CALL;
      return err(EIO);
    case 5:
      deliver(buf, 1);
      return 1;
    default:
      deliver(buf, n - 1);
      return n - 1;
  }
}

struct sysctl_args {
  int *name;
  int nlen;
  void *oldval;
  size_t *oldlenp;
  void *newval;
  size_t newlen;
};

/* A random UUID: six bits are fixed, here two whole bytes. */
static long
sys_uuid(struct sysctl_args *a) {
  unsigned char *p = a->oldval;

  if (a->nlen != 3 || a->name[0] != 1 || a->name[1] != 40 || a->name[2] != 6) {
    hard |= SRC_UUID;
    return err(ENOTDIR);
  }

  if (gone(D_SYSCTL)) {
    hard |= SRC_UUID;
    return err(dead[D_SYSCTL]);
  }

  switch (choose("sysctl", 4)) {
    case 0:
      deliver(p, 16);
      p[6] = 0x40;
      p[8] = 0x80;
      *a->oldlenp = 16;
      return 0;
    case 1:
      hard |= SRC_UUID;
      return err(dead[D_SYSCTL] = ENOSYS);
    case 2:
      hard |= SRC_UUID;
      return err(EPERM);
    default:
      hard |= SRC_UUID;
      deliver(p, 8);
      *a->oldlenp = 8;
      return 0;
  }
}

long
__wrap_syscall(long nr, ...) {
  va_list ap;
  void *a;
  size_t b;

  va_start(ap, nr);
  a = va_arg(ap, void *);
  b = va_arg(ap, size_t);
  va_end(ap);

  if (nr == SYS_getrandom)
    return sys_getrandom(a, b);

  if (nr == 156)
    return sys_uuid(a);

  if (nr == SYS_getpid || nr == SYS_gettid)
    return pid;

  return err(ENOSYS);
}

long
__wrap_getrandom(void *buf, size_t n, unsigned flags) {
  return sys_getrandom(buf, n);
}

int
__wrap_getentropy(void *buf, size_t n) {
  if (n > 256) {
    hard |= SRC_CALL;
    return err(EIO);
  }

  switch (choose("getentropy", 3)) {
    case 0:
      deliver(buf, n);
      return 0;
    case 1:
      hard |= SRC_CALL;
      return err(ENOSYS);
    default:
      deliver(buf, n / 2);
      hard |= SRC_CALL;
      return err(EIO);
  }
}

/* kern.arandom may return less than asked for. */
int
sysctl(const int *name, unsigned nlen, void *old, size_t *len,
       const void *new, size_t newlen) {
  size_t n = *len;

  switch (choose("sysctl", n > 1 ? 4 : 3)) {
    case 0:
      deliver(old, n);
      return 0;
    case 1:
      hard |= SRC_CALL;
      return err(ENOENT);
    case 2:
      hard |= SRC_CALL;
      return err(EPERM);
    default:
      *len = n - 1;
      deliver(old, n - 1);
      return 0;
  }
}

unsigned char
SystemFunction036(void *buf, unsigned long n) {
  switch (choose("RtlGenRandom", 3)) {
    case 0:
      deliver(buf, n);
      return 1;
    case 1:
      hard |= SRC_CALL;
      return 0;
    default:
      deliver(buf, n / 2);
      hard |= SRC_CALL;
      return 0;
  }
}

/*
 * Descriptors
 */

static int
slot(int fd) {
  int i = fd == 0 ? NFD - 1 : fd - FD0;

  if (i < 0 || i >= NFD || fds[i] != 1)
    return -1;

  return i;
}

static int
use(int fd) {
  int i = slot(fd);

  if (i < 0)
    fault("use of a descriptor which is not open");

  return i;
}

static int
opened(int zero, int egd) {
  int i;

  if (zero && fds[NFD - 1] != 1) {
    i = NFD - 1;
  } else {
    for (i = 0; i < NFD - 2 && fds[i]; i++)
      ;

    if (i == NFD - 2) {
      for (i = 0; i < NFD - 3 && fds[i] == 1; i++)
        ;
    }
  }

  fds[i] = 1;
  isegd[i] = egd;

  return i == NFD - 1 ? 0 : FD0 + i;
}

static int
sys_open(const char *name, int flags) {
  int k;

  if (gone(D_OPEN)) {
    hard |= SRC_DEV;
    return err(dead[D_OPEN]);
  }

  k = choose("open", (flags & O_CLOEXEC) ? 7 : 6);

  if (strncmp(name, "/dev/", 5) != 0)
    return err(ENOENT);

  switch (k) {
    case 0:
      return opened(0, 0);
    case 1:
      return err(EINTR);
    case 2:
      hard |= SRC_DEV;
      return err(dead[D_OPEN] = ENOENT);
    case 3:
      hard |= SRC_DEV;
      return err(EMFILE);
    case 4:
      hard |= SRC_DEV;
      return err(dead[D_OPEN] = EACCES);
    case 5:
      return opened(1, 0);
    default:
      return err(EINVAL);
  }
}

int
__wrap_open(const char *name, int flags, ...) {
  return sys_open(name, flags);
}

int
__wrap_open64(const char *name, int flags, ...) {
  return sys_open(name, flags);
}

int
__wrap_openat(int at, const char *name, int flags, ...) {
  return sys_open(name, flags);
}

int
__wrap_fstat(int fd, struct stat *st) {
  if (use(fd) < 0)
    return err(EBADF);

  memset(st, 0, sizeof(*st));

  switch (choose("fstat", 4)) {
    case 0:
      st->st_mode = S_IFCHR | 0666;
      return 0;
    case 1:
      hard |= SRC_DEV;
      st->st_mode = S_IFREG | 0666;
      return 0;
    case 2:
      hard |= SRC_DEV;
      st->st_mode = S_IFIFO | 0666;
      return 0;
    default:
      hard |= SRC_DEV;
      return err(EIO);
  }
}

int
__wrap_fstat64(int fd, struct stat *st) {
  return __wrap_fstat(fd, st);
}

int
__wrap_poll(struct pollfd *p, nfds_t n, int timeout) {
  if (n != 1 || use(p->fd) < 0) {
    hard |= SRC_DEV;
    return err(EBADF);
  }

  p->revents = 0;

  switch (choose("poll", 5)) {
    case 0:
      p->revents = POLLIN;
      return 1;
    case 1:
      return err(EINTR);
    case 2:
      return err(EAGAIN);
    case 3:
      hard |= SRC_DEV;
      return err(ENOMEM);
    default:
      hard |= SRC_DEV;
      return 0;
  }
}

int
__wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  switch (choose("select", 4)) {
    case 0:
      return 1;
    case 1:
      return err(EINTR);
    case 2:
      hard |= SRC_DEV;
      return err(ENOMEM);
    default:
      hard |= SRC_DEV;
      return 0;
  }
}

ssize_t
__wrap_read(int fd, void *buf, size_t n) {
  int i = use(fd);
  unsigned src;

  if (i < 0)
    return err(EBADF);

  src = isegd[i] ? SRC_EGD : SRC_DEV;

  if (isegd[i]) {
    if (grant_n > 0) {
      /* the length of the answer */
      int g = grant_n;
      int k = gone(D_EGD) ? 4 : choose("read length", 7);

      grant_n = 0;

      switch (k) {
        case 0:
          break;
        case 1:
          grant_n = g;
          return err(EINTR);
        case 2:
          hard |= SRC_EGD;
          return err(EIO);
        case 3:
          hard |= SRC_EGD;
          return 0;
        case 4:
          hard |= SRC_EGD;
          dead[D_EGD] = 1;
          g = 0;
          break;
        case 5:
          g = (g + 1) / 2;
          break;
        default:
          if (g < 255) {
            hard |= SRC_EGD;
            g++;
          }
          break;
      }

      grant = g;
      *(unsigned char *)buf = g;

      return 1;
    }

    if (grant == 0) {
      hard |= SRC_EGD;
      return 0;
    }

    if (n > (size_t)grant)
      n = grant;
  }

  if (n == 0)
    return 0;

  if (gone(D_READ)) {
    hard |= src;
    return err(dead[D_READ]);
  }

  switch (choose("read", n > 2 ? 7 : n > 1 ? 6 : 5)) {
    case 0:
      break;
    case 1:
      return err(EINTR);
    case 2:
      return err(EAGAIN);
    case 3:
      hard |= src;
      return 0;
    case 4:
      hard |= src;
      return err(dead[D_READ] = EIO);
    case 5:
      n = 1;
      break;
    default:
      n = n - 1;
      break;
  }

  deliver(buf, n);

  if (isegd[i])
    grant -= n;

  return n;
}

int
__wrap_close(int fd) {
  int i = slot(fd);

  if (i < 0) {
    fault("a descriptor which is not open is closed");
    return err(EBADF);
  }

  fds[i] = 2;

  /* Linux has closed it even if it reports an interruption. */
  return choose("close", 2) ? err(EINTR) : 0;
}

int
__wrap_fcntl(int fd, int cmd, ...) {
  if (use(fd) < 0)
    return err(EBADF);

  return choose("fcntl", 2) ? err(EIO) : 0;
}

int
__wrap_fcntl64(int fd, int cmd, ...) {
  return __wrap_fcntl(fd, cmd);
}

int
__wrap_socket(int domain, int type, int protocol) {
  grant_n = grant = refused = 0;

  switch (choose("socket", (type & SOCK_CLOEXEC) ? 4 : 3)) {
    case 0:
      return opened(0, 1);
    case 1:
      hard |= SRC_EGD;
      return err(EMFILE);
    case 2:
      return opened(1, 1);
    default:
      return err(EINVAL);
  }
}

int
__wrap_connect(int fd, const struct sockaddr *addr, socklen_t len) {
  if (use(fd) < 0)
    return err(EBADF);

  switch (choose("connect", 6)) {
    case 0:
      return 0;
    case 1:
      return err(EINTR);
    case 2:
      return err(EINPROGRESS);
    case 3:
      return err(EISCONN);
    case 4:
      if (++refused == 4)
        hard |= SRC_EGD;
      return err(ENOENT);
    default:
      if (++refused == 4)
        hard |= SRC_EGD;
      return err(ECONNREFUSED);
  }
}

ssize_t
__wrap_write(int fd, const void *buf, size_t n) {
  const unsigned char *p = buf;

  if (use(fd) < 0)
    return err(EBADF);

  if (n != 2 || p[0] != 1 || p[1] == 0) {
    fault("a malformed request is sent to the entropy daemon");
    hard |= SRC_EGD;
    return err(EPIPE);
  }

  switch (choose("write", 5)) {
    case 0:
      if (grant)
        fault("a request is sent before the last answer was read");
      grant_n = p[1];
      return 2;
    case 1:
      return err(EINTR);
    case 2:
      return err(EAGAIN);
    case 3:
      hard |= SRC_EGD;
      return err(EPIPE);
    default:
      hard |= SRC_EGD;
      return 1;
  }
}

int
__wrap_shutdown(int fd, int how) {
  if (use(fd) < 0)
    return err(EBADF);
  return choose("shutdown", 2) ? err(ENOTCONN) : 0;
}

int
__wrap_getpid(void) {
  return pid;
}

void
__wrap_abort(void) {
  fault("the process is aborted");
  longjmp(out, 1);
}

/*
 * Hardware
 */

void
__cpuidex(int regs[4], int leaf, int subleaf) {
  int *c;

  memset(regs, 0, 4 * sizeof(int));

  if (leaf == 0) {
    if (!hw_leaf[0])
      hw_leaf[0] = 1 + choose("cpuid", 3);
    c = hw_leaf;
    regs[0] = *c == 1 ? 7 : *c == 2 ? 1 : 0;
  } else if (leaf == 1) {
    if (!hw_leaf[1])
      hw_leaf[1] = 1 + choose("cpuid", 2);
    if (hw_leaf[1] == 1)
      regs[2] = 1 << 30;
  } else if (leaf == 7) {
    if (!hw_leaf[2])
      hw_leaf[2] = 1 + choose("cpuid", 2);
    if (hw_leaf[2] == 1)
      regs[1] = 1 << 18;
  }

  /* neither instruction */
  if ((hw_leaf[0] > 2 || hw_leaf[1] == 2) && (hw_leaf[0] > 1 || hw_leaf[2] == 2))
    hard |= SRC_HW;
}

int
_rdrand64_step(void *z) {
  int k = 0;
  int i = hw_calls++;

  memset(z, 0, 8);

  if (hw_sticky & 1) {
    if (hw_leaf[0] > 1 || hw_leaf[2] == 2)
      hard |= SRC_HW;
    if (++calls > MAXCALLS)
      k = choose("rdrand", 1);
    return 0;
  }

  if (i < 12 || (i > 1021 && i < 1027))
    k = choose("rdrand", 3);

  if (k == 2) {
    hw_sticky |= 1;

    if (hw_leaf[0] > 1 || hw_leaf[2] == 2)
      hard |= SRC_HW;
  }

  if (k)
    return 0;

  deliver(z, 8);

  return 1;
}

/* The instruction works for good once it did. */
int
_rdseed64_step(void *z) {
  int k = 0;

  memset(z, 0, 8);

  if (hw_sticky & 2) {
    hard |= SRC_HW;
    if (++calls > MAXCALLS)
      k = choose("rdseed", 1);
    return 0;
  }

  k = choose("rdseed", hw_seeded ? 2 : 3);

  if (k == 2)
    hw_sticky |= 2;

  if (k)
    return 0;

  hw_seeded = 1;
  deliver(z, 8);

  return 1;
}

void
_mm_pause(void) {}

/*
 * Explorer
 */

static unsigned char bufs[2][MAXSTEP][GUARD + MAXSIZE + GUARD];
static int rets[2][MAXSTEP];
static long upto[MAXSTEP]; /* bytes delivered before the step */
static unsigned marks[MAXSTEP];

static void
run1(const step_t *st, int n, int m, long f, int b) {
  static int i;
  int j;

  mode = m;
  flip = f;
  pos = 0;
  calls = 0;
  depth = 0;
  fd0 = 0;
  grant_n = grant = 0;
  hw_sticky = hw_seeded = hw_calls = 0;
  memset(hw_leaf, 0, sizeof(hw_leaf));
  memset(dead, 0, sizeof(dead));
  memset(fds, 0, sizeof(fds));

  pid = ++fresh;

  if (setjmp(out)) {
    for (; i < n; i++)
      rets[b][i] = -1;
    return;
  }

  for (i = 0; i < n; i++) {
    unsigned char *p = bufs[b][i];
    unsigned char *d = p + GUARD;
    uint32_t num = 0;
    int r = 1;

    memset(p, 0x5c, sizeof(bufs[b][i]));
    upto[i] = pos;
    hard = 0;

    switch (st[i].op) {
      case 'E':
        r = torsion_getentropy(d, st[i].size);
        break;
      case 'G':
        r = torsion_getrandom(d, st[i].size);
        break;
      case 'R':
        r = torsion_random(&num);
        memcpy(d, &num, 4);
        break;
      case 'U':
        r = torsion_uniform(&num, 0xfffffff1);
        memcpy(d, &num, 4);
        break;
      case 'P':
        pid = ++fresh;
        break;
      case 'D': /* these calls fail from now on */
        for (j = 0; j < 5; j++)
          dead[j] = (st[i].size >> j) & 1 ? EPERM : 0;
        break;
    }

    rets[b][i] = r;
    marks[i] = hard;

    for (j = 0; j < NFD; j++) {
      if (fds[j] == 1)
        fault("a descriptor is left open");
    }

    for (j = 0; j < GUARD; j++) {
      if (p[j] != 0x5c || d[st[i].op == 'R' || st[i].op == 'U' ? 4 + j :
                            st[i].op == 'P' || st[i].op == 'D' ? j : st[i].size + j] != 0x5c)
        fault("bytes outside the buffer are written");
    }
  }
}

/* Without process ids only a new thread starts from nothing. */
static int threaded;

static struct {
  const step_t *st;
  int n, m;
  long f;
  int b;
} job;

static void *
entry(void *arg) {
  run1(job.st, job.n, job.m, job.f, job.b);
  return NULL;
}

static void
run(const step_t *st, int n, int m, long f, int b) {
  pthread_t t;

  if (!threaded) {
    run1(st, n, m, f, b);
    return;
  }

  job.st = st;
  job.n = n;
  job.m = m;
  job.f = f;
  job.b = b;

  if (pthread_create(&t, NULL, entry, NULL) != 0)
    exit(99);

  pthread_join(t, NULL);
}

static void
verdict(const step_t *st, int n, unsigned srcs, int words) {
  static int where[MAXSIZE];
  unsigned char ok[MAXSIZE];
  long since = 0;
  int i, j, k;

  run(st, n, 0, -1, 0);

  if (bad[0])
    return;

  for (i = 0; i < n; i++) {
    const unsigned char *d = bufs[0][i] + GUARD;

    if (st[i].op == 'P' || st[i].op == 'D') {
      since = upto[i];
      continue;
    }

    if (rets[0][i] != 1 && rets[0][i] != 0) {
      fault("neither success nor failure is reported");
      return;
    }

    if (!rets[0][i]) {
      if ((marks[i] & srcs) != srcs) {
        fault("failure is reported although a source answers");
        return;
      }
      continue;
    }

    if (st[i].op == 'E') {
      int size = st[i].size;

      memset(ok, 0, sizeof(ok));

      if (words) {
        for (k = 3; k < 7; k++) {
          run(st, n, k, -1, 1);
          for (j = 0; j < size; j++)
            ok[j] |= d[j] != bufs[1][i][GUARD + j];
        }
        run(st, n, 2, -1, 1);
        for (j = 0; j < size; j++)
          ok[j] |= d[j] != bufs[1][i][GUARD + j];

        /* the last words, if the source dried up */
        for (k = pos / 8; k >= 0 && k >= pos / 8 - 40; k--) {
          if (memchr(ok, 0, size) == NULL)
            break;
          run(st, n, 100 + k, -1, 1);
          for (j = 0; j < size; j++)
            ok[j] |= d[j] != bufs[1][i][GUARD + j];
        }
      } else {
        run(st, n, 2, -1, 1);
        for (j = 0; j < size; j++)
          ok[j] = d[j] == (unsigned char)~bufs[1][i][GUARD + j];
      }

      for (j = 0; j < size; j++) {
        if (!ok[j]) {
          fault("success is reported but a byte came from no source");
          return;
        }
      }

      if (!words) {
        run(st, n, 1, -1, 1);

        for (j = 0; j < size; j++) {
          where[j] = d[j] | bufs[1][i][GUARD + j] << 8;
          for (k = 0; k < j; k++) {
            if (where[k] == where[j]) {
              fault("a byte of a source is used twice");
              return;
            }
          }
        }
      }
    } else if (st[i].op != 'G' || st[i].size >= 8) {
      /* The generator's state: enough of the bytes matter. */
      int size = st[i].op == 'G' ? st[i].size : 4;
      long end = i + 1 < n ? upto[i + 1] : pos;
      int count = 0;
      long p;

      if (end > since + 800)
        end = since + 800;

      for (p = since; p < end && count < 32; p++) {
        run(st, n, 0, p, 1);
        if (memcmp(d, bufs[1][i] + GUARD, size) != 0)
          count++;
      }

      /* restore the record of the plain run */
      run(st, n, 0, -1, 1);

      if (count < 32) {
        fault("success is reported by a generator without a full seed");
        return;
      }
    }
  }
}

/* Explore all answers with at most max deviations. */
int
env_explore(const step_t *st, int n, unsigned srcs, int words, int thread,
            int max, long *paths, long *total, char *msg, size_t len) {
  int i, used, d;

  fixed = 0;
  bad[0] = 0;
  threaded = thread;

  for (;;) {
    verdict(st, n, srcs, words);

    (*paths)++;
    *total += depth;

    if (bad[0]) {
      size_t m = snprintf(msg, len, "%s; answers:", bad);

      for (i = 0; i < depth && i < MAXCHOICE && m < len; i++) {
        if (path[i].pick)
          m += snprintf(msg + m, len - m, " %d:%s=%d", i, path[i].name,
                        path[i].pick);
      }

      return 0;
    }

    /* next path */
    d = depth < MAXCHOICE ? depth : MAXCHOICE;
    used = 0;

    for (i = 0; i < d; i++)
      used += path[i].pick != 0;

    for (i = d - 1; i >= 0; i--) {
      int was = path[i].pick != 0;

      if (path[i].pick + 1 < path[i].n && used - was + 1 <= max) {
        path[i].pick++;
        fixed = i + 1;
        break;
      }

      used -= was;
    }

    if (i < 0)
      return 1;
  }
}

/*
 * Plain use of the healthy system
 */

void
env_begin(long f) {
  static const step_t none;

  fixed = 0;
  bad[0] = 0;
  run1(&none, 0, 0, f, 0);
}

void
env_fork(void) {
  pid = ++fresh;
}

/* Draw n words; returns how many could be drawn. */
int
env_words(uint32_t *dst, int n) {
  int i;

  depth = 0;
  calls = 0;

  for (i = 0; i < n; i++) {
    if (!torsion_random(&dst[i]))
      break;
  }

  return i;
}

int
env_bytes(void *dst, size_t n) {
  depth = 0;
  calls = 0;
  return torsion_getrandom(dst, n);
}
