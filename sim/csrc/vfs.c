// In-memory file system under /sim, pipes, epoll, inotify and simulated child processes,
// reached through the C library symbols the Rust standard library and mio/notify call.
#include "core.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <poll.h>
#include <spawn.h>
#include <limits.h>
#include <signal.h>

#define FD0 10000
#define MAXFD 2048
enum { N_FILE = 1, N_DIR, N_LINK };
enum { K_FREE = 0, K_FILE, K_DIR, K_PIPE_R, K_PIPE_W, K_EPOLL, K_INOTIFY };

typedef struct Inode Inode;
typedef struct Ent { char *name; Inode *ino; struct Ent *next; } Ent;
typedef struct Watch { int wd; uint32_t mask; struct Ino *inst; Inode *ino; struct Watch *next; } Watch;
struct Inode { int type; uint64_t num; char *data; size_t len, cap; Ent *ents; Inode *parent; int nlink, opens; Watch *watches; int bad; uint64_t mtime; int mode; };
typedef struct Iev { int wd; uint32_t mask, cookie; char name[256]; int namelen; struct Iev *next; } Iev;
typedef struct Ino { Iev *head, *tail; int n; int next_wd; Watch *all[4096]; int nall; } Ino;
typedef struct Pipe { char *buf; size_t len, cap, off; int readers, writers; } Pipe;
typedef struct Ep { int n; struct { int fd; uint32_t events; uint64_t data; int armed; } e[64]; } Ep;
typedef struct Obj { int kind; int refs; int flags; Inode *ino; size_t pos; Pipe *pipe; Ep *ep; Ino *in; int wr; int wrote; int proc; struct { char *name; uint64_t ino; int type; } *list; int nlist, cur; char path[512]; } Obj;
static Obj *fds[MAXFD];
static Inode *root_;
static uint64_t next_ino = 1000;
static uint64_t disk_used = 0;
static uint32_t next_cookie = 1;

static int (*r_open)(const char *, int, ...); static int (*r_close)(int);
static DIR *(*r_opendir)(const char *); static int (*r_closedir)(DIR *);
static void *(*r_sym(const char *n))(void) { return (void *(*)(void))dlsym(RTLD_NEXT, n); }
#define REAL(name, T) ({ static __typeof__(T) f_; if (!f_) f_ = (__typeof__(T))dlsym(RTLD_NEXT, name); f_; })
void sim_vfs_init_real(void) { r_open = dlsym(RTLD_NEXT, "open"); r_close = dlsym(RTLD_NEXT, "close"); r_opendir = dlsym(RTLD_NEXT, "opendir"); r_closedir = dlsym(RTLD_NEXT, "closedir"); (void)r_sym; }

static int on(void) { return sim_active && sim_self; }
static __attribute__((noinline)) int is_sim(const char *volatile q) { const char *p = q; return p && !strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/'); }
static Obj *ob(int fd) { return fd >= FD0 && fd < FD0 + MAXFD ? fds[fd - FD0] : 0; }
static char *dup_(const char *s) { size_t n = strlen(s) + 1; char *p = sim_calloc(n); memcpy(p, s, n); return p; }
static uint64_t hpath(const char *p) { uint64_t h = 5381; while (*p) h = h * 131 + (uint8_t)*p++; return h; }

static Inode *inew(int type) { Inode *i = sim_calloc(sizeof *i); i->type = type; i->num = next_ino++; i->nlink = 1; i->mode = type == N_DIR ? 0755 : 0644; i->mtime = on() ? sim_now() : 0; return i; }
static Inode *root(void) { if (!root_) { root_ = inew(N_DIR); root_->parent = root_; } return root_; }
static Ent *dlookup(Inode *d, const char *name) { for (Ent *e = d->ents; e; e = e->next) if (!strcmp(e->name, name)) return e; return 0; }
static void dadd(Inode *d, const char *name, Inode *i) { Ent *e = sim_calloc(sizeof *e); e->name = dup_(name); e->ino = i; e->next = d->ents; d->ents = e; if (i->type == N_DIR) i->parent = d; d->mtime = on() ? sim_now() : 0; }
static void ddel(Inode *d, const char *name) { Ent **p = &d->ents; while (*p) { if (!strcmp((*p)->name, name)) { *p = (*p)->next; return; } p = &(*p)->next; } }
// Resolves /sim/...; *dir and leaf (size 256) receive the parent and last component. Returns -errno or 0.
static int resolve(const char *path, Inode **dir, char *leaf, Inode **out, int follow, int depth) {
  Inode *d = root(); const char *p = path + 4;
  if (depth > 8) return -ELOOP;
  if (dir) *dir = 0; if (out) *out = 0; if (leaf) leaf[0] = 0;
  for (;;) {
    while (*p == '/') p++;
    if (!*p) { if (out) *out = d; return 0; }
    const char *q = p; while (*q && *q != '/') q++;
    size_t n = q - p; if (n > 255) return -ENAMETOOLONG;
    char c[256]; memcpy(c, p, n); c[n] = 0;
    const char *rest = q; while (*rest == '/') rest++;
    if (d->type != N_DIR) return -ENOTDIR;
    if (!strcmp(c, ".")) { p = q; continue; }
    if (!strcmp(c, "..")) { d = d->parent; p = q; continue; }
    Ent *e = dlookup(d, c);
    if (!*rest) {
      if (dir) *dir = d; if (leaf) strcpy(leaf, c);
      if (!e) return *q == '/' && 0 ? -ENOENT : -ENOENT;
      if (e->ino->type == N_LINK && follow) { return resolve(e->ino->data, dir, leaf, out, 1, depth + 1); }
      if (*q == '/' && e->ino->type != N_DIR) return -ENOTDIR;
      if (out) *out = e->ino; return 0;
    }
    if (!e) return -ENOENT;
    Inode *i = e->ino;
    if (i->type == N_LINK) { int r = resolve(i->data, 0, 0, &i, 1, depth + 1); if (r) return r; }
    d = i; p = q;
  }
}

// ---------- inotify ----------
static void ep_arm(Obj *o) { for (int i = 0; i < MAXFD; i++) { Obj *x = fds[i]; if (x && x->kind == K_EPOLL) for (int k = 0; k < x->ep->n; k++) if (ob(x->ep->e[k].fd) == o) { x->ep->e[k].armed = 1; sim_wake(x->ep, 1000); } } }
static Obj *obj_of_inst(Ino *in) { for (int i = 0; i < MAXFD; i++) if (fds[i] && fds[i]->kind == K_INOTIFY && fds[i]->in == in) return fds[i]; return 0; }
static void ievent(Ino *in, int wd, uint32_t mask, uint32_t cookie, const char *name) {
  uint32_t lim = sim_cfg.inotify_queue ? sim_cfg.inotify_queue : 16384;
  Iev *t = in->tail;
  if (t && t->wd == wd && t->mask == mask && t->cookie == cookie && !strcmp(t->name, name ? name : "")) return; // coalesced like the kernel does
  if (!(mask & (IN_IGNORED)) && (in->n >= (int)lim)) {
    if (t && (t->mask & IN_Q_OVERFLOW)) return;
    wd = -1; mask = IN_Q_OVERFLOW; name = 0; cookie = 0; sim_sh->probes[60]++; sim_sh->fired[D_INOTIFY_LOSS]++;
  }
  Iev *e = sim_calloc(sizeof *e); e->wd = wd; e->mask = mask; e->cookie = cookie;
  if (name) { strncpy(e->name, name, 255); e->namelen = ((int)strlen(name) + 16) & ~15; }
  if (in->tail) in->tail->next = e; else in->head = e;
  in->tail = e; in->n++;
  sim_ev(0x900, mask ^ ((uint64_t)wd << 32));
  if (sim_cfg.trace > 2) sim_trace("  inotify event wd=%d mask=%x cookie=%u %s (t%d)", wd, mask, cookie, name ? name : "", sim_self->id);
  Obj *o = obj_of_inst(in); if (o) { ep_arm(o); sim_wake(in, 1000); }
}
static void notify_dir(Inode *d, uint32_t mask, uint32_t cookie, const char *name, int isdir) {
  for (Watch *w = d->watches; w; w = w->next) if (w->mask & mask) ievent(w->inst, w->wd, mask | (isdir ? IN_ISDIR : 0), cookie, name);
}
static void notify_self(Inode *i, uint32_t mask) { for (Watch *w = i->watches; w; w = w->next) if (w->mask & mask) ievent(w->inst, w->wd, mask | (i->type == N_DIR && (mask & (IN_ATTRIB)) ? IN_ISDIR : 0), 0, 0); }
static Inode *find_parent(Inode *d, Inode *i, char *name) { // only for file events; trees are small
  for (Ent *e = d->ents; e; e = e->next) { if (e->ino == i) { strcpy(name, e->name); return d; } if (e->ino->type == N_DIR) { Inode *r = find_parent(e->ino, i, name); if (r) return r; } }
  return 0;
}
static void notify_file(Inode *i, uint32_t mask) { char nm[256]; Inode *d = i->nlink > 0 ? find_parent(root(), i, nm) : 0; if (d) notify_dir(d, mask, 0, nm, 0); notify_self(i, mask); }
static void watch_drop(Watch *w, int ev) {
  Watch **p = &w->ino->watches; while (*p && *p != w) p = &(*p)->next; if (*p) *p = w->next;
  w->inst->all[w->wd] = 0;
  if (ev) ievent(w->inst, w->wd, IN_IGNORED, 0, 0);
}
static void inode_gone(Inode *i) { // last link and last open reference are gone
  notify_self(i, IN_DELETE_SELF);
  while (i->watches) watch_drop(i->watches, 1);
  disk_used -= i->cap < disk_used ? i->len : disk_used;
}
static void unlink_ino(Inode *i) { i->nlink--; if (i->type != N_DIR) { if (i->nlink == 0 && i->opens == 0) inode_gone(i); else notify_self(i, IN_ATTRIB); } else inode_gone(i); }

// ---------- descriptors ----------
static int fd_new(int kind) {
  for (int i = 0; i < MAXFD; i++) if (!fds[i]) { Obj *o = sim_calloc(sizeof *o); o->kind = kind; o->refs = 1; o->proc = sim_self ? sim_self->proc : 0; fds[i] = o; return FD0 + i; }
  return -1;
}
static void obj_release(Obj *o) {
  if (--o->refs) return;
  if (o->kind == K_FILE) { if (o->wr) notify_file(o->ino, IN_CLOSE_WRITE); o->ino->opens--; if (o->ino->nlink <= 0 && o->ino->opens == 0) inode_gone(o->ino); }
  if (o->kind == K_PIPE_R) { o->pipe->readers--; sim_wake(o->pipe, 1000); }
  if (o->kind == K_PIPE_W) { o->pipe->writers--; sim_wake(o->pipe, 1000); for (int i = 0; i < MAXFD; i++) if (fds[i] && fds[i]->kind == K_PIPE_R && fds[i]->pipe == o->pipe) ep_arm(fds[i]); }
  if (o->kind == K_INOTIFY) for (int i = 1; i <= o->in->next_wd && i < 4096; i++) if (o->in->all[i]) watch_drop(o->in->all[i], 0);
}
static int do_close(int fd) { Obj *o = ob(fd); if (!o) { errno = EBADF; return -1; } fds[fd - FD0] = 0; obj_release(o); return 0; }
void sim_vfs_proc_gone(int proc) { for (int i = 0; i < MAXFD; i++) if (fds[i] && fds[i]->proc == proc) { Obj *o = fds[i]; fds[i] = 0; obj_release(o); } }

static void disk_delay(void) {
  uint32_t v = sim_decide(D_DISK_STALL);
  if (v) { static const uint64_t d[] = {100000, 5000000, 200000000, 3000000000ull, 40000000000ull}; sim_sleep(d[v % 5] + (v >> 5) % 5000); }
}
static int enter(const char *what, uint64_t h) { sim_sh->opcount++; sim_point(what, h); disk_delay(); return 0; }

static int open_common(const char *path, int flags, int mode) {
  if (sim_cfg.trace > 1) sim_trace("  open %s flags %x t%d", path, flags, sim_self ? sim_self->id : -1);
  enter("open", 0x100 ^ hpath(path));
  uint32_t v = sim_decide(D_OPEN_ERR);
  if (v) { static const int er[] = {EIO, EMFILE, EACCES, ENFILE}; errno = er[v % 4]; return -1; }
  Inode *dir, *i; char leaf[256];
  int r = resolve(path, &dir, leaf, &i, 1, 0);
  if (r == -ENOENT && (flags & O_CREAT) && dir) {
    if (sim_cfg.disk_bytes && disk_used >= sim_cfg.disk_bytes) { sim_sh->fired[D_WRITE_ENOSPC]++; errno = ENOSPC; return -1; }
    i = inew(N_FILE); i->mode = mode; dadd(dir, leaf, i); notify_dir(dir, IN_CREATE, 0, leaf, 0);
  } else if (r) { errno = -r; return -1; }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  int acc = flags & O_ACCMODE;
  if (i->type == N_DIR && acc != O_RDONLY) { errno = EISDIR; return -1; }
  if (i->bad == 1 && acc == O_RDONLY) { sim_sh->probes[61]++; errno = EACCES; return -1; }
  int fd = fd_new(i->type == N_DIR ? K_DIR : K_FILE); if (fd < 0) { errno = EMFILE; return -1; }
  Obj *o = ob(fd); o->ino = i; o->flags = flags; o->wr = acc != O_RDONLY; i->opens++;
  strncpy(o->path, path, sizeof o->path - 1);
  if (i->type == N_FILE && (flags & O_TRUNC) && o->wr) { disk_used -= i->len; if (i->len) { i->len = 0; i->mtime = sim_now(); notify_file(i, IN_MODIFY); } }
  return fd;
}
static int escape(const char *path, int flags) { // destructive calls on real paths are refused and counted
  if (!on()) return 0;
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!w || !strcmp(path, "/dev/null")) return 0;
  sim_sh->escapes++; errno = EROFS; return 1;
}
int open64(const char *path, int flags, ...) {
  int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (on() && is_sim(path)) return open_common(path, flags, mode);
  if (escape(path, flags)) return -1;
  return r_open ? r_open(path, flags, mode) : (int)sim_raw(SYS_open, (long)path, flags, mode, 0, 0, 0);
}
int open(const char *path, int flags, ...) {
  int mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return open64(path, flags, mode);
}
int close(int fd) {
  if (!ob(fd)) return r_close ? r_close(fd) : (int)sim_raw(SYS_close, fd, 0, 0, 0, 0, 0);
  if (on()) { sim_sh->opcount++; sim_point("close", 0x101); }
  return do_close(fd);
}
static void grow(char **b, size_t *cap, size_t need) { if (need <= *cap) return; size_t c = *cap ? *cap : 256; while (c < need) c *= 2; char *n = sim_calloc(c); if (*b) memcpy(n, *b, *cap); *b = n; *cap = c; }

static ssize_t file_read(Obj *o, char *buf, size_t n, size_t pos) {
  Inode *i = o->ino;
  if (o->kind == K_DIR) { errno = EISDIR; return -1; }
  if (!o->wr || (o->flags & O_ACCMODE) == O_RDWR) ; else { errno = EBADF; return -1; }
  if (sim_decide(D_READ_EINTR)) { errno = EINTR; return -1; }
  if (i->bad == 2) { sim_sh->probes[61]++; errno = EIO; return -1; }
  if (sim_decide(D_READ_EIO)) { errno = EIO; return -1; }
  if (pos >= i->len) return 0;
  size_t k = i->len - pos; if (k > n) k = n;
  uint32_t v; if (k > 1 && (v = sim_decide(D_READ_SHORT))) k = 1 + v % (k - 1);
  memcpy(buf, i->data + pos, k);
  return k;
}
static ssize_t file_write(Obj *o, const char *buf, size_t n, size_t pos) {
  Inode *i = o->ino;
  if (!o->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (sim_decide(D_WRITE_EINTR)) { errno = EINTR; return -1; }
  if (sim_decide(D_WRITE_EIO)) { errno = EIO; return -1; }
  if (sim_decide(D_WRITE_ENOSPC)) { errno = ENOSPC; return -1; }
  uint32_t v; if (n > 1 && (v = sim_decide(D_WRITE_SHORT))) n = 1 + v % (n - 1);
  if (o->flags & O_APPEND) pos = i->len;
  if (pos + n > i->len) {
    size_t add = pos + n - i->len;
    if (sim_cfg.disk_bytes && disk_used + add > sim_cfg.disk_bytes) {
      size_t room = sim_cfg.disk_bytes > disk_used ? sim_cfg.disk_bytes - disk_used : 0;
      sim_sh->fired[D_WRITE_ENOSPC]++;
      if (add - room >= n) { errno = ENOSPC; return -1; }
      n -= add - room; add = room;
    }
    disk_used += add;
    grow(&i->data, &i->cap, pos + n);
    if (pos > i->len) memset(i->data + i->len, 0, pos - i->len);
    i->len = pos + n;
  }
  memcpy(i->data + pos, buf, n);
  i->mtime = sim_now(); o->wrote = 1;
  notify_file(i, IN_MODIFY);
  return n;
}
static ssize_t pipe_read(Obj *o, char *buf, size_t n) {
  Pipe *p = o->pipe;
  while (p->len == 0) {
    if (p->writers == 0) return 0;
    if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
    if (sim_decide(D_READ_EINTR)) { errno = EINTR; return -1; }
    sim_block(p, 0, "pipe read");
  }
  size_t k = p->len < n ? p->len : n; uint32_t v;
  if (k > 1 && (v = sim_decide(D_PIPE_SHORT))) k = 1 + v % (k - 1);
  memcpy(buf, p->buf + p->off, k); p->off += k; p->len -= k; if (!p->len) p->off = 0;
  sim_wake(p, 1000);
  if (p->len) ep_arm(o);
  return k;
}
#define PIPE_CAP 65536
static ssize_t pipe_write(Obj *o, const char *buf, size_t n) {
  Pipe *p = o->pipe; size_t done = 0;
  while (done < n) {
    if (p->readers == 0) { if (done) return done; errno = EPIPE; return -1; }
    size_t room = PIPE_CAP - p->len;
    if (room == 0) { if (done) return done; if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } sim_block(p, 0, "pipe write"); continue; }
    size_t k = n - done < room ? n - done : room; uint32_t v;
    int shrt = 0; if (k > 1 && (v = sim_decide(D_PIPE_SHORT))) { k = 1 + v % (k - 1); shrt = 1; }
    if (p->off) { memmove(p->buf, p->buf + p->off, p->len); p->off = 0; }
    grow(&p->buf, &p->cap, p->len + k); memcpy(p->buf + p->len, buf + done, k); p->len += k; done += k;
    sim_wake(p, 1000);
    for (int i = 0; i < MAXFD; i++) if (fds[i] && fds[i]->kind == K_PIPE_R && fds[i]->pipe == p) ep_arm(fds[i]);
    if (shrt) return done;
  }
  return done;
}
static ssize_t ino_read(Obj *o, char *buf, size_t n) {
  Ino *in = o->in;
  while (!in->head) { if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } sim_block(in, 0, "inotify read"); }
  size_t off = 0;
  while (in->head) {
    Iev *e = in->head; size_t sz = sizeof(struct inotify_event) + e->namelen;
    if (off + sz > n) { if (!off) { errno = EINVAL; return -1; } break; }
    struct inotify_event *ev = (void *)(buf + off);
    ev->wd = e->wd; ev->mask = e->mask; ev->cookie = e->cookie; ev->len = e->namelen;
    memset(ev->name, 0, e->namelen); strcpy(ev->name, e->name[0] ? e->name : ""); 
    off += sz; in->head = e->next; if (!in->head) in->tail = 0; in->n--;
  }
  if (in->head) ep_arm(o); // re-arm on a partial drain (see DESIGN.md: masks a defect of the notify crate, not of fall)
  return off;
}
ssize_t read(int fd, void *buf, size_t n) {
  Obj *o = ob(fd);
  if (!o || !on()) { long r = sim_raw(SYS_read, fd, (long)buf, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  sim_sh->opcount++;
  sim_point("read", 0x102 ^ hpath(o->path));
  ssize_t r;
  switch (o->kind) {
    case K_FILE: case K_DIR: disk_delay(); r = file_read(o, buf, n, o->pos); if (r > 0) o->pos += r; break;
    case K_PIPE_R: r = pipe_read(o, buf, n); break;
    case K_INOTIFY: r = ino_read(o, buf, n); break;
    default: errno = EBADF; r = -1;
  }
  sim_ev(0x910, r);
  return r;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  Obj *o = ob(fd); if (!o || !on()) { long r = sim_raw(SYS_pread64, fd, (long)buf, n, off, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  enter("pread", 0x103); return file_read(o, buf, n, off);
}
ssize_t write(int fd, const void *buf, size_t n) {
  Obj *o = ob(fd);
  if (!o || !on()) { long r = sim_raw(SYS_write, fd, (long)buf, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  sim_sh->opcount++;
  sim_point("write", 0x104 ^ hpath(o->path));
  ssize_t r;
  switch (o->kind) {
    case K_FILE: disk_delay(); r = file_write(o, buf, n, o->pos); if (r > 0) o->pos = (o->flags & O_APPEND) ? o->ino->len : o->pos + r; sim_maybe_kill(); break;
    case K_PIPE_W: r = pipe_write(o, buf, n); break;
    default: errno = EBADF; r = -1;
  }
  sim_ev(0x911, r);
  return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  Obj *o = ob(fd); if (!o || !on()) { long r = sim_raw(SYS_pwrite64, fd, (long)buf, n, off, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  enter("pwrite", 0x105); return file_write(o, buf, n, off);
}
ssize_t readv(int fd, const struct iovec *v, int c) { if (!ob(fd)) { long r = sim_raw(SYS_readv, fd, (long)v, c, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; } for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t writev(int fd, const struct iovec *v, int c) { if (!ob(fd)) { long r = sim_raw(SYS_writev, fd, (long)v, c, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; } for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }

// ---------- stat ----------
static void fill(Inode *i, struct stat64 *s) {
  memset(s, 0, sizeof *s); s->st_dev = 77; s->st_ino = i->num; s->st_nlink = i->nlink > 0 ? i->nlink : 0; s->st_size = i->type == N_FILE ? (off_t)i->len : 4096;
  s->st_mode = (i->type == N_DIR ? S_IFDIR : i->type == N_LINK ? S_IFLNK : S_IFREG) | i->mode; s->st_blksize = 4096;
  s->st_mtim.tv_sec = (i->mtime + sim_wall_off) / 1000000000ll; s->st_mtim.tv_nsec = (i->mtime + sim_wall_off) % 1000000000ll; s->st_ctim = s->st_atim = s->st_mtim;
}
static int do_stat(const char *path, struct stat64 *s, int follow) {
  enter("stat", 0x106 ^ hpath(path));
  uint32_t v = sim_decide(D_STAT_ERR); if (v) { errno = v % 2 ? EIO : EACCES; return -1; }
  Inode *i; int r = resolve(path, 0, 0, &i, follow, 0); if (r) { errno = -r; sim_ev(0x912, r); return -1; }
  fill(i, s); return 0;
}
int stat64(const char *p, struct stat64 *s) { if (on() && is_sim(p)) return do_stat(p, s, 1); return REAL("stat64", int (*)(const char *, struct stat64 *))(p, s); }
int lstat64(const char *p, struct stat64 *s) { if (on() && is_sim(p)) return do_stat(p, s, 0); return REAL("lstat64", int (*)(const char *, struct stat64 *))(p, s); }
int fstat64(int fd, struct stat64 *s) {
  Obj *o = ob(fd); if (!o || !on()) return REAL("fstat64", int (*)(int, struct stat64 *))(fd, s);
  if (!o->ino) { memset(s, 0, sizeof *s); s->st_mode = S_IFIFO | 0600; return 0; }
  fill(o->ino, s); return 0;
}
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { if (on() && is_sim(p)) return do_stat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); return REAL("fstatat64", int (*)(int, const char *, struct stat64 *, int))(d, p, s, fl); }
static void to_statx(struct stat64 *s, struct statx *x) {
  memset(x, 0, sizeof *x); x->stx_mask = 0xfff; x->stx_mode = s->st_mode; x->stx_ino = s->st_ino; x->stx_size = s->st_size; x->stx_nlink = s->st_nlink; x->stx_blksize = 4096; x->stx_dev_minor = 77;
  x->stx_mtime.tv_sec = s->st_mtim.tv_sec; x->stx_mtime.tv_nsec = s->st_mtim.tv_nsec; x->stx_atime = x->stx_ctime = x->stx_btime = x->stx_mtime;
}
int statx(int dfd, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) {
  if (on()) {
    struct stat64 s;
    if (!p) { errno = EFAULT; return -1; }
    if (is_sim(p)) { if (do_stat(p, &s, !(fl & AT_SYMLINK_NOFOLLOW))) return -1; to_statx(&s, x); return 0; }
    if ((fl & AT_EMPTY_PATH) && !*p && ob(dfd)) { if (fstat64(dfd, &s)) return -1; to_statx(&s, x); return 0; }
  }
  long r = sim_raw(SYS_statx, dfd, (long)p, fl, mask, (long)x, 0); if (r < 0) { errno = -r; return -1; } return r;
}
int access(const char *p, int m) { if (on() && is_sim(p)) { struct stat64 s; return do_stat(p, &s, 1); } return REAL("access", int (*)(const char *, int))(p, m); }

// ---------- directories ----------
typedef struct { int magic; int fd; } SDir;
DIR *opendir(const char *p) {
  if (!(on() && is_sim(p))) return r_opendir ? r_opendir(p) : 0;
  enter("opendir", 0x107 ^ hpath(p));
  uint32_t v = sim_decide(D_OPEN_ERR); if (v) { errno = v % 2 ? EIO : EMFILE; return 0; }
  Inode *i; int r = resolve(p, 0, 0, &i, 1, 0); if (r) { errno = -r; return 0; }
  if (i->type != N_DIR) { errno = ENOTDIR; return 0; }
  if (i->bad) { sim_sh->probes[61]++; errno = EACCES; return 0; }
  int fd = fd_new(K_DIR); Obj *o = ob(fd); o->ino = i; i->opens++;
  SDir *d = sim_calloc(sizeof *d); d->magic = 0x51d1; d->fd = fd; return (DIR *)d;
}
// the listing is taken at the first readdir, as with getdents on a small directory
static void list_now(Obj *o) {
  Inode *i = o->ino;
  int n = 0; for (Ent *e = i->ents; e; e = e->next) n++;
  o->list = sim_calloc(sizeof(*o->list) * (n + 3)); o->nlist = 0;
  o->list[o->nlist].name = "."; o->list[o->nlist].ino = i->num; o->list[o->nlist++].type = DT_DIR;
  o->list[o->nlist].name = ".."; o->list[o->nlist].ino = i->parent->num; o->list[o->nlist++].type = DT_DIR;
  for (Ent *e = i->ents; e; e = e->next) { // arbitrary but repeatable order
    int k = o->nlist++; uint64_t h = sim_hash3(sim_hash_seed, hpath(e->name), 3);
    while (k > 2 && sim_hash3(sim_hash_seed, hpath(o->list[k - 1].name), 3) > h) { o->list[k] = o->list[k - 1]; k--; }
    o->list[k].name = dup_(e->name); o->list[k].ino = e->ino->num; o->list[k].type = e->ino->type == N_DIR ? DT_DIR : e->ino->type == N_LINK ? DT_LNK : DT_REG;
  }
}
static int is_sdir(DIR *d) { return ((SDir *)d)->magic == 0x51d1; }
int readdir64_r(DIR *d, struct dirent64 *ent, struct dirent64 **res) {
  if (!is_sdir(d)) return REAL("readdir64_r", int (*)(DIR *, struct dirent64 *, struct dirent64 **))(d, ent, res);
  Obj *o = ob(((SDir *)d)->fd); *res = 0;
  sim_point("readdir", 0x108);
  if (!o->list) list_now(o);
  if (o->cur > 1 && sim_decide(D_READDIR_ERR)) { o->cur = o->nlist; return EIO; }
  if (o->cur >= o->nlist) return 0;
  ent->d_ino = o->list[o->cur].ino; ent->d_type = o->list[o->cur].type; ent->d_reclen = sizeof *ent; ent->d_off = o->cur; strncpy(ent->d_name, o->list[o->cur].name, 255);
  o->cur++; *res = ent; return 0;
}
struct dirent64 *readdir64(DIR *d) {
  if (!is_sdir(d)) return REAL("readdir64", struct dirent64 * (*)(DIR *))(d);
  static struct dirent64 e; struct dirent64 *r; int x = readdir64_r(d, &e, &r); if (x) { errno = x; return 0; } return r;
}
int closedir(DIR *d) { if (!is_sdir(d)) return r_closedir(d); int fd = ((SDir *)d)->fd; Obj *o = ob(fd); o->ino->opens--; fds[fd - FD0] = 0; return 0; }
int dirfd(DIR *d) { if (!is_sdir(d)) return REAL("dirfd", int (*)(DIR *))(d); return ((SDir *)d)->fd; }

// ---------- namespace operations ----------
static int meta(const char *what, const char *p) { enter(what, 0x110 ^ hpath(p)); uint32_t v = sim_decide(D_META_ERR); if (v) { static const int er[] = {EIO, ENOSPC, EACCES, EROFS}; errno = er[v % 4]; return -1; } return 0; }
#define ESC(p) do { if (on() && !is_sim(p)) { sim_sh->escapes++; errno = EROFS; return -1; } } while (0)
int mkdir(const char *p, mode_t m) {
  ESC(p); if (!on()) return REAL("mkdir", int (*)(const char *, mode_t))(p, m);
  if (meta("mkdir", p)) return -1;
  Inode *d, *i; char l[256]; int r = resolve(p, &d, l, &i, 1, 0);
  if (!r) { errno = EEXIST; return -1; } if (r != -ENOENT || !d) { errno = -r; return -1; }
  if (d->nlink <= 0) { errno = ENOENT; return -1; }
  dadd(d, l, inew(N_DIR)); notify_dir(d, IN_CREATE, 0, l, 1); sim_maybe_kill(); return 0;
}
int rmdir(const char *p) {
  ESC(p); if (!on()) return REAL("rmdir", int (*)(const char *))(p);
  if (meta("rmdir", p)) return -1;
  Inode *d, *i; char l[256]; int r = resolve(p, &d, l, &i, 0, 0); if (r) { errno = -r; return -1; }
  if (i->type != N_DIR) { errno = ENOTDIR; return -1; } if (i->ents) { errno = ENOTEMPTY; return -1; }
  if (!d) { errno = EBUSY; return -1; }
  ddel(d, l); i->nlink = 0; inode_gone(i); notify_dir(d, IN_DELETE, 0, l, 1); sim_maybe_kill(); return 0;
}
int unlink(const char *p) {
  ESC(p); if (!on()) return REAL("unlink", int (*)(const char *))(p);
  if (meta("unlink", p)) return -1;
  Inode *d, *i; char l[256]; int r = resolve(p, &d, l, &i, 0, 0); if (r) { errno = -r; return -1; }
  if (i->type == N_DIR) { errno = EISDIR; return -1; }
  ddel(d, l); unlink_ino(i); notify_dir(d, IN_DELETE, 0, l, 0); sim_maybe_kill(); return 0;
}
int rename(const char *a, const char *b) {
  ESC(a); ESC(b); if (!on()) return REAL("rename", int (*)(const char *, const char *))(a, b);
  if (meta("rename", a)) return -1;
  Inode *da, *ia, *db, *ib; char la[256], lb[256];
  int r = resolve(a, &da, la, &ia, 0, 0); if (r) { errno = -r; return -1; }
  int q = resolve(b, &db, lb, &ib, 0, 0); if (q && (q != -ENOENT || !db)) { errno = -q; return -1; }
  if (!da || !db) { errno = EBUSY; return -1; }
  if (!q && ib == ia) return 0;
  for (Inode *x = db;; x = x->parent) { if (x == ia) { errno = EINVAL; return -1; } if (x == x->parent) break; }
  if (!q) {
    if (ib->type == N_DIR) { if (ia->type != N_DIR) { errno = EISDIR; return -1; } if (ib->ents) { errno = ENOTEMPTY; return -1; } }
    else if (ia->type == N_DIR) { errno = ENOTDIR; return -1; }
    ddel(db, lb);
  }
  ddel(da, la); dadd(db, lb, ia);
  uint32_t c = next_cookie++; int isd = ia->type == N_DIR;
  notify_dir(da, IN_MOVED_FROM, c, la, isd); notify_dir(db, IN_MOVED_TO, c, lb, isd); notify_self(ia, IN_MOVE_SELF);
  if (!q) unlink_ino(ib);
  sim_maybe_kill(); return 0;
}
int renameat(int x, const char *a, int y, const char *b) { (void)x; (void)y; return rename(a, b); }
int symlink(const char *t, const char *p) {
  ESC(p); if (!on()) return REAL("symlink", int (*)(const char *, const char *))(t, p);
  if (meta("symlink", p)) return -1; Inode *d, *i; char l[256]; int r = resolve(p, &d, l, &i, 0, 0); if (!r) { errno = EEXIST; return -1; } if (!d) { errno = -r; return -1; }
  i = inew(N_LINK); i->data = dup_(t); i->len = strlen(t); dadd(d, l, i); notify_dir(d, IN_CREATE, 0, l, 0); return 0;
}
int link(const char *a, const char *b) { ESC(b); (void)a; if (!on()) return REAL("link", int (*)(const char *, const char *))(a, b); errno = EPERM; return -1; }
ssize_t readlink(const char *p, char *b, size_t n) {
  if (!(on() && is_sim(p))) return REAL("readlink", ssize_t (*)(const char *, char *, size_t))(p, b, n);
  Inode *i; int r = resolve(p, 0, 0, &i, 0, 0); if (r) { errno = -r; return -1; } if (i->type != N_LINK) { errno = EINVAL; return -1; } size_t k = i->len < n ? i->len : n; memcpy(b, i->data, k); return k;
}
char *realpath(const char *p, char *out) {
  if (!(on() && is_sim(p))) return REAL("realpath", char *(*)(const char *, char *))(p, out);
  Inode *i; int r = resolve(p, 0, 0, &i, 1, 0); if (r) { errno = -r; return 0; }
  // normalise . and .. lexically: the tree has no symlinked directories in its paths
  char tmp[4096]; size_t n = 4; strcpy(tmp, "/sim"); const char *q = p + 4;
  while (*q) { while (*q == '/') q++; const char *e = q; while (*e && *e != '/') e++; size_t k = e - q; if (!k) break; if (k == 1 && *q == '.') ; else if (k == 2 && q[0] == '.' && q[1] == '.') { while (n > 4 && tmp[n - 1] != '/') n--; if (n > 4) n--; } else { tmp[n++] = '/'; memcpy(tmp + n, q, k); n += k; } q = e; }
  tmp[n] = 0; if (!out) { out = malloc(n + 1); } strcpy(out, tmp); return out;
}
int chmod(const char *p, mode_t m) { ESC(p); if (!on()) return REAL("chmod", int (*)(const char *, mode_t))(p, m); if (meta("chmod", p)) return -1; Inode *i; int r = resolve(p, 0, 0, &i, 1, 0); if (r) { errno = -r; return -1; } i->mode = m & 07777; notify_file(i, IN_ATTRIB); return 0; }
int fchmod(int fd, mode_t m) { Obj *o = ob(fd); if (o && o->ino) { o->ino->mode = m & 07777; return 0; } return REAL("fchmod", int (*)(int, mode_t))(fd, m); }
int ftruncate64(int fd, off64_t n) { Obj *o = ob(fd); if (!o || !on()) return REAL("ftruncate64", int (*)(int, off64_t))(fd, n); enter("ftruncate", 0x120); if (sim_decide(D_WRITE_EIO)) { errno = EIO; return -1; } grow(&o->ino->data, &o->ino->cap, n); if ((size_t)n > o->ino->len) memset(o->ino->data + o->ino->len, 0, n - o->ino->len); o->ino->len = n; notify_file(o->ino, IN_MODIFY); return 0; }
off64_t lseek64(int fd, off64_t off, int wh) { Obj *o = ob(fd); if (!o || !on()) return REAL("lseek64", off64_t (*)(int, off64_t, int))(fd, off, wh); if (!o->ino) { errno = ESPIPE; return -1; } o->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? (off64_t)o->pos + off : (off64_t)o->ino->len + off; return o->pos; }
int fsync(int fd) { Obj *o = ob(fd); if (!o || !on()) return REAL("fsync", int (*)(int))(fd); enter("fsync", 0x121); if (sim_decide(D_WRITE_EIO)) { errno = EIO; return -1; } return 0; }
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) { if (!ob(fd)) return REAL("flock", int (*)(int, int))(fd, op); return 0; }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  Obj *o = ob(fd);
  if (!o || !on()) { long r = sim_raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  switch (cmd) {
    case F_GETFL: return o->flags; case F_SETFL: o->flags = (o->flags & O_ACCMODE) | (arg & ~O_ACCMODE); return 0;
    case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: for (int i = 0; i < MAXFD; i++) if (!fds[i]) { fds[i] = o; o->refs++; return FD0 + i; }
  }
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long arg = va_arg(ap, long); va_end(ap);
  if (ob(fd)) { if (rq == 0x5421 /*FIONBIO*/) { if (*(int *)arg) ob(fd)->flags |= O_NONBLOCK; else ob(fd)->flags &= ~O_NONBLOCK; } return 0; }
  long r = sim_raw(SYS_ioctl, fd, rq, arg, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
int dup2(int a, int b) { if (ob(a) || ob(b)) { errno = EINVAL; return -1; } return REAL("dup2", int (*)(int, int))(a, b); }

// ---------- pipes, epoll, poll ----------
int pipe2(int out[2], int fl) {
  if (!on()) { long r = sim_raw(SYS_pipe2, (long)out, fl, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  if (sim_decide(D_OPEN_ERR)) { errno = EMFILE; return -1; }
  Pipe *p = sim_calloc(sizeof *p); p->readers = p->writers = 1;
  out[0] = fd_new(K_PIPE_R); ob(out[0])->pipe = p; ob(out[0])->flags = fl & O_NONBLOCK;
  out[1] = fd_new(K_PIPE_W); ob(out[1])->pipe = p; ob(out[1])->flags = fl & O_NONBLOCK;
  return 0;
}
int pipe(int out[2]) { return pipe2(out, 0); }
static int ready(Obj *o, uint32_t want) {
  uint32_t r = 0; if (!o) return 0;
  switch (o->kind) {
    case K_PIPE_R: if (o->pipe->len || !o->pipe->writers) r |= EPOLLIN; if (!o->pipe->writers) r |= EPOLLHUP; break;
    case K_PIPE_W: if (o->pipe->len < PIPE_CAP) r |= EPOLLOUT; if (!o->pipe->readers) r |= EPOLLERR; break;
    case K_INOTIFY: if (o->in->head) r |= EPOLLIN; break;
    default: r = EPOLLIN | EPOLLOUT;
  }
  return r & (want | EPOLLHUP | EPOLLERR);
}
int epoll_create1(int fl) { if (!on()) return (int)sim_raw(SYS_epoll_create1, fl, 0, 0, 0, 0, 0); int fd = fd_new(K_EPOLL); ob(fd)->ep = sim_calloc(sizeof(Ep)); return fd; }
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
  Obj *x = ob(epfd); if (!x) return (int)sim_raw(SYS_epoll_ctl, epfd, op, fd, (long)ev, 0, 0);
  Ep *ep = x->ep; int k; for (k = 0; k < ep->n; k++) if (ep->e[k].fd == fd) break;
  if (op == EPOLL_CTL_ADD) { if (k < ep->n) { errno = EEXIST; return -1; } if (k >= 64) { errno = ENOSPC; return -1; } ep->n++; ep->e[k].fd = fd; }
  else if (k == ep->n) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) { ep->e[k] = ep->e[--ep->n]; return 0; }
  ep->e[k].events = ev->events; ep->e[k].data = ev->data.u64; ep->e[k].armed = 1;
  sim_wake(ep, 1000); return 0;
}
int epoll_wait(int epfd, struct epoll_event *out, int max, int timeout) {
  Obj *x = ob(epfd); if (!x) { long r = sim_raw(SYS_epoll_wait, epfd, (long)out, max, timeout, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  sim_point("epoll_wait", 0x130);
  Ep *ep = x->ep; uint64_t dl = timeout < 0 ? 0 : sim_now() + (uint64_t)timeout * 1000000 + 1;
  if (timeout != 0 && sim_decide(D_READ_EINTR)) { errno = EINTR; return -1; }
  for (;;) {
    int n = 0;
    for (int k = 0; k < ep->n && n < max; k++) {
      int r = ready(ob(ep->e[k].fd), ep->e[k].events & (EPOLLIN | EPOLLOUT));
      if (!r) continue;
      if (ep->e[k].events & EPOLLET) { if (!ep->e[k].armed) continue; ep->e[k].armed = 0; }
      out[n].events = r; out[n++].data.u64 = ep->e[k].data;
    }
    if (n || timeout == 0) return n;
    if (sim_block(ep, dl, "epoll")) return 0;
  }
}
int poll(struct pollfd *f, nfds_t n, int timeout) {
  int sim = 0; for (nfds_t i = 0; i < n; i++) if (ob(f[i].fd)) sim = 1;
  if (!sim) { long r = sim_raw(SYS_poll, (long)f, n, timeout, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  uint64_t dl = timeout < 0 ? 0 : sim_now() + (uint64_t)timeout * 1000000 + 1;
  sim_point("poll", 0x131);
  for (;;) {
    int c = 0; for (nfds_t i = 0; i < n; i++) { int r = ready(ob(f[i].fd), f[i].events & (POLLIN | POLLOUT)); f[i].revents = r; if (r) c++; }
    if (c || timeout == 0) return c;
    // one blocked object at a time is enough here: sleep in small steps of simulated time
    uint64_t now = sim_now(); if (dl && now >= dl) return 0;
    sim_sleep(1000000);
  }
}

// ---------- inotify API ----------
int inotify_init1(int fl) {
  if (!on()) return (int)sim_raw(SYS_inotify_init1, fl, 0, 0, 0, 0, 0);
  int fd = fd_new(K_INOTIFY); Obj *o = ob(fd); o->in = sim_calloc(sizeof(Ino)); o->flags = fl & O_NONBLOCK; return fd;
}
int inotify_init(void) { return inotify_init1(0); }
int inotify_add_watch(int fd, const char *p, uint32_t mask) {
  Obj *o = ob(fd); if (!o) return (int)sim_raw(SYS_inotify_add_watch, fd, (long)p, mask, 0, 0, 0);
  sim_point("add_watch", 0x140 ^ hpath(p));
  if (sim_decide(D_WATCH_ERR)) { errno = ENOSPC; return -1; }
  Inode *i; int r = resolve(p, 0, 0, &i, 1, 0); if (r) { errno = -r; return -1; }
  for (Watch *w = i->watches; w; w = w->next) if (w->inst == o->in) { if (mask & IN_MASK_ADD) w->mask |= mask & ~IN_MASK_ADD; else w->mask = mask; if (sim_cfg.trace > 2) sim_trace("  add_watch %s -> wd=%d (t%d)", p, w->wd, sim_self->id);
  return w->wd; }
  if (o->in->next_wd >= 4094) { errno = ENOSPC; return -1; }
  Watch *w = sim_calloc(sizeof *w); w->wd = ++o->in->next_wd; w->mask = mask & ~IN_MASK_ADD; w->inst = o->in; w->ino = i; w->next = i->watches; i->watches = w; o->in->all[w->wd] = w;
  if (sim_cfg.trace > 2) sim_trace("  add_watch %s -> wd=%d (t%d)", p, w->wd, sim_self->id);
  return w->wd;
}
int inotify_rm_watch(int fd, int wd) {
  Obj *o = ob(fd); if (!o) return (int)sim_raw(SYS_inotify_rm_watch, fd, wd, 0, 0, 0, 0);
  if (wd < 1 || wd > o->in->next_wd || !o->in->all[wd]) { errno = EINVAL; return -1; }
  watch_drop(o->in->all[wd], 1); return 0;
}

// ---------- simulated child processes ----------
typedef struct { int n; struct { int from, to; } d[8]; } SAct;
_Static_assert(sizeof(SAct) <= sizeof(posix_spawn_file_actions_t), "");
typedef struct Proc { int pid; int done; int status; Obj *io[3]; char **argv; int reaped; } Proc;
static Proc *procs[64]; static int nprocs;
static int (*spawn_handler)(int pid, int argc, char **argv) = 0;
void sim_set_spawn_handler(int (*h)(int, int, char **)) { spawn_handler = h; }
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *a) { memset(a, 0, sizeof *a); return 0; }
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *a) { (void)a; return 0; }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *a, int from, int to) { SAct *s = (SAct *)a; if (s->n < 8) { s->d[s->n].from = from; s->d[s->n++].to = to; } return 0; }
int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *a, const char *p) { (void)a; (void)p; return 0; }
static void *proc_main(void *x) {
  Proc *p = x;
  int argc = 0; while (p->argv[argc]) argc++;
  p->status = spawn_handler ? spawn_handler(p->pid, argc, p->argv) : 127 << 8;
  for (int i = 0; i < 3; i++) if (p->io[i]) { obj_release(p->io[i]); p->io[i] = 0; }
  p->done = 1; sim_ev(0x8001, p->status); sim_wake(p, 1000);
  return 0;
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  (void)at; (void)envp; (void)file;
  if (!on()) return ENOSYS;
  enter("spawn", 0x150 ^ hpath(file));
  uint32_t v = sim_decide(D_SPAWN_ERR); if (v) return v % 2 ? EAGAIN : ENOENT;
  if (nprocs >= 64) return EAGAIN;
  Proc *p = sim_calloc(sizeof *p); p->pid = 5000 + nprocs; procs[nprocs++] = p;
  int argc = 0; while (argv[argc]) argc++;
  p->argv = sim_calloc(sizeof(char *) * (argc + 1)); for (int i = 0; i < argc; i++) p->argv[i] = dup_(argv[i]);
  SAct *s = (SAct *)a;
  if (s) for (int i = 0; i < s->n; i++) { Obj *o = ob(s->d[i].from); int to = s->d[i].to; if (to >= 0 && to < 3) { if (p->io[to]) obj_release(p->io[to]); p->io[to] = o; if (o) o->refs++; } }
  pthread_t th; uint64_t f = sim_self->faults; int pr = sim_self->proc, ns = 0; (void)ns; sim_self->faults = 0; sim_self->proc = 0;
  pthread_attr_t pa; pthread_attr_init(&pa); pthread_attr_setstacksize(&pa, 4 << 20);
  // the child's body runs as one more simulated thread with no faults of its own
  pthread_create(&th, &pa, proc_main, p);
  sim_self->faults = f; sim_self->proc = pr;
  *pid = p->pid;
  return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return posix_spawnp(pid, file, a, at, argv, envp); }
pid_t fork(void) { if (on()) { sim_sh->escapes++; errno = EAGAIN; return -1; } return REAL("fork", pid_t (*)(void))(); }
static Proc *proc_of(int pid) { int k = pid - 5000; return k >= 0 && k < nprocs ? procs[k] : 0; }
pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!on()) { long r = sim_raw(SYS_wait4, pid, (long)st, opt, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
  Proc *p = proc_of(pid); if (!p || p->reaped) { errno = ECHILD; return -1; }
  sim_point("waitpid", 0x151);
  if (!p->done && (opt & WNOHANG)) return 0;
  if (sim_decide(D_READ_EINTR)) { errno = EINTR; return -1; }
  while (!p->done) sim_block(p, 0, "waitpid");
  p->reaped = 1; if (st) *st = p->status; return pid;
}
int kill(pid_t pid, int sig) { if (on()) { if (proc_of(pid)) return 0; sim_sh->escapes++; errno = EPERM; return -1; } return (int)sim_raw(SYS_kill, pid, sig, 0, 0, 0, 0); }
// child side I/O for the handler; fd 0, 1, 2 of the child. Returns -1 when not connected.
long sim_child_read(int pid, char *buf, size_t n) { Proc *p = proc_of(pid); if (!p->io[0] || p->io[0]->kind != K_PIPE_R) return 0; sim_point("child read", 0x152); return pipe_read(p->io[0], buf, n); }
long sim_child_write(int pid, int fd, const char *buf, size_t n) { Proc *p = proc_of(pid); if (!p->io[fd] || p->io[fd]->kind != K_PIPE_W) return n; sim_point("child write", 0x153); return pipe_write(p->io[fd], buf, n); }
int sim_child_has(int pid, int fd) { Proc *p = proc_of(pid); return p->io[fd] != 0; }

int sim_vfs_syscall(long n, long a, long b, long c, long d, long e, long f, long *ret) {
  (void)f;
  switch (n) {
    case SYS_statx: *ret = statx(a, (char *)b, c, d, (void *)e); return 1;
    case SYS_copy_file_range: if (ob(a) || ob(c)) { errno = EXDEV; *ret = -1; return 1; } return 0;
    case SYS_openat: if (is_sim((char *)b)) { *ret = open_common((char *)b, c, d); return 1; } return 0;
    case SYS_pipe2: *ret = pipe2((int *)a, b); return 1;
    case SYS_epoll_create1: *ret = epoll_create1(a); return 1;
  }
  return 0;
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { if (ob(a) || ob(b)) { errno = EXDEV; return -1; } long r = sim_raw(SYS_copy_file_range, a, (long)x, b, (long)y, n, f); if (r < 0) { errno = -r; return -1; } return r; }
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { if (ob(a) || ob(b)) { errno = EINVAL; return -1; } long r = sim_raw(SYS_sendfile, a, b, (long)o, n, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { if (ob(a) || ob(b)) { errno = EINVAL; return -1; } long r = sim_raw(SYS_splice, a, (long)x, b, (long)y, n, f); if (r < 0) { errno = -r; return -1; } return r; }

// ---------- direct access for scenarios and oracles: no scheduling point, no fault ----------
int sim_fs_put(const char *path, const char *data, size_t n) {
  Inode *d, *i; char l[256]; int r = resolve(path, &d, l, &i, 1, 0);
  if (r == -ENOENT && d) { i = inew(N_FILE); dadd(d, l, i); } else if (r) return r;
  i->len = 0; grow(&i->data, &i->cap, n ? n : 1); memcpy(i->data, data, n); i->len = n; return 0;
}
int sim_fs_mkdir(const char *path) { Inode *d, *i; char l[256]; int r = resolve(path, &d, l, &i, 1, 0); if (!r) return 0; if (!d) return r; dadd(d, l, inew(N_DIR)); return 0; }
long sim_fs_get(const char *path, char *buf, size_t n) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); if (r) return r; if (i->type != N_FILE) return -EISDIR; size_t k = i->len < n ? i->len : n; if (buf) memcpy(buf, i->data, k); return i->len; }
int sim_fs_type(const char *path) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); return r ? 0 : i->type; }
int sim_fs_bad(const char *path, int bad) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); if (r) return r; i->bad = bad; return 0; }
int sim_fs_isbad(const char *path) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); return r ? 0 : i->bad; }
int sim_fs_remove(const char *path) { Inode *d, *i; char l[256]; int r = resolve(path, &d, l, &i, 0, 0); if (r) return r; if (!d) return -EBUSY; ddel(d, l); i->nlink = 0; return 0; }
// depth-first listing of every file: writes "path\0" entries; bad directories are listed too
static size_t walk(Inode *d, char *pfx, size_t pn, char *out, size_t o, size_t cap, int files) {
  for (Ent *e = d->ents; e; e = e->next) { size_t k = strlen(e->name); if (pn + k + 2 > 4000) continue; pfx[pn] = '/'; memcpy(pfx + pn + 1, e->name, k); pfx[pn + 1 + k] = 0;
    if ((e->ino->type == N_FILE) == (files != 0)) { if (o + pn + k + 2 < cap) { strcpy(out + o, pfx); o += pn + k + 2; } }
    if (e->ino->type == N_DIR) o = walk(e->ino, pfx, pn + 1 + k, out, o, cap, files);
    pfx[pn] = 0; }
  return o;
}
size_t sim_fs_list(const char *path, char *out, size_t cap, int files) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); if (r || i->type != N_DIR) return 0; char pfx[4096]; strcpy(pfx, path); return walk(i, pfx, strlen(pfx), out, 0, cap, files); }
int sim_fs_watched(const char *path) { Inode *i; int r = resolve(path, 0, 0, &i, 1, 0); return r ? 0 : i->watches != 0; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fds[i]) n++; return n; }
// inotify queues drained and nothing pending
int sim_inotify_pending(void) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fds[i] && fds[i]->kind == K_INOTIFY) n += fds[i]->in->n; return n; }
void sim_set_inotify_limit(uint32_t n) { sim_cfg.inotify_queue = n; }
void sim_set_disk(uint64_t n) { sim_cfg.disk_bytes = n ? disk_used + n : 0; }
