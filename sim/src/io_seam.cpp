// File seam: open/read of files under the run's scratch directory go through
// here, so that the simulator can inject open errors, read errors at a chosen
// byte, interrupted reads and short reads.  Everything else passes through.

#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {

bool active;
char root[256];
size_t root_len;
std::vector<sim::IoFault> *faults;
long fired[8];

struct Fd
{
  int fault;
  long pos;
  int calls;
  int disk; // index into dfiles, plus one
};

const int MAXFD = 256;
Fd fds[MAXFD];

void
set_disk (int fd, int i)
{
  fds[fd].disk = i;
}

// The disk: what is written under the root, what of it would survive a loss
// of power, and the faults of it.
struct DFile
{
  std::string path;
  unsigned long ino;
  long long synced; // bytes that survive a loss of power
};
bool disk_on;
long disk_n;          // operations that change the disk, so far
long disk_at = -1;    // the one with the fault
int disk_kind;        // 1 error, 2 short write then full, 3 crash, 4 power
int disk_arg;         // errno, or bytes written before the fault
bool disk_full;
std::vector<DFile> *dfiles;

bool
under_root (const char *path)
{
  return disk_on && path != nullptr && strncmp (path, root, root_len) == 0;
}

[[noreturn]] void
disk_crash (bool power)
{
  if (power && dfiles)
    for (auto &f : *dfiles)
      {
        struct stat st;
        if (stat (f.path.c_str (), &st) == 0
            && (unsigned long) st.st_ino == f.ino
            && (long long) st.st_size > f.synced)
          {
            if (truncate (f.path.c_str (), f.synced) != 0)
              sim::out ("BADDISK\n");
            fired[7]++;
          }
      }
  sim::out ("%s\n", power ? "POWER" : "CRASH");
  sim::out ("DONE\n");
  sim::flush ();
  _exit (0);
}

// Before an operation that changes the disk: whether it fails.
bool
disk_fault ()
{
  if (disk_n++ != disk_at)
    return false;
  if (disk_kind >= 3)
    disk_crash (disk_kind == 4);
  sim::out ("DISKERR\n");
  errno = disk_kind == 1 ? disk_arg : 28;
  return true;
}

void
disk_opened (int fd, const char *path, int flags)
{
  struct stat st;
  if (fd < 0 || fd >= 256 || fstat (fd, &st) != 0)
    return;
  if (!dfiles)
    dfiles = new std::vector<DFile>;
  for (size_t i = 0; i < dfiles->size (); i++)
    if ((*dfiles)[i].ino == (unsigned long) st.st_ino)
      {
        DFile &f = (*dfiles)[i];
        f.path = path;
        if (f.synced > (long long) st.st_size)
          f.synced = (long long) st.st_size;
        set_disk (fd, (int) i + 1);
        return;
      }
  DFile f;
  f.path = path;
  f.ino = (unsigned long) st.st_ino;
  f.synced = (flags & (O_CREAT | O_TRUNC)) ? 0 : (long long) st.st_size;
  if (st.st_size > 0)
    f.synced = (long long) st.st_size;
  dfiles->push_back (f);
  set_disk (fd, (int) dfiles->size ());
}

const sim::IoFault *
match (const char *path, size_t *idx)
{
  if (!active || !faults || strncmp (path, root, root_len) != 0)
    return nullptr;
  for (size_t i = 0; i < faults->size (); i++)
    if (strstr (path, (*faults)[i].sub.c_str ()))
      {
        *idx = i;
        return &(*faults)[i];
      }
  return nullptr;
}

int
do_open (int dirfd, const char *path, int flags, int mode)
{
  size_t idx = 0;
  const sim::IoFault *f = path ? match (path, &idx) : nullptr;
  if (f && f->kind == 1 && (flags & O_ACCMODE) == O_RDONLY)
    {
      fired[1]++;
      errno = f->err;
      return -1;
    }
  bool w = under_root (path)
           && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT));
  if (w && (flags & (O_CREAT | O_TRUNC)) && disk_fault ())
    return -1;
  int fd = (int) syscall (SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD)
    {
      fds[fd].disk = 0;
      if (w)
        disk_opened (fd, path, flags);
      fds[fd].fault = f ? (int) idx + 1 : 0;
      fds[fd].pos = 0;
      fds[fd].calls = 0;
    }
  return fd;
}

}

namespace sim {

void
io_set_root (const std::string &r)
{
  snprintf (root, sizeof root, "%s", r.c_str ());
  root_len = strlen (root);
}

void
io_clear ()
{
  active = false;
  if (faults)
    faults->clear ();
  memset (fds, 0, sizeof fds);
}

void
disk_config (long at, int kind, int arg)
{
  disk_on = true;
  disk_at = at < 0 ? -1 : disk_n + at;
  disk_kind = kind;
  disk_arg = arg;
  disk_full = false;
}

void
disk_lose_power ()
{
  disk_crash (true);
}

long
disk_ops ()
{
  return disk_n;
}

const char *
io_root ()
{
  return root;
}

void
io_add (const IoFault &f)
{
  if (!faults)
    faults = new std::vector<IoFault>;
  faults->push_back (f);
  active = true;
}

long
io_fired (int kind)
{
  return fired[kind];
}

}

extern "C" {

int
open (const char *path, int flags, ...)
{
  va_list ap;
  va_start (ap, flags);
  int mode = va_arg (ap, int);
  va_end (ap);
  return do_open (AT_FDCWD, path, flags, mode);
}

int
open64 (const char *path, int flags, ...)
{
  va_list ap;
  va_start (ap, flags);
  int mode = va_arg (ap, int);
  va_end (ap);
  return do_open (AT_FDCWD, path, flags, mode);
}

int
openat (int dirfd, const char *path, int flags, ...)
{
  va_list ap;
  va_start (ap, flags);
  int mode = va_arg (ap, int);
  va_end (ap);
  return do_open (dirfd, path, flags, mode);
}

ssize_t
read (int fd, void *buf, size_t n)
{
  if (active && fd >= 0 && fd < MAXFD && fds[fd].fault)
    {
      const sim::IoFault &f = (*faults)[(size_t) fds[fd].fault - 1];
      Fd &s = fds[fd];
      s.calls++;
      switch (f.kind)
        {
        case 2: // error after f.at bytes
          if (s.pos >= f.at)
            {
              fired[2]++;
              errno = f.err;
              return -1;
            }
          if ((long) n > f.at - s.pos)
            n = (size_t) (f.at - s.pos);
          break;
        case 3: // short reads
          if (n > (size_t) f.at)
            {
              n = (size_t) f.at;
              fired[3]++;
            }
          break;
        case 4: // early EOF (truncated file)
          if (s.pos >= f.at)
            {
              fired[4]++;
              return 0;
            }
          if ((long) n > f.at - s.pos)
            n = (size_t) (f.at - s.pos);
          break;
        case 5: // EINTR on every other call
          if (s.calls % 2)
            {
              fired[5]++;
              errno = EINTR;
              return -1;
            }
          break;
        default:
          break;
        }
      ssize_t r = syscall (SYS_read, fd, buf, n);
      if (r > 0)
        s.pos += r;
      return r;
    }
  return syscall (SYS_read, fd, buf, n);
}

ssize_t
write (int fd, const void *buf, size_t n)
{
  if (!disk_on || fd < 0 || fd >= MAXFD || !fds[fd].disk)
    return syscall (SYS_write, fd, buf, n);
  if (disk_full)
    {
      errno = 28;
      return -1;
    }
  if (disk_n == disk_at && disk_kind >= 2 && n > 0)
    {
      // Part of it gets through.
      size_t part = (size_t) disk_arg % (n + 1);
      ssize_t r = part ? syscall (SYS_write, fd, buf, part) : 0;
      if (disk_kind >= 3)
        disk_fault ();
      disk_n++;
      disk_full = true;
      sim::out ("DISKERR\n");
      if (r > 0)
        return r;
      errno = 28;
      return -1;
    }
  if (disk_fault ())
    return -1;
  return syscall (SYS_write, fd, buf, n);
}

static int
do_sync (int fd)
{
  if (!disk_on || fd < 0 || fd >= MAXFD || !fds[fd].disk)
    return 0;
  if (disk_fault ())
    return -1;
  struct stat st;
  if (fstat (fd, &st) == 0)
    (*dfiles)[(size_t) fds[fd].disk - 1].synced = (long long) st.st_size;
  return 0;
}

int
fsync (int fd)
{
  return do_sync (fd);
}

int
fdatasync (int fd)
{
  return do_sync (fd);
}

int
fallocate (int, int, off_t, off_t)
{
  errno = EOPNOTSUPP;
  return -1;
}

int
fallocate64 (int, int, off64_t, off64_t)
{
  errno = EOPNOTSUPP;
  return -1;
}

int
rename (const char *a, const char *b)
{
  if (!under_root (b))
    return (int) syscall (SYS_rename, a, b);
  if (disk_fault ())
    return -1;
  int r = (int) syscall (SYS_rename, a, b);
  if (r == 0 && dfiles)
    for (auto &f : *dfiles)
      if (f.path == a)
        f.path = b;
  return r;
}

int
unlink (const char *a)
{
  if (under_root (a) && disk_fault ())
    return -1;
  return (int) syscall (SYS_unlink, a);
}

int
close (int fd)
{
  if (fd >= 0 && fd < MAXFD)
    fds[fd].fault = fds[fd].disk = 0;
  return (int) syscall (SYS_close, fd);
}

static ssize_t
cookie_read (void *c, char *buf, size_t n)
{
  return read ((int) (intptr_t) c, buf, n);
}

static int
cookie_seek (void *c, off64_t *off, int whence)
{
  int fd = (int) (intptr_t) c;
  off64_t r = lseek64 (fd, *off, whence);
  if (r < 0)
    return -1;
  *off = r;
  if (fd >= 0 && fd < MAXFD)
    fds[fd].pos = (long) r;
  return 0;
}

static int
cookie_close (void *c)
{
  return close ((int) (intptr_t) c);
}

// Streams on files with an injected fault; all others are left to libc.
static FILE *
faulty_fopen (const char *path)
{
  int fd = do_open (AT_FDCWD, path, O_RDONLY, 0);
  if (fd < 0)
    return nullptr;
  cookie_io_functions_t io = { cookie_read, nullptr, cookie_seek,
                               cookie_close };
  FILE *f = fopencookie ((void *) (intptr_t) fd, "r", io);
  if (f == nullptr)
    close (fd);
  return f;
}

static ssize_t
cookie_write (void *c, const char *buf, size_t n)
{
  ssize_t r = write ((int) (intptr_t) c, buf, n);
  return r < 0 ? 0 : r;
}

// Streams that write to the simulated disk.
static FILE *
disk_fopen (const char *path, const char *mode)
{
  int fl = mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND
           : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_RDWR;
  int fd = do_open (AT_FDCWD, path, fl, 0666);
  if (fd < 0)
    return nullptr;
  cookie_io_functions_t io = { cookie_read, cookie_write, cookie_seek,
                               cookie_close };
  FILE *f = fopencookie ((void *) (intptr_t) fd, mode, io);
  if (f == nullptr)
    close (fd);
  return f;
}

typedef FILE *(*fopen_fn) (const char *, const char *);

FILE *
fopen (const char *path, const char *mode)
{
  static fopen_fn real;
  size_t idx;
  if (under_root (path) && (mode[0] != 'r' || strchr (mode, '+')))
    return disk_fopen (path, mode);
  if (match (path, &idx) && mode[0] == 'r' && strchr (mode, '+') == nullptr)
    return faulty_fopen (path);
  if (real == nullptr)
    real = (fopen_fn) dlsym (RTLD_NEXT, "fopen");
  return real (path, mode);
}

FILE *
fopen64 (const char *path, const char *mode)
{
  static fopen_fn real;
  size_t idx;
  if (under_root (path) && (mode[0] != 'r' || strchr (mode, '+')))
    return disk_fopen (path, mode);
  if (match (path, &idx) && mode[0] == 'r' && strchr (mode, '+') == nullptr)
    return faulty_fopen (path);
  if (real == nullptr)
    real = (fopen_fn) dlsym (RTLD_NEXT, "fopen64");
  return real (path, mode);
}

}
