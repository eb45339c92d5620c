// simulated disk, standard streams and terminal
#include "rt_int.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <termios.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

namespace sim {
template <typename F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

// ---- disk ----------------------------------------------------------------------
bool g_dir_order_fixed = true;
static Node* g_root;
static std::string g_cwd = "/sim";
static uint64_t g_ino = 1000;
static bool g_modified;
static std::map<Node*, std::vector<Node*>>* g_order;

static Node* new_node(Node* p, const std::string& name) {
  auto* n = new Node;
  n->name = name;
  n->parent = p;
  n->ino = ++g_ino;
  if (p) p->kids.push_back(n);
  return n;
}
static Node* root() {
  if (!g_root) { g_root = new_node(nullptr, "sim"); g_root->dir = true; }
  return g_root;
}
static Node* child(Node* d, const std::string& n) {
  for (auto* k : d->kids) if (k->name == n) return k;
  return nullptr;
}
static std::vector<std::string> split(const std::string& p) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < p.size()) {
    const auto j = std::min(p.find('/', i), p.size());
    if (j > i) r.push_back(p.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
// walk returns null and sets errno; 'abs' starts with /sim
static Node* walk(const std::string& abs, bool follow, int depth = 0) {
  if (depth > 16) { errno = ELOOP; return nullptr; }
  auto v = split(abs);
  if (v.empty() || v[0] != "sim") { errno = ENOENT; return nullptr; }
  const bool wantdir = abs.back() == '/';
  Node* n = root();
  std::string at = "/sim";
  for (size_t i = 1; i < v.size(); ++i) {
    if (!n->dir) { errno = ENOTDIR; return nullptr; }
    if (v[i] == ".") continue;
    if (v[i] == "..") { if (n->parent) { n = n->parent; at = at.substr(0, at.rfind('/')); } continue; }
    if (v[i].size() > 255) { errno = ENAMETOOLONG; return nullptr; }
    Node* k = child(n, v[i]);
    if (!k) { errno = ENOENT; return nullptr; }
    if (k->link && (follow || i + 1 < v.size() || wantdir)) {
      std::string t = k->data[0] == '/' ? k->data : at + '/' + k->data;
      for (size_t j = i + 1; j < v.size(); ++j) t += '/' + v[j];
      if (wantdir) t += '/';
      return walk(t, follow, depth + 1);
    }
    n = k;
    at += '/' + v[i];
  }
  if (wantdir && !n->dir) { errno = ENOTDIR; return nullptr; }
  return n;
}
static bool sim_active() { return ktsim_on && !t_inrt; }
// sets abs and returns true if the path belongs to the simulated disk
static bool to_sim(const char* p, std::string& abs) {
  if (!p) return false;
  if (p[0] == '/') {
    if (strncmp(p, "/sim", 4) || (p[4] && p[4] != '/')) return false;
    abs = p;
    return true;
  }
  abs = g_cwd + '/' + p;
  return true;
}
Node* mkdirs(const std::string& path) {
  Node* n = root();
  auto v = split(path);
  for (size_t i = 1; i < v.size(); ++i) {
    Node* k = child(n, v[i]);
    if (!k) { k = new_node(n, v[i]); k->dir = true; }
    n = k;
  }
  return n;
}
Node* put_file(const std::string& path, const std::string& data) {
  const auto s = path.rfind('/');
  Node* d = mkdirs(path.substr(0, s));
  Node* k = child(d, path.substr(s + 1));
  if (!k) k = new_node(d, path.substr(s + 1));
  k->data = data;
  return k;
}
Node* put_link(const std::string& path, const std::string& target) {
  Node* k = put_file(path, target);
  k->link = true;
  return k;
}
Node* lookup(const std::string& path, bool follow) { return walk(path, follow); }
void remove_node(const std::string& path) {
  Node* n = walk(path, false);
  if (!n || !n->parent) return;
  auto& k = n->parent->kids;
  k.erase(std::find(k.begin(), k.end(), n));
}
void set_cwd(const std::string& p) { g_cwd = p; }
bool disk_modified() { return g_modified; }
void each_file(Node* n, const std::string& prefix, const std::function<void(const std::string&, Node*)>& f) {
  f(prefix, n);
  if (n->dir) for (auto* k : n->kids) each_file(k, prefix + '/' + k->name, f);
}
uint64_t disk_hash() {
  uint64_t h = 7;
  each_file(root(), "/sim", [&](auto& p, Node* n) { h = hash_str(p, h); h = hash_str(n->data, h); h = h * 31 + n->dir + 2 * n->link; });
  return h;
}
static std::vector<Node*> order_of(Node* d) {
  if (!g_order) g_order = new std::map<Node*, std::vector<Node*>>;
  if (g_dir_order_fixed)
    if (auto i = g_order->find(d); i != g_order->end()) return i->second;
  auto v = d->kids;
  if (v.size() > 1 && hit(F_DIR_ORDER))
    for (size_t i = v.size() - 1; i; --i) std::swap(v[i], v[i - draw((uint32_t)i + 1)]);
  (*g_order)[d] = v;
  return v;
}
std::vector<std::string> served_order(const std::string& dir) {
  std::vector<std::string> r;
  if (Node* d = lookup(dir))
    for (auto* k : order_of(d)) r.push_back(k->name);
  return r;
}

struct OpenFile { Node* n; size_t off; int flags; bool used; };
static std::vector<OpenFile>* g_fds;
static std::unordered_map<FILE*, int>* g_files; // FILE -> simulated fd
struct SimDir { uint64_t magic; int fd; Node* n; std::vector<Node*> v; size_t pos; struct dirent64 e; };
static std::set<void*>* g_dirs;
static OpenFile* of(int fd) {
  if (fd < SimFd || !g_fds || (size_t)(fd - SimFd) >= g_fds->size()) return nullptr;
  auto& o = (*g_fds)[(size_t)(fd - SimFd)];
  return o.used ? &o : nullptr;
}
static int new_fd(Node* n, int flags) {
  if (!g_fds) g_fds = new std::vector<OpenFile>;
  for (size_t i = 0; i < g_fds->size(); ++i)
    if (!(*g_fds)[i].used) { (*g_fds)[i] = {n, 0, flags, true}; return SimFd + (int)i; }
  g_fds->push_back({n, 0, flags, true});
  return SimFd + (int)g_fds->size() - 1;
}
static int sim_open(const std::string& abs, int flags) {
  sync_point();
  if (hit(F_OPEN_FAIL)) {
    static const int E[]{EIO, EMFILE, EACCES, ENFILE};
    errno = E[draw(4)];
    return -1;
  }
  Node* n = walk(abs, !(flags & O_NOFOLLOW));
  const int acc = flags & O_ACCMODE;
  if (!n) {
    if (errno != ENOENT || !(flags & O_CREAT)) return -1;
    const auto s = abs.rfind('/');
    Node* d = walk(abs.substr(0, s), true);
    if (!d || !d->dir) { errno = ENOENT; return -1; }
    n = new_node(d, abs.substr(s + 1));
    g_modified = true;
    event("file created: %s", abs.c_str());
  } else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
  if (n->link) { errno = ELOOP; return -1; }
  if (n->dir && acc != O_RDONLY) { errno = EISDIR; return -1; }
  if (!n->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
  if (n->unreadable && acc != O_WRONLY) { fired(F_UNREADABLE_FILE); errno = EACCES; return -1; }
  if (n->readonly && acc != O_RDONLY) { fired(F_READONLY_FILE); errno = EACCES; return -1; }
  if (flags & O_TRUNC && acc != O_RDONLY && !n->data.empty()) { n->data.clear(); g_modified = true; event("file truncated: %s", abs.c_str()); }
  return new_fd(n, flags);
}
static ssize_t sim_read(int fd, void* b, size_t n) {
  sync_point();
  auto* o = of(fd);
  if (!o) { errno = EBADF; return -1; }
  if (o->n->dir) { errno = EISDIR; return -1; }
  if (!n) return 0;
  if (hit(F_EINTR_READ)) { errno = EINTR; return -1; }
  if (hit(F_EIO_READ)) { errno = EIO; return -1; }
  auto& d = o->n->data;
  if (o->off >= d.size()) {
    if (o->n->bad_off >= 0 && (size_t)o->n->bad_off == d.size()) { fired(F_BAD_SECTOR); event("fault bad_sector at end of file"); errno = EIO; return -1; }
    return 0;
  }
  size_t k = std::min(n, d.size() - o->off);
  if (const auto bad = o->n->bad_off; bad >= 0 && (size_t)bad >= o->off && (size_t)bad < o->off + k) {
    k = (size_t)bad - o->off;
    if (!k) { fired(F_BAD_SECTOR); event("fault bad_sector at offset %lld", (long long)bad); errno = EIO; return -1; }
  }
  if (k > 1 && hit(F_SHORT_READ)) k = range(1, (uint32_t)std::min<size_t>(k - 1, 700));
  memcpy(b, d.data() + o->off, k);
  o->off += k;
  return (ssize_t)k;
}
static ssize_t sim_write(int fd, const void* b, size_t n) {
  auto* o = of(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (o->flags & O_APPEND) o->off = o->n->data.size();
  auto& d = o->n->data;
  if (d.size() < o->off + n) d.resize(o->off + n);
  memcpy(&d[o->off], b, n);
  o->off += n;
  if (n) { g_modified = true; event("file written"); }
  return (ssize_t)n;
}
static off64_t sim_seek(int fd, off64_t off, int wh) {
  auto* o = of(fd);
  if (!o) { errno = EBADF; return -1; }
  const off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)o->off : (off64_t)o->n->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->off = (size_t)(base + off);
  return (off64_t)o->off;
}
static int sim_close(int fd) {
  auto* o = of(fd);
  if (!o) { errno = EBADF; return -1; }
  o->used = false;
  return 0;
}
template <typename S> static int fill_stat(Node* n, S* s) {
  memset(s, 0, sizeof *s);
  s->st_mode = n->link ? S_IFLNK | 0777 : n->dir ? S_IFDIR | 0755 : S_IFREG | (n->readonly ? 0444 : 0644);
  s->st_ino = n->ino;
  s->st_dev = 77;
  s->st_nlink = 1;
  s->st_size = n->dir ? 4096 : (off_t)n->data.size();
  s->st_blksize = 4096;
  s->st_mtim.tv_sec = 1'600'000'000;
  return 0;
}
template <typename S> static int sim_stat(const std::string& abs, S* s, bool follow) {
  sync_point();
  if (hit(F_STAT_FAIL)) { errno = draw(2) ? EACCES : EIO; return -1; }
  Node* n = walk(abs, follow);
  if (!n) return -1;
  return fill_stat(n, s);
}
static DIR* make_dir(int fd) {
  auto* o = of(fd);
  if (!o || !o->n->dir) { errno = ENOTDIR; return nullptr; }
  if (hit(F_OPENDIR_FAIL)) { errno = draw(2) ? EIO : EMFILE; return nullptr; }
  auto* d = new SimDir{};
  d->fd = fd;
  d->n = o->n;
  d->v = order_of(o->n);
  if (!g_dirs) g_dirs = new std::set<void*>;
  g_dirs->insert(d);
  return (DIR*)d;
}
static SimDir* sd(DIR* d) { return g_dirs && g_dirs->count(d) ? (SimDir*)d : nullptr; }
static dirent64* sim_readdir(SimDir* d) {
  sync_point();
  if (hit(F_READDIR_FAIL)) { errno = EIO; return nullptr; }
  auto& e = d->e;
  memset(&e, 0, sizeof e);
  const size_t p = d->pos;
  if (p >= d->v.size() + 2) return nullptr;
  ++d->pos;
  const Node* n = p < 2 ? d->n : d->v[p - 2];
  e.d_ino = n->ino;
  e.d_off = (off_t)p + 1;
  e.d_reclen = sizeof e;
  e.d_type = p < 2 || n->dir ? DT_DIR : n->link ? DT_LNK : DT_REG;
  if (p >= 2 && hit(F_DTYPE_UNKNOWN)) e.d_type = DT_UNKNOWN;
  snprintf(e.d_name, sizeof e.d_name, "%s", p == 0 ? "." : p == 1 ? ".." : n->name.c_str());
  return &e;
}

// ---- standard streams ----------------------------------------------------------
static Screen g_screen;
static User g_user;
static StdinKind g_in = IN_NULL;
static StdoutKind g_outk = OUT_FILE;
static std::string g_pending; // typed / piped bytes not yet read
static bool g_hung, g_eof;
static int64_t g_out_left = -1;
static Fault g_out_how = F_STDOUT_ENOSPC;
static uint32_t g_out_times;
static TtyState g_tty;
static TtyStats g_ts;
static FILE *g_fin, *g_fout, *g_ferr;
Screen& screen() { return g_screen; }
void set_user(User u) { g_user = std::move(u); }
void set_stdin(StdinKind k) { g_in = k; }
void set_stdin_data(const std::string& s) { g_pending = s; }
size_t stdin_left() { return g_pending.size(); }
void set_stdout(StdoutKind k) { g_outk = k; }
void set_stdout_limit(int64_t n, Fault how, uint32_t times) { g_out_left = n; g_out_how = how; g_out_times = times; }
void tty_init(const TtyState& t) { g_tty = t; }
TtyState tty_now() { return g_tty; }
TtyStats& tty_stats() { return g_ts; }
bool tty_hung() { return g_hung; }
TtyState tty_default() {
  TtyState t{};
  t.iflag = ICRNL | IXON | IUTF8; t.oflag = OPOST | ONLCR; t.cflag = CS8 | CREAD | B38400;
  t.lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN | ECHOCTL | ECHOKE;
  t.cc[VINTR] = 3; t.cc[VQUIT] = 28; t.cc[VERASE] = 127; t.cc[VKILL] = 21; t.cc[VEOF] = 4; t.cc[VMIN] = 1; t.cc[VTIME] = 0; t.cc[VSUSP] = 26; t.cc[VSTART] = 17; t.cc[VSTOP] = 19;
  return t;
}

static void after_end() {
  static int k;
  if (++k == 2000) violation("no-progress", "standard input ended, but the program keeps asking for input (2000 reads after the end)");
}
ssize_t fd0_read(void* b, size_t n) {
  sync_point();
  if (!n) return 0;
  if (g_in == IN_NULL) { after_end(); return 0; }
  if (g_in == IN_PIPE) {
    if (hit(F_EINTR_READ)) { errno = EINTR; return -1; }
    if (hit(F_EIO_READ)) { errno = EIO; return -1; }
    if (g_pending.empty() && g_user && !g_eof) {
      std::string k;
      if (!g_user(k)) g_eof = true;
      g_pending += k;
    }
    size_t k = std::min(n, g_pending.size());
    if (!k) after_end();
    if (k > 1 && hit(F_STDIN_CHUNK)) k = range(1, (uint32_t)std::min<size_t>(k, 64));
    memcpy(b, g_pending.data(), k);
    g_pending.erase(0, k);
    return (ssize_t)k;
  }
  // terminal
  ++g_ts.reads;
  const bool canon = g_tty.lflag & ICANON;
  if (!canon && hit(F_TTY_EINTR)) { errno = EINTR; return -1; }
  if (!g_hung && hit(F_TTY_HANGUP)) { g_hung = true; g_pending.clear(); event("terminal hung up"); }
  if (g_hung) { after_end(); if (draw(2)) { errno = EIO; return -1; } return 0; }
  for (int k = 0; g_pending.empty() || (canon && g_pending.find('\n') == std::string::npos && g_pending.find('\4') == std::string::npos); ++k) {
    std::string keys;
    if (!canon && g_tty.cc[VMIN] == 0) return 0; // non-blocking raw read
    const bool more = g_user && g_user(keys);
    if (!more) { g_hung = true; event("terminal hung up"); fired(F_TTY_HANGUP); return 0; }
    g_pending += keys;
    advance_clock(150'000'000 + (uint64_t)keys.size() * 90'000'000);
    if (g_tty.lflag & ECHO) ++g_ts.echoed;
    if (k > 10000) internal_error("user callback never completes a line");
  }
  if (canon) {
    ++g_ts.cooked_reads;
    const auto e = g_pending.find_first_of("\n\4");
    if (g_pending[e] == '\4') { // control-D: end of file if the line is empty
      const size_t k = std::min(n, e);
      memcpy(b, g_pending.data(), k);
      g_pending.erase(0, k == e ? k + 1 : k);
      return (ssize_t)k;
    }
    const size_t k = std::min(n, e + 1);
    memcpy(b, g_pending.data(), k);
    g_pending.erase(0, k);
    return (ssize_t)k;
  }
  ++g_ts.raw_reads;
  const size_t k = std::min(n, g_pending.size());
  memcpy(b, g_pending.data(), k);
  g_pending.erase(0, k);
  return (ssize_t)k;
}
ssize_t fd12_write(int fd, const void* b, size_t n) {
  if (fd == 2) { g_screen.err.append((const char*)b, n); return (ssize_t)n; }
  sync_point();
  if (g_out_left >= 0) {
    if (g_out_left == 0) {
      fired(g_out_how);
      if (g_out_times && !--g_out_times) g_out_left = -1;
      errno = g_out_how == F_STDOUT_ENOSPC ? ENOSPC : g_out_how == F_STDOUT_EPIPE ? EPIPE : EIO;
      return -1;
    }
    n = std::min<size_t>(n, (size_t)g_out_left);
  }
  if (n > 1 && hit(F_STDOUT_SHORT)) n = range(1, (uint32_t)std::min<size_t>(n - 1, 4000));
  if (g_out_left > 0) g_out_left -= (int64_t)n;
  g_screen.out.append((const char*)b, n);
  return (ssize_t)n;
}
static ssize_t ck_in(void*, char* b, size_t n) { InRt g; return fd0_read(b, n); }
template <int FD> static ssize_t ck_out(void*, const char* b, size_t n) {
  InRt g;
  size_t done = 0;
  while (done < n) {
    const ssize_t k = fd12_write(FD, b + done, n - done);
    if (k < 0) break;
    done += (size_t)k;
  }
  return (ssize_t)done;
}
static char g_buf[3][4096];
void streams_install() {
  cookie_io_functions_t in{ck_in, nullptr, nullptr, nullptr}, o1{nullptr, ck_out<1>, nullptr, nullptr}, o2{nullptr, ck_out<2>, nullptr, nullptr};
  g_fin = fopencookie(nullptr, "r", in);
  g_fout = fopencookie(nullptr, "w", o1);
  g_ferr = fopencookie(nullptr, "w", o2);
  setvbuf(g_fin, g_buf[0], _IOFBF, sizeof g_buf[0]);
  setvbuf(g_fout, g_buf[1], g_outk == OUT_TTY ? _IOLBF : _IOFBF, sizeof g_buf[1]);
  setvbuf(g_ferr, nullptr, _IONBF, 0);
  stdin = g_fin;
  stdout = g_fout;
  stderr = g_ferr;
  std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_fin));
  std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_fout));
  std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_ferr));
  std::clog.rdbuf(std::cerr.rdbuf());
}
void streams_exit_flush() { // what the C library does when the process ends
  if (!g_fout) return;
  std::cout.rdbuf()->pubsync();
  fflush(g_fout);
}

// ---- running a program -------------------------------------------------------------
struct SimExit { int code; };
static bool g_ran;
Result run_program(const std::vector<std::string>& argv, const std::function<int(int, const char**)>& mainf) {
  Result r;
  std::vector<const char*> a;
  for (auto& s : argv) a.push_back(s.c_str());
  a.push_back(nullptr);
  if (!g_ran) streams_install();
  g_ran = true;
  const int depth = t_inrt;
  ktsim_on = true;
  t_inrt = 0;
  try { r.status = mainf((int)argv.size(), a.data()) & 255; }
  catch (const SimExit& e) { r.status = e.code & 255; }
  catch (const std::exception& e) { t_inrt = 1; r.threw = true; r.what = e.what(); }
  catch (...) { t_inrt = 1; r.threw = true; r.what = "unknown exception"; }
  t_inrt = 0;
  streams_exit_flush();
  t_inrt = depth;
  ktsim_on = false;
  event("program ends: status %d%s, %zu bytes on stdout, %zu on stderr, step %llu", r.status, r.threw ? " (exception)" : "",
      g_screen.out.size(), g_screen.err.size(), (unsigned long long)steps());
  note_hash(hash_str(g_screen.out));
  note_hash(hash_str(g_screen.err));
  return r;
}
Result run_lib(const std::function<void()>& f) {
  return run_program({"lib"}, [&](int, const char**) { f(); return 0; });
}
} // namespace sim

using namespace sim;

extern "C" {
// ---- interposed libc -----------------------------------------------------------------
#define R(ret, name, ...) static auto r = real<ret (*)(__VA_ARGS__)>(#name)
static ssize_t cf_read(void* c, char* b, size_t n) { InRt g; return sim_read((int)(intptr_t)c, b, n); }
static ssize_t cf_write(void* c, const char* b, size_t n) { InRt g; const auto k = sim_write((int)(intptr_t)c, b, n); return k < 0 ? 0 : k; }
static int cf_seek(void* c, off64_t* o, int w) { InRt g; const auto k = sim_seek((int)(intptr_t)c, *o, w); if (k < 0) return -1; *o = k; return 0; }
static int cf_close(void* c) { InRt g; return sim_close((int)(intptr_t)c); }
static FILE* sim_fopen(const std::string& abs, const char* mode) {
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  const int fd = sim_open(abs, fl);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io{cf_read, cf_write, cf_seek, cf_close};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  if (!g_files) g_files = new std::unordered_map<FILE*, int>;
  (*g_files)[f] = fd;
  return f;
}
static FILE* do_fopen(const char* p, const char* m, FILE* (*r)(const char*, const char*)) {
  if (!sim_active()) return r(p, m);
  InRt g;
  std::string abs;
  if (to_sim(p, abs)) return sim_fopen(abs, m);
  if (m[0] != 'r' || strchr(m, '+')) { errno = EROFS; return nullptr; }
  return r(p, m);
}
FILE* fopen(const char* p, const char* m) { R(FILE*, fopen, const char*, const char*); return do_fopen(p, m, r); }
FILE* fopen64(const char* p, const char* m) { R(FILE*, fopen64, const char*, const char*); return do_fopen(p, m, r); }
int fclose(FILE* f) {
  R(int, fclose, FILE*);
  if (g_files && ktsim_on) { InRt g; g_files->erase(f); }
  return r(f);
}
int fileno(FILE* f) noexcept {
  R(int, fileno, FILE*);
  if (f && f == g_fin) return 0;
  if (f && f == g_fout) return 1;
  if (f && f == g_ferr) return 2;
  if (g_files && ktsim_on) { InRt g; if (auto i = g_files->find(f); i != g_files->end()) return i->second; }
  return r(f);
}
int fileno_unlocked(FILE* f) noexcept { return fileno(f); }
static int do_open(int dir, const char* p, int fl, mode_t m) {
  static auto r = real<int (*)(int, const char*, int, ...)>("openat");
  if (!sim_active()) return r(dir, p, fl, m);
  InRt g;
  std::string abs;
  if (p[0] != '/' && dir >= SimFd) {
    auto* o = of(dir);
    if (!o) { errno = EBADF; return -1; }
    std::string path;
    for (Node* n = o->n; n; n = n->parent) path = '/' + n->name + path;
    abs = path + '/' + p;
    return sim_open(abs, fl);
  }
  if (to_sim(p, abs)) return sim_open(abs, fl);
  if ((fl & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
  return r(dir, p, fl, m);
}
#define VAMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char* p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { VAMODE return do_open(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { VAMODE return do_open(d, p, fl, m); }
int __open_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __open64_2(const char* p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __openat_2(int d, const char* p, int fl) { return do_open(d, p, fl, 0); }
int __openat64_2(int d, const char* p, int fl) { return do_open(d, p, fl, 0); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) {
  R(ssize_t, read, int, void*, size_t);
  if (sim_active()) {
    InRt g;
    if (fd >= SimFd) return sim_read(fd, b, n);
    if (fd == 0) return fd0_read(b, n);
  }
  return r(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
  R(ssize_t, write, int, const void*, size_t);
  if (sim_active()) {
    InRt g;
    if (fd >= SimFd) return sim_write(fd, b, n);
    if (fd == 1 || fd == 2) return fd12_write(fd, b, n);
  }
  return r(fd, b, n);
}
ssize_t readv(int fd, const iovec* v, int n) {
  R(ssize_t, readv, int, const iovec*, int);
  if (sim_active() && (fd >= SimFd || fd == 0)) {
    ssize_t t = 0;
    for (int i = 0; i < n; ++i) {
      const ssize_t k = read(fd, v[i].iov_base, v[i].iov_len);
      if (k < 0) return t ? t : k;
      t += k;
      if ((size_t)k < v[i].iov_len) break;
    }
    return t;
  }
  return r(fd, v, n);
}
ssize_t writev(int fd, const iovec* v, int n) {
  R(ssize_t, writev, int, const iovec*, int);
  if (sim_active() && (fd >= SimFd || fd == 1 || fd == 2)) {
    ssize_t t = 0;
    for (int i = 0; i < n; ++i) {
      const ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
      if (k < 0) return t ? t : k;
      t += k;
      if ((size_t)k < v[i].iov_len) break;
    }
    return t;
  }
  return r(fd, v, n);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  R(off_t, lseek, int, off_t, int);
  if (sim_active()) { InRt g; if (fd >= SimFd) return sim_seek(fd, o, w); if (fd <= 2) { errno = ESPIPE; return -1; } }
  return r(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) {
  R(int, close, int);
  if (fd >= SimFd) { InRt g; return sim_close(fd); }
  return r(fd);
}
#define STATS(S, SFX)                                                                              \
  int stat##SFX(const char* __restrict p, struct S* __restrict s) noexcept {                       \
    R(int, stat##SFX, const char*, struct S*); std::string a;                                      \
    if (sim_active()) { InRt g; if (to_sim(p, a)) return sim_stat(a, s, true); } return r(p, s); } \
  int lstat##SFX(const char* __restrict p, struct S* __restrict s) noexcept {                      \
    R(int, lstat##SFX, const char*, struct S*); std::string a;                                     \
    if (sim_active()) { InRt g; if (to_sim(p, a)) return sim_stat(a, s, false); } return r(p, s); } \
  int fstat##SFX(int fd, struct S* s) noexcept {                                                   \
    R(int, fstat##SFX, int, struct S*);                                                            \
    if (sim_active()) {                                                                            \
      InRt g;                                                                                      \
      if (auto* o = of(fd)) return fill_stat(o->n, s);                                             \
      if (fd >= 0 && fd <= 2) { memset(s, 0, sizeof *s); s->st_blksize = 4096;                     \
        s->st_mode = (fd ? g_outk == OUT_TTY : g_in == IN_TTY) ? S_IFCHR | 0600 : S_IFIFO | 0600; return 0; } \
    } return r(fd, s); }                                                                           \
  int fstatat##SFX(int d, const char* __restrict p, struct S* __restrict s, int fl) noexcept {     \
    R(int, fstatat##SFX, int, const char*, struct S*, int);                                        \
    if (sim_active()) {                                                                            \
      InRt g; std::string a;                                                                       \
      if (auto* o = of(d); o && p[0] != '/') {                                                     \
        for (Node* n = o->n; n; n = n->parent) a = '/' + n->name + a;                              \
        return sim_stat(a + '/' + p, s, !(fl & AT_SYMLINK_NOFOLLOW)); }                            \
      if (to_sim(p, a)) return sim_stat(a, s, !(fl & AT_SYMLINK_NOFOLLOW));                        \
    } return r(d, p, s, fl); }
STATS(stat, ) STATS(stat64, 64)
DIR* opendir(const char* p) {
  R(DIR*, opendir, const char*);
  if (!sim_active()) return r(p);
  InRt g;
  std::string a;
  if (!to_sim(p, a)) return r(p);
  const int fd = sim_open(a, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return nullptr;
  DIR* d = make_dir(fd);
  if (!d) { const int e = errno; sim_close(fd); errno = e; }
  return d;
}
DIR* fdopendir(int fd) {
  R(DIR*, fdopendir, int);
  if (fd < SimFd) return r(fd);
  InRt g;
  return make_dir(fd);
}
struct dirent64* readdir64(DIR* d) {
  R(struct dirent64*, readdir64, DIR*);
  InRt g;
  if (auto* s = sd(d)) return sim_readdir(s);
  return r(d);
}
struct dirent* readdir(DIR* d) {
  R(struct dirent*, readdir, DIR*);
  InRt g;
  if (auto* s = sd(d)) return (struct dirent*)sim_readdir(s);
  return r(d);
}
int closedir(DIR* d) {
  R(int, closedir, DIR*);
  InRt g;
  if (auto* s = sd(d)) { g_dirs->erase(d); sim_close(s->fd); delete s; return 0; }
  return r(d);
}
int dirfd(DIR* d) noexcept {
  R(int, dirfd, DIR*);
  InRt g;
  if (auto* s = sd(d)) return s->fd;
  return r(d);
}
char* getcwd(char* b, size_t n) noexcept {
  R(char*, getcwd, char*, size_t);
  if (!sim_active()) return r(b, n);
  if (b && n <= g_cwd.size()) { errno = ERANGE; return nullptr; }
  if (!b) b = (char*)malloc(std::max(n, g_cwd.size() + 1));
  strcpy(b, g_cwd.c_str());
  return b;
}
int access(const char* p, int m) noexcept {
  R(int, access, const char*, int);
  std::string a;
  if (!sim_active()) return r(p, m);
  InRt g;
  if (!to_sim(p, a)) return r(p, m);
  Node* n = walk(a, true);
  if (!n) return -1;
  if ((m & W_OK && n->readonly) || (m & R_OK && n->unreadable)) { errno = EACCES; return -1; }
  return 0;
}
char* realpath(const char* __restrict p, char* __restrict out) noexcept {
  R(char*, realpath, const char*, char*);
  std::string a;
  if (!sim_active()) return r(p, out);
  InRt g;
  if (!to_sim(p, a)) return r(p, out);
  Node* n = walk(a, true);
  if (!n) return nullptr;
  std::string path;
  for (; n; n = n->parent) path = '/' + n->name + path;
  if (!out) out = (char*)malloc(4096);
  strcpy(out, path.c_str());
  return out;
}
ssize_t readlink(const char* __restrict p, char* __restrict b, size_t n) noexcept {
  R(ssize_t, readlink, const char*, char*, size_t);
  std::string a;
  if (!sim_active()) return r(p, b, n);
  InRt g;
  if (!to_sim(p, a)) return r(p, b, n);
  Node* k = walk(a, false);
  if (!k) return -1;
  if (!k->link) { errno = EINVAL; return -1; }
  const size_t m = std::min(n, k->data.size());
  memcpy(b, k->data.data(), m);
  return (ssize_t)m;
}
int unlink(const char* p) noexcept {
  R(int, unlink, const char*);
  std::string a;
  if (!sim_active()) return r(p);
  InRt g;
  if (!to_sim(p, a)) { errno = EROFS; return -1; }
  if (!walk(a, false)) return -1;
  remove_node(a);
  g_modified = true;
  return 0;
}
int remove(const char* p) noexcept {
  R(int, remove, const char*);
  return sim_active() ? unlink(p) : r(p);
}
int rename(const char* p, const char* q) noexcept {
  R(int, rename, const char*, const char*);
  if (!sim_active()) return r(p, q);
  g_modified = true;
  errno = EROFS;
  return -1;
}
int truncate(const char* p, off_t n) noexcept {
  R(int, truncate, const char*, off_t);
  if (!sim_active()) return r(p, n);
  errno = EROFS;
  return -1;
}
int chdir(const char* p) noexcept {
  R(int, chdir, const char*);
  std::string a;
  if (!sim_active()) return r(p);
  InRt g;
  if (!to_sim(p, a) || !walk(a, true)) { errno = ENOENT; return -1; }
  g_cwd = a;
  return 0;
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list ap;
  va_start(ap, rq);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  R(int, ioctl, int, unsigned long, ...);
  if (sim_active()) {
    InRt g;
    if (auto* o = of(fd)) {
      if (rq == FIONREAD) { *(int*)arg = (int)(o->n->data.size() - std::min(o->off, o->n->data.size())); return 0; }
      errno = ENOTTY;
      return -1;
    }
    if (fd >= 0 && fd <= 2) {
      if (rq == FIONREAD) { *(int*)arg = (int)g_pending.size(); return 0; }
      if (rq == TIOCGWINSZ && (fd ? g_outk == OUT_TTY : g_in == IN_TTY)) { *(winsize*)arg = {24, 80, 0, 0}; return 0; }
      errno = ENOTTY;
      return -1;
    }
  }
  return r(fd, rq, arg);
}
int poll(pollfd* f, nfds_t n, int to) {
  R(int, poll, pollfd*, nfds_t, int);
  if (!sim_active()) return r(f, n, to);
  InRt g;
  int c = 0;
  for (nfds_t i = 0; i < n; ++i) { f[i].revents = (short)(f[i].events & (POLLIN | POLLOUT)); c += f[i].revents != 0; }
  return c;
}
int select(int n, fd_set* rd, fd_set* wr, fd_set* ex, timeval* to) { // everything asked about is ready, as for poll
  R(int, select, int, fd_set*, fd_set*, fd_set*, timeval*);
  if (!sim_active()) return r(n, rd, wr, ex, to);
  int c = 0;
  for (int i = 0; i < n; ++i) c += (rd && FD_ISSET(i, rd)) + (wr && FD_ISSET(i, wr));
  if (ex) FD_ZERO(ex);
  return c;
}
int isatty(int fd) noexcept {
  R(int, isatty, int);
  if (!sim_active()) return r(fd);
  const bool t = fd == 0 ? g_in == IN_TTY : fd <= 2 ? g_outk == OUT_TTY : false;
  if (!t) errno = ENOTTY;
  return t;
}
int tcgetattr(int fd, termios* t) noexcept {
  R(int, tcgetattr, int, termios*);
  if (!sim_active()) return r(fd, t);
  InRt g;
  if (!(fd == 0 ? g_in == IN_TTY : fd <= 2 && g_outk == OUT_TTY)) { errno = ENOTTY; return -1; }
  ++g_ts.gets;
  if (g_hung || hit(F_TCGET_FAIL)) { ++g_ts.get_fail; errno = EIO; return -1; }
  memset(t, 0, sizeof *t);
  t->c_iflag = g_tty.iflag; t->c_oflag = g_tty.oflag; t->c_cflag = g_tty.cflag; t->c_lflag = g_tty.lflag;
  memcpy(t->c_cc, g_tty.cc, NCCS);
  return 0;
}
int tcsetattr(int fd, int act, const termios* t) noexcept {
  R(int, tcsetattr, int, int, const termios*);
  if (!sim_active()) return r(fd, act, t);
  InRt g;
  if (!(fd == 0 ? g_in == IN_TTY : fd <= 2 && g_outk == OUT_TTY)) { errno = ENOTTY; return -1; }
  ++g_ts.sets;
  if (g_hung) { errno = EIO; return -1; }
  // draining or flushing can be interrupted; the immediate form cannot
  if (act != TCSANOW && hit(F_TCSET_EINTR)) { ++g_ts.set_fail; errno = EINTR; return -1; }
  if (act == TCSAFLUSH) g_pending.clear();
  g_tty.iflag = t->c_iflag; g_tty.oflag = t->c_oflag; g_tty.cflag = t->c_cflag; g_tty.lflag = t->c_lflag;
  memcpy(g_tty.cc, t->c_cc, NCCS);
  event("terminal set: canonical %d echo %d vmin %d vtime %d", (t->c_lflag & ICANON) != 0, (t->c_lflag & ECHO) != 0, t->c_cc[VMIN], t->c_cc[VTIME]);
  return 0;
}
int tcflush(int fd, int q) noexcept {
  R(int, tcflush, int, int);
  if (!sim_active()) return r(fd, q);
  if (q != TCOFLUSH) g_pending.clear();
  return 0;
}
void exit(int c) noexcept(false) {
  static auto r = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  if (sim_active()) throw SimExit{c};
  r(c);
  __builtin_unreachable();
}
} // extern "C"
