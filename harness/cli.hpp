// Runs one of the converter programs: the real main() in a process of its own,
// with the input arriving through a pipe in pieces and the output collected
// from another one.
#pragma once
#include "vh.hpp"
#include <csignal>
#include <fcntl.h>
#include <getopt.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

struct CliRun { int rc = -1; vh::Bytes out; std::string err; size_t unread = 0; };
// In mode "files" the program is the Rust one built next to the harness, and
// its input and output may be files named at the end of the command line.
inline std::string rust_exe(const char *name) {
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) n = 0; std::string s(b, (size_t)n);
  return s.substr(0, s.rfind('/') + 1) + "rust-" + name;
}
inline std::string file_name(vh::Rng &r, const char *what) {
  static const char *F[] = {"%s.bin", "a %s", "%s=1,2:3.5", "x-%s", "./%s", "%s", "2080.%s", "\xc3\xa9%s"};
  return vh::fmt(F[r.below(8)], what);
}
inline void spill(const std::string &p, const vh::Bytes &v) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } if (!v.empty()) fwrite(v.data(), 1, v.size(), f); fclose(f); }

inline std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += " " + x; return s; }

template <class Main>
CliRun run_cli(const char *name, Main entry, const std::vector<std::string> &args, const vh::Bytes &given, vh::Rng &r, bool eof = true) {
  bool files = vh::mode() == "files"; int layout = files && eof ? (int)r.below(4) : 0;  // 0: pipes, 1: input named, 2, 3: both named
  if (!args.empty() && args.back() == "-t") layout = 0;
  std::string fin, fout; vh::Bytes before; std::vector<std::string> names; vh::Bytes in = given;
  if (layout) {
    fin = file_name(r, "in"); names.push_back(fin); spill(fin, given);
    if (layout > 1) { fout = file_name(r, "out"); names.push_back(fout); if (r.chance(1, 2)) { before = r.bytes(r.below(3000)); spill(fout, before); } }
    in = r.chance(1, 2) ? vh::Bytes() : r.bytes(1 + r.below(200));  // must not be read
  }
  CliRun res; int pi[2], po[2], pe[2];
  if (pipe(pi) || pipe(po) || pipe(pe)) { perror("pipe"); _exit(3); }
  std::vector<std::string> a = {name}; a.insert(a.end(), args.begin(), args.end()); a.insert(a.end(), names.begin(), names.end());
  int how = (int)r.below(4); bool lockstep = r.chance(1, 6); uint64_t seed = r.u64();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    vh::forked(); alarm(60);
    dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
    for (int fd : {pi[0], pi[1], po[0], po[1], pe[0], pe[1]}) close(fd);
    signal(SIGPIPE, SIG_DFL); optind = 0;
    std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    if (files) { std::string x = rust_exe(name); execv(x.c_str(), v.data()); perror(x.c_str()); kill(getpid(), SIGKILL); }
    int rc = entry((int)a.size(), v.data());
    fflush(nullptr);
    _exit(rc & 255);
  }
  close(pi[0]); close(po[1]); close(pe[1]);
  for (int fd : {pi[1], po[0], pe[0]}) fcntl(fd, F_SETFL, O_NONBLOCK);
  signal(SIGPIPE, SIG_IGN);
  vh::Rng q(seed); size_t pos = 0; bool wopen = true, oopen = true, eopen = true; uint64_t pieces = 0;
  if (in.empty() && eof) { close(pi[1]); wopen = false; }
  time_t t0 = time(nullptr); bool late = false;
  while (oopen || eopen) {
    struct pollfd f[3]; int n = 0, iw = -1, io = -1, ie = -1;
    bool ready = wopen && pos < in.size();
    if (ready && lockstep) { int left = 0; ioctl(pi[1], FIONREAD, &left); ready = left == 0; }
    if (ready) { iw = n; f[n++] = {pi[1], POLLOUT, 0}; }
    if (oopen) { io = n; f[n++] = {po[0], POLLIN, 0}; }
    if (eopen) { ie = n; f[n++] = {pe[0], POLLIN, 0}; }
    int k = poll(f, (nfds_t)n, lockstep && wopen && pos < in.size() && !ready ? 0 : 1000);
    if (time(nullptr) - t0 > 30) { late = true; kill(pid, SIGKILL); break; }
    if (k <= 0) { if (k == 0 && lockstep) usleep(20); continue; }
    uint8_t buf[65536];
    if (iw >= 0 && f[iw].revents) {
      size_t left = in.size() - pos, m = left;
      if (how == 1 && left > 0) m = 1 + q.below((uint32_t)std::min<size_t>(left, 16));
      else if (how == 2) m = 1 + q.below((uint32_t)std::min<size_t>(left, 1500));
      else if (how == 3) m = std::min<size_t>(left, q.chance(1, 2) ? 512 : 4096);
      if (m > left) m = left;
      ssize_t w = write(pi[1], in.data() + pos, m);
      if (w > 0) { pos += (size_t)w; pieces++; }
      else if (w < 0 && errno != EAGAIN && errno != EINTR) { close(pi[1]); wopen = false; }
      if (pos == in.size() && wopen && eof) { close(pi[1]); wopen = false; }
    }
    if (io >= 0 && f[io].revents) { ssize_t g = read(po[0], buf, sizeof buf); if (g > 0) res.out.insert(res.out.end(), buf, buf + g); else if (g == 0 || (errno != EAGAIN && errno != EINTR)) oopen = false; }
    if (ie >= 0 && f[ie].revents) { ssize_t g = read(pe[0], buf, sizeof buf); if (g > 0) { if (res.err.size() < 200000) res.err.append((char *)buf, (size_t)g); } else if (g == 0 || (errno != EAGAIN && errno != EINTR)) eopen = false; }
  }
  if (wopen) close(pi[1]);
  close(po[0]); close(pe[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  res.unread = in.size() - pos;
  vh::ev("program-run"); vh::ev("input-pieces", pieces);
  if (late) { vh::violate("cli.hang", "%s does not end although its input ended (%zu bytes)", name, in.size()); return res; }
  if (WIFSIGNALED(st) || WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 99) {  // let the check see the report
    fwrite(res.err.data(), 1, res.err.size(), stderr);
    std::string c; for (auto &s : a) c += s + " ";
    fprintf(stderr, "in the program: %s\n", c.c_str());
    vh::die(); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } _exit(66);
  }
  res.rc = WEXITSTATUS(st);
  if (layout > 1) {
    VH_CHECK(res.out.empty() && access(fout.c_str(), F_OK) == 0, "files.stdout", "%s%s: %zu bytes on the standard output, '%s' %s", name, join(a).c_str(), res.out.size(), fout.c_str(), access(fout.c_str(), F_OK) ? "does not exist" : "exists");
    res.out = vh::slurp(fout); if (res.rc != 0 && res.out == before) res.out.clear();  // refused before touching it
  }
  if (layout) {
    VH_CHECK(vh::slurp(fin) == given, "files.input-changed", "%s%s: the input file was changed", name, join(a).c_str());
    res.unread = 0; unlink(fin.c_str()); if (!fout.empty()) unlink(fout.c_str());
    vh::ev(layout == 1 ? "input-file" : "input-and-output-file");
  } else if (files) vh::ev("no-files");
  if (files && res.rc == 0 && !res.out.empty() && (args.empty() || args.back() != "-t") && r.chance(1, 6)) {  // the same with a full disk
    spill("full-in", given); fflush(nullptr);
    std::vector<std::string> b = {name}; b.insert(b.end(), args.begin(), args.end()); b.push_back("full-in"); bool named = r.chance(1, 2); if (named) b.push_back("/dev/full");
    pid_t p2 = fork(); if (p2 < 0) { perror("fork"); _exit(3); }
    if (p2 == 0) {
      vh::forked(); alarm(60); int n = open("/dev/null", O_RDWR), f = open("/dev/full", O_WRONLY); dup2(n, 0); dup2(named ? n : f, 1); dup2(n, 2); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
      std::vector<char *> v; for (auto &x : b) v.push_back(&x[0]); v.push_back(nullptr);
      std::string x = rust_exe(name); execv(x.c_str(), v.data()); _exit(125);
    }
    int s2 = 0; while (waitpid(p2, &s2, 0) < 0 && errno == EINTR) {}
    VH_CHECK(!(WIFEXITED(s2) && WEXITSTATUS(s2) == 0), "files.lost-output", "%s%s%s: status 0 although none of %zu bytes could be written", name, join(b).c_str(), named ? "" : " >/dev/full", res.out.size());
    VH_CHECK(!(WIFEXITED(s2) && WEXITSTATUS(s2) == 125), "files.exec", "not started"); unlink("full-in"); vh::ev(named ? "full-file" : "full-stdout");
  }
  return res;
}
// a refusal: complains, ends with an error and converts nothing
inline void expect_refusal(const char *name, const std::vector<std::string> &args, const CliRun &c) {
  VH_CHECK(c.rc != 0, "refuse.status", "%s%s: status 0", name, join(args).c_str());
  VH_CHECK(c.out.empty(), "refuse.converts", "%s%s: %zu bytes of output", name, join(args).c_str(), c.out.size());
  VH_CHECK(!c.err.empty(), "refuse.silent", "%s%s: no message", name, join(args).c_str());
  vh::ev("value-refused");
}
inline void expect_help(const char *name, const std::vector<std::string> &args, const CliRun &c) {
  VH_CHECK(c.rc == 0 && c.out.empty() && c.err.find("Usage") != std::string::npos, "help", "%s%s: status %d, %zu bytes of output, %zu of messages", name, join(args).c_str(), c.rc, c.out.size(), c.err.size());
  VH_CHECK(c.err.find("(null)") == std::string::npos, "help.text", "%s", c.err.substr(0, 100).c_str());
  vh::ev("help-shown");
}
// numbers as sender id options take them
inline std::string sender_text(vh::Rng &r, uint16_t v) { return r.chance(1, 2) ? std::to_string(v) : vh::fmt(r.chance(1, 2) ? "0x%x" : "0x%04X", v); }
inline std::string bad_sender(vh::Rng &r) {
  switch (r.below(8)) {
    case 0: return "65536";
    case 1: return "0x10000";
    case 2: return "-1";
    case 3: return std::to_string((int64_t)65536 + (int64_t)r.below(1u << 30));
    case 4: return std::to_string(-(int64_t)r.below(1u << 30) - 1);
    case 5: return "12x";
    case 6: return "sender";
    default: return "99999999999999999999999";
  }
}
// the forms getopt_long takes for a value
inline std::vector<std::string> with_value(vh::Rng &r, const std::string &shrt, const std::string &lng, const std::string &v) {
  switch (r.below(lng.empty() ? 2 : 5)) { case 0: return {shrt + v}; case 1: return {shrt, v}; case 2: return {lng + "=" + v}; case 3: return {lng, v}; default: return {lng.substr(0, lng.size() - 1 - r.below(3)), v}; }
}
inline void expect_success(const char *name, const std::vector<std::string> &args, const CliRun &c, size_t n) {
  VH_CHECK(c.rc == 0, "status", "%s%s ends with status %d: %s", name, join(args).c_str(), c.rc, c.err.substr(0, 200).c_str());
  VH_CHECK(c.unread == 0, "input.unread", "%s%s: %zu of %zu bytes of input not taken", name, join(args).c_str(), c.unread, n);
  vh::ev("conversion-run");
}
