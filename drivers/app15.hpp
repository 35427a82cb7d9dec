// Runs the command-line program (its main is app_main) in a process of its own and collects what a user observes.
#pragma once
#include "common.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {
struct Run {
  int status = 0; // exit status, or 1000 + signal
  bool refused = false; // ended by an exception
  std::string out, err, log;
  bool has(const char *s) const { return out.find(s) != std::string::npos; }
};
inline std::string slurp(int fd) {
  std::string s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  return s;
}
inline Run run_app(const std::vector<std::string> &args, const std::string &fault = "", int policy = 0) {
  int po[2], pe[2], pl[2];
  if (pipe(po) || pipe(pe) || pipe(pl)) mc::fail("harness: pipe");
  pid_t pid = fork();
  if (pid < 0) mc::fail("harness: fork");
  if (pid == 0) {
    dup2(po[1], 1);
    dup2(pe[1], 2);
    dup2(pl[1], 9);
    for (int fd : {po[0], po[1], pe[0], pe[1], pl[0], pl[1]})
      if (fd != 9) close(fd);
    std::vector<char *> av;
    std::string ps = std::to_string(policy);
    for (const char *s : {"matrix_multiply", "--app"}) av.push_back(const_cast<char *>(s));
    av.push_back(const_cast<char *>(fault.c_str()));
    av.push_back(const_cast<char *>(ps.c_str()));
    for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    alarm(300);
    execv("/proc/self/exe", av.data());
    _exit(127);
  }
  close(po[1]);
  close(pe[1]);
  close(pl[1]);
  Run r;
  struct pollfd pf[3] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}, {pl[0], POLLIN, 0}};
  std::string *dst[3] = {&r.out, &r.err, &r.log};
  int open_fds = 3;
  while (open_fds) {
    poll(pf, 3, 1000);
    mc::count(0, 0);
    for (int i = 0; i < 3; i++)
      if (pf[i].fd >= 0 && pf[i].revents) {
        char b[65536];
        ssize_t n = read(pf[i].fd, b, sizeof b);
        if (n <= 0) {
          close(pf[i].fd);
          pf[i].fd = -1;
          open_fds--;
        } else
          dst[i]->append(b, n);
      }
  }
  int st = 0;
  waitpid(pid, &st, 0);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.refused = r.log.find("exception:") != std::string::npos || r.err.find("uncaught exception in hpx_main") != std::string::npos;
  if (!r.refused && (r.status == 127 || r.status >= 1000 || r.err.find("VIOLATION case=") != std::string::npos || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos))
    mc::fail("the program ended abnormally (status %d): %s", r.status, r.err.substr(0, 1500).c_str());
  // one state per run, one transition per observed line of output or recorded call
  mc::count(1, std::count(r.out.begin(), r.out.end(), '\n') + std::count(r.log.begin(), r.log.end(), '\n'));
  return r;
}
inline std::string shown(const std::vector<std::string> &args) {
  std::string s = "matrix_multiply";
  for (auto &a : args) s += " " + a;
  return s;
}
extern std::string g_fault;
int app_main_wrapper(int argc, char **argv);
// true if this process is the program itself
inline void maybe_app(int argc, char **argv) {
  if (argc < 4 || strcmp(argv[1], "--app")) return;
  g_fault = argv[2];
  static std::vector<char *> av;
  av.push_back(argv[0]);
  for (int i = 4; i < argc; i++) av.push_back(argv[i]);
  av.push_back(nullptr);
  char *dummy[] = {argv[0], nullptr};
  mc::driver_main(1, dummy, [&] {
    mc::env().quiet = false;
    mc::env().omp_threads = 2;
    for (char *a : av)
      if (a && !strncmp(a, "--hpx:localities=", 17)) mc::env().localities = atoi(a + 17);
    mc::Opts o;
    mc::explore("app", o, [&] {
      int rc = 134;
      std::string log;
      try {
        rc = app_main_wrapper((int)av.size() - 1, av.data());
      } catch (const std::exception &e) {
        log = std::string("exception: ") + e.what() + "\n";
        std::cerr << log;
      } catch (...) {
        log = "exception: unknown\n";
      }
      std::cout.flush();
      fflush(stdout);
      log += "hpx::cout:" + mc::hpx_out();
      ssize_t w = write(9, log.data(), log.size());
      (void)w;
      _exit(rc & 255);
    });
  });
}
} // namespace vp
