// Records what a solver tells an attached post-processor.
#pragma once
#include "fe.h"
#include "PostProcessor.h"
#include <sys/wait.h>
namespace fe {
struct Spy : public PostProcessor {
  std::vector<std::string>* log; int id; std::function<void(const char*, int)> at;
  Spy(FEStorage* s, std::vector<std::string>* l, int i) : PostProcessor(s), log(l), id(i) { name = "spy"; active = true; }
  void pre() override { log->push_back("pre" + std::to_string(id)); if (at) at("pre", 0); }
  void process(uint16 n) override { log->push_back("process" + std::to_string(id) + ":" + std::to_string(n)); if (at) at("process", n); }
  void post(uint16 n) override { log->push_back("post" + std::to_string(id)); if (at) at("post", n); }
};
// runs f in a child; returns its exit status, or -1 when it was ended abnormally by a reported error (abort).
// A sanitizer report in the child is a violation.
template <class F> int inChild(const std::string& key, F f) {
  fflush(0);
  int fds[2]; if (pipe(fds) != 0) return -2;
  pid_t p = fork();
  if (p == 0) { close(fds[0]); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fds[1], 2); int rc = f(); _exit(rc); }
  close(fds[1]);
  std::string err; char buf[4096]; ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) if (err.size() < 20000) err.append(buf, n);
  close(fds[0]);
  int stt = 0; waitpid(p, &stt, 0);
  if (WIFEXITED(stt)) {
    int rc = WEXITSTATUS(stt);
    if (rc == 99 || rc == 98) { mon::fail(key + ".sanitizer", err.substr(0, 600)); return -3; }
    return rc;
  }
  if (WIFSIGNALED(stt) && WTERMSIG(stt) != SIGABRT) { mon::fail(key + ".signal", "ended by signal " + std::to_string(WTERMSIG(stt))); return -3; }
  return -1;
}
} // namespace fe
