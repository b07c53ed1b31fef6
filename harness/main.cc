// driver SCRIPT OUT [JOBS]
//
// Replays a script of operations on the real library and writes one JSON line
// per operation.  A script is a list of sessions:
//     session KIND ARGS...
//     op args...
//     hist K op args...       (K independent executions from the same state)
// Every session runs in its own child process (a crash, an abort or an exit
// of the code under test becomes a "crash" line in the trace), JOBS at a time.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>

#include "common.hh"

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", c);
      o += buf;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
std::string jint(long v) { return std::to_string(v); }
std::string jbool(bool b) { return b ? "true" : "false"; }
std::string num(double x) {
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  if (x == 0) return "0";
  for (int p = 1; p <= 17; ++p) {
    char buf[40];
    snprintf(buf, sizeof buf, "%.*g", p, x);
    if (strtod(buf, nullptr) == x) return buf;
  }
  return "nan";
}
std::string jarr(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i];
  return o + "]";
}
std::string jints(const std::vector<int>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
  return o + "]";
}
std::string jstrs(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + jstr(v[i]);
  return o + "]";
}
static std::string pct(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)std::stoi(s.substr(i + 1, 2), nullptr, 16);
      i += 2;
    } else {
      o += s[i];
    }
  }
  return o;
}
Toks split_ws(const std::string& line) {
  Toks t;
  std::istringstream ss(line);
  std::string w;
  while (ss >> w) t.push_back(w == "%" ? "" : pct(w));
  return t;
}
std::vector<std::string> commas(const std::string& s) {
  std::vector<std::string> v;
  if (s == "-" || s.empty()) return v;
  std::istringstream ss(s);
  std::string w;
  while (std::getline(ss, w, ',')) v.push_back(w);
  return v;
}
std::vector<int> ints(const std::string& s) {
  std::vector<int> v;
  for (const auto& w : commas(s)) v.push_back(std::stoi(w));
  return v;
}

std::unique_ptr<Session> make_session(const std::string& kind, const Toks& args) {
  if (kind == "crp") return make_crp(args);
  if (kind == "dist") return make_dist(args);
  if (kind == "model") return make_model(args);
#ifdef WITH_GENDB
  if (kind == "gendb") return make_gendb(args);
#endif
#ifdef WITH_IO
  if (kind == "io") return make_io(args);
#endif
#ifdef WITH_MISC
  if (kind == "misc") return make_misc(args);
#endif
  throw BadOp("unknown session kind " + kind);
}

struct Block {
  int line0;
  std::vector<std::string> lines;  // first is the session line
};
static unsigned g_seed = 1, g_hist_seed = 1;

static void write_all(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(97);
    o += n;
  }
}

// Ends the child without running destructors or atexit handlers.
[[noreturn]] static void quick(int fd, int code) {
  fflush(stdout);
  if (fd >= 0) close(fd);
  _exit(code);
}

static std::map<std::string, int> histogram(Session* s, const Toks& t, int K,
                                            unsigned salt, std::string* crash) {
  std::map<std::string, int> h;
  int p[2];
  if (pipe(p) != 0) abort();
  for (int k = 0; k < K; ++k) {
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      std::seed_seq sq{g_hist_seed, salt, (unsigned)k};
      s->prng.seed(sq);
      std::string o;
      try {
        o = s->outcome(t);
      } catch (const BadOp& e) {
        o = std::string("!badop ") + e.what();
      } catch (const std::exception& e) {
        o = std::string("!exception ") + e.what();
      }
      if (o.size() > 4000) o.resize(4000);
      uint32_t n = o.size();
      std::string m((char*)&n, 4);
      write_all(p[1], m + o);
      _exit(0);
    }
    int st;
    while (waitpid(c, &st, 0) < 0) {}
    if (st != 0) {
      *crash = "status " + std::to_string(st);
      break;
    }
    uint32_t n;
    if (read(p[0], &n, 4) != 4) abort();
    std::string o(n, 0);
    size_t got = 0;
    while (got < n) got += read(p[0], &o[got], n - got);
    ++h[o];
  }
  close(p[0]);
  close(p[1]);
  return h;
}

static void run_block(const Block& b, int fd, int id) {
  std::unique_ptr<Session> s;
  for (size_t i = 0; i < b.lines.size(); ++i) {
    Toks t = split_ws(b.lines[i]);
    int lineno = b.line0 + i;
    Obj o;
    o.kv("op", jstr(t[0])).kv("ses", jint(id)).kv("line", jint(lineno));
    // Announce the op first, so that a crash can be attributed.
    write_all(fd, "#" + std::to_string(lineno) + "\n");
    std::seed_seq sq{g_seed, (unsigned)lineno};
    bool log_state = true;
    try {
      if (t[0] == "session") {
        Toks args(t.begin() + 2, t.end());
        o.kv("kind", jstr(t[1]));
        s = make_session(t[1], args);
        s->prng.seed(sq);
        o.kv("args", jstrs(args));
      } else if (t[0] == "hist") {
        int K = std::stoi(t[1]);
        Toks sub(t.begin() + 2, t.end());
        std::string crash;
        auto h = histogram(s.get(), sub, K, lineno, &crash);
        std::vector<std::string> items;
        for (auto& [k, n] : h) items.push_back(jpair(jstr(k), jint(n)));
        o.kv("k", jint(K)).kv("args", jstrs(sub)).kv("hist", jarr(items));
        if (!crash.empty()) o.kv("crash", jstr(crash));
        log_state = false;
      } else {
        s->prng.seed(sq);
        o.kv("args", jstrs(Toks(t.begin() + 1, t.end())));
        s->exec(t, o);
        log_state = s->logs_state(t);
      }
      o.kv("ok", jbool(true));
    } catch (const BadOp& e) {
      fprintf(stderr, "driver: line %d: bad op: %s\n", lineno, e.what());
      write_all(fd, "!badop\n");
      quick(fd, 3);
    } catch (const std::exception& e) {
      // The code under test threw: the trace ends here.
      write_all(fd, Obj().kv("op", jstr("crash")).kv("ses", jint(id)).kv("line", jint(lineno))
                    .kv("what", jstr(std::string("exception: ") + e.what()))
                    .kv("text", jstr(b.lines[i])).str() + "\n");
      quick(fd, 0);
    }
    if (log_state) s->state(o);
    write_all(fd, o.str() + "\n");
  }
  write_all(fd, "#done\n");
  quick(fd, 0);
}

std::string run_program(const std::string& name, const std::vector<std::string>& args, const std::string& out) {
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n < 0) abort();
  std::string exe(self, n);
  exe = exe.substr(0, exe.rfind('/') + 1) + name;
  std::vector<char*> argv = {exe.data()};
  for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    alarm(100);
    execv(exe.c_str(), argv.data());
    _exit(99);
  }
  int st;
  while (waitpid(c, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) throw std::runtime_error("cannot run " + exe);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? "refused" : "signal";
  return WEXITSTATUS(st) == 0 ? "ok" : "refused";
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  int jobs = argc > 3 ? atoi(argv[3]) : 8;
  int timeout = argc > 4 ? atoi(argv[4]) : 120;
  if (getenv("VERIF_SEED")) g_seed = atoi(getenv("VERIF_SEED"));
  g_hist_seed = getenv("HIST_SEED") ? atoi(getenv("HIST_SEED")) : g_seed;
  std::ifstream in(argv[1]);
  std::vector<Block> blocks;
  std::string line;
  int ln = 0;
  while (std::getline(in, line)) {
    ++ln;
    if (line.empty() || line[0] == '#') continue;
    if (line.rfind("session ", 0) == 0) blocks.push_back({ln, {}});
    if (blocks.empty()) return 2;
    // Blank/comment lines are not allowed inside sessions: line numbers are
    // counted from the session line.
    blocks.back().lines.push_back(line);
  }
  std::vector<pid_t> pid(blocks.size(), -1);
  std::string dir = std::string(argv[2]) + ".parts";
  (void)!system(("mkdir -p '" + dir + "'").c_str());
  size_t next = 0, running = 0;
  std::vector<int> status(blocks.size(), -1);
  while (next < blocks.size() || running > 0) {
    while (next < blocks.size() && (int)running < jobs) {
      fflush(stdout);
      pid_t c = fork();
      if (c == 0) {
        int fd = open((dir + "/" + std::to_string(next)).c_str(),
                      O_CREAT | O_WRONLY | O_TRUNC, 0644);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("DRIVER_STDERR")) {
          int ef = open((dir + "/" + std::to_string(next) + ".err").c_str(),
                      O_CREAT | O_WRONLY | O_TRUNC, 0644);
          dup2(ef, 2);
        }
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(timeout);
        run_block(blocks[next], fd, next + 1);
      }
      pid[next++] = c;
      ++running;
    }
    int st;
    pid_t c = waitpid(-1, &st, 0);
    for (size_t i = 0; i < pid.size(); ++i) {
      if (pid[i] == c) status[i] = st;
    }
    --running;
  }
  std::ofstream out(argv[2]);
  int rc = 0;
  for (size_t i = 0; i < blocks.size(); ++i) {
    std::ifstream part(dir + "/" + std::to_string(i));
    std::string last, err;
    bool done = false, crashed = false;
    while (std::getline(part, line)) {
      if (line == "#done") {
        done = true;
      } else if (line == "!badop") {
        rc = 3;
      } else if (!line.empty() && line[0] == '#') {
        last = line.substr(1);
      } else {
        if (line.rfind("{\"op\":\"crash\"", 0) == 0) crashed = true;
        out << line << "\n";
      }
    }
    if (!done && !crashed) {
      int n = last.empty() ? blocks[i].line0 : atoi(last.c_str());
      std::string what = WIFSIGNALED(status[i])
          ? (WTERMSIG(status[i]) == SIGALRM ? "timeout"
             : std::string("signal ") + std::to_string(WTERMSIG(status[i])))
          : std::string("exit ") + std::to_string(WEXITSTATUS(status[i]));
      std::ifstream ef(dir + "/" + std::to_string(i) + ".err");
      std::string e((std::istreambuf_iterator<char>(ef)), std::istreambuf_iterator<char>());
      if (e.size() > 600) e = e.substr(e.size() - 600);
      out << Obj().kv("op", jstr("crash")).kv("ses", jint(i + 1)).kv("line", jint(n))
                 .kv("what", jstr(what)).kv("stderr", jstr(e))
                 .kv("text", jstr(blocks[i].lines.at(n - blocks[i].line0))).str()
          << "\n";
    }
    out.flush();
  }
  (void)!system(("rm -rf '" + dir + "'").c_str());
  return rc;
}
