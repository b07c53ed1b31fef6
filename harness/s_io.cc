// Sessions on the readers and writers of files, and on string alignments:
//   session io
// Every operation runs in a child of its own, so that a reader may refuse its
// input by ending the program.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "common.hh"
#include "emissions/string_alignment.hh"
#include "model_dump.hh"
#include "pclean/csv.hh"
#include "pclean/io.hh"
#include "pclean_dump.hh"
#include "util_io.hh"
#include "util_parse.hh"

static std::string jframe(const DataFrame& df) {
  std::vector<std::string> d;
  for (auto& [c, v] : df.data) d.push_back(jpair(jstr(c), jstrs(v)));
  return Obj().kv("columns", jstrs(df.columns)).kv("data", jarr(d)).str();
}

struct IoSession : Session {
  std::string base = "io." + std::to_string(getpid());

  // Runs f in a child; how it ended, and what it returned.
  void isolated(Obj& o, std::function<std::string()> f) {
    int p[2];
    if (pipe(p) != 0) abort();
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      int rc = 0;
      std::string s;
      try {
        s = f();
      } catch (const std::exception& e) {
        rc = 9;
      }
      size_t k = 0;
      while (rc == 0 && k < s.size()) {
        ssize_t n = write(p[1], s.data() + k, s.size() - k);
        if (n <= 0) break;
        k += n;
      }
      _exit(rc);
    }
    close(p[1]);
    std::string s;
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, n);
    close(p[0]);
    int st;
    while (waitpid(c, &st, 0) < 0) {}
    std::string how = "ok";
    if (WIFSIGNALED(st)) how = WTERMSIG(st) == SIGABRT ? "refused" : "signal";
    else if (WEXITSTATUS(st) == 9) how = "exception";
    else if (WEXITSTATUS(st) != 0) how = "refused";
    o.kv("how", jstr(how)).kv("got", how == "ok" ? s : jstr(""));
  }
  std::string file(const std::string& ext, const std::string& text) {
    std::ofstream f(base + ext);
    f << text;
    return base + ext;
  }

  void exec(const Toks& t, Obj& o) override {
    const std::string& op = t[0];
    if (op == "tokens") {
      isolated(o, [&] {
        std::vector<Token> v;
        bool ok = tokenize(t.at(1), &v);
        static const std::map<TokenType, std::string> names = {{TokenType::identifier, "identifier"},
                                                               {TokenType::number, "number"},
                                                               {TokenType::string, "string"},
                                                               {TokenType::symbol, "symbol"}};
        std::vector<std::string> r;
        for (auto& x : v) r.push_back(jpair(jstr(names.at(x.type)), jstr(x.val)));
        return Obj().kv("ok", jbool(ok)).kv("toks", jarr(r)).str();
      });
    } else if (op == "schema") {
      isolated(o, [&] { return jschema(load_schema(file(".schema", t.at(1)))); });
    } else if (op == "csv") {  // csv TEXT [COLUMNS]
      isolated(o, [&] {
        std::istringstream is(t.at(1));
        DataFrame df = t.size() > 2 ? DataFrame::from_csv(is, commas(t.at(2))) : DataFrame::from_csv(is);
        std::ostringstream os;
        df.to_csv(os);
        std::istringstream again(os.str());
        return Obj().kv("df", jframe(df)).kv("text", jstr(os.str())).kv("back", jframe(DataFrame::from_csv(again))).str();
      });
    } else if (op == "csvfile") {  // by way of files
      isolated(o, [&] {
        DataFrame df = DataFrame::from_csv(file(".csv", t.at(1)));
        if (!df.to_csv(base + ".csv2")) exit(3);
        std::ifstream f(base + ".csv2");
        std::string s{std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
        return Obj().kv("df", jframe(df)).kv("text", jstr(s)).kv("back", jframe(DataFrame::from_csv(base + ".csv2"))).str();
      });
    } else if (op == "pschema") {
      isolated(o, [&] {
        PCleanSchema s;
        if (!read_schema_file(file(".pclean", t.at(1)), &s)) exit(3);
        return jpclean(s);
      });
    } else if (op == "align") {  // align K S1 S2 DEL INS SUB MATCH
      isolated(o, [&] {
        double c[4];
        for (int k = 0; k < 4; ++k) c[k] = std::stod(t.at(4 + k));
        std::vector<StrAlignment> v;
        // The costs of the pieces, in the order of the variant.
        auto cost = [&](const StrAlignment& a, double old) { return old + c[a.align_pieces.back().index()]; };
        if (c[0] == 1 && c[1] == 1 && c[2] == 1 && c[3] == 0) topk_alignments(std::stoi(t.at(1)), t.at(2), t.at(3), edit_distance, &v);
        else topk_alignments(std::stoi(t.at(1)), t.at(2), t.at(3), cost, &v);
        std::vector<std::string> rows;
        for (auto& a : v) {
          std::vector<std::string> ps;
          for (auto& p : a.align_pieces) {
            auto ch = [](char x) { return std::string(1, x); };
            if (auto* d = std::get_if<Deletion>(&p)) ps.push_back(jstrs({"del", ch(d->deleted_char), ""}));
            else if (auto* i = std::get_if<Insertion>(&p)) ps.push_back(jstrs({"ins", "", ch(i->inserted_char)}));
            else if (auto* s = std::get_if<Substitution>(&p)) ps.push_back(jstrs({"sub", ch(s->original), ch(s->replacement)}));
            else { char m = std::get<Match>(p).c; ps.push_back(jstrs({"match", ch(m), ch(m)})); }
          }
          rows.push_back(jarr({jnum(a.cost), jint(a.s1_position), jint(a.s2_position), jarr(ps)}));
        }
        return jarr(rows);
      });
    } else {
      throw BadOp(op);
    }
  }
  bool logs_state(const Toks&) override { return false; }
  void state(Obj&) override {}
};
std::unique_ptr<Session> make_io(const Toks&) { return std::make_unique<IoSession>(); }
