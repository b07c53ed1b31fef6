// Sessions on the Chinese restaurant process and on Domain.
#include "common.hh"
#include "distributions/crp.hh"
#include "domain.hh"

static std::string jweights(const std::map<int, double>& w) {
  std::vector<std::string> v;
  for (auto [t, x] : w) v.push_back(jpair(jint(t), jnum(x)));
  return jarr(v);
}

struct CrpSession : Session {
  // "crp": a bare CRP; "domain": the same operations through a Domain.
  Domain dom{"D"};
  CRP bare;
  bool use_dom;
  CRP& c() { return use_dom ? dom.crp : bare; }
  CrpSession(const Toks& a) : use_dom(!a.empty() && a[0] == "domain") {}

  void exec(const Toks& t, Obj& o) override {
    const std::string& op = t[0];
    auto I = [&](int i) { return std::stoi(t.at(i)); };
    if (op == "seat") {
      if (use_dom) dom.incorporate(nullptr, I(1), I(2));
      else bare.incorporate(I(1), I(2));
    } else if (op == "join") {  // sampled table; incorporating again is a no-op
      if (use_dom) {
        dom.incorporate(&prng, I(1));
      } else {
        int tb = bare.sample(&prng);
        bare.incorporate(I(1), tb);
      }
    } else if (op == "leave") {
      if (use_dom) dom.unincorporate(I(1));
      else bare.unincorporate(I(1));
    } else if (op == "move") {
      if (use_dom) {
        dom.set_cluster_assignment_gibbs(I(1), I(2));
      } else {
        bare.unincorporate(I(1));
        bare.incorporate(I(1), I(2));
      }
    } else if (op == "alpha") {
      c().alpha = std::stod(t.at(1));
    } else if (op == "transalpha") {
      c().transition_alpha(&prng);
    } else if (op == "query") {
      // Everything that can be asked without changing the state.
      std::vector<std::string> g, lp;
      if (c().N > 0) {
        for (auto& [tb, cust] : c().tables) {
          g.push_back(jpair(jint(tb), jweights(c().tables_weights_gibbs(tb))));
        }
      }
      for (int tb = 0; tb <= c().max_table() + 2; ++tb) lp.push_back(jpair(jint(tb), jnum(c().logp(tb))));
      o.kv("weights", jweights(use_dom ? dom.tables_weights() : bare.tables_weights()));
      o.kv("gibbs", jarr(g)).kv("logp", jarr(lp)).kv("newtable", jnum(c().logp_new_table()));
      o.kv("max", jint(c().max_table()));
      if (use_dom) {
        std::vector<std::string> di;
        for (int item : dom.items) {
          di.push_back(jarr({jint(item), jint(dom.get_cluster_assignment(item)),
                             jweights(dom.tables_weights_gibbs(item))}));
        }
        o.kv("items", jarr(di));
      }
    } else {
      throw BadOp(op);
    }
  }
  std::string outcome(const Toks& t) override {
    if (t[0] == "sample") return std::to_string(c().sample(&prng));
    if (t[0] == "joinwhere") {
      int item = std::stoi(t.at(1));
      if (use_dom) dom.incorporate(&prng, item);
      else bare.incorporate(item, bare.sample(&prng));
      return std::to_string(c().assignments.at(item));
    }
    if (t[0] == "transalpha") {
      c().transition_alpha(&prng);
      return num(c().alpha);
    }
    throw BadOp(t[0]);
  }
  void state(Obj& o) override {
    std::vector<std::string> as, tb, it;
    std::map<int, int> sorted(c().assignments.begin(), c().assignments.end());
    for (auto [i, z] : sorted) as.push_back(jpair(jint(i), jint(z)));
    for (auto& [z, s] : c().tables) {
      std::set<int> so(s.begin(), s.end());
      tb.push_back(jpair(jint(z), jints(std::vector<int>(so.begin(), so.end()))));
    }
    std::set<int> so(dom.items.begin(), dom.items.end());
    o.kv("st", Obj().kv("assign", jarr(as)).kv("tables", jarr(tb)).kv("n", jint(c().N))
                   .kv("alpha", jnum(c().alpha)).kv("score", jnum(c().logp_score()))
                   .kv("items", jints(std::vector<int>(so.begin(), so.end()))).str());
  }
};
std::unique_ptr<Session> make_crp(const Toks& a) { return std::make_unique<CrpSession>(a); }
