// Sessions on one distribution or emission model.
#include "distributions/get_distribution.hh"
#include "emissions/get_emission.hh"
#include "model_dump.hh"
#include "project.hh"

// x tokens: one value for a distribution, clean and dirty for an emission.
template <typename T>
struct DistSession : Session {
  std::unique_ptr<Distribution<T>> d;
  std::vector<std::string> probes;
  DistSession(Distribution<T>* p) : d(p) {}
  static T rd(const Toks& t, size_t i) { return val_from<T>(t.at(i)); }
  void exec(const Toks& t, Obj& o) override {
    const std::string& op = t[0];
    if (op == "inc") {
      if (t.size() > 2) d->incorporate(rd(t, 1), std::stod(t[2]));
      else d->incorporate(rd(t, 1));
    } else if (op == "uninc") {
      if (t.size() > 2) d->incorporate(rd(t, 1), -std::stod(t[2]));
      else d->unincorporate(rd(t, 1));
    } else if (op == "probes") {
      probes.assign(t.begin() + 1, t.end());
    } else if (op == "draw") {   // sampling must leave the model as it was
      std::vector<std::string> v;
      for (int i = 0; i < std::stoi(t.at(1)); ++i) v.push_back(jval<T>(d->sample(&prng)));
      o.kv("draws", jarr(v));
    } else if (op == "hyper") {
      d->transition_hyperparameters(&prng);
    } else if (op == "theta") {
      d->transition_theta(&prng);
    } else if (op == "inittheta") {
      d->init_theta(&prng);
    } else if (op == "nearest") {
      o.kv("got", jval<T>(d->nearest(rd(t, 1))));
    } else if (op == "set") {
      set(t);
    } else {
      throw BadOp(op);
    }
  }
  void set(const Toks& t) {
    auto f = [&](int i) { return std::stod(t.at(i)); };
    if constexpr (std::is_same_v<T, bool>) {
      auto b = dynamic_cast<BetaBernoulli*>(d.get());
      b->alpha = f(1); b->beta = f(2);
    } else if constexpr (std::is_same_v<T, int>) {
      if (auto c = dynamic_cast<DirichletCategorical*>(d.get())) c->alpha = f(1);
      if (auto s = dynamic_cast<Skellam*>(d.get())) {
        s->mu1 = f(1); s->mu2 = f(2);
      }
    } else if constexpr (std::is_same_v<T, double>) {
      if (auto n = dynamic_cast<Normal*>(d.get())) {
        n->r = f(1); n->v = f(2); n->m = f(3); n->s = f(4);
      }
      if (auto z = dynamic_cast<ZeroMeanNormal*>(d.get())) { z->alpha = f(1); z->beta = f(2); }
    } else {
      if (auto b = dynamic_cast<Bigram*>(d.get())) b->set_alpha(f(1));
      if (auto c = dynamic_cast<StringCat*>(d.get())) c->dc.alpha = f(1);
    }
  }
  std::string outcome(const Toks& t) override {
    if (t[0] == "sample") return val_to<T>(d->sample(&prng));
    if (t[0] == "samplebin") {  // index of the bin between thresholds
      double x = std::stod(val_to<T>(d->sample(&prng)));
      size_t b = 0;
      for (size_t i = 1; i < t.size(); ++i) b += x > std::stod(t[i]);
      return std::to_string(b);
    }
    std::string r;
    if (t[0] == "hyper") d->transition_hyperparameters(&prng);
    else if (t[0] == "theta") d->transition_theta(&prng);
    else if (t[0] == "inittheta") d->init_theta(&prng);
    else throw BadOp(t[0]);
    for (auto& h : hyp_of(d.get())) r += (r.empty() ? "" : " ") + h;
    return r;
  }
  void state(Obj& o) override {
    std::vector<std::string> lp;
    for (auto& p : probes) lp.push_back(jpair(jstr(p), jnum(d->logp(val_from<T>(p)))));
    o.kv("st", jdist(d.get())).kv("lp", jarr(lp));
  }
};

template <typename T>
struct EmissionSession : Session {
  std::unique_ptr<Emission<T>> d;
  std::vector<std::pair<std::string, std::string>> probes;
  EmissionSession(Emission<T>* p) : d(p) {}
  static std::pair<T, T> rd(const Toks& t, size_t i) {
    return {val_from<T>(t.at(i)), val_from<T>(t.at(i + 1))};
  }
  void exec(const Toks& t, Obj& o) override {
    const std::string& op = t[0];
    if (op == "inc") {
      if (t.size() > 3) d->incorporate(rd(t, 1), std::stod(t[3]));
      else d->incorporate(rd(t, 1));
    } else if (op == "uninc") {
      if (t.size() > 3) d->incorporate(rd(t, 1), -std::stod(t[3]));
      else d->unincorporate(rd(t, 1));
    } else if (op == "probes") {
      probes.clear();
      for (size_t i = 1; i + 1 < t.size(); i += 2) probes.push_back({t[i], t[i + 1]});
    } else if (op == "draw") {
      std::vector<std::string> v;
      for (int i = 0; i < std::stoi(t.at(2)); ++i)
        v.push_back(jval<T>(d->sample_corrupted(val_from<T>(t.at(1)), &prng)));
      o.kv("draws", jarr(v));
    } else if (op == "propose") {
      std::vector<T> c;
      for (size_t i = 1; i < t.size(); ++i) c.push_back(val_from<T>(t[i]));
      o.kv("got", jval<T>(d->propose_clean(c, &prng)));
    } else if (op == "hyper") {
      d->transition_hyperparameters(&prng);
    } else {
      throw BadOp(op);
    }
  }
  std::string outcome(const Toks& t) override {
    if (t[0] == "corrupt") return val_to<T>(d->sample_corrupted(val_from<T>(t.at(1)), &prng));
    if (t[0] == "corruptlen")
      return std::to_string(val_to<T>(d->sample_corrupted(val_from<T>(t.at(1)), &prng)).size());
    if (t[0] == "corruptbin") {
      double c = std::stod(t.at(1));
      double x = std::stod(val_to<T>(d->sample_corrupted(val_from<T>(t.at(1)), &prng)));
      if (x == c) return "same";
      size_t b = 0;
      for (size_t i = 2; i < t.size(); ++i) b += x - c > std::stod(t[i]);
      return std::to_string(b);
    }
    std::string r;
    if (t[0] == "hyper") d->transition_hyperparameters(&prng);
    else throw BadOp(t[0]);
    // One group of hyperparameters at a time: token 1,2 = range of indices.
    auto h = hyp_of(d.get());
    for (int i = std::stoi(t.at(1)); i < std::stoi(t.at(2)); ++i)
      r += (r.empty() ? "" : " ") + h.at(i);
    return r;
  }
  void state(Obj& o) override {
    std::vector<std::string> lp;
    for (auto& p : probes)
      lp.push_back(jarr({jstr(p.first), jstr(p.second),
                         jnum(d->logp({val_from<T>(p.first), val_from<T>(p.second)}))}));
    o.kv("st", jdist(static_cast<const Distribution<std::pair<T, T>>*>(d.get()))).kv("lp", jarr(lp));
  }
};

template <typename T>
static std::unique_ptr<Session> mkd(Distribution<T>* d) { return std::make_unique<DistSession<T>>(d); }
template <typename T>
static std::unique_ptr<Session> mke(Emission<T>* d) { return std::make_unique<EmissionSession<T>>(d); }

std::unique_ptr<Session> make_dist(const Toks& a) {
  std::mt19937 prng(std::stoi(a.at(2)));
  if (a.at(0) == "dist") {
    if (a.at(1) == "zmn") return mkd<double>(new ZeroMeanNormal);
    if (a.at(1).rfind("bigram3", 0) == 0) {  // small alphabet: bigram3:min:max:len
      return mkd<std::string>(new Bigram(std::stoi(a.at(3)), a.at(4)[0], a.at(5)[0]));
    }
    return std::visit([&](auto d) { return mkd(d); }, get_prior(DistributionSpec(a.at(1)), &prng));
  }
  if (a.at(1) == "identity_int") return mke<int>(new IdentityEmission<int>);
  if (a.at(1) == "bitflip") return mke<bool>(new BitFlip);
  if (a.at(1) == "categorical") return mke<int>(new CategoricalEmission(std::stoi(a.at(3))));
  if (a.at(1) == "sometimes_categorical_neq")
    return mke<int>(new Sometimes<int>(new CategoricalEmission(std::stoi(a.at(3)))));
  return std::visit([&](auto d) -> std::unique_ptr<Session> { return mke(d); },
                    get_prior(emission_spec(a.at(1)), &prng));
}
