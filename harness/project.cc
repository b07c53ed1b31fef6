#include "project.hh"
typedef std::vector<std::string> H;
static H cat(H a, const H& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
H hyp_of(const BetaBernoulli* d) { return nums({d->alpha, d->beta}); }
H hyp_of(const DirichletCategorical* d) { return nums({d->alpha}); }
H hyp_of(const Distribution<bool>* d) {
  if (auto b = dynamic_cast<const BetaBernoulli*>(d)) return hyp_of(b);
  throw BadOp("unknown bool distribution");
}
H hyp_of(const Distribution<int>* d) {
  if (auto b = dynamic_cast<const DirichletCategorical*>(d)) return hyp_of(b);
  if (auto s = dynamic_cast<const Skellam*>(d))
    return nums({s->mean1, s->stddev1, s->mean2, s->stddev2, s->mu1, s->mu2});
  throw BadOp("unknown int distribution");
}
H hyp_of(const Distribution<double>* d) {
  if (auto b = dynamic_cast<const Normal*>(d)) return nums({b->r, b->v, b->m, b->s});
  if (auto b = dynamic_cast<const ZeroMeanNormal*>(d)) return nums({b->alpha, b->beta});
  throw BadOp("unknown double distribution");
}
H hyp_of(const Distribution<std::string>* d) {
  if (auto b = dynamic_cast<const Bigram*>(d)) {
    // Each row's hyperparameter must be the model's.
    for (const auto& t : b->transition_dists)
      if (t.alpha != b->alpha) return {num(b->alpha), num(t.alpha)};
    return nums({b->alpha});
  }
  if (auto b = dynamic_cast<const StringCat*>(d)) return hyp_of(&b->dc);
  if (auto a = dynamic_cast<const DistributionAdapter<double>*>(d)) return hyp_of(a->d);
  if (auto a = dynamic_cast<const DistributionAdapter<int>*>(d)) return hyp_of(a->d);
  throw BadOp("unknown string distribution");
}
H hyp_of(const Distribution<std::pair<bool, bool>>* d) {
  if (auto s = dynamic_cast<const Sometimes<bool>*>(d)) return cat(hyp_of(&s->bb), hyp_of(s->be));
  return {};
}
H hyp_of(const Distribution<std::pair<int, int>>* d) {
  if (auto s = dynamic_cast<const Sometimes<int>*>(d)) return cat(hyp_of(&s->bb), hyp_of(s->be));
  if (auto c = dynamic_cast<const CategoricalEmission*>(d)) {
    H h;
    for (const auto& e : c->emission_dists) h.push_back(num(e.alpha));
    return h;
  }
  return {};
}
H hyp_of(const Distribution<std::pair<double, double>>* d) {
  if (auto s = dynamic_cast<const Sometimes<double>*>(d)) return cat(hyp_of(&s->bb), hyp_of(s->be));
  if (auto g = dynamic_cast<const GaussianEmission*>(d)) return nums({g->zmn.alpha, g->zmn.beta});
  return {};
}
H hyp_of(const Distribution<std::pair<std::string, std::string>>* d) {
  if (auto s = dynamic_cast<const SimpleStringEmission*>(d))
    return cat(cat(hyp_of(&s->substitutions), hyp_of(&s->insertions)), hyp_of(&s->deletions));
  if (auto b = dynamic_cast<const BigramStringEmission*>(d)) {
    H h;
    for (const auto& e : b->insertions) h.push_back(num(e.alpha));
    for (const auto& e : b->substitutions) h.push_back(num(e.alpha));
    return h;
  }
  return {};
}
