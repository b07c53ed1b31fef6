// Projection of distribution / emission objects: which model it is, its
// hyperparameters and latent parameters, N and the score.
#pragma once
#include "common.hh"
#include "distributions/adapter.hh"
#include "distributions/base.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#undef ALPHA_GRID
#undef BETA_GRID
#include "distributions/zero_mean_normal.hh"
#include "emissions/base.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/identity.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"

// Hyperparameters (and, for skellam, latent rates) as numbers-as-text.
inline std::vector<std::string> nums(std::initializer_list<double> v) {
  std::vector<std::string> r;
  for (double x : v) r.push_back(num(x));
  return r;
}
std::vector<std::string> hyp_of(const BetaBernoulli* d);
std::vector<std::string> hyp_of(const DirichletCategorical* d);
std::vector<std::string> hyp_of(const Distribution<bool>* d);
std::vector<std::string> hyp_of(const Distribution<int>* d);
std::vector<std::string> hyp_of(const Distribution<double>* d);
std::vector<std::string> hyp_of(const Distribution<std::string>* d);
std::vector<std::string> hyp_of(const Distribution<std::pair<bool, bool>>* d);
std::vector<std::string> hyp_of(const Distribution<std::pair<int, int>>* d);
std::vector<std::string> hyp_of(const Distribution<std::pair<double, double>>* d);
std::vector<std::string> hyp_of(
    const Distribution<std::pair<std::string, std::string>>* d);

template <typename D>
std::string jdist(const D* d) {
  return Obj().kv("hyp", jstrs(hyp_of(d))).kv("n", jnum(d->N))
      .kv("score", jnum(d->logp_score())).str();
}
