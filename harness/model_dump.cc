#include "model_dump.hh"

#include <algorithm>

EmissionSpec emission_spec(const std::string& s) {
  std::string name = s.substr(0, s.find('('));
  std::map<std::string, std::string> args;
  if (name.size() < s.size()) {
    std::istringstream ss(s.substr(name.size() + 1, s.size() - name.size() - 2));
    std::string p;
    while (std::getline(ss, p, ',')) args[p.substr(0, p.find('='))] = p.substr(p.find('=') + 1);
  }
  return EmissionSpec(name, args);
}

template <typename V>
static std::string sorted_arr(V v) {
  std::sort(v.begin(), v.end());
  std::vector<std::string> s;
  for (auto& x : v) s.push_back(x.second);
  return jarr(s);
}
typedef std::vector<std::pair<std::vector<int>, std::string>> KV;

template <typename Rev>
static std::string jrev(const Rev& rev) {
  KV out;
  std::vector<std::string> names;
  for (auto& [dn, m] : rev) names.push_back(dn);
  std::sort(names.begin(), names.end());
  std::vector<std::string> rows;
  for (auto& dn : names) {
    KV kv;
    for (auto& [item, s] : rev.at(dn)) {
      KV in;
      for (auto& items : s) in.push_back({items, jints(items)});
      kv.push_back({{item}, jarr({jstr(dn), jint(item), sorted_arr(in)})});
    }
    std::sort(kv.begin(), kv.end());
    for (auto& x : kv) rows.push_back(x.second);
  }
  return jarr(rows);
}
template <typename C>
static std::string jclusters(const C& clusters) {
  KV kv;
  for (auto& [z, c] : clusters) {
    kv.push_back({z, Obj().kv("z", jints(z)).kv("d", jdist(c)).str()});
  }
  return sorted_arr(kv);
}

std::string jrelation(const std::string& name, const T_relation& spec, RelationVariant rv,
                      int irm_id, const void* live_base) {
  Obj o;
  o.kv("name", jstr(name)).kv("irm", jint(irm_id));
  std::visit([&](const auto& s) { o.kv("doms", jstrs(s.domains)).kv("obs", jbool(s.is_observed)); },
             spec);
  std::visit(
      [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        std::vector<std::string> dn;
        for (auto* d : r->get_domains()) dn.push_back(d->name);
        o.kv("objdoms", jstrs(dn));
        KV data;
        for (auto& [items, v] : r->get_data())
          data.push_back({items, jpair(jints(items), jval<T>(v))});
        o.kv("data", sorted_arr(data)).kv("rev", jrev(r->get_data_r()));
        if (auto* c = dynamic_cast<CleanRelation<T>*>(r)) {
          o.kv("kind", jstr("clean")).kv("cl", jclusters(c->clusters));
        } else if (auto* n = dynamic_cast<NoisyRelation<T>*>(r)) {
          o.kv("kind", jstr("noisy")).kv("cl", jclusters(n->emission_relation.clusters));
          KV pairs, b2n;
          for (auto& [items, v] : n->emission_relation.get_data())
            pairs.push_back({items, jarr({jints(items), jval<T>(v.first), jval<T>(v.second)})});
          for (auto& [b, s] : n->base_to_noisy_items) {
            KV in;
            for (auto& items : s) in.push_back({items, jints(items)});
            // A base with no noisy items left is the same as no entry.
            if (!in.empty()) b2n.push_back({b, jpair(jints(b), sorted_arr(in))});
          }
          o.kv("pairs", sorted_arr(pairs)).kv("b2n", sorted_arr(b2n));
          o.kv("base", jstr(std::get<T_noisy_relation>(spec).base_relation));
          o.kv("baseok", jbool(live_base != nullptr && (const void*)n->base_relation == live_base));
        }
        o.kv("score", jnum(r->logp_score()));
      },
      rv);
  return o.str();
}

std::string jdomain(const Domain* d, int irm_id, const std::vector<std::string>& rels) {
  std::vector<std::string> as, tb;
  std::map<int, int> sorted(d->crp.assignments.begin(), d->crp.assignments.end());
  for (auto [i, z] : sorted) as.push_back(jpair(jint(i), jint(z)));
  for (auto& [z, s] : d->crp.tables) {
    std::set<int> so(s.begin(), s.end());
    tb.push_back(jpair(jint(z), jints(std::vector<int>(so.begin(), so.end()))));
  }
  std::set<int> so(d->items.begin(), d->items.end());
  std::vector<std::string> r(rels);
  std::sort(r.begin(), r.end());
  return Obj().kv("irm", jint(irm_id)).kv("name", jstr(d->name))
      .kv("items", jints(std::vector<int>(so.begin(), so.end())))
      .kv("assign", jarr(as)).kv("tables", jarr(tb)).kv("n", jint(d->crp.N))
      .kv("alpha", jnum(d->crp.alpha)).kv("score", jnum(d->crp.logp_score()))
      .kv("rels", jstrs(r)).str();
}

static const void* addr(RelationVariant rv) {
  return std::visit([](auto* r) { return (const void*)r; }, rv);
}
template <typename M>
static std::string jb2n(const M& m) {
  std::vector<std::string> rows;
  std::map<std::string, std::multiset<std::string>> s;
  for (auto& [b, v] : m)
    if (!v.empty()) s[b] = std::multiset<std::string>(v.begin(), v.end());
  for (auto& [b, v] : s) rows.push_back(jpair(jstr(b), jstrs({v.begin(), v.end()})));
  return jarr(rows);
}

struct Parts {
  std::vector<std::string> doms, rels, irms;
};
static void add_irm(const IRM& irm, int id, std::function<const void*(const std::string&)> base,
                    Parts* p) {
  std::vector<std::string> dn, rn, sn;
  for (auto& [d, dom] : irm.domains) dn.push_back(d);
  for (auto& [r, rel] : irm.relations) rn.push_back(r);
  for (auto& [r, rel] : irm.schema) sn.push_back(r);
  std::sort(dn.begin(), dn.end());
  std::sort(rn.begin(), rn.end());
  for (auto& d : dn) {
    auto it = irm.domain_to_relations.find(d);
    std::vector<std::string> rels;
    if (it != irm.domain_to_relations.end()) rels.assign(it->second.begin(), it->second.end());
    p->doms.push_back(jdomain(irm.domains.at(d), id, rels));
  }
  for (auto& r : rn) {
    const void* b = nullptr;
    if (auto* n = std::get_if<T_noisy_relation>(&irm.schema.at(r))) b = base(n->base_relation);
    p->rels.push_back(jrelation(r, irm.schema.at(r), irm.relations.at(r), id, b));
  }
  p->irms.push_back(Obj().kv("id", jint(id)).kv("rels", jstrs(rn)).kv("schema", jstrs(sn))
                        .kv("score", jnum(irm.logp_score())).str());
}
static std::string finish(const Parts& p, Obj& o) {
  return o.kv("doms", jarr(p.doms)).kv("rels", jarr(p.rels)).kv("irms", jarr(p.irms)).str();
}

std::string jmodel(const IRM& irm) {
  Parts p;
  add_irm(irm, 0,
          [&](const std::string& b) -> const void* {
            auto it = irm.relations.find(b);
            return it == irm.relations.end() ? nullptr : addr(it->second);
          },
          &p);
  Obj o;
  o.kv("kind", jstr("irm")).kv("score", jnum(irm.logp_score()))
      .kv("b2n", jb2n(irm.base_to_noisy_relations));
  return finish(p, o);
}

std::string jmodel(const HIRM& h) {
  Parts p;
  std::vector<int> ids;
  for (auto& [t, irm] : h.irms) ids.push_back(t);
  std::sort(ids.begin(), ids.end());
  for (int t : ids) {
    add_irm(*h.irms.at(t), t,
            [&](const std::string& b) -> const void* {
              if (!h.relation_to_code.contains(b)) return nullptr;
              auto* irm = h.relation_to_irm(b);
              auto it = irm->relations.find(b);
              return it == irm->relations.end() ? nullptr : addr(it->second);
            },
            &p);
  }
  Obj o;
  // The relation partition, by relation name.
  std::vector<std::string> where, tabs, sch;
  std::map<std::string, int> codes(h.relation_to_code.begin(), h.relation_to_code.end());
  for (auto& [r, c] : codes) {
    auto it = h.crp.assignments.find(c);
    bool back = h.code_to_relation.contains(c) && h.code_to_relation.at(c) == r;
    where.push_back(jpair(jstr(r), jint(it == h.crp.assignments.end() || !back ? -1 : it->second)));
  }
  for (auto& [z, s] : h.crp.tables) {
    std::set<std::string> names;
    for (int c : s)
      names.insert(h.code_to_relation.contains(c) ? h.code_to_relation.at(c) : "?");
    tabs.push_back(jpair(jint(z), jstrs({names.begin(), names.end()})));
  }
  for (auto& [r, s] : h.schema) sch.push_back(r);
  o.kv("kind", jstr("hirm")).kv("score", jnum(h.logp_score()))
      .kv("where", jarr(where)).kv("tables", jarr(tabs)).kv("n", jint(h.crp.N))
      .kv("schema", jstrs(sch)).kv("ncodes", jint(h.code_to_relation.size()))
      .kv("alpha", jnum(h.crp.alpha)).kv("b2n", jb2n(h.base_to_noisy_relations));
  return finish(p, o);
}

ObservationVariant obs_value(RelationVariant rv, const std::string& v) {
  return std::visit(
      [&](auto* r) -> ObservationVariant {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        return val_from<T>(v);
      },
      rv);
}

// The name a distribution or an emission goes by in a schema.
static std::string dist_name(const DistributionSpec& s) {
  for (const char* n : {"bernoulli", "bigram", "categorical", "normal", "skellam", "stringcat", "string_nat",
                        "string_skellam", "string_normal"})
    if (DistributionSpec(n).distribution == s.distribution) return n;
  return "?";
}
static std::string emission_name(const EmissionSpec& s) {
  for (const char* n : {"bigram", "gaussian", "simple_string", "sometimes_bitflip", "sometimes_categorical",
                        "sometimes_gaussian"})
    if (EmissionSpec(n).emission == s.emission) return n;
  return "?";
}
std::string jdecl(const T_relation& tr) {
  std::map<std::string, std::string> args;
  Obj o;
  if (auto* c = std::get_if<T_clean_relation>(&tr)) {
    args = c->distribution_spec.distribution_args;
    o.kv("kind", jstr("clean")).kv("dist", jstr(dist_name(c->distribution_spec)));
    o.kv("obs", jbool(c->is_observed)).kv("base", jstr("")).kv("doms", jstrs(c->domains));
  } else {
    auto& n = std::get<T_noisy_relation>(tr);
    args = n.emission_spec.emission_args;
    o.kv("kind", jstr("noisy")).kv("dist", jstr(emission_name(n.emission_spec)));
    o.kv("obs", jbool(n.is_observed)).kv("base", jstr(n.base_relation)).kv("doms", jstrs(n.domains));
  }
  std::vector<std::string> a;
  for (auto& [k, v] : args) a.push_back(jpair(jstr(k), jstr(v)));
  return o.kv("args", jarr(a)).str();
}
std::string jschema(const T_schema& s) {
  std::map<std::string, std::string> m;
  for (auto& [r, tr] : s) m[r] = jdecl(tr);
  std::vector<std::string> rows;
  for (auto& [r, j] : m) rows.push_back(jpair(jstr(r), j));
  return jarr(rows);
}
std::string jobs(const T_observations& obs) {
  std::map<std::string, std::string> m;
  for (auto& [r, v] : obs) {
    std::vector<std::string> e;
    for (auto& [items, val] : v) e.push_back(jpair(jstrs(items), jstr(val)));
    m[r] = jarr(e);
  }
  std::vector<std::string> rows;
  for (auto& [r, j] : m) rows.push_back(jpair(jstr(r), j));
  return jarr(rows);
}
std::string jencoded(const T_encoded_observations& obs) {
  std::map<std::string, std::string> m;
  for (auto& [r, v] : obs) {
    std::vector<std::string> e;
    for (auto& [items, val] : v) e.push_back(jpair(jints(items), jstr(val)));
    m[r] = jarr(e);
  }
  std::vector<std::string> rows;
  for (auto& [r, j] : m) rows.push_back(jpair(jstr(r), j));
  return jarr(rows);
}
std::string jforward(const T_encoding& e) {
  std::vector<std::string> rows;
  for (auto& [d, m] : e.first) {
    std::vector<std::string> q;
    for (auto& [n, c] : m) q.push_back(jpair(jstr(n), jint(c)));
    rows.push_back(jpair(jstr(d), jarr(q)));
  }
  return jarr(rows);
}
std::string jreverse(const T_encoding& e) {
  std::vector<std::string> rows;
  for (auto& [d, m] : e.second) {
    std::vector<std::string> q;
    for (auto& [c, n] : m) q.push_back(jpair(jint(c), jstr(n)));
    rows.push_back(jpair(jstr(d), jarr(q)));
  }
  return jarr(rows);
}
