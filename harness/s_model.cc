// Sessions on an IRM or a HIRM:  session model irm|hirm SEED
//   schema NAME clean DIST OBS DOMS | schema NAME noisy EMISSION OBS BASE DOMS
//   build
// or on a GenDB:  session model gendb SEED
//   pclean SCHEMA ONLY_FINAL_EMISSIONS RECORD_CLASS_IS_CLEAN
#include <unistd.h>

#include <algorithm>
#include <fstream>

#include "gendb.hh"
#include "inference.hh"
#include "model_dump.hh"
#include "pclean/csv.hh"
#include "pclean/io.hh"
#include "pclean/pclean_lib.hh"
#include "pclean_dump.hh"
#include "util_io.hh"

struct ModelSession : Session {
  bool hier;
  unsigned seed;
  T_schema schema;
  std::map<std::string, T_relation> extra;  // specs for addrel
  IRM* irm = nullptr;   // leaked on purpose: the process ends with _exit,
  HIRM* hirm = nullptr; // unless the script says "destroy"
  bool quiet = false;
  GenDB* gendb = nullptr;
  PCleanSchema pschema;
  bool only_final = false, rec_clean = true;
  // What `load` read.
  T_encoding encoding;
  T_observations observations;
  std::string base = "model." + std::to_string(getpid());

  ModelSession(const Toks& a) : hier(a.at(0) != "irm"), seed(std::stoi(a.at(1))) {
    prng.seed(seed);
  }

  T_relation spec_from(const Toks& t, size_t i) {
    if (t.at(i) == "clean") {
      T_clean_relation r;
      r.distribution_spec = DistributionSpec(t.at(i + 1));
      r.is_observed = t.at(i + 2) == "1";
      r.domains = commas(t.at(i + 3));
      return r;
    }
    T_noisy_relation r;
    r.emission_spec = emission_spec(t.at(i + 1));
    r.is_observed = t.at(i + 2) == "1";
    r.base_relation = t.at(i + 3);
    r.domains = commas(t.at(i + 4));
    return r;
  }
  // The declared model of a relation: name and arguments, as written.
  static std::string jspec(const Toks& t) {
    std::string name = t.at(3).substr(0, t.at(3).find('('));
    std::vector<std::string> args;
    if (name.size() < t.at(3).size()) {
      std::istringstream ss(t.at(3).substr(name.size() + 1, t.at(3).size() - name.size() - 2));
      std::string p;
      while (std::getline(ss, p, ','))
        args.push_back(jpair(jstr(p.substr(0, p.find('='))), jstr(p.substr(p.find('=') + 1))));
    }
    bool clean = t.at(2) == "clean";
    return Obj().kv("kind", jstr(t.at(2))).kv("dist", jstr(name)).kv("args", jarr(args))
        .kv("obs", jbool(t.at(4) == "1")).kv("base", jstr(clean ? "" : t.at(5)))
        .kv("doms", jstrs(commas(t.at(clean ? 5 : 6)))).str();
  }
  IRM* irm_of(const std::string& r) { return hier ? hirm->relation_to_irm(r) : irm; }
  IRM* irm_id(int id) { return hier ? hirm->irms.at(id) : irm; }
  // "3" or "@R" (the IRM holding relation R)
  int irm_arg(const std::string& s) {
    if (s[0] != '@') return std::stoi(s);
    return hier ? hirm->relation_to_table(s.substr(1)) : 0;
  }
  // "3"; "?k": the k-th candidate of a Gibbs move other than where it is now;
  // "=N": where N is; "new": a table of its own.  -1: it is there already.
  static int table_arg(const std::string& s, const CRP& crp, int who, int other = -1) {
    int cur = crp.assignments.at(who);
    if (s[0] == '=') {
      int t = crp.assignments.at(other);
      return t == cur ? -1 : t;
    }
    if (s == "new") {
      if (crp.tables.at(cur).size() == 1) return -1;
      for (auto& [t, w] : crp.tables_weights_gibbs(cur))
        if (!crp.tables.contains(t)) return t;
    }
    if (s[0] != '?') return std::stoi(s) == cur ? -1 : std::stoi(s);
    std::vector<int> c;
    for (auto& [t, w] : crp.tables_weights_gibbs(cur))
      if (t != cur) c.push_back(t);
    if (c.empty()) return -1;
    return c[std::stoi(s.substr(1)) % c.size()];
  }
  RelationVariant rel(const std::string& r) { return irm_of(r)->relations.at(r); }
  template <typename F>
  auto vis(const std::string& r, F f) {
    return std::visit(
        [&](auto* p) {
          using T = typename std::remove_pointer_t<decltype(p)>::ValueType;
          return f(static_cast<Relation<T>*>(p));
        },
        rel(r));
  }
  static std::string jvec(const std::vector<double>& v) {
    std::vector<std::string> s;
    for (double x : v) s.push_back(jnum(x));
    return jarr(s);
  }
  template <typename T>
  std::unordered_map<std::string, NoisyRelation<T>*> noisy_of(const std::string& r) {
    std::unordered_map<std::string, NoisyRelation<T>*> m;
    auto& b2n = hier ? hirm->base_to_noisy_relations : irm->base_to_noisy_relations;
    for (const std::string& n : b2n.at(r))
      m[n] = dynamic_cast<NoisyRelation<T>*>(std::get<Relation<T>*>(rel(n)));
    return m;
  }
  // obs tokens: R items val R items val ...
  std::vector<std::tuple<std::string, T_items, ObservationVariant>> obs_from(const Toks& t, size_t i) {
    std::vector<std::tuple<std::string, T_items, ObservationVariant>> v;
    for (; i + 2 < t.size(); i += 3) v.push_back({t[i], ints(t[i + 1]), obs_value(rel(t[i]), t[i + 2])});
    return v;
  }

  std::string file(const std::string& ext, const std::string& text) {
    std::ofstream f(base + ext);
    f << text;
    return base + ext;
  }
  static std::string slurp(const std::string& path) {
    std::ifstream f(path);
    return {std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()};
  }
  void exec_io(const Toks& t, Obj& o) {
    const std::string& op = t[0];
    if (op == "load") {  // load SCHEMA OBS: as the command line does
      schema = load_schema(file(".schema", t.at(1)));
      o.kv("bare", jschema(schema));
      observations = load_observations(file(".obs", t.at(2)), schema);
      encoding = calculate_encoding(schema, observations);
      o.kv("schema", jschema(schema)).kv("obs", jobs(observations));
      o.kv("fwd", jforward(encoding)).kv("rev", jreverse(encoding));
      if (hier) {
        hirm = new HIRM(schema, &prng);
        o.kv("encoded", jencoded(encode_observations(observations, encoding, hirm)));
        incorporate_observations(&prng, hirm, encoding, observations);
      } else {
        irm = new IRM(schema);
        o.kv("encoded", jencoded(encode_observations(observations, encoding, irm)));
        incorporate_observations(&prng, irm, encoding, observations);
      }
    } else if (op == "saveload") {  // save, then load into a fresh model
      std::string path = base + ".saved";
      if (hier) {
        to_txt(path, *hirm, encoding);
        auto* m = new HIRM({}, &prng);
        from_txt(&prng, m, base + ".schema", base + ".obs", path);
        hirm = m;
      } else {
        to_txt(path, *irm, encoding);
        auto* m = new IRM({});
        from_txt(&prng, m, base + ".schema", base + ".obs", path);
        irm = m;
      }
      o.kv("saved", jstr(slurp(path)));
    } else if (op == "loadfrom") {  // loadfrom TEXT: a clustering written by hand
      if (hier) {
        hirm = new HIRM({}, &prng);
        from_txt(&prng, hirm, base + ".schema", base + ".obs", file(".given", t.at(1)));
      } else {
        irm = new IRM({});
        from_txt(&prng, irm, base + ".schema", base + ".obs", file(".given", t.at(1)));
      }
    } else if (op == "samplewrite") {  // HIRM: generate and write
      auto s = hirm->sample_and_incorporate(&prng, std::stoi(t.at(1)));
      std::string path = base + ".samples";
      write_observations(path, s, encoding, hirm);
      o.kv("got", jencoded(s)).kv("text", jstr(slurp(path)));
    } else if (op == "readback") {  // read the generated observations back
      T_schema copy = schema;
      o.kv("back", jobs(load_observations(base + ".samples", copy)));
    } else if (op == "cli") {  // cli SEED ITERS SAMPLES saved|- HELDOUT|-: the program itself, twice
      std::vector<std::string> args = {"--seed=" + t.at(1), "--iters=" + t.at(2), "--samples=" + t.at(3)};
      if (!hier) args.push_back("--mode=irm");
      std::string saved;
      if (t.at(4) == "saved") {
        if (hier) to_txt(base + ".cli", *hirm, encoding);
        else to_txt(base + ".cli", *irm, encoding);
        saved = slurp(base + ".cli");
        args.push_back("--load=" + base + ".cli");
      }
      if (t.at(5) != "-") args.push_back("--heldout=" + file(".held", t.at(5)));
      args.push_back(base);
      std::string out = base + "." + t.at(1) + (hier ? ".hirm" : ".irm");
      std::vector<std::string> runs;
      for (int k = 0; k < 2; ++k) {
        unlink(out.c_str());
        unlink((out + ".samples").c_str());
        std::string how = run_program("hirm", args, base + ".log"), said = slurp(base + ".log"), lp;
        size_t at = said.find("held out data is ");
        if (at != std::string::npos) lp = num(std::stod(said.substr(at + 17)));
        runs.push_back(Obj().kv("how", jstr(how)).kv("out", jstr(slurp(out))).kv("samples", jstr(slurp(out + ".samples")))
            .kv("lp", jstr(lp)).str());
      }
      o.kv("saved", jstr(saved)).kv("runs", jarr(runs));
    } else if (op == "clibad") {  // clibad ARGS...: what the program has to refuse
      std::vector<std::string> args(t.begin() + 1, t.end());
      for (auto& a : args) if (a == "@") a = base;
      o.kv("how", jstr(run_program("hirm", args, base + ".log")));
    } else if (op == "heldout") {  // heldout OBS: log probability of observations in a file
      T_schema copy = schema;
      T_observations h = load_observations(file(".heldout", t.at(1)), copy);
      o.kv("merged", jobs(merge_observations(observations, h)));
      if (hier) o.kv("lp", jnum(::logp(&prng, hirm, encoding, h)));
      else o.kv("lp", jnum(::logp(&prng, irm, encoding, h)));
    } else {
      throw BadOp(op);
    }
  }

  // ----- GenDB -----
  // Customers of the entity CRPs go by hashes of the references they stand for.
  std::string jgendb() {
    std::map<int, std::string> who;
    std::vector<std::string> refs, ents;
    for (auto& [c, m] : gendb->reference_values)
      for (auto& [k, v] : m) {
        refs.push_back(jarr({jstr(c), jstr(k.first), jint(k.second), jint(v)}));
        who[gendb->get_reference_id(c, k.first, k.second)] = jarr({jstr(c), jstr(k.first), jint(k.second)});
      }
    for (auto& [c, crp] : gendb->entity_crps) {
      std::vector<std::string> seats;
      for (auto& [cust, t] : crp.assignments)
        seats.push_back(jpair(who.count(cust) ? who.at(cust) : jarr({jstr("?"), jstr(c), jint(cust)}), jint(t)));
      std::vector<std::string> tables;
      for (auto& [t, cs] : crp.tables) tables.push_back(jpair(jint(t), jint(cs.size())));
      ents.push_back(Obj().kv("cls", jstr(c)).kv("alpha", jnum(crp.alpha)).kv("n", jint(crp.N))
          .kv("seats", jarr(seats)).kv("tables", jarr(tables)).str());
    }
    return Obj().kv("refs", jarr(refs)).kv("ents", jarr(ents)).kv("score", jnum(gendb->logp_score())).str();
  }
  ObservationVariant pvalue(const std::string& rel, const std::string& text) {
    return std::visit([&](auto* r) { return ObservationVariant(r->from_string(text)); }, gendb->hirm->get_relation(rel));
  }
  static std::string jframe(const DataFrame& df) {
    std::vector<std::string> d;
    for (auto& [c, v] : df.data) d.push_back(jpair(jstr(c), jstrs(v)));
    return Obj().kv("columns", jstrs(df.columns)).kv("data", jarr(d)).str();
  }
  void fresh_gendb() {
    gendb = new GenDB(&prng, pschema, only_final, rec_clean);
    hirm = gendb->hirm;
  }
  bool exec_gendb(const Toks& t, Obj& o) {
    const std::string& op = t[0];
    if (op == "pclean") {
      if (!read_schema_file(file(".pclean", t.at(1)), &pschema)) throw std::runtime_error("schema refused");
      only_final = t.at(2) == "1";
      rec_clean = t.at(3) == "1";
      fresh_gendb();
      o.kv("pschema", jpclean(pschema)).kv("schema", jschema(hirm->schema));
    } else if (op == "row") {  // row ID UNIQUE FIELD VALUE ...
      std::map<std::string, ObservationVariant> vals;
      for (size_t i = 3; i + 1 < t.size(); i += 2) vals[t[i]] = pvalue(t[i], t[i + 1]);
      gendb->incorporate(&prng, {std::stoi(t.at(1)), vals}, t.at(2) == "1");
    } else if (op == "csv") {  // csv TEXT START: rows from a table
      DataFrame df = DataFrame::from_csv(file(".csv", t.at(1)));
      ::incorporate_observations(&prng, gendb, df, std::stoi(t.at(2)));
    } else if (op == "samples") {  // samples N START
      o.kv("df", jframe(make_pclean_samples(std::stoi(t.at(1)), std::stoi(t.at(2)), gendb, &prng)));
    } else if (op == "transref") {  // transref CLASS FIELD ITEM
      int item = 0;
      if (t.at(3)[0] == '?') {  // the k-th there is
        std::vector<int> all;
        for (auto& [k, v] : gendb->reference_values.at(t.at(1)))
          if (k.first == t.at(2)) all.push_back(k.second);
        item = all.empty() ? -1 : all[std::stoi(t.at(3).substr(1)) % all.size()];
      } else {
        item = std::stoi(t.at(3));
      }
      o.kv("item", jint(item));
      if (!gendb->reference_values.at(t.at(1)).contains({t.at(2), item})) {
        o.kv("gone", "true");
        return true;
      }
      gendb->transition_reference(&prng, t.at(1), t.at(2), item);
    } else if (op == "transall") {  // transall CLASS: and its ancestors
      gendb->transition_reference_class_and_ancestors(&prng, t.at(1));
    } else if (op == "ginfer") {
      inference_gendb(&prng, gendb, std::stoi(t.at(1)), std::stoi(t.at(2)), 0, false);
    } else if (op == "pcli") {  // pcli SEED ITERS INNER TRANS SAMPLES OBS HELD|-: the program itself, twice
      std::string out = base + ".pout";
      std::vector<std::string> args = {
          "--seed=" + t.at(1), "--iters=" + t.at(2), "--inference_iters=" + t.at(3),
          std::string("--transition_entities=") + (t.at(4) == "1" ? "true" : "false"), "--samples=" + t.at(5),
          "--schema=" + base + ".pclean", "--obs=" + file(".pobs", t.at(6)), "--output=" + out,
          std::string("--only_final_emissions=") + (only_final ? "true" : "false"),
          std::string("--record_class_is_clean=") + (rec_clean ? "true" : "false")};
      if (t.at(7) != "-") args.push_back("--heldout=" + file(".pheld", t.at(7)));
      std::vector<std::string> runs;
      for (int k = 0; k < 2; ++k) {
        unlink(out.c_str());
        unlink((out + ".samples").c_str());
        std::string how = run_program("pclean", args, base + ".log"), said = slurp(base + ".log"), lp;
        size_t at = said.find("held out data is ");
        if (at != std::string::npos) lp = num(std::stod(said.substr(at + 17)));
        runs.push_back(Obj().kv("how", jstr(how)).kv("out", jstr(slurp(out))).kv("samples", jstr(slurp(out + ".samples")))
            .kv("lp", jstr(lp)).str());
      }
      o.kv("runs", jarr(runs));
    } else if (op == "pclibad") {  // pclibad OBS ARGS...: what the program has to refuse (@s, @d: schema and data)
      std::string obs = file(".pobs", t.at(1));
      std::vector<std::string> args(t.begin() + 2, t.end());
      for (auto& a : args) {
        size_t at = a.find("@s");
        if (at != std::string::npos) a.replace(at, 2, base + ".pclean");
        at = a.find("@d");
        if (at != std::string::npos) a.replace(at, 2, obs);
      }
      o.kv("how", jstr(run_program("pclean", args, base + ".log")));
    } else if (op == "gsave") {  // the clusters, as the program saves them
      to_txt(base + ".gsaved", *hirm, make_dummy_encoding_from_gendb(*gendb));
      o.kv("saved", jstr(slurp(base + ".gsaved")));
    } else if (op == "law") {  // law K STEP | STEP | ... | WHAT: frequencies over K fresh models
      const char* hs = getenv("HIST_SEED");
      std::seed_seq sq{seed, (unsigned)std::stoi(hs ? hs : "1"), (unsigned)t.size()};
      prng.seed(sq);
      std::vector<Toks> steps(1);
      for (size_t i = 2; i < t.size(); ++i) {
        if (t[i] == "|") steps.emplace_back();
        else steps.back().push_back(t[i]);
      }
      Toks what = steps.back();
      steps.pop_back();
      std::map<std::string, int> h;
      auto* g0 = gendb;
      auto* h0 = hirm;
      for (int k = 0; k < std::stoi(t.at(1)); ++k) {
        if (g0) fresh_gendb();
        else hirm = new HIRM(schema, &prng);
        for (auto& s : steps) {
          Obj dummy;
          exec(s, dummy);
        }
        ++h[outcome(what)];
        if (gendb) delete gendb;
        else delete hirm;
      }
      gendb = g0;
      hirm = h0;
      quiet = true;
      std::vector<std::string> items;
      for (auto& [k, n] : h) items.push_back(jpair(jstr(k), jint(n)));
      o.kv("k", jint(std::stoi(t.at(1)))).kv("what", jstrs(what)).kv("hist", jarr(items));
    } else {
      return false;
    }
    return true;
  }
  static std::string partition(const std::vector<int>& v) {
    std::map<int, int> seen;
    std::string s;
    for (int x : v) {
      seen.insert({x, (int)seen.size()});
      s += (s.empty() ? "" : ",") + std::to_string(seen.at(x));
    }
    return s;
  }

  void exec(const Toks& t, Obj& o) override {
    const std::string& op = t[0];
    quiet = false;
    static const std::set<std::string> with_irm = {"seat", "gibbs", "gibbsdom", "gibbsall", "setitem",
                                                   "exact", "transalpha", "setalpha", "has"};
    if (with_irm.count(op)) o.kv("irm", jint(irm_arg(t.at(1))));
    if (op == "schema") {
      schema[t.at(1)] = spec_from(t, 2);
      quiet = true;
      o.kv("spec", jspec(t));
    } else if (op == "spec") {
      o.kv("spec", jspec(t));
      extra[t.at(1)] = spec_from(t, 2);
      quiet = true;
    } else if (op == "build") {
      if (hier) hirm = new HIRM(schema, &prng);
      else irm = new IRM(schema);
    } else if (op == "destroy") {
      delete irm;
      delete hirm;
      irm = nullptr;
      hirm = nullptr;
      quiet = true;
    } else if (op == "seat") {  // seat IRM D item table: put an entity at a table
      irm_id(irm_arg(t.at(1)))->domains.at(t.at(2))->incorporate(nullptr, std::stoi(t.at(3)), std::stoi(t.at(4)));
      quiet = t.size() > 5;
    } else if (op == "expect") {  // expect fact...: nothing happens
    } else if (op == "inc") {
      auto v = obs_value(rel(t.at(1)), t.at(3));
      if (hier) hirm->incorporate(&prng, t.at(1), ints(t.at(2)), v);
      else irm->incorporate(&prng, t.at(1), ints(t.at(2)), v);
    } else if (op == "uninc") {
      if (hier) hirm->unincorporate(t.at(1), ints(t.at(2)));
      else irm->unincorporate(t.at(1), ints(t.at(2)));
    } else if (op == "gibbs") {  // gibbs IRM D item
      irm_id(irm_arg(t.at(1)))->transition_cluster_assignment_item(&prng, t.at(2), std::stoi(t.at(3)));
    } else if (op == "gibbsdom") {
      irm_id(irm_arg(t.at(1)))->transition_cluster_assignments(&prng, commas(t.at(2)));
    } else if (op == "gibbsall") {
      irm_id(irm_arg(t.at(1)))->transition_cluster_assignments_all(&prng);
    } else if (op == "setitem") {  // setitem IRM D item table (forced move)
      IRM* m = irm_id(irm_arg(t.at(1)));
      Domain* d = m->domains.at(t.at(2));
      int item = std::stoi(t.at(3));
      int table = table_arg(t.at(4), d->crp, item, t.at(4)[0] == '=' ? std::stoi(t.at(4).substr(1)) : -1);
      o.kv("table", jint(table));
      if (table < 0) return;
      for (const std::string& r : m->domain_to_relations.at(t.at(2))) {
        std::visit(
            [&](auto* p) {
              if (p->has_observation(*d, item)) p->set_cluster_assignment_gibbs(*d, item, table, &prng);
            },
            m->relations.at(r));
      }
      d->set_cluster_assignment_gibbs(item, table);
    } else if (op == "exact") {  // exact IRM D item: data log-odds of each table
      IRM* m = irm_id(irm_arg(t.at(1)));
      Domain* d = m->domains.at(t.at(2));
      int item = std::stoi(t.at(3));
      std::vector<int> tables;
      std::vector<std::string> tw;
      for (auto& [tb, w] : d->tables_weights_gibbs(item)) {
        tables.push_back(tb);
        tw.push_back(jpair(jint(tb), jnum(w)));
      }
      std::vector<std::string> rows;
      std::set<std::string> rs(m->domain_to_relations.at(t.at(2)).begin(),
                               m->domain_to_relations.at(t.at(2)).end());
      for (const std::string& r : rs) {
        std::visit(
            [&](auto* p) {
              if (p->has_observation(*d, item))
                rows.push_back(jpair(jstr(r), jvec(p->logp_gibbs_exact(*d, item, tables, &prng))));
            },
            m->relations.at(r));
      }
      o.kv("tables", jarr(tw)).kv("exact", jarr(rows));
    } else if (op == "hgibbs") {
      hirm->transition_cluster_assignment_relation(&prng, t.at(1));
    } else if (op == "hgibbsall") {
      hirm->transition_cluster_assignments_all(&prng);
    } else if (op == "hset") {
      int table = table_arg(t.at(2), hirm->crp, hirm->relation_to_code.at(t.at(1)),
                            t.at(2)[0] == '=' ? hirm->relation_to_code.at(t.at(2).substr(1)) : -1);
      o.kv("table", jint(table));
      if (table < 0) return;
      hirm->set_cluster_assignment_gibbs(&prng, t.at(1), table);
    } else if (op == "addrel") {
      const T_relation& s = extra.count(t.at(1)) ? extra.at(t.at(1)) : schema.at(t.at(1));
      if (hier) hirm->add_relation(&prng, t.at(1), s);
      else std::visit([&](auto& x) { irm->add_relation(t.at(1), x); }, s);
    } else if (op == "rmrel") {
      if (hier) hirm->remove_relation(t.at(1));
      else irm->remove_relation(t.at(1));
    } else if (op == "latents") {
      if (hier) hirm->transition_latent_values_relation(&prng, t.at(1));
      else irm->transition_latent_values_relation(&prng, t.at(1));
    } else if (op == "latent1") {  // latent1 R items
      vis(t.at(1), [&](auto* b) {
        using T = typename std::remove_pointer_t<decltype(b)>::ValueType;
        transition_latent_value<T>(&prng, ints(t.at(2)), b, noisy_of<T>(t.at(1)));
      });
    } else if (op == "inclogp") {  // inclogp R items cand...: weights of candidate values
      vis(t.at(1), [&](auto* b) {
        using T = typename std::remove_pointer_t<decltype(b)>::ValueType;
        T_items items = ints(t.at(2));
        auto nr = noisy_of<T>(t.at(1));
        std::vector<T> cand;
        for (size_t i = 3; i < t.size(); ++i) cand.push_back(val_from<T>(t[i]));
        T old = b->get_value(items);
        auto no = unincorporate_and_store_values<T>(items, b, nr);
        o.kv("weights", jvec(latent_values_incremental_logp<T>(items, cand, no, b, nr)));
        choose_and_incorporate_value<T>(&prng, items, {old}, {0.0}, no, b, nr);
      });
    } else if (op == "update") {  // update R items val
      vis(t.at(1), [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        r->update_value(ints(t.at(2)), val_from<T>(t.at(3)));
      });
    } else if (op == "hyp") {
      std::visit([&](auto* r) { r->transition_cluster_hparams(&prng, std::stoi(t.at(2))); }, rel(t.at(1)));
    } else if (op == "transalpha") {
      irm_id(irm_arg(t.at(1)))->domains.at(t.at(2))->crp.transition_alpha(&prng);
    } else if (op == "setalpha") {
      irm_id(irm_arg(t.at(1)))->domains.at(t.at(2))->crp.alpha = std::stod(t.at(3));
    } else if (op == "rlogp") {  // rlogp R items val: one relation's predictive
      vis(t.at(1), [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        o.kv("lp", jnum(r->logp(ints(t.at(2)), val_from<T>(t.at(3)), &prng)));
      });
    } else if (op == "clogp") {  // logp of a value under its items' cluster or the prior
      vis(t.at(1), [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        o.kv("lp", jnum(r->cluster_or_prior_logp_from_items(&prng, ints(t.at(2)), val_from<T>(t.at(3)))));
      });
    } else if (op == "logp") {
      auto obs = obs_from(t, 1);
      o.kv("lp", jnum(hier ? hirm->logp(obs, &prng) : irm->logp(obs, &prng)));
    } else if (op == "has") {  // has_observation(domain, item) of the IRM
      o.kv("got", jbool(irm_id(irm_arg(t.at(1)))->has_observation(t.at(2), std::stoi(t.at(3)))));
    } else if (op == "rsample") {  // sample_and_incorporate on a relation
      std::visit(
          [&](auto* r) {
            using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
            o.kv("got", jval<T>(r->sample_and_incorporate(&prng, ints(t.at(2)))));
          },
          rel(t.at(1)));
    } else if (op == "hsamplerel") {
      o.kv("got", jstr(hirm->sample_and_incorporate_relation(&prng, t.at(1), ints(t.at(2)))));
    } else if (op == "hsample") {
      T_encoded_observations s = hirm->sample_and_incorporate(&prng, std::stoi(t.at(1)));
      std::map<std::string, std::vector<T_encoded_observation>> so(s.begin(), s.end());
      std::vector<std::string> rows;
      for (auto& [r, v] : so) {
        std::vector<std::string> e;
        for (auto& [items, val] : v) e.push_back(jpair(jints(items), jstr(val)));
        rows.push_back(jpair(jstr(r), jarr(e)));
      }
      o.kv("got", jarr(rows));
    } else if (op == "unsample") {  // the documented undo: relation without its values
      std::visit([&](auto* r) { r->unincorporate(ints(t.at(2))); }, rel(t.at(1)));
    } else if (op == "detach") {    // cluster-level removal, cleanup, as GenDB does
      std::visit(
          [&](auto* r) {
            r->unincorporate_from_cluster(ints(t.at(2)));
            r->cleanup_data(ints(t.at(2)));
            r->cleanup_clusters();
          },
          rel(t.at(1)));
    } else if (op == "cleanup") {
      hirm->cleanup_relation_clusters();
    } else if (op == "infer") {
      if (hier) inference_hirm(&prng, hirm, std::stoi(t.at(1)), 0, false);
      else inference_irm(&prng, irm, std::stoi(t.at(1)), 0, false);
    } else if (op == "step") {
      double tt = 0;
      single_step_irm_inference(&prng, irm, tt, false, std::stoi(t.at(1)), t.at(2) == "1");
    } else if (!exec_gendb(t, o)) {
      exec_io(t, o);
    }
  }
  std::string outcome(const Toks& t) override {
    // partitions: of relations by view, of entities by table, of references by
    // what they refer to; the first class two rows share along a path
    if (t[0] == "views" || t[0] == "ents" || t[0] == "refs" || t[0] == "meet") {
      std::vector<int> v;
      if (t[0] == "views") {
        for (size_t i = 1; i < t.size(); ++i) v.push_back(hirm->relation_to_table(t[i]));
      } else if (t[0] == "ents") {  // ents RELATION DOMAIN e...
        for (size_t i = 3; i < t.size(); ++i) v.push_back(irm_of(t[1])->domains.at(t[2])->get_cluster_assignment(std::stoi(t[i])));
      } else if (t[0] == "refs") {  // refs CLASS FIELD ITEM CLASS FIELD ITEM ...
        for (size_t i = 1; i + 2 < t.size(); i += 3) v.push_back(gendb->reference_values.at(t[i]).at({t[i + 1], std::stoi(t[i + 2])}));
      } else {  // meet CLASS FIELD CLASS FIELD ...
        int a = 0, b = 1, depth = 0;
        for (size_t i = 1; i + 1 < t.size(); i += 2) {
          ++depth;
          a = gendb->reference_values.at(t[i]).at({t[i + 1], a});
          b = gendb->reference_values.at(t[i]).at({t[i + 1], b});
          if (a == b) return std::to_string(depth);
        }
        return "0";
      }
      return partition(v);
    }
    if (t[0] == "pair") {  // pair RELATION a b: same cluster? same value? of what ends in a and in b
      return vis(t[1], [&](auto* r) {
        T_items x[2];
        for (auto& [items, val] : r->get_data())
          for (int k = 0; k < 2; ++k)
            if (items.back() == std::stoi(t[2 + k])) x[k] = items;
        if (x[0].empty() || x[1].empty()) return std::string("-");
        return std::string(r->get_cluster_assignment(x[0]) == r->get_cluster_assignment(x[1]) ? "s" : "d") +
               (r->get_value(x[0]) == r->get_value(x[1]) ? "s" : "d");
      });
    }
    Obj o;
    exec(t, o);
    if (t[0] == "gibbs") {
      return std::to_string(irm_id(irm_arg(t.at(1)))->domains.at(t.at(2))->get_cluster_assignment(std::stoi(t.at(3))));
    }
    if (t[0] == "hgibbs") return std::to_string(hirm->relation_to_table(t.at(1)));
    if (t[0] == "latent1") {
      return vis(t.at(1), [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        return val_to<T>(r->get_value(ints(t.at(2))));
      });
    }
    if (t[0] == "rsample" || t[0] == "hsamplerel" || t[0] == "inc") {
      return vis(t.at(1), [&](auto* r) {
        using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
        std::string s = val_to<T>(r->get_value(ints(t.at(2)))) + "@";
        auto z = r->get_cluster_assignment(ints(t.at(2)));
        for (size_t i = 0; i < z.size(); ++i) s += (i ? "," : "") + std::to_string(z[i]);
        return s;
      });
    }
    if (t[0] == "transref") return std::to_string(gendb->reference_values.at(t[1]).at({t[2], std::stoi(t[3])}));
    if (t[0] == "addrel") return std::to_string(hirm->relation_to_table(t.at(1)));
    throw BadOp(t[0]);
  }
  bool logs_state(const Toks& t) override { return !quiet; }
  void state(Obj& o) override {
    if (hirm) o.kv("st", jmodel(*hirm));
    if (gendb) o.kv("gdb", jgendb());
    if (!hirm && irm) o.kv("st", jmodel(*irm));
  }
};
std::unique_ptr<Session> make_model(const Toks& a) { return std::make_unique<ModelSession>(a); }
