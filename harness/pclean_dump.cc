#include "pclean_dump.hh"

// [[class, [[variable, class or joint name, is it a class?, [[param, value]..]]..]]..], record class, fields
std::string jpclean(const PCleanSchema& s) {
  std::vector<std::string> cs, fs;
  for (auto& [n, c] : s.classes) {
    std::vector<std::string> vs;
    for (auto& [vn, v] : c.vars) {
      std::vector<std::string> ps;
      bool cls = std::holds_alternative<ClassVar>(v.spec);
      if (!cls)
        for (auto& [k, x] : std::get<ScalarVar>(v.spec).params) ps.push_back(jpair(jstr(k), jstr(x)));
      vs.push_back(jpair(jstr(vn), Obj().kv("isclass", jbool(cls))
          .kv("type", jstr(cls ? std::get<ClassVar>(v.spec).class_name : std::get<ScalarVar>(v.spec).joint_name))
          .kv("args", jarr(ps)).str()));
      if (v.name != vn) vs.push_back(jpair(jstr("?" + vn), "0"));
    }
    cs.push_back(jpair(jstr(n), jarr(vs)));
    if (c.name != n) cs.push_back(jpair(jstr("?" + n), jarr({})));
  }
  for (auto& [n, f] : s.query.fields) {
    fs.push_back(jpair(jstr(n), jstrs(f.class_path)));
    if (f.name != n) fs.push_back(jpair(jstr("?" + n), jarr({})));
  }
  return Obj().kv("classes", jarr(cs)).kv("record", jstr(s.query.record_class)).kv("fields", jarr(fs)).str();
}
