// Projection of a whole model: relations, domains, IRMs, HIRM.
#pragma once
#include "common.hh"
#include "emissions/get_emission.hh"
#include "hirm.hh"
#include "irm.hh"
#include "project.hh"
#include "util_io.hh"

EmissionSpec emission_spec(const std::string& s);  // "name(k=v,..)"
std::string jrelation(const std::string& name, const T_relation& spec, RelationVariant rv,
                      int irm_id, const void* live_base);
std::string jdomain(const Domain* d, int irm_id, const std::vector<std::string>& rels);
std::string jirm(const IRM& irm, int id);
// Everything about an IRM (id 0) or a HIRM.
std::string jmodel(const IRM& irm);
std::string jmodel(const HIRM& h);
ObservationVariant obs_value(RelationVariant rv, const std::string& v);
// Schemas, observations and encodings as loaded from files.
std::string jdecl(const T_relation& tr);
std::string jschema(const T_schema& s);
std::string jobs(const T_observations& obs);
std::string jencoded(const T_encoded_observations& obs);
std::string jforward(const T_encoding& e);
std::string jreverse(const T_encoding& e);
