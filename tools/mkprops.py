#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level="model_checking", note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe)), _level=level, _note=note, _tech=tech))


TV = "TLA+ specification; TLC checks recorded and generated executions of the real code against it"
NOTE = ("Every generated history driven through the real code is accepted by TLC as a behaviour of the specification, "
        "with the real state and numbers logged after every operation; complete only for the histories explored. "
        "Trusts the driver's projection of the state and java/NumReal.java's double arithmetic.")
NOTEH = NOTE + (" Random choices are judged by frequencies over 1500 forked repetitions at 6.5 standard deviations, so "
                "small distortions of a probability go unseen.")

prop("C01", "CRP seating bookkeeping is consistent",
     "At all times every seated item sits at exactly one non-empty table, each table's members and the reverse lookup "
     "agree, and the item count equals the number of seated items. An operation on one item moves only that item, and "
     "an unseated item leaves no trace behind.",
     ["histories", "inputs"],
     "all finite sequences of seating, unseating, moving and re-seating items, including ones named by arbitrary ids",
     "The unit tests exercise a few short sequences on two or three items and mostly compare sizes.",
     ["cxx/distributions/crp.cc", "cxx/domain.hh"],
     [("CRP::incorporate / unincorporate", "cxx/distributions/crp.cc"), ("Domain::incorporate", "cxx/domain.hh")],
     ["the seating of a CRP or of a domain after each operation"], note=NOTE, tech=TV)
prop("C02", "CRP probabilities follow the Chinese restaurant process",
     "The probability of joining a table, the Gibbs weights, the score of a seating and the frequencies of sampled "
     "tables are those of a Chinese restaurant process with the current concentration and seating. Resampling the "
     "concentration draws from the posterior over its grid and leaves the seating unchanged.",
     ["histories", "inputs"], "all seatings reachable by the API and all concentrations in the grid and beyond",
     "Tests compare a few hand-computed numbers; whether every reachable state yields consistent, exchangeable scores "
     "and unbiased draws is not sampled.",
     ["cxx/distributions/crp.cc", "cxx/util_math.cc"],
     [("CRP::logp, logp_score, tables_weights_gibbs", "cxx/distributions/crp.cc"),
      ("CRP::transition_alpha", "cxx/distributions/crp.cc"), ("sample_from_logps, log_choice", "cxx/util_math.cc")],
     note=NOTEH, tech=TV)
prop("C03", "A relation's clusters mirror its data",
     "Each observation of a relation is held by exactly one cluster, the one named by the tables its entities sit at; "
     "the entity index lists exactly the observed tuples, and no cluster holds data that is not observed. Changing a "
     "value or moving an entity changes nothing else.",
     ["histories", "inputs"],
     "all histories of observing, retracting and updating values and moving entities, for relations of any arity "
     "including ones over the same domain twice",
     "Tests build small fixed relations; the bookkeeping must survive every interleaving of updates and moves.",
     ["cxx/relation.hh", "cxx/clean_relation.hh", "cxx/noisy_relation.hh"],
     [("incorporate / unincorporate / update_value", "cxx/clean_relation.hh"),
      ("set_cluster_assignment_gibbs", "cxx/clean_relation.hh")], note=NOTE, tech=TV)
prop("C04", "Joint scores depend only on the current state",
     "At any moment the score of every cluster, relation, view and of the whole model equals the closed-form log "
     "probability of the data currently observed given the current partitions and hyperparameters. It does not depend "
     "on the history that led there.",
     ["histories"], "all histories of observations, retractions, moves, value updates, hyperparameter and latent-value "
     "transitions, sampling and structure changes",
     "Tests check some scores right after construction; incremental bookkeeping that drifts shows only after long mixed "
     "histories.",
     ["cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/irm.cc", "cxx/hirm.cc", "cxx/distributions"],
     [("logp_score at every layer", "cxx/irm.cc, cxx/hirm.cc"), ("sufficient statistics", "cxx/distributions")],
     note=NOTE, tech=TV)
prop("C05", "Entities are seated exactly while they are observed",
     "Observing a tuple seats each entity not seated yet, according to the process prior, and retracting a tuple "
     "unseats exactly the entities no remaining observation of that view mentions. Retracting what was observed "
     "restores the previous state.",
     ["histories"], "all histories of incorporating and unincorporating tuples over relations that share domains",
     "Tests retract one or two observations; the rule quantifies over all relations sharing the domain.",
     ["cxx/irm.cc", "cxx/hirm.cc", "cxx/domain.hh"],
     [("IRM::incorporate / unincorporate", "cxx/irm.cc")], note=NOTEH, tech=TV)
prop("C06", "Entity moves are Gibbs steps for the model's posterior",
     "Resampling an entity's table chooses each table with probability proportional to the joint probability of the "
     "model with the entity at that table, and moves only that entity and the data about it. The weights the code "
     "computes, fast or exact, equal those joint probabilities up to a common constant.",
     ["histories", "inputs"], "all states, entities and relation shapes, including relations mentioning a domain twice",
     "Tests check that transitions run and some weights on fixed data; correctness of the conditional at every "
     "reachable state is beyond them.",
     ["cxx/irm.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh"],
     [("IRM::transition_cluster_assignment_item", "cxx/irm.cc"),
      ("logp_gibbs_approx / logp_gibbs_exact", "cxx/clean_relation.hh, cxx/noisy_relation.hh")],
     note=NOTEH, tech=TV)
prop("C07", "Predictive probabilities are those of the model",
     "The predictive log probability of observations, of known or unknown entities, is the log of their marginal "
     "probability under the current state, summing over the tables unseen entities could join. Asking does not change "
     "the state.",
     ["histories", "inputs"], "all states and all query sets over one or several relations and unseen entities",
     "A few fixed queries are tested; agreement with the joint score must hold at all states.",
     ["cxx/irm.cc", "cxx/hirm.cc", "cxx/clean_relation.hh"],
     [("IRM::logp, HIRM::logp", "cxx/irm.cc, cxx/hirm.cc")], note=NOTE, tech=TV)
prop("C08", "The hierarchical partition keeps every relation and its data",
     "Every relation lives in exactly one view, views are exactly the non-empty blocks of the relation partition, and "
     "moving, adding or removing a relation changes only that relation's place: all observed values stay. Noisy "
     "relations always refer to the living object of their base relation.",
     ["histories"], "all sequences of relation moves, additions, removals and entity operations",
     "Tests move single relations once; dangling references and lost data appear after particular sequences.",
     ["cxx/hirm.cc", "cxx/irm.cc", "cxx/noisy_relation.hh"],
     [("HIRM::set_cluster_assignment_gibbs, add_relation, remove_relation", "cxx/hirm.cc"),
      ("base relation pointers", "cxx/noisy_relation.hh")], note=NOTE, tech=TV)
prop("C09", "Relation moves and placements follow the model's conditional",
     "Resampling a relation's view chooses an existing or fresh view with probability proportional to the process "
     "prior times the joint probability of the data there; a new relation is placed according to the prior.",
     ["histories", "inputs"], "all small models and relations",
     "Tests check that transitions leave a valid structure, not which structure is chosen how often.",
     ["cxx/hirm.cc"], [("HIRM::transition_cluster_assignment_relation", "cxx/hirm.cc")], note=NOTEH, tech=TV)
prop("C10", "Noisy observations are paired with their own base value",
     "Every noisy observation is scored together with the current value of exactly the base tuple its own tuple "
     "extends, however values are updated and entities are moved, and the index from base tuples to noisy ones lists "
     "exactly the observed noisy tuples.",
     ["histories"], "all histories of updates to base and noisy values, moves, and latent-value transitions",
     "Tests update one value once; the pairing has to survive all interleavings.",
     ["cxx/noisy_relation.hh", "cxx/clean_relation.hh"],
     [("NoisyRelation::incorporate, update_value, get_base_items", "cxx/noisy_relation.hh")], note=NOTE, tech=TV)
prop("C11", "Latent-value transitions resample only the latent value, correctly",
     "Resampling a latent value picks among the emissions' proposals with probability proportional to the probability "
     "of the noisy observations given each, and changes nothing but that value. Afterwards every cluster again pairs "
     "the noisy data with the value chosen.",
     ["histories"], "all states with noisy relations of every emission kind",
     "Tests run single transitions on tiny models; cluster bookkeeping during candidate evaluation is not compared "
     "with the model.",
     ["cxx/transition_latent_value.hh", "cxx/hirm.cc", "cxx/inference.cc"],
     [("transition_latent_value", "cxx/transition_latent_value.hh")], note=NOTEH, tech=TV)
prop("C12", "Distributions are exchangeable, invertible and proper",
     "For every distribution and emission, retracting observations in any order undoes them exactly, the score "
     "depends only on the multiset of (weighted) observations, the predictive probability is the increase in score, "
     "probabilities over a finite support sum to one, and sampling or querying leaves the model unchanged and draws "
     "from its predictive distribution.",
     ["histories", "inputs"], "all finite multisets of weighted observations, orders of retraction and hyperparameters",
     "Tests check a few observations per model; inverse and exchangeability are universally quantified.",
     ["cxx/distributions", "cxx/emissions"],
     [("incorporate / unincorporate / logp / logp_score / sample / nearest", "cxx/distributions/base.hh")],
     note=NOTEH + " Known findings F1, F3 are exempted by name.", tech=TV)
prop("C13", "Hyperparameter transitions draw from the grid posterior and keep the data",
     "Resampling hyperparameters chooses among the grid values with probability proportional to the likelihood of "
     "exactly the current data, and changes neither the data, the partitions nor the hyperparameters of anything else.",
     ["histories", "inputs"], "all models, data and previous hyperparameters",
     "Tests check that the hyperparameters change or that scores improve on one data set.",
     ["cxx/distributions", "cxx/emissions", "cxx/distributions/nonconjugate.hh"],
     [("transition_hyperparameters / transition_theta", "cxx/distributions")], note=NOTEH, tech=TV)
prop("C14", "Emissions corrupt and propose according to their model",
     "What an emission emits for a clean value is possible under it and as frequent as its predictive probability "
     "says; given dirty values it proposes a clean value that best explains them by its stated rule; its "
     "probabilities depend only on what it has observed.",
     ["inputs", "histories"], "all emissions, clean values and dirty samples",
     "Tests check one or two corruptions and proposals per emission.",
     ["cxx/emissions"], [("sample_corrupted / propose_clean", "cxx/emissions/base.hh")], note=NOTEH, tech=TV)
prop("C15", "Generated observations extend the model consistently",
     "Sampling and incorporating observations adds exactly the requested number of new observations, fills in missing "
     "base values before noisy ones, draws each value from the relation's predictive distribution, and keeps all that "
     "was observed before.",
     ["histories"], "all models and requests",
     "Tests count results of a few calls; values and structure of generated data are unchecked.",
     ["cxx/irm.cc", "cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh"],
     [("sample_and_incorporate(_relation)", "cxx/hirm.cc, cxx/irm.cc")], note=NOTEH, tech=TV)
prop("C26", "Inference sweeps preserve the observed data and the model's consistency",
     "Whatever number of inference steps is run on whatever model, every observed value stays as given, only latent "
     "base values may change, every bookkeeping structure stays consistent and every score equals its closed form.",
     ["histories"], "all models, data, seeds and iteration counts, mixed with further edits",
     "Integration tests run inference on a few data sets and only look at whether it ends.",
     ["cxx/inference.cc", "cxx/hirm.cc", "cxx/irm.cc"],
     [("inference_irm / inference_hirm / single_step_irm_inference", "cxx/inference.cc, cxx/irm.cc")],
     note=NOTE, tech=TV)
exec(open(os.path.join(V, "tools", "mkprops_more.py")).read()) if os.path.exists(
    os.path.join(V, "tools", "mkprops_more.py")) else None

if __name__ == "__main__":
    P.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
               notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo: the driver in harness/ uses the public API.")
    for p in P:
        c = "python3 check.py " + p["id"]
        man["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick " + c,
                                  thorough_cmd="VERIF_TIER=thorough " + c, technique=p["_tech"], level=p["_level"],
                                  level_note=p["_note"]))
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    assert all(len(p["title"]) <= 80 for p in P)
    print(len(P), "properties")
