#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from LEVELS below (run by hand)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
PROOF = {"C13": "all functions under contract proved for all inputs over the reals",
         "C07": "weighted_distance_merit: both branches proved for every candidate matrix, weight list and number of points over the reals, against the contracts of scipy cdist and of Surrogate.predict (C14's checks); reals instead of floats",
         "C05": "candidate_srbf, candidate_dycors, candidate_uniform, generate_evals and propose_action of SRBF, DYCORS, EI, LCB and SOP and the random strategy proved for all inputs and states",
         "C10": "domination, nd_add, nd_front, nd_sorting proved for every matrix (M, N >= 1), every nmax, all iterations; reals instead of floats"}
H_ = "histories: the constructor and every event (propose, accept, reject, status change, kill, cancel, complete) of SRBF, DYCORS, EI, LCB and SOP proved to keep the class invariant and to have the stated effect, for every state satisfying it; poap's Proposal and EvalRecord interpreted; generate_evals replaced by its contract; the random strategy against the contract of POAP's RetryStrategy. "
PROOF.update({"C01": H_, "C02": H_, "C03": H_, "C04": H_,
              "C08": "ei_merit, lcb_merit, ei_ga and lcb_ga proved for every input over the reals (normal cdf/pdf uninterpreted, genetic algorithm and Surrogate.predict by contract)"})
PROOF.update({"C12": "constructor, adjust_step, get_weights, generate_evals and every evaluation event of SRBF and DYCORS proved for every state; reals instead of floats",
              "C17": "save, on_complete/on_kill/terminate/_run of the checkpointing code proved against a ghost file system (POSIX rename, dill by contract) for five strategy classes",
              "C18": "resume of SRBF, DYCORS, EI, LCB and SOP and CheckpointController.resume proved for every state satisfying the class invariant",
              "C21": "candidate_dycors, candidate_srbf, candidate_uniform (structure, selection, subset) and generate_evals of DYCORS and SOP (probability) proved for all inputs over the reals"})
PROOF.update({"C15": "every kernel's and tail's formula and derivative, RBFInterpolant.predict and predict_deriv proved for every centre set and query; the derivative is related to the prediction by a symbolic chain rule",
              "C16": "add_points, reset, predict and predict_deriv of every surrogate class proved for every data set and every sequence of batches (representation invariant); sklearn/pyearth fit and predict by contract",
              "C19": "all problems: formula, domain and value at the minimiser proved in symbolic dimension; the lower bound proved for 13 of the 18 documented minima, bounded search for Branin, Goldstein-Price, Hartmann3/6 and Schwefel"})
PROOF.update({"C06": "the symmetric generator proved for any number of points and variables (loop invariants), selection of the best design of both hypercubes proved for any number of candidates and restarts, two-factorial proved for each of the 14 dimensions it accepts; pyDOE2.lhs, matrix_rank, shuffle, itertools.product and round_vars (C13) by contract",
              "C09": "GeneticAlgorithm.optimize proved for every objective function, population size, number of generations and start (loop invariant over all generations); the designs and round_vars by contract (C06, C13)",
              "C20": "check_opt_prob and the constructors of all six strategies proved to reject exactly the invalid configurations, for every value of every argument and for arguments of the wrong type; NaN only in the bounded stand-in"})
PROOF["C11"] = "constructor and every event, archive, ranking, radius rule and memory update (adjust_memory, one center and all), release of centers, events, generate_evals and update_center_list proved for every archive and center list, all iterations; lexsort and cdist by contract; reals instead of floats"
PROOF["C14"] = "RBFInterpolant._fit proved for every number of points, every tail, kernel, regularization and set of values: from scratch, extended by a Cholesky factor, refitted after its failure, up to date; add_points and reset for every data set; lu_factor, solve_triangular and cholesky by contract, four facts of linear algebra assumed; reals instead of floats"
NOTE = {}
checks = []
for i in ids:
    pf = i in PROOF
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "technique": "contract-based deductive verification of the real Python source (VC generation + SMT)" + ("" if pf else "; bounded stand-in for functions out of reach"),
                   "level": "proof" if pf else "exploration",
                   "level_note": PROOF.get(i) or NOTE.get(i, "bounded stand-in: executable contracts checked on generated inputs and histories of the real code")})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "python3-vt (z3, cvc5, sympy) runs the verifier pyvc on /repo's source; /opt/venv runs the real code for replay and bounded stand-ins. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
