"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "simple_einet/"
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                                observe_at=observe or [], hook_needed=None)), level_note))


LEAVES = [S + "layers/distributions/" + f for f in
          ("abstract_leaf.py", "normal.py", "categorical.py", "binomial.py", "bernoulli.py", "multivariate_normal.py",
           "multidistribution.py", "piecewise_linear.py")]
SUMS = [S + "layers/" + f for f in ("sum.py", "einsum.py", "linsum.py", "mixing.py", "product.py", "factorized_leaf.py")]
CORE = [S + "einet.py", S + "conv_pc.py", S + "mixture.py", S + "sampling_utils.py", S + "abstract_layers.py"]
TESTS = "The tests issue a handful of calls on freshly built models of a few shapes, check result shapes only, and inject no failure."

p("C01", "A call that fails or is interrupted leaves no trace",
  "When any query, sampling or training call on a model ends in an exception (out of memory, a failing kernel, an interrupt, a bad argument), every later call on that model and on every other model returns exactly what it would have returned had the failed call never been made. "
  "Parameters, buffers, mode flags, gradient requirements and the ambient random state seen by seeded callers are untouched, and the caller's tensors are unchanged.",
  ["fault_sequences", "histories", "configurations", "inputs"],
  "For every model (Einet, convolutional circuit, mixture; every leaf family and layer type), every sequence of calls, every call in it and every point inside that call at which it may fail.",
  TESTS + " No test ever makes a call fail and continues.",
  CORE + LEAVES + SUMS,
  [("caches are restored and random state is put back when sampling fails", S + "sampling_utils.py:sampling_context"),
   ("evidence is written to per-layer input caches during conditional sampling", S + "abstract_layers.py, layers/distributions/abstract_leaf.py")],
  "Seeded search over call sequences with one fault per faulty call at an operation boundary; bitwise comparison with a twin that never made the failing call. Samples, not all, fault points; CPU, float32.",
  [("input cache", "evidence remembered between the upward and the downward pass", S + "abstract_layers.py")],
  ["return values of forward / posterior / sample / mpe / backward", "state_dict", "torch, numpy and Python random state"])

p("C02", "A seed decides a sample, and deciding it disturbs nobody",
  "Sampling with a given seed returns the same rows on every repetition: at any later time, after any other calls, failed calls, a restart from saved state or changes of the ambient random generators, and different seeds give different rows. "
  "A seeded call, successful or failed, leaves the ambient random generators as it found them, and unseeded sampling is decided by the ambient torch seed alone.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "For every model, seed (zero included), number of rows, evidence, and every history of calls, faults, restarts and ambient draws between two uses of the seed.",
  TESTS + " No test passes a seed twice.",
  CORE + LEAVES, [("seed scope around sampling", S + "sampling_utils.py:sampling_context"), ("seed of a mixture", S + "mixture.py:sample"),
                  ("seed of a convolutional circuit", S + "conv_pc.py:sample")],
  "Seeded search over histories; bitwise comparison of repeated seeded calls and of generator states. CPU generator only.",
  observe=["sample return values", "torch, numpy and Python random state before and after"])

p("C03", "Conditional answers keep the evidence, fill every gap, and stay in the support",
  "Conditional sampling and most-probable-explanation calls return every observed value unchanged and a possible value of the leaf's family for every missing entry (missing values or marginalised scopes), with the shape of the evidence. "
  "The caller's tensors are never written to.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "For every model, every pattern of missing entries per row (none, some, all), every batch size, evidence far in the tails, after failed calls and interleaved training.",
  TESTS + " The conditional tests use one missing pattern for all rows.",
  CORE + LEAVES, [("observed values are written back", S + "einet.py:sample, conv_pc.py:sample"), ("leaf sampling and modes", S + "layers/distributions/")],
  "Seeded search over evidence patterns, histories and faults; exact comparison of observed entries, support membership of filled ones. Multivariate leaves excluded (they accept no missing values).",
  observe=["sample(evidence=...)", "mpe(evidence=...)"])

p("C04", "A model is one normalised density, whatever happened to it before",
  "At every moment of a model's life (fresh, after training steps, failures, restarts, queries) the exponentiated log-likelihoods of each class sum or integrate to one over all complete inputs. "
  "A row's log-likelihood depends on that row alone, not on the batch, its order, the rendering of its shape, its memory layout or the ambient random state, and evaluation draws no random numbers in evaluation mode.",
  ["configurations", "histories", "inputs", "fault_sequences"],
  "For every configuration, parameter value reachable by training, and history of calls, faults and restarts.",
  TESTS + " Normalisation is never tested.",
  CORE[:2] + LEAVES + SUMS, [("normalised sum weights", S + "abstract_layers.py:logits_to_log_weights"), ("upward pass", S + "einet.py:forward")],
  "Total mass by enumeration (discrete) or chained grid integration (continuous), tolerance 2e-3 in log mass, after seeded histories; row independence bitwise or to rounding.",
  observe=["forward"])

p("C05", "Marginalisation is exact, however it is asked for",
  "The log-likelihood with missing values or with a list of marginalised scopes equals the log of the sum (integral) of the likelihood over all completions, row by row; both ways of asking agree, marginalising everything gives zero, and asking leaves later answers unchanged. "
  "This holds for every subset of entries, in any order and container, also right after a failed call.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every subset of features, every per-row pattern of missing entries, every leaf family mixture and history.",
  TESTS + " Marginal values are not compared with sums over completions.",
  CORE[:2] + LEAVES, [("marginalisation", S + "layers/distributions/abstract_leaf.py:forward / _marginalize_input"),
                      ("scope translation for groups of families", S + "layers/distributions/multidistribution.py:forward")],
  "Enumeration of completions or grid integration against the code's own complete-row likelihoods; seeded search over subsets, histories and faults.",
  observe=["forward with NaN", "forward with marginalized_scopes"])

p("C06", "Samples follow the density the model reports",
  "Rows drawn from a model are independent draws from exactly the distribution its log-likelihoods describe: unconditionally, for a requested class or list of classes (row by row), and conditionally on evidence given per row; the differentiable and the plain way of drawing have the same distribution. "
  "This also holds for the first draw after a failed call and for models restored or trained in between.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every configuration and parameter setting, every evidence pattern, every class request and every history.",
  "Sampling tests check shapes; a distribution is a statement over all draws, and each structure, leaf family, layer type and evidence pattern takes a different path.",
  CORE + LEAVES + SUMS, [("downward pass", S + "einet.py:sample, layers/*:sample"), ("class choice", S + "einet.py:sample"),
                         ("feature order of factorised leaves", S + "layers/factorized_leaf.py:sample")],
  "Probability-integral / enumeration tests of seeded draws against the code's own density; two-stage threshold (1e-5, then 1e-7 on four times the rows). Detects deviations visible at a few hundred to a few thousand rows.",
  observe=["sample", "forward"])

p("C07", "Most probable explanations are deterministic and exact where decidable",
  "A most-probable-explanation call is a function of the model's parameters and the row's evidence: it repeats bit for bit in any ambient random state, history position, mode or batch, draws no random number, and is unaffected by earlier failures. "
  "It returns the true mode where the distribution factorises, the most probable component's mode in single-level mixtures, and agrees with sampling at vanishing temperature.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "For every configuration, evidence pattern, batch composition and history.",
  TESTS + " MPE values are never checked.",
  CORE + LEAVES, [("mode of every leaf family", S + "layers/distributions/"), ("argmax branch selection", S + "layers/sum.py, einsum.py, linsum.py, mixing.py")],
  "Seeded search; bitwise repetition checks, exact argmax by enumeration on the decidable fragment. No global optimality is claimed for nested sums.",
  observe=["mpe", "sample(is_mpe=True)"])

p("C08", "Concurrent evaluation gives the answers of a serial one",
  "Threads evaluating one shared model (log-likelihoods, marginals, posteriors, cached evaluation, unconditional explanations), or working on one model each (conditional explanations and gradients included), get exactly the results they would get alone, in every interleaving. "
  "A failure in one thread changes nothing for the others.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "For every interleaving of two or three clients at the granularity of lines of repository code, every mix of calls and every failure of one of them.",
  "No test starts a thread.",
  CORE + LEAVES + SUMS, [("calls keep their state on the stack; per-model caches are only touched by conditional sampling and cache slots", S + "einet.py, abstract_layers.py")],
  "Seeded schedules over real threads, one running at a time; the simulator decides every switch between lines of repository code. Concurrent conditional queries and sampling on one shared model are not claimed.",
  observe=["results per thread"])

p("C09", "Training survives crashes: restart from a checkpoint equals never having stopped",
  "A model saved through its state dictionary (with the optimiser) at any point and restored into a newly built model of the same configuration, whatever randomness that construction used, behaves bit for bit like the original: likelihoods, seeded samples, explanations and all following training steps. "
  "A crash at any point of training or of a restore, followed by restarting from the last complete checkpoint and repeating the lost steps, ends in exactly the state of an uninterrupted run.",
  ["crash_points", "histories", "configurations"],
  "For every configuration (every leaf family, structure and model kind), every crash point between and inside steps and restores, every torn or complete checkpoint.",
  "No test saves or restores a model.",
  CORE + LEAVES + SUMS, [("everything that decides behaviour is a parameter, a buffer or extra state", S + "layers/factorized_leaf.py, mixture.py, layers/distributions/piecewise_linear.py"),
                         ("construction from configuration", S + "einet.py:_build_structure_*")],
  "Seeded crash schedules against an uninterrupted twin, bitwise. The disk is an in-memory store that drops torn writes.",
  [("random feature permutation", "drawn at construction, must travel with the state", S + "layers/factorized_leaf.py")],
  ["state_dict / load_state_dict", "forward, sample, mpe, gradient steps after restore"])

p("C10", "A cache slot answers for its data until it is reset",
  "Evaluating with a cache slot returns the same log-likelihoods as evaluating without one, whether the slot is empty or already filled with these data, for any number of slots in any order, also when a filling call failed and was retried. "
  "Resetting empties every slot, so that new parameters or new data take effect.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "For every sequence of evaluations with slots, other calls, failures, parameter updates with resets.",
  "No test uses a cache slot.",
  [S + "einet.py", S + "layers/factorized_leaf.py", S + "abstract_layers.py"],
  [("leaf cache", S + "einet.py:forward / reset_cache")],
  "Seeded histories against evaluation without the cache.",
  [("leaf cache", "slot -> leaf log-likelihoods", S + "einet.py")], ["forward(cache_index=...)", "reset_cache"])

p("C11", "Dropout acts in training only, spares one child per node, and terminates",
  "With a dropout rate below one, evaluation mode is unaffected by the rate; in training mode every sum node keeps at least one child, so log-likelihoods stay finite and never exceed the undropped ones, gradients stay finite, and nodes with a single child are unaffected. "
  "This holds for every sequence of random answers, and drawing the masks ends as soon as the answers stop dropping everything; masks are drawn per row at the stated rate.",
  ["fault_sequences", "configurations", "inputs", "histories"],
  "For every sequence of answers of the random generator (adversarial ones included), every rate below one, layer type and structure.",
  "The tests use dropout zero; a mask that drops all children is too rare to be met by chance.",
  SUMS + [S + "einet.py"], [("masks are redrawn until every node keeps a child", S + "layers/sum.py, einsum.py, linsum.py")],
  "The simulator answers the Bernoulli draws adversarially or honestly; two-stage test of the rate.",
  observe=["forward in training mode", "gradients"])

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
        for d, _ in NA:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [
            {"property": d["id"], "quick_cmd": f"./check {d['id']} --tier quick", "thorough_cmd": f"./check {d['id']} --tier thorough",
             "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": note}
            for d, note in P
        ],
        "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
        "notes": "No hooks in /repo are needed: every seam is an existing interface (tensor-function dispatch, module attributes, importable functions). "
                 "One integer (VERIF_SEED) decides every run; a violation writes a minimised plan that ./check --replay FILE reproduces exactly.",
    }
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "claimed,", len(NA), "not applicable")


main()
