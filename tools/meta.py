#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

M = "stheno/model/"
PBT = "property-based testing: "

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, tech, note, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": quant},
            why_tests_cant=why,
            anchors={
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
            tech=tech,
            note=note,
        )
    )


prop(
    "C01",
    "Composed processes have exactly the joint law of their definition",
    "Processes built from base GPs by any sequence of sums, differences, scaling, addition "
    "of and multiplication by functions, shifts, stretches, input transforms, and selection "
    "of input dimensions have, jointly with all other processes of the measure, the mean and "
    "(cross-)covariance functions that the definition implies. This holds for cross-"
    "covariances in both orders, for joint distributions, with noise, and elementwise.",
    ["programs", "inputs"],
    "All programs of composing operations over base GPs with sums of stretched and periodic "
    "kernels and all kinds of means, evaluated at all inputs of one or two dimensions.",
    "Tests check each operation once, on one or two base processes and mostly against the "
    "library's own kernels; wrong cross-covariances show only for combinations of operations.",
    [M + "measure.py", M + "gp.py", "stheno/lazy.py", M + "fdd.py"],
    [
        ("rules for means and kernels per operation", M + "measure.py: _update, sum, mul, ..."),
        ("lazy cross-kernels by left and right rules", "stheno/lazy.py: LazyMatrix"),
    ],
    ["mean/kernel of every process", "measure.kernels[p, q]", "joint FDDs"],
    "random model programs against a linear-form reference model",
    "No counterexample among the generated programs; reference is independent NumPy code.",
    [("means/kernels", "lazily built moments of all processes", "Measure")],
)

prop(
    "C02",
    "Conditioning gives the exact Gaussian posterior",
    "After conditioning a measure on noisy or noiseless observations of any of its processes "
    "(single or jointly of several), mean and covariances of all its processes are those of "
    "exact Gaussian conditioning of the joint law. The posterior covariance is symmetric, "
    "positive semi-definite, and never exceeds the prior covariance.",
    ["programs", "inputs"],
    "All models of C01, all sets of up to three pairs of observations (any process, any "
    "inputs incl. repeated ones, every form of noise), and every way of writing them.",
    "Tests condition a handful of models at fixed inputs and check mostly that the posterior "
    "interpolates; wrong noise, ordering, or cross-terms elsewhere go unnoticed.",
    [M + "observations.py", M + "measure.py", M + "fdd.py"],
    [
        ("posterior means and kernels", M + "observations.py: Observations"),
        ("observations of several processes as one product", M + "observations.py: combine"),
    ],
    ["posterior means and kernels", "FDDs under the posterior"],
    "random models and data against dense Gaussian conditioning",
    "Well-conditioned problems only (condition number < 1e7); tolerance grows with it.",
)

prop(
    "C03",
    "Histories of conditioning and composing stay consistent",
    "Measures can be conditioned repeatedly and in a branching fashion, processes can be "
    "composed before and after, on priors, posteriors, and copies of processes under a "
    "posterior, and observations can be reused; under every measure of such a history the "
    "processes have exactly the moments that the history implies. Answers do not depend on "
    "what was asked before.",
    ["histories", "programs"],
    "All interleavings of composing, exact and approximate conditioning of any measure, "
    "copying to a posterior, early queries, and reuse of observations.",
    "Tests have at most one extra step after conditioning; the measures share state (process "
    "lists, lazily cached kernels), so errors need particular histories.",
    [M + "measure.py", M + "gp.py", M + "observations.py", "stheno/lazy.py"],
    [
        ("processes register in all measures they belong to", M + "gp.py: _measures"),
        ("rules snapshot the processes known at the time", "stheno/lazy.py: add_rule"),
        ("observations cache per measure", M + "observations.py: K_x, _compute"),
    ],
    ["means and kernels under every measure of the history"],
    "random histories (stateful, model-based) against a reference of branching measures",
    "Histories of up to about twelve steps; well-conditioned ones are compared.",
    [
        ("Measure.ps", "processes of a measure", M + "measure.py"),
        ("GP._measures", "measures of a process", M + "gp.py"),
    ],
)

prop(
    "C04",
    "Log-probabilities are exact, whichever way they are asked for",
    "The log-probability of values of finite-dimensional distributions is the exact Gaussian "
    "log-density of their joint law under the measure asked, through every entry point, for "
    "one or several columns of values, in any order of the pairs, and obeys the chain rule "
    "with conditioning.",
    ["programs", "inputs"],
    "All models and posteriors, up to three pairs of FDDs (incl. of Cartesian products) and "
    "values, every form of noise, and every entry point.",
    "Tests compare entry points with each other on one model, so common errors cancel.",
    [M + "measure.py", "stheno/random.py", M + "observations.py"],
    [("logpdf entry points", M + "measure.py: logpdf"), ("density", "stheno/random.py: logpdf")],
    ["Measure.logpdf", "FDD.logpdf", "Normal.logpdf"],
    "random models and data against a dense Gaussian density; chain-rule metamorphic relation",
    "Well-conditioned problems only (condition number < 1e7).",
)

prop(
    "C05",
    "Missing observations are as if they were never given",
    "Observations that are NaN have no influence whatsoever: posterior moments, "
    "log-probabilities, pseudo-point posteriors, and ELBOs equal those without these "
    "observations. This holds for all patterns of missing values, all forms of inputs and "
    "noise, and multi-output processes. If values are given in several columns, missing "
    "values in one column do not affect the log-probabilities of the other columns.",
    ["inputs", "programs"],
    "All subsets of missing values, for single- and multi-output (nested, scaled, posterior) "
    "processes with all forms of inputs and noise.",
    "Tests use a few fixed patterns on fixed models; masks must be split consistently over "
    "outputs, inputs, noise, and values.",
    [M + "observations.py", M + "fdd.py", "stheno/mo/kernel.py", "stheno/random.py"],
    [
        ("masking of observations", M + "observations.py: AbstractObservations.__init__"),
        ("taking inputs by a mask", M + "fdd.py: _take_x"),
        ("masking in densities", "stheno/random.py: Normal.logpdf"),
    ],
    ["posterior moments", "logpdf", "elbo"],
    "random masks over random models against the reference with the observations left out",
    "Batched observations are excluded (documented as unsupported).",
)

prop(
    "C06",
    "Inducing-point approximations are VFE, FITC, and DTC",
    "Conditioning through inducing points gives the posterior and the ELBO (or approximate "
    "log-probability) of the named method: VFE, FITC, or DTC. The VFE ELBO never exceeds the "
    "exact log-probability, and with inducing points at the data all methods give exact "
    "inference.",
    ["programs", "inputs"],
    "All models, sets of inducing points of any process (one or several, with or without "
    "inducing noise), and noisy data, including after earlier conditioning.",
    "Tests check tightness at the data on one model; the approximations differ from each "
    "other and from exact inference only elsewhere.",
    [M + "observations.py"],
    [("sparse posterior and ELBO", M + "observations.py: AbstractPseudoObservations")],
    ["elbo, mu, A, K_z", "posterior moments"],
    "random models against dense formulas, plus bounds and exactness relations",
    "Diagonal noise; well-conditioned problems only.",
    [("_K_z, _elbo, _mu, _A", "results per measure", M + "observations.py")],
)

prop(
    "C07",
    "What a distribution says does not depend on what was asked before",
    "Mean, variance, marginals, credible bounds, second moment, entropy, samples, densities, "
    "and divergences of a finite-dimensional or normal distribution are all consistent with "
    "one mean and one covariance. This holds for every sequence of requests made to the same "
    "object, with shapes as documented.",
    ["histories", "inputs"],
    "All sequences of up to seven requests, for distributions of any process and any kind of "
    "structured variance and mean, given directly or lazily.",
    "The distributions resolve lazily through several shortcuts, of which the one that is "
    "taken depends on the order of requests; tests use a fixed order per object.",
    ["stheno/random.py", M + "fdd.py"],
    [("lazy resolution", "stheno/random.py: mean_var, marginals, _resolve_*")],
    ["mean, var, var_diag, mean_var, marginals, ..."],
    "random request sequences (stateful) against dense moments",
    "Densities only for well-conditioned variances.",
    [("_mean, _var, _var_diag", "resolved moments", "stheno/random.py: Normal")],
)

prop(
    "C08",
    "Cartesian products stack their components",
    "A Cartesian product of processes, nested, repeated, scaled, or copied to a posterior, "
    "has the law of its stacked components: sizes, means, covariances, cross-covariances "
    "with every other process of the measure in both orders, and joint laws. Inputs may be "
    "shared by the outputs or given per output, in any order and number.",
    ["programs", "inputs"],
    "All programs with Cartesian products made before or after other processes and "
    "conditionings, and all ways of giving inputs.",
    "Tests have a few products of two processes; nesting, later processes, and inputs per "
    "output select different code for the blocks.",
    ["stheno/mo/kernel.py", "stheno/mo/mean.py", "stheno/mo/input.py", "stheno/mo/infer.py",
     "stheno/mo/adk.py", M + "measure.py", M + "fdd.py"],
    [
        ("blocks of kernels", "stheno/mo/kernel.py, stheno/mo/input.py"),
        ("sizes", "stheno/mo/infer.py"),
        ("product in a measure", M + "measure.py: cross"),
    ],
    ["moments of products", "combine", "infer_size, dimensionality"],
    "random programs with products against a stacked reference",
    "Sums of products with other processes are not considered.",
)

prop(
    "C09",
    "Samples follow the joint law",
    "Joint samples of finite-dimensional distributions follow their joint law under the "
    "measure asked: linear relations that hold almost surely hold in every sample, and means "
    "and covariances agree. Samples are split correctly over the distributions, have the "
    "documented shapes, and are reproducible from a random state or a seed.",
    ["inputs", "programs"],
    "All models, posteriors, products, noises, numbers of samples, and ways of calling.",
    "Tests check shapes and one mean; a wrong joint law shows only between distributions.",
    [M + "measure.py", "stheno/random.py"],
    [("sampling", M + "measure.py: sample"), ("sampling a normal", "stheno/random.py: sample")],
    ["Measure.sample", "FDD.sample"],
    "random models; almost-sure relations exactly, whitened moments within eight deviations",
    "First and second moments only; loose enough never to alarm by chance.",
)

prop(
    "C10",
    "Normal distributions obey the algebra of Gaussians",
    "Sums, differences, scaling, and matrix products of normal distributions have the moments "
    "of the transformed random vectors, from either side and with every kind of structured "
    "mean and variance. Densities, entropies, KL divergences, and 2-Wasserstein distances are "
    "those of the dense distributions, non-negative, zero only for equal distributions, and "
    "invariant under common affine maps.",
    ["inputs", "programs"],
    "All sequences of operations on, and all pairs of, normal distributions with dense, "
    "diagonal, low-rank, and constant variances and zero, plain, and structured means.",
    "Tests use dense and diagonal variances of one size; structured matrices dispatch to "
    "different code for every combination.",
    ["stheno/random.py"],
    [("arithmetic", "stheno/random.py: Random, Normal"), ("divergences", "kl, w2, entropy")],
    ["moments", "logpdf, entropy, kl, w2"],
    "random expressions against dense arithmetic; metamorphic relations of divergences",
    "Variances are well conditioned by construction.",
)

prop(
    "C11",
    "Models do not interfere, and rejected calls change nothing",
    "Extending, conditioning, or sampling a model never changes what was said before about "
    "other processes and measures. Invalid calls (combining processes of different measures, "
    "ill-shaped values, non-diagonal noise with inducing points, taken names, unknown "
    "processes) are rejected with the documented kind of error and change nothing. Arrays "
    "that are given as inputs, noise, and values are never modified.",
    ["histories", "fault_sequences"],
    "All histories in which valid steps and invalid calls of seventeen kinds alternate.",
    "Tests check a few errors in isolation, not what is left behind after them.",
    [M + "gp.py", M + "measure.py", M + "observations.py", "stheno/lazy.py"],
    [
        ("same-measure assertion", M + "gp.py: assert_same_measure"),
        ("posterior copies lists", M + "measure.py: condition"),
        ("index checks", "stheno/lazy.py: _build"),
    ],
    ["recorded moments before and after", "errors raised", "process lists and names"],
    "random histories with injected invalid calls; recorded moments as oracle",
    "Moments are recorded at fixed inputs.",
)

prop(
    "C12",
    "Names identify processes one to one",
    "Within every measure a name belongs to at most one process and a process has at most one "
    "name; looking up either gives the other. Renaming frees the old name, a taken name is "
    "rejected and leaves all names as they were, and posteriors start without names.",
    ["histories"],
    "All sequences of naming and renaming, over several processes and measures, including "
    "taken, freed, and repeated names.",
    "Tests go through one fixed sequence.",
    [M + "measure.py", M + "gp.py"],
    [("two dictionaries kept in step", M + "measure.py: name")],
    ["measure[name]", "measure[process]", "process.name"],
    "random sequences (stateful) against a dictionary model",
    "Up to fourteen steps over four names and four measures.",
    [("_gps_by_name, _names_by_gp", "names", M + "measure.py")],
)

prop(
    "C13",
    "Processes attach to the measure in whose block they are made",
    "A process is attached to the measure that is given explicitly, else to that of the "
    "innermost enclosing `with` block, else to a new measure of its own. Leaving a block, "
    "normally or by an exception and also if a measure is re-entered, restores what held "
    "before, and operations on processes keep to the measure of their operands.",
    ["histories", "fault_sequences"],
    "All properly nested trees of blocks over several measures with constructions and "
    "exceptions anywhere.",
    "Tests nest two blocks once, without exceptions or re-entrance.",
    [M + "measure.py", M + "gp.py"],
    [("stack of defaults", M + "measure.py: __enter__, __exit__")],
    ["GP.measure", "Measure.default"],
    "random trees of blocks with injected exceptions against a stack model",
    "One thread.",
    [("Measure.default", "global default measure", M + "measure.py")],
)

prop(
    "C14",
    "All array backends agree, and can be differentiated",
    "Models give the same moments, log-probabilities, and ELBOs with NumPy, PyTorch, "
    "TensorFlow, and JAX arrays, as arrays of that backend, in double and (up to rounding) "
    "in single precision; log-probabilities of single-precision PyTorch and TensorFlow "
    "arrays stay in single precision. Gradients of objectives with "
    "respect to hyperparameters, inputs, noise, and data are the derivatives of the "
    "objective, and compiled objectives equal plain ones.",
    ["programs", "configurations", "inputs"],
    "All models, with every installed backend (also AutoGrad), six kinds of objectives.",
    "Nearly all tests run with NumPy; one conversion to NumPy anywhere breaks gradients "
    "silently, and one wrong type breaks a backend.",
    ["stheno/autograd.py", "stheno/tensorflow.py", "stheno/torch.py", "stheno/jax.py",
     "stheno/random.py", M + "fdd.py", M + "observations.py", M + "measure.py"],
    [("only LAB functions on arrays", "throughout stheno")],
    ["moments, logpdf, elbo and their gradients"],
    "random models over backends against the reference; gradients against finite differences",
    "64-bit, CPU; kernels that are differentiable everywhere for gradients.",
)

prop(
    "C15",
    "Batched computation equals a loop over the batch",
    "With inputs, noise, values, or scales, constants, shifts and stretches of processes that "
    "carry leading batch dimensions, moments, "
    "marginals, log-probabilities, posteriors, ELBOs, samples, entropies, and divergences "
    "equal those computed separately for every element of the batch.",
    ["inputs", "programs"],
    "All batch shapes of rank one or two, which of the arguments are batched, and models.",
    "Tests check one batch shape for a few functions, and mostly shapes only.",
    ["stheno/random.py", M + "fdd.py", M + "observations.py", "stheno/mo/input.py"],
    [("operations on the last axes", "stheno/random.py, stheno/model/fdd.py")],
    ["shapes and values of all results"],
    "random models and batches against a loop over the batch (metamorphic)",
    "Kernels of full rank; missing values in batches are excluded (documented as unsupported).",
)

prop(
    "C16",
    "Lazy vectors and matrices resolve by their rules",
    "An element of a lazy vector or matrix is what was assigned to it, else what the first "
    "applicable rule builds, universal rules before left rules before right rules. Elements "
    "are identified by the identity of the indices, are built at most once, never change by "
    "adding rules or by looking, and an index outside of all rules is an error.",
    ["histories"],
    "All sequences of assignments, rules of all kinds with any domains, and look-ups.",
    "Tests check each kind of rule once.",
    ["stheno/lazy.py"],
    [("store and rules", "stheno/lazy.py: LazyTensor, LazyVector, LazyMatrix")],
    ["elements", "calls of builders"],
    "random sequences (stateful) against a dictionary-and-list model",
    "Assignment after a look-up replaces the element.",
    [("_store", "assigned and built elements", "stheno/lazy.py")],
)

prop(
    "C17",
    "Products of processes match the first two moments of the product",
    "The product of two processes of a measure, also of dependent ones and of a process with "
    "itself, has exactly the mean and covariance function of the product of two jointly "
    "Gaussian processes, and its covariance with other processes matches that of the product.",
    ["programs", "inputs"],
    "All models with products of possibly dependent processes, under priors and posteriors.",
    "Tests multiply two independent processes once.",
    [M + "measure.py"],
    [("moment matching", M + "measure.py: mul")],
    ["moments of products", "cross-covariances"],
    "random models against closed-form moments of products of Gaussians",
    "Products of products are judged as products of the moment-matched processes.",
)

prop(
    "C18",
    "Derivatives of processes are derivatives",
    "The derivative of a process has the mean and (cross-)covariances obtained by "
    "differentiating those of the process, for every input dimension, jointly with every "
    "other process and under posteriors. Finite-difference approximations of derivatives "
    "converge to the same.",
    ["programs", "inputs"],
    "All differentiable models, dimensions, orders, and observations of derivatives.",
    "Tests check one derivative of one kernel.",
    [M + "measure.py", M + "gp.py"],
    [("derivative rules", M + "measure.py: diff"), ("fd", M + "gp.py: diff_approx")],
    ["moments of derivatives"],
    "random models against finite differences of the reference's moments",
    "TensorFlow, as required for exact derivatives; smooth kernels; tolerance of numerical "
    "differentiation.",
)

prop(
    "C19",
    "Marginals and inducing points avoid full covariance matrices",
    "Marginals of a process at many points never evaluate the full covariance matrix of these "
    "points, and conditioning through inducing points never evaluates the full covariance of "
    "the data. The data covariance is computed once per measure, however many posterior "
    "quantities are asked for.",
    ["programs", "inputs"],
    "All composed models, posteriors, sizes of data and of test inputs.",
    "Tests compare values, which do not tell how they were computed.",
    ["stheno/random.py", M + "fdd.py", M + "observations.py"],
    [
        ("elementwise marginals", M + "fdd.py: var_diag, mean_var_diag"),
        ("caching per measure", M + "observations.py: K_x"),
    ],
    ["shapes at which kernels are evaluated"],
    "random models over an instrumented kernel that records every evaluation",
    "Counts evaluations of base kernels, not time.",
)

prop(
    "C20",
    "Equivalent ways of saying the same thing give the same answer",
    "Conditioning on data jointly, one after another, in another order, split differently, or "
    "in another notation gives the same posterior and the same total log-probability. The "
    "same inputs as scalars, vectors, columns, or integers, and the same noise as scalar, "
    "vector, or matrix, give the same distributions.",
    ["programs", "inputs"],
    "All models, orders, partitions, notations, and forms of inputs and noise, with up to "
    "forty observations at arbitrary real inputs.",
    "Tests compare few notations at one input.",
    [M + "measure.py", M + "observations.py", M + "fdd.py", M + "gp.py"],
    [("conversions of arguments", M + "measure.py: condition; " + M + "fdd.py")],
    ["posterior moments", "log-probabilities"],
    "metamorphic relations between equivalent programs on random models",
    "Compared with tolerance at the scale of the data covariance's condition number.",
)

prop(
    "C21",
    "A process that claims to be stationary is",
    "If a process says that it is stationary, then its covariance does not change if both "
    "inputs are shifted by the same amount, for all composed processes, under all measures. "
    "Processes composed from stationary ones by sums, scaling, shifts, and stretches say so.",
    ["programs", "inputs"],
    "All models, including Cartesian products and posteriors.",
    "Tests check two processes.",
    [M + "gp.py", "stheno/mo/adk.py", "stheno/mo/kernel.py"],
    [("stationarity of kernels", M + "gp.py: stationary; stheno/mo/adk.py")],
    ["GP.stationary", "kernels at shifted inputs"],
    "random models; invariance under random shifts as oracle",
    "Shifts up to a few length scales.",
)

prop(
    "C22",
    "Saying what a model is computes nothing, nor does displaying it",
    "Constructing, composing, and naming processes, Cartesian products, conditioning a "
    "measure, and forming and combining finite-dimensional distributions evaluate no kernel "
    "and no function (composing given data may evaluate the covariance of the data). "
    "Normal distributions given as functions call these at most once, and only if asked for "
    "what depends on them. Processes, means, kernels, and distributions can be displayed at "
    "any time, which computes nothing about "
    "distributions, changes no answer, and applies the given formatter to all numbers.",
    ["programs", "histories"],
    "All models, all histories of defining, asking, and displaying.",
    "Nothing in a result shows that it was computed too early, twice, or for display; tests "
    "display a handful of processes.",
    [M + "measure.py", M + "gp.py", M + "fdd.py", M + "observations.py",
     "stheno/random.py", "stheno/mo/kernel.py", "stheno/mo/mean.py"],
    [("lazy construction", "stheno/random.py: Normal._resolve_*"),
     ("display", M + "gp.py: GP.display; stheno/mo: render")],
    ["evaluations of instrumented kernels and functions", "str", "repr", "display"],
    "random histories with instrumented kernels and functions; call log and a twin model "
    "without display as oracles",
    "Evaluations of kernels and functions of base processes are counted.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            p = {k: v for k, v in p.items() if k not in ("tech", "note")}
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "vlib", "checks", p["id"] + ".py")):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"./check {p['id']} quick",
                    "thorough_cmd": f"./check {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": PBT + p["tech"],
                    "level": "exploration",
                    "level_note": p["note"],
                }
            )
        else:
            na.append({"property": p["id"], "reason": "The check is not built yet."})
    manifest = {
        "version": 1,
        "setup_cmd": "./check selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "Everything is driven by ./check (vlib/run.py): Hypothesis generates JSON "
        "cases in eight processes, failures are shrunk and confirmed in a fresh process, and "
        "saved in replays/; `python vlib/replay.py FILE` replays them.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
